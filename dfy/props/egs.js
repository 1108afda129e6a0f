'use strict';
// E01: example containers: red-black tree, splay tree, linked stacks on a disk, cutting a node.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES}=require('../externs.js');const {check}=require('../pbt.js');
const {DMap,DMs,DSet}=$;const {machine,upd,perturb,Pool}=require('../sm.js');const N=Number,eq=$.eq;const show=x=>$.show?$.show(x).slice(0,500):String(x);
const load=(REPO,f,ov,o)=>new Program(Object.assign({externs:EX,types:TYPES,guess:true,overrides:ov||{}},o)).load(REPO+'/'+f);
const R=n=>[...Array(n).keys()];const sorted=a=>[...a].sort((x,y)=>x<y?-1:x>y?1:0);
const BIG=(t)=>t.below(4)?t.below(24):t.pick([0n,1n,(1n<<64n)-1n,(1n<<63n),(1n<<63n)-1n,1n<<32n].map(x=>x));
// ------------------------------------------------------------------ red-black tree
function rb({REPO}){
  const P=load(REPO,'examples/red-black.dfy',{'_root.Less':(a,b)=>N(a)<N(b),'_root.LessAntisymmetry':()=>{},'_root.LessTransitive':()=>{}});const T=P.m(P.R);
  const nil=x=>x.$cn==='Nil';const red=x=>!nil(x)&&x._color.$cn==='Red';const cont=(x,r=[])=>{if(!nil(x)){cont(x._left,r);r.push(N(x._value));cont(x._right,r);}return r;};
  const ordered=x=>nil(x)||cont(x._left).every(v=>v<=N(x._value))&&cont(x._right).every(v=>v>=N(x._value))&&ordered(x._left)&&ordered(x._right);
  const noRR=x=>nil(x)||(!red(x)||!red(x._left)&&!red(x._right))&&noRR(x._left)&&noRR(x._right);
  const kc=x=>nil(x)?1:N(x._kc),sk=x=>red(x)?kc(x):kc(x)-1;const blacks=x=>nil(x)||sk(x)===kc(x._left)&&sk(x)===kc(x._right)&&blacks(x._left)&&blacks(x._right);
  const depth=x=>nil(x)?0:1+Math.max(depth(x._left),depth(x._right));const bh=x=>{if(nil(x))return 1;const a=bh(x._left),b=bh(x._right);return a<0||a!==b?-1:a+(red(x)?0:1);};
  const fix=x=>nil(x)?x:upd(x,{left:fix(x._left),right:fix(x._right),kc:bh(x)-(0)});
  const judge=x=>{const s=()=>show(x);check((T.OrderedTree(x)===true)===ordered(x),()=>`OrderedTree(${s()}) is ${!ordered(x)}`);check((T.RedNodesHaveBlackChildren(x)===true)===noRR(x),()=>`RedNodesHaveBlackChildren(${s()}) is ${!noRR(x)}`);check((T.BlackCountOnAllPaths(x)===true)===blacks(x),()=>`BlackCountOnAllPaths(${s()}) is ${!blacks(x)}`);check((T.RBTree(x)===true)===(ordered(x)&&noRR(x)&&blacks(x)),()=>`RBTree(${s()})`);
    check(eq(T.Contents(x),DMs.from(cont(x))),()=>`Contents(${s()}) is ${show(T.Contents(x))}`);check(N(T.BlackCount(x))===kc(x)&&(T.ColorOf(x).$cn==='Red')===red(x),()=>`the count or colour of ${s()}`);};
  const tweak=(t,x)=>{if(nil(x)||t.below(3)===0){if(nil(x))return t.bool()?x:T.Node(x,t.below(9),x,t.bool()?T.Red:T.Black,t.int(1,2));return t.pick([()=>upd(x,{color:red(x)?T.Black:T.Red}),()=>upd(x,{value:t.below(9)}),()=>upd(x,{kc:N(x._kc)+t.pick([-1,1])}),()=>upd(x,{color:red(x)?T.Black:T.Red,kc:N(x._kc)+(red(x)?1:-1)}),()=>upd(x,{left:x._right,right:x._left}),()=>upd(x,{left:T.Nil})])();}return t.bool()?upd(x,{left:tweak(t,x._left)}):upd(x,{right:tweak(t,x._right)});};
  return (t,c)=>{const vs=t.list(0,t.below(5)?14:60,u=>u.below(u.bool()?9:60));c.nontrivial(vs.length>2);c.log(()=>`insert ${vs}`);c.sample(`insert ${vs}`);c.label(vs.length>8?'many':'few');
    let x=T.Nil;const m=[];judge(x);for(const v of vs){const y=T.Insert(x,v);const ins=T.InnerInsert(x,v);const b=ins&&ins._0!==undefined?ins._0:Array.isArray(ins)?ins[0]:ins;check(eq(T.Contents(b),DMs.from([...cont(x),v])),()=>`InnerInsert(${show(x)}, ${v}) holds ${cont(b)}`);
      m.push(v);x=y;check(eq(sorted(cont(x)),sorted(m)),()=>`after ${m} the tree holds ${cont(x)}`);check(ordered(x)&&noRR(x)&&bh(x)>0&&!red(x),()=>`after ${m} the tree ${show(x)} is out of shape`);const fx=fix(x);check(blacks(fx)&&T.RBTree(fx)===true,()=>`after ${m} the black counts of ${show(fx)} are wrong`);check(depth(x)<=2*Math.log2(m.length+1)+1e-9,()=>`after ${m} the tree is ${depth(x)} deep`);
      for(const k of [v,t.below(12),t.below(60),-1])check(T.Contains(x,k)===m.includes(k),()=>`Contains(${k}) of ${m} is ${!m.includes(k)}`);}
    x=fix(x);judge(x);for(let i=0;i<4;i++){let y=tweak(t,x);if(t.bool())y=tweak(t,y);judge(y);const v=t.below(9);const L=T.LessOrEqual(v,4)===true;check(L===v<=4,'LessOrEqual');check((T.SideIsOrdered(y,T.Left,v)===true)===cont(y).every(z=>z<=v)&&(T.SideIsOrdered(y,T.Right,v)===true)===cont(y).every(z=>z>=v),()=>`SideIsOrdered(${show(y)}, ${v})`);
      const rr=T.redOnRedViolation(y);check((rr.$cn==='None')===!(red(y)&&(red(y._left)||red(y._right)))&&(rr.$cn==='None'||(rr._t.$cn==='Left')===red(y._left)),()=>`redOnRedViolation(${show(y)}) is ${show(rr)}`);
      const z=tweak(t,y);const w=cont(z),mo=ordered(z)&&!nil(z)&&noRR(z._left)&&noRR(z._right)&&blacks(z)&&eq(sorted(w),sorted([...cont(y),v]))&&(!(red(z)&&(red(z._left)||red(z._right)))||red(y))&&(!red(z)||!red(z._left)||!red(z._right));check((T.MostlyRBTree(y,v,z)===true)===mo,()=>`MostlyRBTree(${show(y)}, ${v}, ${show(z)}) is ${!mo}`);}
  };
}
// ------------------------------------------------------------------ splay tree
function splay({REPO}){
  const P=load(REPO,'examples/splay/splaytree.dfy',{});const T=P.m(P.R);
  const B=BigInt;const nodes=(x,r=[],seen=new Set())=>{if(x&&!seen.has(x)){seen.add(x);r.push(x);nodes(x._l,r,seen);nodes(x._r,r,seen);}return r;};
  const ino=(x,r=[],d=0)=>{check(d<500,'the tree has a cycle');if(x){ino(x._l,r,d+1);r.push(B(x._value));ino(x._r,r,d+1);}return r;};
  const sets=x=>{if(!x)return [];const a=[x,...sets(x._l),...sets(x._r)];x._node_set=DSet.from(a);return a;};
  const shape=(tree,tell)=>{const x=tree._root;if(!x)return;check(!x._p,()=>`${tell()}: the root has a parent`);for(const n of nodes(x))for(const ch of [n._l,n._r])check(!ch||ch._p===n,()=>`${tell()}: node ${ch._value} has the wrong parent`);};
  const vset=x=>x?[B(x._value),...vset(x._l),...vset(x._r)]:[];const valid=x=>!x||(!x._l||x._l._p===x)&&(!x._r||x._r._p===x)&&vset(x._l).every(v=>v<B(x._value))&&vset(x._r).every(v=>v>B(x._value))&&valid(x._l)&&valid(x._r);
  return (t,c)=>{const tree=T.new_tree(),m=new Set(),log=[];const big=t.below(3)===0;const ks=big?[0n,1n,2n,(1n<<32n),(1n<<63n)-1n,1n<<63n,(1n<<64n)-2n,(1n<<64n)-1n]:null;
    const key=()=>ks?t.pick(ks):t.below(t.bool()?8:40);const n=t.int(1,t.below(4)?16:60);const tell=()=>log.join(' ').slice(0,600);c.log(tell);
    const mm=new Map();
    for(let i=0;i<n;i++){const k=key(),K=String(k),op=t.below(10);const s=sorted(ino(tree._root));
      if(op<5){log.push('+'+K);const was=mm.has(K);T.insert(tree,k);mm.set(K,k);check(tree._root&&(was||B(tree._root._value)===B(k)),()=>`${tell()}: the inserted value is not at the root`);}
      else if(op<8){log.push('-'+K);T.delete(tree,k);mm.delete(K);}
      else if(op<9){log.push('?'+K);const was=ino(tree._root);check(T.contains(tree,k)===mm.has(K),()=>`${tell()}: contains is ${!mm.has(K)}`);check(eq(was,ino(tree._root)),()=>`${tell()}: contains changed the tree`);}
      else {const xs=nodes(tree._root);if(xs.length){const x=t.pick(xs);log.push('splay '+x._value);sets(tree._root);const was=ino(tree._root);T.splay(x,tree._root,DSet.from(was));tree._root=x;check(!x._p,()=>`${tell()}: the splayed node is not the root`);check(eq(ino(x),was),()=>`${tell()}: splaying changed the order to ${ino(x)}`);const g=T.get_max(x);check(B(g._value)===sorted(was).pop(),()=>`${tell()}: get_max is ${g._value}`);const f=T.find_node(x,k);check(mm.has(K)?!!f&&eq(f._value,k):!f,()=>`${tell()}: find_node(${K})`);}}
      const want=[...mm.values()].map(B);check(eq(sorted(ino(tree._root)),sorted(want)),()=>`${tell()}: holds ${ino(tree._root)}`);check(eq(ino(tree._root),sorted(want)),()=>`${tell()}: out of order ${ino(tree._root)}`);shape(tree,tell);}
    sets(tree._root);check(T.is_valid_tree(tree)===true,()=>`${tell()}: is_valid_tree is false`);check(eq(T.tree_set(tree),DSet.from([...mm.values()])),()=>`${tell()}: tree_set is ${show(T.tree_set(tree))}`);check(eq(T.values_of_nodes(DSet.from(nodes(tree._root))),DSet.from([...mm.values()])),'values_of_nodes');
    const xs=nodes(tree._root);if(xs.length>1){const x=t.pick(xs),k=t.below(5);if(k===0)x._value=key();else if(k===1)x._p=t.pick([null,...xs]);else if(k===2){const l=x._l;x._l=x._r;x._r=l;}else if(k===3){x._l=null;sets(tree._root);}else x._node_set=DSet.from(t.subset?t.subset(xs):xs.slice(1));
      const st=x=>!x||(!x._l||x._node_set.has(x._l))&&(!x._r||x._node_set.has(x._r))&&(x._l?x._l._node_set.size:0)<x._node_set.size&&(x._r?x._r._node_set.size:0)<x._node_set.size&&eq(x._node_set,DSet.from([x,...(x._l?x._l._node_set:[]),...(x._r?x._r._node_set:[])]))&&st(x._l)&&st(x._r);
      const w=!tree._root._p&&st(tree._root)&&valid(tree._root);const g=T.is_valid_tree(tree)===true;check(g===w,()=>`${tell()}: after a change (${k}) is_valid_tree is ${g}`);}
    c.nontrivial(n>3);c.sample(tell());c.label(big?'wide keys':'small keys');
  };
}
// ------------------------------------------------------------------ two stacks sharing cells on a disk
function lists(marsh){return ({REPO})=>{
  const P=load(REPO,'FramingExperiment/LinkedListStack.i.dfy',{'Marshalling.Marshal':x=>new $.Tup([x]),'Marshalling.Parse':b=>b._0});const W={rank:DMap.of([]),steps:[]};
  const A=P.m('AcyclicityAndFraming'),M=P.m('Marshalling'),L=P.m('Labels'),Rp=P.m('Representation'),S=P.m('Spec'),O=P.m('Options');const X=marsh?M:A;
  const un=x=>x instanceof $.Tup?x._0:x,pg=(x,p)=>{const c=A.CellPage(x,p);return marsh?new $.Tup([c]):c;};
  const setup=()=>{$.universes.length=0;$.universes.push(u=>{if(!u)return null;if(u.k==='map'){return [W.typed&&u.b&&u.b.k==='dt'?W.typed:W.rank];}if(u.k==='int'||u.k==='nat')return R(8);if(u.k==='dt'&&/Step$/.test(u.cell.qname||''))return W.steps;if(u.k==='opaque'||u.k==='abs'||u.k==='tp')return R(8);return null;});};
  const addrs=R(7),dk=s=>s._disk,tail=(d,a)=>un(d.get(a))._tail,some=p=>p.$cn==='Some';
  const reach=(d,p)=>{const r=[];while(some(p)&&d.has(p._value)&&!r.includes(N(p._value))){r.push(N(p._value));p=tail(d,p._value);}return r;};
  const keep=(d,ks)=>DMap.of([...d].filter(k=>ks.includes(N(k))).map(k=>[k,d.get(k)]));
  const valid=s=>{const d=dk(s),ok=p=>!some(p)||d.has(p._value);return ok(s._a)&&ok(s._b)&&[...d].every(k=>ok(tail(d,k)));};
  const rankOf=d=>{const r=new Map();const go=(k,g)=>{if(r.has(N(k)))return r.get(N(k));if(g>40)return 0;const p=tail(d,k);const v=some(p)&&d.has(p._value)?go(p._value,g+1)+1:0;r.set(N(k),v);return v;};for(const k of d)go(k,0);return DMap.of([...d].map(k=>[k,r.get(N(k))]));};
  const acyc=d=>[...d].every(k=>{let p=tail(d,k),n=0;while(some(p)&&d.has(p._value)){if(n++>20)return false;p=tail(d,p._value);}return true;});
  const post=(s,l,st)=>{const d=dk(s);switch(st.$cn){
    case 'ConsAStep':return l.$cn==='ConsALabel'&&!d.has(st._addr)?X.Variables(d.set(st._addr,pg(l._x,s._a)),O.Some(st._addr),s._b):null;
    case 'ConsBStep':return l.$cn==='ConsBLabel'&&!d.has(st._addr)?X.Variables(d.set(st._addr,pg(l._x,s._b)),s._a,O.Some(st._addr)):null;
    case 'CopyBtoAStep':return l.$cn!=='CopyBtoALabel'?null:marsh?upd(s,{a:s._b}):X.Variables(keep(d,reach(d,s._b)),s._b,s._b);}return null;};
  const lab=t=>t.pick([L.ConsALabel(t.below(4)),L.ConsBLabel(t.below(4)),L.CopyBtoALabel,L.ClearALabel]);
  const next=(t,s)=>{for(let j=0;j<10;j++){const st=t.pick([X.ConsAStep(t.pick(addrs)),X.ConsBStep(t.pick(addrs)),X.ConsBStep(t.pick(addrs)),X.CopyBtoAStep]);const l=st.$cn==='ConsAStep'?L.ConsALabel(t.below(4)):st.$cn==='ConsBStep'?L.ConsBLabel(t.below(4)):L.CopyBtoALabel;const n=post(s,l,st);if(n)return {n,l,step:st};}return null;};
  const listOf=(d,p)=>{const r=[];while(some(p)){r.push(N(un(d.get(p._value))._x));p=tail(d,p._value);}return r;};const cell=a=>a.length?Rp.Cell(a[0],cell(a.slice(1))):Rp.Nil;
  const spec=(v,l)=>({ConsALabel:()=>[[N(l._x),...v[0]],v[1]],ConsBLabel:()=>[v[0],[N(l._x),...v[1]]],CopyBtoALabel:()=>[v[1],v[1]],ClearALabel:()=>[[],v[1]]})[l.$cn]();
  const tricks=(t,s)=>{const out=[],a=t.pick(addrs),d=dk(s);for(const l of [L.ConsALabel(1),L.ConsBLabel(2)]){const st=l.$cn==='ConsALabel'?X.ConsAStep(a):X.ConsBStep(a),top=l.$cn==='ConsALabel'?s._a:s._b,oth=l.$cn==='ConsALabel'?s._b:s._a;for(const tl of [top,oth,O.None]){const dd=d.set(a,pg(l._x,tl));out.push({n:l.$cn==='ConsALabel'?X.Variables(dd,O.Some(a),s._b):X.Variables(dd,s._a,O.Some(a)),l,step:st});}}
    const ra=reach(d,s._a),rb=reach(d,s._b);for(const ks of [rb,ra,[...ra,...rb],[...d].map(N)])out.push({n:X.Variables(keep(d,ks),s._b,s._b),l:L.CopyBtoALabel,step:X.CopyBtoAStep});
    out.push({n:X.Variables(d,O.None,s._b),l:L.ClearALabel,step:X.ConsAStep(0)});if(!marsh)out.push({n:X.Variables(d,O.None,s._b),l:L.ClearALabel,step:A.ClearAStep});return out;};
  return machine({setup,init:t=>{setup();W.typed=null;return X.Variables(DMap.of([]),O.None,O.None);},isInit:s=>eq(s,X.Variables(DMap.of([]),O.None,O.None)),runInit:s=>X.Init(s)===true,next,ref:(s,n,l,st)=>{const p=post(s,l,st);return !!p&&eq(p,n);},
    run:(s,n,l,st)=>{W.steps=[st];const r=X.NextStep(s,n,l,st)===true;check((X.Next(s,n,l)===true)===r,()=>`Next is ${!r}`);return r;},perturbs:7,len:18,partial:true,tricks,
    seedPool:p=>{for(const q of [O.None,O.Some(1),O.Some(3)])p.add('P',q);},
    after:(s,n,l,st,t)=>{const d=dk(n);const lists=x=>[listOf(dk(x),x._a),listOf(dk(x),x._b)];
      const as=lists(s),an=lists(n);check(eq(an,spec(as,l)),()=>`${show(l)} takes the stacks ${JSON.stringify(as)} to ${JSON.stringify(an)}`);
      if(marsh){const ty=x=>DMap.of([...dk(x)].map(k=>[k,un(dk(x).get(k))]));W.typed=ty(n);W.rank=rankOf(d);check(eq(M.MarshalDisk(ty(n)),d),'MarshalDisk');check(M.Inv(n)===true,()=>`the invariant fails in ${show(n)}`);check(eq(M.I(n),A.Variables(ty(n),n._a,n._b)),()=>`I(${show(n)})`);
        const bad=DMap.of([...ty(n)].map((k,i)=>[k,i?ty(n).get(k):A.CellPage(77,O.None)]));check((M.TypeProvidesModel(n,bad)===true)===eq(bad,ty(n)),'TypeProvidesModel of another disk');
        if(st.$cn!=='CopyBtoAStep'){W.typed=ty(s);W.rank=rankOf(dk(s));const i0=M.I(s);W.typed=ty(n);W.rank=rankOf(d);const i1=M.I(n);const a2=st.$cn==='ConsAStep'?A.ConsAStep(st._addr):A.ConsBStep(st._addr);check(A.NextStep(i0,i1,l,a2)===true,'the typed step');}W.typed=null;return;}
      W.rank=rankOf(d);check(A.Inv(n)===true,()=>`the invariant fails in ${show(n)}`);const iv=A.I(n),want=Rp.Variables(cell(an[0]),cell(an[1]));check(eq(iv,want),()=>`${show(n)} is taken to stand for ${show(iv)}`);
      W.rank=rankOf(dk(s));const i0=A.I(s);check(Rp.Next(i0,iv,l)===true,()=>`${show(l)} is no step of the lists`);const sv=Rp.I(iv);check(eq(sv,S.Variables(an[0],an[1])),'the sequences');check(S.Next(Rp.I(i0),sv,l)===true,()=>`${show(l)} is no step of the sequences`);
      // other labels and other results are refused by both specifications
      const l2=lab(t),v2=t.pick([an,[an[1],an[0]],[an[0].slice(1),an[1]],[[...an[0],1],an[1]],[[],an[1]],[an[0],[]]]);const ok=eq(v2,spec(as,l2));check((S.Next(S.Variables(as[0],as[1]),S.Variables(v2[0],v2[1]),l2)===true)===ok,()=>`the sequences ${JSON.stringify(as)} to ${JSON.stringify(v2)} by ${show(l2)} is ${!ok}`);check((Rp.Next(i0,Rp.Variables(cell(v2[0]),cell(v2[1])),l2)===true)===ok,()=>`the lists ${JSON.stringify(as)} to ${JSON.stringify(v2)} by ${show(l2)} is ${!ok}`);
      for(const z of [S.Variables(an[0],an[1]),S.Variables([],[])])check((S.Init(z)===true)===(z._a.length+z._b.length===0),'Init of the sequences');check((Rp.Init(want)===true)===(an[0].length+an[1].length===0),'Init of the lists');
      // what is reachable, and the invariant on arbitrary disks
      for(let j=0;j<3;j++){const dd=DMap.of(t.list(0,5,u=>[u.pick(addrs),A.CellPage(u.below(3),u.bool()?O.None:O.Some(u.pick(addrs)))])),pt=()=>t.below(3)?O.Some(t.pick(addrs)):O.None,v=A.Variables(dd,pt(),pt());const ra=reach(dd,v._a),rb=reach(dd,v._b);
        check(eq(A.Repr(v,v._a,DSet.from([])),DSet.from(ra)),()=>`Repr from ${show(v._a)} in ${show(dd)}`);const tv=A.Tighten(v);check(eq(tv,A.Variables(keep(dd,[...ra,...rb]),v._a,v._b)),()=>`Tighten(${show(v)}) is ${show(tv)}`);
        W.rank=rankOf(dd);const w=valid(v)&&acyc(dd);check((A.Inv(v)===true)===w,()=>`Inv(${show(v)}) is ${!w}`);check((A.RootPointersValid(v)===true)===[v._a,v._b].every(p=>!some(p)||dd.has(p._value)),()=>`RootPointersValid(${show(v)})`);const dv=[...dd].every(k=>!some(tail(dd,k))||dd.has(tail(dd,k)._value));check((A.DiskPointersValid(v)===true)===dv,()=>`DiskPointersValid(${show(v)})`);
        if(dv){const rk=DMap.of(R(7).filter(()=>t.below(8)).map(i=>[i,t.below(4)]));const rr=[...dd].every(k=>rk.has(k))&&[...dd].every(k=>{const p=tail(dd,k);return !some(p)||N(rk.get(p._value))<N(rk.get(k));});check((A.PointersRespectRank(v,rk)===true)===rr,()=>`PointersRespectRank(${show(v)}, ${show(rk)}) is ${!rr}`);}
        if(w)check(eq(A.AcyclicRepr(v,v._a,DSet.from([])),DSet.from(ra)),'AcyclicRepr');const d2=DMap.of([...dd].filter(()=>t.below(5)).map(k=>[k,dd.get(k)]));const ms=(x,y)=>[...x].every(k=>y.has(k)&&eq(y.get(k),x.get(k)));check((A.MapSubset(d2,dd)===true)===ms(d2,dd)&&(A.MapSubset(dd,d2)===true)===ms(dd,d2),'MapSubset');}
    }});
};}
// ------------------------------------------------------------------ keeping the left part of a node
function cutoff({REPO}){
  let B=null;const D=m=>DMap.of(m),left=(b,p)=>DMap.of([...b].filter(k=>N(k)<N(p)).map(k=>[k,b.get(k)]));const cut=(ps,p)=>ps.filter(x=>N(x)<N(p)).length;
  const mk=m=>{const o=new B.BucketImpl();o._Bucket=m;o._Repr=DSet.from([o]);return o;};
  const M='BucketImplModule.',Q='NodeImplModule.';
  const P=load(REPO,'examples/cutoff-node/NodeImpl.i.dfy',{[M+'SplitLeft']:left,[M+'BucketImpl.ImplSplitLeft']:function(p){return mk(left(this._Bucket,p));},[M+'BucketImpl.CloneSeq']:s=>Array.from(s).map(b=>mk(b._Bucket)),
    [Q+'WFPivots']:ps=>Array.from(ps).every((x,i)=>!i||N(ps[i-1])<N(x)),[Q+'PivotsCutoffForLeft']:(ps,p)=>cut(Array.from(ps),p),[Q+'ImplPivotsCutoffForLeft']:(ps,p)=>cut(Array.from(ps),p),
    [Q+'NodeImpl._ctor']:function(a,b,c){this._pivotTable=a;this._children=b;this._buckets=c;this._Repr=DSet.from([this,...[...c].flatMap(x=>[...x._Repr])]);}});
  B=P.m('BucketImplModule');const T=P.m('NodeImplModule');
  return (t,c)=>{$.universes.length=0;$.universes.push(u=>u&&u.k==='class'?W:null);let W=[];
    const ps=[...new Set(t.list(0,6,u=>u.below(20)))].sort((a,b)=>a-b),n=ps.length+1,ch=t.bool()?B.Some(R(n).map(()=>t.below(50))):B.None,bs=R(n).map(()=>D(t.list(0,4,u=>[u.below(20),u.below(4)]))),p=t.below(21);c.nontrivial(ps.length>0);const tell=()=>`pivots ${ps}, children ${show(ch)}, cut at ${p}`;c.log(tell);c.sample(tell());
    const objs=bs.map(mk),node=new T.NodeImpl(ps,ch,objs);W=[node,...objs];check(node._Inv?node._Inv()===true:true,'the node is not well formed');
    const I=node._I();check(eq(I,T.Node(ps,ch,bs)),()=>`${tell()}: stands for ${show(I)}`);check(eq(B.BucketImpl.ISeq(objs),bs),'ISeq');check(eq(B.BucketImpl.ReprSeq(objs),DSet.from(objs)),'ReprSeq');
    const q=t.bool()?objs:[...objs,t.pick(objs)];check((B.BucketImpl.ReprSeqDisjoint(q)===true)===(q.length===objs.length),()=>`ReprSeqDisjoint of ${q.length} buckets, ${objs.length} different`);
    const k=cut(ps,p),want=T.Node(ps.slice(0,k),ch.$cn==='Some'?B.Some(ch._value.slice(0,k+1)):B.None,[...bs.slice(0,k),left(bs[k],p)]);
    const f=T.CutoffNodeAndKeepLeft(I,p);check(eq(f,want),()=>`${tell()}: CutoffNodeAndKeepLeft is ${show(f)}`);const r=node._ImplCutoffNodeAndKeepLeft(p);check(eq(r._I(),want),()=>`${tell()}: the code leaves ${show(r._I())}`);check(r!==node&&eq(node._I(),I),()=>`${tell()}: the node itself changed`);check(r._Inv()===true,()=>`${tell()}: the result is not well formed`);
    const w=[T.Node(ps.slice(1),ch,bs),T.Node(ps,ch,bs.slice(1)),T.Node(ps,ch.$cn==='Some'?B.Some(ch._value.slice(1)):ch,bs),T.Node([...ps].reverse(),ch,bs)];for(const x of [I,...w]){const a=Array.from(x._pivotTable),ok=(x._children.$cn==='None'||x._children._value.length===a.length+1)&&x._buckets.length===a.length+1&&a.every((y,i)=>!i||a[i-1]<y);check((T.WFNode(x)===true)===ok,()=>`WFNode(${show(x)}) is ${!ok}`);}
  };
}
exports.props={E01:{rule:'more than three operations; a step that is enabled',parts:{rb:{make:rb,weight:2},splay:{make:splay,weight:2},lists:{make:lists(false),weight:2},pages:{make:lists(true),weight:1},cutoff:{make:cutoff,weight:1}},quick:20,thorough:300,assumptions:[]}};
