'use strict';
// P02: the B-epsilon tree of pivot tables and buckets, and its refinement of the abstract tree.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES}=require('../externs.js');const {check,discard}=require('../pbt.js');
const {DMap,DSet,IMap,ISet}=$;const {Pool,perturb,upd}=require('../sm.js');const K=require('./bucket.js');const T=require('./betree.js');
const {cmp,ecmp,ks,isPre,uniqSorted,near,route,bounded,nextOf,lcpOf,lastOf}=K;const N=Number,eq=$.eq,key=$.key;const show=x=>$.show?$.show(x).slice(0,400):String(x);
const cache=new Map();
function world(REPO,bound){
  const ck=REPO+bound;if(cache.has(ck))return cache.get(ck);
  const ov={};if(bound)ov['Bounds.MaxTotalBucketWeightUint64']=()=>bound;
  const P=new Program({externs:EX,types:TYPES,guess:true,overrides:ov}).load(REPO+'/PivotBetree/PivotBetree_Refines_Map.i.dfy',REPO+'/PivotBetree/TSJPivotBetree.i.dfy');
  const m=n=>P.m(n);const W=T.world(REPO,P);const BW=W;
  const V={P,T:W,S:m('PivotBetreeSpec'),M:m('PivotBetree'),G:m('PivotBetreeGraph'),BI:m('PivotBetreeBlockInterface'),SR:m('PivotBetreeSpecRefinement'),PR:m('PivotBetree_Refines_Betree'),PM:m('PivotBetree_Refines_Map'),UB:m('Upperbounded_Lexicographic_Byte_Order'),BL:m('BucketsLib'),TL:m('TranslationLib'),O:m('Options'),U:m('UI'),VM:m('ValueMessage'),bound:bound||2*1024*1024-65536};
  const E=k=>k===null?V.UB.Max_Element:V.UB.Element(k),unE=e=>e.$cn==='Max_Element'?null:Array.from(e._e);
  const some=x=>x===null?V.O.None:V.O.Some(x),un=x=>x.$cn==='None'?null:x._value;
  V.def=v=>V.VM.Define(v);V.nop=V.VM.Update(V.VM.NopDelta());
  // plain trees: node = {pt:[key|null], et:[prefix|null], ch:[ref]|null, b:[[[key,msg]]]}
  V.node=n=>V.G.Node(n.pt.map(E),n.et.map(some),some(n.ch),n.b.map(b=>V.BL.Bucket(b.map(p=>p[0]),b.map(p=>p[1]))));
  V.un=d=>({pt:Array.from(d._pivotTable).map(unE),et:Array.from(d._edgeTable).map(e=>{const x=un(e);return x===null?null:Array.from(x);}),ch:un(d._children)===null?null:Array.from(un(d._children)).map(N),b:Array.from(d._buckets).map(b=>{const k=Array.from(b._keys),q=Array.from(b._msgs);if(k.length!==q.length)throw new $.DafnyFail('a bucket has as many messages as keys');return k.map((x,i)=>[Array.from(x),q[i]]);})});
  V.weight=b=>b.flat().reduce((a,[k,q])=>a+4+k.length+(q.$cn==='Define'?4+q._value.length:0),0);
  V.view=t=>new IMap(()=>false,null,T.RU,new Map([...t].map(([r,n])=>[key(r),[r,n.d||(n.d=V.node(n))]])));
  V.st=t=>V.M.Variables(V.BI.Variables(V.view(t)));
  V.trans=(n,i,k)=>n.et[i]===null?k:n.et[i].concat(k.slice(lcpOf(n.pt[i],n.pt[i+1]).length));
  // what a key reads as, walking down; {ok,value,ls}
  V.look=(t,k,r=0)=>{const ls=[];for(let d=0;d<30;d++){const n=t.get(r);if(!n)return {ls,ok:false,why:'dangling '+r};if(!bounded(n.pt,k))return {ls,ok:false,why:`[${k}] is outside node ${r}`};const i=route(n.pt,k);ls.push({r,n,k,i});
    const p=n.b[i].find(p=>cmp(p[0],k)===0);if(p&&p[1].$cn==='Define')return {ls,ok:true,value:Array.from(p[1]._value)};if(n.ch===null)return {ls,ok:true,value:[]};r=n.ch[i];k=V.trans(n,i,k);}return {ls,ok:false,why:'cycle'};};
  // well-formed node, independently
  V.wf=n=>{const c=n.pt.length-1;if(c<1||n.b.length!==c||n.et.length!==c||n.ch&&n.ch.length!==c||c>8)return `${c} slots`;
    for(let i=0;i<c;i++){if(n.pt[i]===null||ecmp(n.pt[i],n.pt[i+1])>=0)return 'pivots out of order';if(n.et[i]!==null&&!lcpOf(n.pt[i],n.pt[i+1]).length)return 'an edge translates without a common prefix';
      let l=null;for(const [k] of n.b[i]){if(cmp(n.pt[i],k)>0||ecmp(k,n.pt[i+1])>=0)return `[${k}] is in the wrong bucket`;if(l&&cmp(l,k)>=0)return 'a bucket is out of order';l=k;}}
    if(V.weight(n.b)>V.bound)return 'too heavy';return null;};
  V.live=t=>{const s=new Set();const go=r=>{if(s.has(r)||!t.has(r))return;s.add(r);for(const c of t.get(r).ch||[])go(c);};go(0);return s;};
  V.show=n=>`${n.ch?'inner':'leaf'} ${n.pt.map((p,i)=>`<${p===null?'end':ks(p)}>${i<n.b.length?(n.et[i]==null?'':'~'+ks(n.et[i])+' ')+n.b[i].map(([k,q])=>ks(k)+':'+(q.$cn==='Define'?ks(q._value):'nop')).join(';')+(n.ch?'@'+n.ch[i]:''):''}`).join(' ')}`;
  V.read=ops=>ops.map(([r,n])=>V.G.ReadOp(r,n));
  cache.set(ck,V);return V;
}
const AL=[0,1,2,255];
const VALS=[[],[7],[8,8],[9,9,9,9,9,9,9,9]];
const nonEmpty=(s,e)=>s.$cn==='NegativeInf'||e.$cn==='PositiveInf'?true:s.$cn==='SInclusive'&&e.$cn==='EInclusive'?cmp(s._key,e._key)<=0:cmp(s._key,e._key)<0;
const inS=(s,k)=>s.$cn==='SInclusive'?cmp(s._key,k)<=0:s.$cn==='SExclusive'?cmp(s._key,k)<0:true;
const inE=(k,e)=>e.$cn==='EInclusive'?cmp(k,e._key)<=0:e.$cn==='EExclusive'?cmp(k,e._key)<0:true;
function steps({REPO}){
  const WS=[0,60,130].map(b=>world(REPO,b));
  return (t,c)=>{
    const V=t.pick(WS);const {S,M,U,G,O}=V;const B=V.T;B.setup();
    let tree=new Map([[0,{pt:[[],null],et:[null],ch:null,b:[[]]}]]);let seen=[[],[0],[1]],k=0,clones=0;const pool=new Pool();
    const kgen=()=>t.below(3)?near(t,seen):t.bytes(0,3,AL);
    const addKey=x=>{if(x.length<14&&!seen.some(y=>cmp(x,y)===0)){seen.push(x);if(seen.length>40)seen.splice(t.below(20),1);}};
    const vals=(tr,keys)=>keys.map(x=>{const l=V.look(tr,x);return l.ok?l.value:null;});
    const universe=(...trs)=>{const q=[];for(const tr of trs)for(const n of tr.values()){for(const p of n.pt)if(p!==null)q.push(p);for(const b of n.b)for(const [x] of b)q.push(x);}const l=uniqSorted(seen.concat(q));B.sample(l);return l;};
    const expect=(tr,u,keys)=>{const val=x=>{const l=V.look(tr,x);return l.ok?l.value:null;};if(u&&u.$cn==='PutOp')return keys.map(x=>cmp(x,u._key)===0?Array.from(u._value):val(x));if(u&&u.$cn==='CloneOp')return keys.map(x=>isPre(u._new_to_old?[]:u._to,x)?val([...u._from,...x.slice(u._to.length)]):val(x));return keys.map(val);};
    const answer=(tr,u,keys)=>{const val=x=>V.look(tr,x).value;
      if(u.$cn==='GetOp')return eq(val(Array.from(u._key)),u._value);
      if(u.$cn==='SuccOp'){if(!nonEmpty(u._start,u._end))return false;const rs=Array.from(u._results);const all=uniqSorted(keys.concat(rs.map(r=>Array.from(r._key)))).filter(x=>inS(u._start,x)&&inE(x,u._end)&&val(x).length);return rs.length===all.length&&rs.every((r,i)=>cmp(r._key,all[i])===0&&eq(r._value,val(all[i])));}
      return true;};
    const sound=(tr,n2,u,how)=>{const keys=seen;const w=expect(tr,u,keys),g=vals(n2,keys);
      for(let i=0;i<keys.length;i++)check(w[i]===null||g[i]!==null&&eq(w[i],g[i]),()=>`${how}: [${keys[i]}] reads ${g[i]===null?V.look(n2,keys[i]).why:'['+g[i]+']'}, not [${w[i]}]`);
      for(const [r,n] of n2)if(n!==tr.get(r)){const e=V.wf(n);check(e===null,()=>`${how}: node ${r} is ill-formed (${e}): ${V.show(n)}`);check(S.InvNode(n.d||(n.d=V.node(n)))===true,()=>`${how}: node ${r} breaks the node invariant: ${V.show(n)}`);}
      for(const [r,n] of n2)for(const x of n.ch||[])check(n2.has(x),()=>`${how}: node ${r} points to missing ${x}`);
      check(answer(tr,u,keys),()=>`${how}: wrong answer ${show(u)}`);};
    const apply=(tr,ops)=>{const n=new Map(tr);for(const o of ops){const r=N(o._ref);if((o.$cn==='AllocOp')===n.has(r))return null;const d=V.un(o._node);d.d=o._node;for(const x of d.ch||[])if(!n.has(x))return null;n.set(r,d);}return n;};
    const reads=(tr,ops)=>ops.every(o=>{const n=tr.get(N(o._ref));return n&&eq(n.d||(n.d=V.node(n)),o._node);});
    const D=r=>{const n=tree.get(r);return n.d||(n.d=V.node(n));};
    const fresh=n=>{const f=[1,2,3,4,5,6,7,8,9,10,11,12,13].filter(r=>!tree.has(r));if(f.length<n)return null;return f.slice(0,n);};
    // the key range a parent's slot covers must lie inside the child
    const covers=(n,i,ch)=>{let lo=n.pt[i],hi=n.pt[i+1];if(n.et[i]!==null){const p=lcpOf(lo,hi);lo=n.et[i].concat(n.pt[i].slice(p.length));hi=hi===null||!isPre(p,hi)?nextOf(n.et[i]):n.et[i].concat(hi.slice(p.length));}return cmp(ch.pt[0],lo)<=0&&ecmp(hi,ch.pt[ch.pt.length-1])<=0;};
    const inner=()=>[...V.live(tree)].filter(r=>tree.get(r).ch);
    const make=kind=>{
      const root=tree.get(0);
      if(kind==='put'){const x=kgen(),v=t.pick(VALS);addKey(x);const q=t.below(8)===7?V.nop:V.def(v);const fits=V.weight(root.b)+4+x.length+(q===V.nop?0:4+v.length)<=V.bound;return {want:fits,uiop:q===V.nop?null:U.PutOp(x,v),step:S.BetreeInsert(S.MessageInsertion(x,q,D(0)))};}
      if(kind==='get'){const x=kgen();addKey(x);const l=V.look(tree,x);let ls=l.ls;if(t.below(4)===3&&ls.length>1&&!tree.get(ls[ls.length-1].r).ch&&false)ls=ls.slice(0,-1);return {want:true,uiop:U.GetOp(x,l.value),step:S.BetreeQuery(S.LookupQuery(x,l.value,ls.map(y=>S.Layer(G.ReadOp(y.r,D(y.r)),y.k))))};}
      if(kind==='grow'){const f=fresh(1);if(!f)return null;return {want:true,uiop:U.NoOp,step:S.BetreeGrow(S.RootGrowth(D(0),f[0]))};}
      if(kind==='repivot'){const l=[...V.live(tree)].filter(r=>{const n=tree.get(r);return !n.ch&&n.b.length===1;});if(!l.length)return null;const r=t.pick(l),n=tree.get(r);let p=n.b[0].length&&t.below(4)?t.pick(n.b[0])[0]:kgen();if(!p.length)p=[1];return {want:n.et[0]===null,uiop:U.NoOp,step:S.BetreeRepivot(S.Repivot(r,D(r),V.T.P.m('BoundedPivotsLib').insert?[]:[V.UB.Element([]),V.UB.Element(p),V.UB.Max_Element],p))};}
      if(kind==='clone'){
        if(clones>=4||!root.ch)return null;let from=kgen().slice(0,2),to=kgen().slice(0,3);if(!to.length)to=[1];
        const end=nextOf(from);const clean=root.b.every(b=>b.every(([x])=>!isPre(from,x)));
        if(!clean)return {want:false,uiop:U.CloneOp(from,to),step:S.BetreeClone(S.NodeClone(D(0),D(0),from,to))};
        const nr=S.CloneNewRoot(D(0),from,to);const fits=Array.from(nr._buckets).length<=8;
        return {clone:fits,want:fits,uiop:U.CloneOp(from,to),step:S.BetreeClone(S.NodeClone(D(0),nr,from,to))};}
      const ps=inner();if(!ps.length)return null;const p=t.pick(ps),pn=tree.get(p);
      if(kind==='flush'){
        const heavy=pn.b.map((b,i)=>[i,b.length]).filter(x=>x[1]).map(x=>x[0]);const i=heavy.length&&t.below(4)?t.pick(heavy):t.below(pn.b.length);const cr=pn.ch[i],cn=tree.get(cr),f=fresh(1);if(!f||!covers(pn,i,cn))return null;
        const ch=S.RestrictAndTranslateChild(D(p),D(cr),i);const w=V.weight(V.un(ch).b);if(w>V.bound)return null;
        const pf=V.P.m('BucketFlushModel').partialFlush(V.un(D(p)).b.length?D(p)._buckets[i]:null,ch._pivotTable,ch._buckets);
        const nc=G.Node(ch._pivotTable,ch._edgeTable,ch._children,pf._bots);
        const et=pn.et.slice();et[i]=null;const cs=pn.ch.slice();cs[i]=f[0];const bs=Array.from(D(p)._buckets);bs[i]=pf._top;
        const np=upd(D(p),{edgeTable:et.map(x=>x===null?O.None:O.Some(x)),children:O.Some(cs),buckets:bs});
        return {want:true,uiop:U.NoOp,step:S.BetreeFlush(S.NodeFlush(p,D(p),np,cr,D(cr),f[0],nc,i))};}
      if(kind==='split'){
        const i=t.below(pn.b.length),cr=pn.ch[i],cn=tree.get(cr),f=fresh(2);if(!f||pn.b.length>=8||!covers(pn,i,cn))return null;
        const ch=S.RestrictAndTranslateChild(D(p),D(cr),i),cj=V.un(ch);if(cj.b.length<2)return null;const nl=1+t.below(cj.b.length-1);const piv=cj.pt[nl];
        if(V.weight(cj.b.slice(0,nl))>V.bound||V.weight(cj.b.slice(nl))>V.bound)return null;
        const cut=(a,b)=>V.node({pt:cj.pt.slice(a,b+1),et:cj.et.slice(a,b),ch:cj.ch&&cj.ch.slice(a,b),b:cj.b.slice(a,b)});const L=cut(0,nl),R=cut(nl,cj.b.length);
        const sp=V.node({pt:[...pn.pt.slice(0,i+1),piv,...pn.pt.slice(i+1)],et:[...pn.et.slice(0,i),null,null,...pn.et.slice(i+1)],ch:[...pn.ch.slice(0,i),...f,...pn.ch.slice(i+1)],b:[...pn.b.slice(0,i),pn.b[i].filter(x=>cmp(x[0],piv)<0),pn.b[i].filter(x=>cmp(x[0],piv)>=0),...pn.b.slice(i+1)]});
        return {want:true,uiop:U.NoOp,step:S.BetreeSplit(S.NodeFusion(p,cr,f[0],f[1],D(p),sp,D(cr),L,R,i,nl,piv))};}
      if(kind==='merge'){
        if(pn.b.length<2)return null;const i=t.below(pn.b.length-1),lr=pn.ch[i],rr=pn.ch[i+1],ln=tree.get(lr),rn=tree.get(rr),f=fresh(1);if(!f||!covers(pn,i,ln)||!covers(pn,i+1,rn)||!!ln.ch!==!!rn.ch)return null;
        const l=V.un(S.RestrictAndTranslateChild(D(p),D(lr),i)),r=V.un(S.RestrictAndTranslateChild(D(p),D(rr),i+1));
        if(V.weight(ln.b)+V.weight(rn.b)>V.bound||ln.b.length+rn.b.length>8||V.weight(l.b)+V.weight(r.b)>V.bound)return null;
        const piv=pn.pt[i+1];const fc=V.node({pt:[...l.pt.slice(0,-1),piv,...r.pt.slice(1)],et:[...l.et,...r.et],ch:l.ch&&[...l.ch,...r.ch],b:[...l.b,...r.b]});
        const fp=V.node({pt:pn.pt.filter((_,j)=>j!==i+1),et:[...pn.et.slice(0,i),null,...pn.et.slice(i+2)],ch:[...pn.ch.slice(0,i),f[0],...pn.ch.slice(i+2)],b:[...pn.b.slice(0,i),[...pn.b[i],...pn.b[i+1]],...pn.b.slice(i+2)]});
        return {want:true,uiop:U.NoOp,step:S.BetreeMerge(S.NodeFusion(p,f[0],lr,rr,fp,D(p),fc,D(lr),D(rr),i,ln.b.length,piv))};}
    };
    const succ=()=>{
      // keys that follow the same path as the start, contiguously
      const k0=kgen();addKey(k0);const a=t.below(3);const st=a===0?U.SInclusive(k0):a===1?U.SExclusive(k0):U.NegativeInf;const sk=a===2?[]:k0;
      const full=[];let r=0,x=sk;for(let d=0;d<20;d++){const n=tree.get(r);if(!n||!bounded(n.pt,x))return null;const i=route(n.pt,x);full.push({r,k:x,i});if(!n.ch)break;x=V.trans(n,i,x);r=n.ch[i];}
      const follows=y=>{let z=y;for(const f of full){const n=tree.get(f.r);if(!bounded(n.pt,z)||route(n.pt,z)!==f.i)return false;z=V.trans(n,f.i,z);}return true;};
      const k2=kgen();const e=t.below(3);const en=e===0?U.EInclusive(k2):e===1?U.EExclusive(k2):U.PositiveInf;if(!nonEmpty(st,en))return null;
      const all=universe(tree).filter(y=>inS(st,y)&&inE(y,en));
      const ok=all.every(follows)&&(e!==2||full.every(f=>tree.get(f.r).pt[f.i+1]===null));
      const rs=all.map(y=>[y,V.look(tree,y).value]).filter(q=>q[1]&&q[1].length).map(q=>U.SuccResult(q[0],q[1]));
      const lk=full.map(f=>S.Layer(G.ReadOp(f.r,D(f.r)),f.k));const bs=full.map(f=>D(f.r)._buckets[f.i]);
      const tt=S.LookupTranslationTable(lk,0,O.None);
      // an end exactly at a node's bound may or may not be allowed; strictly inside it must be
      const near_=ok&&e!==2&&all.concat([k2,k2.concat([0])]).every(follows);
      return {want:ok?(near_?true:null):null,ok,uiop:U.SuccOp(st,rs,en),step:S.BetreeSuccQuery(S.SuccQuery(st,rs,en,bs,tt,lk))};};
    check(M.Init(V.st(tree))===true,'Init rejects the empty tree');
    const n=t.size(3,26);
    for(let i=0;i<n;i++){
      const kind=t.weighted([[9,'put'],[7,'flush'],[2,'grow'],[4,'split'],[2,'merge'],[3,'repivot'],[3,'clone'],[2,'get'],[2,'succ']]);
      const tr=kind==='succ'?succ():make(kind);if(!tr)continue;universe(tree);
      c.log(()=>`${kind} ${show(tr.uiop)} on ${[...tree].map(([r,n])=>r+': '+V.show(n)).join(' | ')}`);
      const valid=S.ValidBetreeStep(tr.step);
      if(tr.want!==null)check(valid===tr.want,()=>`${kind} is ${tr.want?'not ':''}valid: ${show(tr.step)}`);
      if(!valid){c.label(kind+' refused');continue;}
      c.label(kind);const rd=S.BetreeStepReads(tr.step),ops=S.BetreeStepOps(tr.step);check(reads(tree,rd),()=>`${kind} reads something else`);const nx=apply(tree,ops);check(nx!==null,()=>`${kind} writes do not fit`);
      check(tr.uiop===null||S.BetreeStepUI(tr.step,tr.uiop)===true,()=>`${kind} is not ${show(tr.uiop)}`);
      if(tr.uiop===null){check(S.BetreeStepUI(tr.step,U.NoOp)===false,'an update message counts as a user operation');sound(tree,nx,U.NoOp,kind);tree=nx;k++;continue;}
      const s=V.st(tree),s2=V.st(nx);
      B.set({states:[[...inter(tree,ops,apply)].map(x=>V.BI.Variables(V.view(x)))],steps:[M.BetreeStep(tr.step)]});
      check(M.NextStep(s,s2,tr.uiop,M.BetreeStep(tr.step))===true,()=>`${kind} is rejected as a step`);
      sound(tree,nx,tr.uiop,kind);pool.walk(tr.step,'P');pool.walk(tr.uiop,'U');
      if(t.below(3)===2)refines(V,t,tree,nx,tr,seen,c);
      for(let j=0;j<3;j++){
        let q=perturb(t,tr.step,'P',pool),ui=tr.uiop;if(t.below(3)===2)q=perturb(t,q,'P',pool);if(t.below(4)===3)ui=perturb(t,ui,'U',pool);
        let o2;try{const vd=S.ValidBetreeStep(q)===true&&S.BetreeStepUI(q,ui)&&reads(tree,S.BetreeStepReads(q));o2=S.BetreeStepOps(q);if(o2.some(o=>N(o._ref)>13))continue;if(!vd){const nn=apply(tree,o2);if(!nn)continue;B.set({states:[[...inter(tree,o2,apply)].map(x=>V.BI.Variables(V.view(x)))],steps:[M.BetreeStep(q)]});if(M.NextStep(s,V.st(nn),ui,M.BetreeStep(q))!==true)continue;c.label('odd');}}catch(e){if(e instanceof $.DafnyFail||e instanceof TypeError||e instanceof RangeError||e instanceof $.Unsup)continue;throw e;}
        const nn=apply(tree,o2);if(!nn)continue;c.label('perturbed');sound(tree,nn,ui,'perturbed '+q.$cn+' '+show(q)+' as '+show(ui));
      }
      tree=nx;k++;if(tr.clone)clones++;
      if(tree.size>10||t.below(6)===5){const live=V.live(tree),dead=[...tree.keys()].filter(r=>!live.has(r));const nt=new Map([...tree].filter(([r])=>live.has(r)));universe(tree);
        check(M.NextStep(V.st(tree),V.st(nt),U.NoOp,M.GCStep(DSet.from(dead)))===true,()=>`collecting ${dead} is rejected`);
        const l2=[...live].filter(r=>r);if(l2.length){const r=t.pick(l2);const n3=new Map([...tree].filter(([x])=>x!==r&&live.has(x)));check(M.NextStep(V.st(tree),V.st(n3),U.NoOp,M.GCStep(DSet.from([...dead,r])))===false,()=>`collecting the live node ${r} is accepted`);}
        tree=nt;}
    }
    c.nontrivial(k>=3);c.sample(`${k} steps to ${tree.size} nodes, bound ${V.bound}`);
  };
}
function* inter(tree,ops,apply){let x=tree;yield x;for(const o of ops){x=apply(x,[o]);if(!x)return;yield x;}}
// the interpretation as an abstract tree reads the same, and the abstract tree makes the same step
function refines(V,t,tree,nx,tr,seen,c){
  const {M,SR,PR}=V,B=V.T;const s=V.st(tree),s2=V.st(nx);const keys=seen;
  const I=PR.I(s),I2=PR.I(s2),v=I._bcv._view,v2=I2._bcv._view;
  for(const [vv,tt,how] of [[v,tree,'before'],[v2,nx,'after']])for(const r of V.live(tt)){const n=tt.get(r),a=vv.get(r);for(const x of keys){
    const inb=bounded(n.pt,x),i=route(n.pt,x);const p=inb&&n.b[i].find(p=>cmp(p[0],x)===0);
    const m=p&&p[1].$cn==='Define'?p[1]:inb&&n.ch?V.nop:V.def([]);const has=inb&&!!n.ch;
    check(a._buffer.has(x)&&eq(a._buffer.get(x),m),()=>`${how}: node ${r} is interpreted to hold ${a._buffer.has(x)?show(a._buffer.get(x)):'nothing'} for [${x}], not ${show(m)}`);
    check(a._children.has(x)===has,()=>`${how}: node ${r} is interpreted ${has?'without':'with'} a child for [${x}]`);
    if(has){const e=a._children.get(x);check(N(e._ref)===n.ch[i]&&eq(e._edgeKey,V.trans(n,i,x)),()=>`${how}: node ${r} leads [${x}] to ${show(e)}`);}
  }}
  if(tr.step.$cn==='BetreeRepivot'){c.label('refined');return;}
  const st=SR.IStep(tr.step);
  // key universe of both trees' abstract versions
  B.focus([v,v2]);
  if(t.below(4)===3){B.focus([v2]);check(M.Inv(s2)===true,'the invariant fails');const mm=V.PM.I(s2)._view;for(const x of keys){const w=V.look(nx,x);check(mm.has(x)&&eq(mm.get(x),w.value),()=>`[${x}] is interpreted as ${show(mm.get(x))}, not [${w.value}]`);}B.focus([v,v2]);c.label('map view');}
  if(tr.step.$cn==='BetreeSuccQuery'){const lk=Array.from(tr.step._sq._lookup);return;}
  const ops=B.S.BetreeStepOps(st),rd=B.S.BetreeStepReads(st);
  check(B.S.ValidBetreeStep(st)===true,()=>`the abstract ${tr.step.$cn} is not valid`);
  check(B.S.BetreeStepUI(st,tr.uiop)===true,()=>`the abstract ${tr.step.$cn} is another operation`);
  for(const o of rd)check(B.eqNode(v.get(N(o._ref)),o._node),()=>`the abstract ${tr.step.$cn} reads something else at ${o._ref}`);
  const same=(a,b,how)=>{a=Array.from(a);b=Array.from(b);check(a.length===b.length&&a.every((o,i)=>o.$cn===b[i].$cn&&N(o._ref)===N(b[i]._ref)&&B.eqNode(o._node,b[i]._node)),()=>`${how} of ${tr.step.$cn} are interpreted differently`);};
  same(SR.IReadOps(V.S.BetreeStepReads(tr.step)),rd,'the reads');if(tr.step.$cn!=='BetreeFlush'||true)same(SR.IOps(V.S.BetreeStepOps(tr.step)),ops,'the writes');
  let x=v;for(const o of ops)x=x.set(N(o._ref),o._node);
  for(const r of nx.keys())check(x.has(r)&&B.eqNode(x.get(r),v2.get(r)),()=>`the abstract ${tr.step.$cn} writes something else at ${r}`);
  c.label('refined');
}
// functions on single nodes, over arbitrary well-formed (and damaged) nodes
function nodes({REPO}){
  const WS=[0,60].map(b=>world(REPO,b));
  return (t,c)=>{
    const V=t.pick(WS),{S,G,O}=V;V.T.setup();
    const rk=()=>t.bytes(0,3,AL);
    const rnode=(full,max)=>{let l=uniqSorted(t.list(1,max||6,rk));if(full&&l[0].length)l.unshift([]);l=l.slice(0,7);if(full||t.bool()||l.length<2)l.push(null);const m=l.length-1;const et=[...Array(m)].map((_,i)=>lcpOf(l[i],l[i+1]).length&&t.bool()?t.bytes(0,3,AL):null);
      const ch=t.below(3)?[...Array(m)].map(()=>1+t.below(5)):null;const b=l.slice(0,-1).map(()=>[]);const msgs=uniqSorted(t.list(0,6,()=>t.below(2)?near(t,l.filter(x=>x)):t.pick(l.slice(0,-1)).concat(t.bytes(0,2,AL))));for(const k of msgs)if(bounded(l,k)){const q=V.def(t.pick(VALS));if(V.weight(b)+V.weight([[[k,q]]])<=V.bound)b[route(l,k)].push([k,q]);}
      return {pt:l,et,ch,b};};
    const at=(n,k)=>{const i=route(n.pt,k),p=n.b[i].find(p=>cmp(p[0],k)===0);return [p?show(p[1]):'none',n.ch?n.ch[i]:-1,n.ch||n.et[i]!==null?ks(V.trans(n,i,k)):''].join('/');};
    const keysOf=ns=>uniqSorted(ns.flatMap(n=>[...n.pt.filter(x=>x).flatMap(k=>[k,k.concat([0]),k.concat([255]),k.slice(0,-1)]),...n.b.flat().map(p=>p[0])]).concat([...Array(6)].map(rk)));
    const agree=(how,g,n,lo,hi)=>{const e=V.wf(g);check(e===null,()=>`${how}: ill-formed (${e}): ${V.show(g)}`);check(cmp(g.pt[0],lo)===0&&ecmp(g.pt[g.pt.length-1],hi)===0,()=>`${how}: covers <${g.pt[0]}>..<${g.pt[g.pt.length-1]}>, not <${lo}>..<${hi}>`);
      for(const k of keysOf([g,n]))if(bounded(g.pt,k))check(at(g,k)===at(n,k),()=>`${how}: [${k}] becomes ${at(g,k)}, was ${at(n,k)}; ${V.show(n)} to ${V.show(g)}`);
      const cut=g.pt.length>2?g.pt.slice(1,-1):[];for(const p of n.pt)if(p!==null&&cmp(lo,p)<0&&ecmp(p,hi)<0)check(cut.some(x=>cmp(x,p)===0),()=>`${how}: the pivot <${p}> is lost`);check(cut.every(p=>n.pt.some(x=>ecmp(x,p)===0)),()=>`${how}: a pivot is invented`);};
    const w=t.below(8);c.log(()=>`case ${w}`);
    if(w===0){
      const n=rnode();const d=t.below(7);if(d===1)n.pt=t.pick([n.pt.slice(1),n.pt.concat([null]),[...n.pt].reverse()]);else if(d===2)n.et=t.bool()?n.et.slice(1):n.et.map(()=>[1]);else if(d===3&&n.ch)n.ch=t.bool()?n.ch.slice(1):n.ch.concat([1]);else if(d===4)n.b=t.bool()?n.b.slice(1):n.b.map(b=>b.slice().reverse());else if(d===5)n.b=n.b.map(b=>b.concat([[rk(),V.def([7])]]));
      else if(d===6&&V.bound<100)n.b[0]=n.b[0].concat([[n.pt[0].concat([1,1,1]),V.def([...Array(40)].map(()=>1))]]);
      c.log(()=>V.show(n));const e=(()=>{try{return V.wf(n);}catch(x){return 'broken';}})();const v=V.node(n);const r=S.InvNode(v);check(r===(e===null),()=>`the node invariant is ${r} for ${V.show(n)} (${e})`);
      // a leaf pivot table out of order inside buckets is still a node; otherwise the same
      if(e===null)check(S.WFNode(v)===true,()=>`WFNode rejects ${V.show(n)}`);else if(!/order/.test(e)&&!/wrong bucket/.test(e))check(S.WFNode(v)===false,()=>`WFNode accepts ${V.show(n)} (${e})`);
      c.nontrivial(true);c.label(e===null?'well-formed':'ill-formed');return;}
    if(w<=3){
      const n=rnode(),last=n.pt[n.pt.length-1];const pick=()=>t.below(3)?near(t,n.pt.filter(x=>x)):rk();const a=pick(),b=pick();c.log(()=>`${V.show(n)} at <${a}> <${b}>`);const d=V.node(n);
      if(w===1){if(!(cmp(n.pt[0],a)<0&&ecmp(a,last)<=0))return;agree('keeping the left',V.un(S.CutoffNodeAndKeepLeft(d,a)),n,n.pt[0],a);}
      else if(w===2){if(!bounded(n.pt,a))return;agree('keeping the right',V.un(S.CutoffNodeAndKeepRight(d,a)),n,a,last);}
      else{const hi=t.below(3)?b:null;const ok=bounded(n.pt,a)&&(hi===null?last===null:cmp(n.pt[0],hi)<0&&ecmp(hi,last)<=0&&cmp(a,hi)<0);check(S.ValidSplitKey(d,a,hi===null?O.None:O.Some(hi))===ok,()=>`ValidSplitKey is ${!ok}`);if(!ok)return;agree('cutting off',V.un(S.CutoffNode(d,a,hi===null?O.None:O.Some(hi))),n,a,hi);}
      c.nontrivial(n.b.length>1);c.label(['','left','right','both'][w]);c.sample(V.show(n));return;}
    if(w<=5){
      const p=rnode();p.ch=p.ch||p.b.map(()=>1);const i=t.below(p.b.length);let lo=p.pt[i],hi=p.pt[i+1];if(p.et[i]!==null){const q=lcpOf(lo,hi);hi=hi===null||!isPre(q,hi)?nextOf(p.et[i]):p.et[i].concat(hi.slice(q.length));lo=p.et[i].concat(lo.slice(q.length));}
      // a child that covers the slot
      const ch=rnode();let pts=uniqSorted([...ch.pt.filter(x=>x!==null),t.below(2)?lo:[],...(hi!==null&&t.below(2)?[hi]:[]),...t.list(0,2,()=>lo.concat(t.bytes(0,2,AL)))]);if(cmp(pts[0],lo)>0)pts.unshift(lo);
      let end=null;if(hi!==null&&t.bool()){pts=pts.filter(x=>cmp(x,hi)<=0);if(cmp(pts[pts.length-1],hi)<0)pts.push(hi);end=undefined;}
      if(end===null)pts.push(null);if(pts.length<2)return;if(pts.length>9){const keep=[pts[0],...pts.slice(1,-1).filter(()=>t.bool()).slice(0,6),pts[pts.length-1]];pts=keep;}
      const m=pts.length-1;const n={pt:pts,et:[...Array(m)].map((_,j)=>lcpOf(pts[j],pts[j+1]).length&&t.bool()?t.bytes(0,3,AL):null),ch:t.bool()?[...Array(m)].map(()=>1+t.below(5)):null,b:[...Array(m)].map(()=>[])};
      for(const k of uniqSorted([...t.list(0,5,()=>near(t,pts.filter(x=>x))),...t.list(0,3,()=>lo.concat(t.bytes(0,2,AL)))]))if(bounded(pts,k)){const q=[k,V.def(t.pick(VALS))];if(V.weight(n.b)+V.weight([[q]])<=V.bound)n.b[route(pts,k)].push(q);}
      if(V.wf(n)!==null||V.wf(p)!==null)return;
      c.log(()=>`slot ${i} of ${V.show(p)} over ${V.show(n)}`);
      const g=V.un(S.RestrictAndTranslateChild(V.node(p),V.node(n),i));
      check(cmp(g.pt[0],p.pt[i])===0&&ecmp(g.pt[g.pt.length-1],p.pt[i+1])===0,()=>`covers <${g.pt[0]}>..<${g.pt[g.pt.length-1]}>`);
      const wf=V.wf(g);check(wf===null||wf==='too heavy',()=>`ill-formed (${wf}): ${V.show(g)}`);
      for(const k of uniqSorted(keysOf([g,p]).concat(keysOf([n]).map(k=>p.et[i]===null?k:lcpOf(p.pt[i],p.pt[i+1]).concat(k.slice(p.et[i].length))))))if(bounded(g.pt,k)){const k2=V.trans(p,i,k);if(!bounded(n.pt,k2)){check(false,()=>`harness: [${k2}] is outside the child`);}
        const a=at(g,k),b=at(n,k2);const eqv=a===b||n.ch===null&&a.split('/')[0]===b.split('/')[0];check(eqv,()=>`[${k}] becomes ${a}; the child has ${b} for [${k2}]; ${V.show(g)}`);}
      c.nontrivial(p.et[i]!==null||n.b.length>1);c.label(p.et[i]===null?'restrict':'restrict and translate');c.sample(V.show(n));return;}
    if(w===6){
      const n=rnode(true,5);if(!n.ch)n.ch=n.b.map((_,i)=>1+i);const from=t.below(3)?near(t,n.pt.filter(x=>x)).slice(0,2):t.bytes(0,2,AL);let to=near(t,n.pt.filter(x=>x)).slice(0,3);if(!to.length)to=[1];if(V.wf(n)!==null)return;
      c.log(()=>`clone ${from} to ${to} of ${V.show(n)}`);const d=V.node(n);const clean=n.b.every(b=>b.every(([x])=>!isPre(from,x)));check(S.ValidCloneBucketList(d,from)===clean,()=>`ValidCloneBucketList is ${!clean}`);
      const g=V.un(S.CloneNewRoot(d,from,to));check(cmp(g.pt[0],[])===0&&g.pt[g.pt.length-1]===null,'the new root does not cover every key');const e=V.wf(g);check(e===null||/slots/.test(e)&&g.b.length>8,()=>`ill-formed (${e}): ${V.show(g)}`);
      for(const k of uniqSorted(keysOf([g,n]).concat(keysOf([n]).filter(x=>isPre(from,x)).map(x=>to.concat(x.slice(from.length)))))){const k0=isPre(to,k)?from.concat(k.slice(to.length)):k;const a=at(g,k).split('/'),b=at(n,k0).split('/');check((isPre(to,k)?a[0]==='none':a[0]===b[0])&&a[1]===b[1]&&a[2]===b[2],()=>`[${k}] becomes ${a}; [${k0}] was ${b}; ${V.show(g)}`);}
      c.nontrivial(true);c.label('clone root');c.sample(V.show(n));return;}
    const n=rnode(),k=t.below(3)?near(t,n.pt.filter(x=>x)):rk();if(!bounded(n.pt,k)||V.wf(n)!==null)return;const q=t.below(4)===3?V.nop:V.def(t.pick(VALS));c.log(()=>`${show(q)} at <${k}> into ${V.show(n)}`);
    const i=route(n.pt,k);const old=n.b[i].find(p=>cmp(p[0],k)===0);const nm=q.$cn==='Define'?q:old?old[1]:q;const bs=lastOf([...n.b[i],[k,nm]]);
    check(show(S.NodeLookup(V.node(n),k))===show(old?old[1]:V.nop),()=>`NodeLookup is ${show(S.NodeLookup(V.node(n),k))}`);
    for(const [how,g] of [['AddMessageToNode',V.un(S.AddMessageToNode(V.node(n),k,q))],['NodeInsertKeyValue',V.un(S.NodeInsertKeyValue(V.node(n),k,q))]]){
      const strip=b=>b.filter(p=>!(p[1].$cn==='Update'&&cmp(p[0],k)===0));
      check(g.b.every((b,j)=>{const e=strip(j===i?bs:n.b[j]),x=strip(b);return x.length===e.length&&x.every((p,l)=>cmp(p[0],e[l][0])===0&&eq(p[1],e[l][1]));}),()=>`${how} gives ${V.show(g)}`);check(eq(g.pt,n.pt)&&eq(g.ch||[],n.ch||[]),`${how} changes pivots or children`);}
    c.nontrivial(true);c.label('message');
  };
}
exports.props={P02:{rule:'a history of at least three steps, or a function applied to a node with several children or a translating edge',parts:{steps:{make:steps,weight:3},nodes:{make:nodes,weight:1}},quick:30,thorough:600,assumptions:['keys of up to 13 bytes over a few byte values; 14 node references; bucket weight bounds of 60, 130 and the real one']}};
