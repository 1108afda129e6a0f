'use strict';
// P01: the abstract B-epsilon tree (nodes as infinite maps) and its refinement of the map.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES}=require('../externs.js');const {check,discard}=require('../pbt.js');
const {DMap,DSet,IMap,ISet}=$;const {contractsPart}=require('../contract.js');const {Pool,perturb,upd,same}=require('../sm.js');
const eq=$.eq,key=$.key;
const KEYS=[[],[0],[1],[2],[0,0],[0,1],[1,0],[1,1],[0,0,1]];
const VALS=[[],[7],[8,8],[9]];
const lt=(a,b)=>{for(let i=0;i<Math.min(a.length,b.length);i++)if(a[i]!==b[i])return a[i]<b[i];return a.length<b.length;};
const lte=(a,b)=>eq(a,b)||lt(a,b);
const pre=(k,p)=>p.length<=k.length&&p.every((x,i)=>k[i]===x);
const inStart=(s,k)=>s.$cn==='SInclusive'?lte(s._key,k):s.$cn==='SExclusive'?lt(s._key,k):true;
const inEnd=(k,e)=>e.$cn==='EInclusive'?lte(k,e._key):e.$cn==='EExclusive'?lt(k,e._key):true;
const nonEmptyRange=(s,e)=>s.$cn==='NegativeInf'||e.$cn==='PositiveInf'?true:s.$cn==='SInclusive'&&e.$cn==='EInclusive'?lte(s._key,e._key):lt(s._key,e._key);
const RU={k:'refs'};
function world(REPO,PP){
  const P=PP||new Program({externs:EX,types:TYPES,guess:true}).load(REPO+'/Betree/AsyncBetree_Refines_AsyncMap.i.dfy');
  const m=n=>P.m(n);const W={P,B:m('Betree'),S:m('BetreeSpec'),G:m('BetreeGraph'),BI:m('BetreeBlockInterface'),Inv:m('BetreeInv'),R:m('Betree_Refines_Map'),...(PP?{}:{A:m('AsyncBetree'),AR:m('AsyncBetree_Refines_AsyncMap'),Q:m('QueryStates')}),U:m('UI'),MS:m('MapSpec'),M:m('ValueMessage')};
  let KS=KEYS,KU=KEYS,KU0=KEYS,PAIRS=[],clones=0,REFS=[0,1,2,3,4,5,6,7,8,9,10,11,12,13],PATHS=[],LOOK=[],STATES=[],STEPS=[],AS=[];
  const nop=W.M.Update(W.M.NopDelta()),def=v=>W.M.Define(v);
  const isNop=x=>x.$cn==='Update';
  const merge=(a,b)=>a.$cn==='Define'?a:b;                 // newer over older
  const node=(ch,buf)=>W.G.Node(ch,buf),edge=(k,r)=>W.G.Edge(k,r);
  const fm=(p,f,ov)=>new IMap(x=>typeof x==='object'&&p(x),f,{k:'KU'},ov);            // a function on keys
  const vw=nodes=>new IMap(()=>false,null,RU,new Map([...nodes].map(([r,n])=>[key(r),[r,n]])));
  const refs=v=>[...v.ov.values()].map(e=>e[0]).sort((a,b)=>a-b);
  const has=(v,r)=>v.has(r),get=(v,r)=>v.get(r);
  const uni=u=>{
    if(!u||!u.k||u.k==='KU')return KU;if(u.k==='refs')return REFS;
    if(u.k==='dt'){const n=u.cell.qname;if(n==='Betree.Step')return STEPS;if(n==='AsyncBetree.Step')return AS;return null;}
    if(u.k==='tp')return PP?KU:[...KU,...REFS];if(u.k==='int')return [0,1,2,3,4,5];
    if(u.name==='uint64')return REFS;if(u.name==='byte')return null;
    if(u.k==='seq'){const a=u.a;if(!a)return null;if(a.k==='dt'){if(a.cell.name==='Layer')return LOOK;if(a.cell.name==='Variables')return STATES;return null;}if(a.name==='uint64')return PATHS;if(a.name==='byte')return u.alias==='Value'||/Value/.test(String(u.alias))?VALS:KU;}
    return null;};
  W.setup=()=>{$.universes.length=0;$.universes.push(uni);};
  // ---- semantics, independently
  const lookup=(v,k,r=0)=>{const ls=[];let x=k;for(let d=0;d<40;d++){if(!has(v,r))return {ls,ok:false,why:'dangling '+r};const n=get(v,r);ls.push({r,n,k:x});if(!n._buffer.has(x))return {ls,ok:false,why:'no message'};const b=n._buffer.get(x);if(b.$cn==='Define')return {ls,ok:true,value:b._value};if(!n._children.has(x))return {ls,ok:false,why:'no child'};const e=n._children.get(x);r=e._ref;x=e._edgeKey;}return {ls,ok:false,why:'cycle'};};
  const succs=n=>{const s=new Set();for(const k of [...KU,...(n._children.ov?[...n._children.ov.values()].map(e=>e[0]):[])])if(n._children.has(k))s.add(n._children.get(k)._ref);return s;};
  const layers=ls=>ls.map(l=>W.S.Layer(W.G.ReadOp(l.r,l.n),l.k));
  W.values=v=>KEYS.map(k=>{const l=lookup(v,k);return l.ok?l.value:null;});
  // path keys, reachable paths
  // keys outside the universe must stay invisible: a history renames by two chosen prefix pairs, at most three times
  W.begin=t=>{PAIRS=[[t.pick(KEYS),t.pick(KEYS)],[t.pick(KEYS),t.pick(KEYS)]];clones=0;let s=new Map(KEYS.map(k=>[key(k),k])),last=KEYS;for(let d=0;d<3;d++){const nx=[];for(const k of last)for(const [f,to] of PAIRS)if(pre(k,to)){const x=[...f,...k.slice(to.length)];if(!s.has(key(x))&&x.length<9){s.set(key(x),x);nx.push(x);}}last=nx;}KU=KU0=[...s.values()];};
  W.inside=st=>st.$cn!=='BetreeClone'||KU0.every(k=>!st._clone._new_to_old.has(k)||KU0.some(x=>eq(x,st._clone._new_to_old.get(k))));
  W.cloned=()=>{clones++;};W.sample=ks=>{KS=KU=KU0=ks;};
  const close=vs=>{const s=new Map(KU0.map(k=>[key(k),k]));for(const v of vs)for(const k of KS)for(const l of lookup(v,k).ls)s.set(key(l.k),l.k);KU=[...s.values()];};
  const graphPaths=vs=>{const out=new Map();for(const v of vs){const all=refs(v),sc=new Map(all.map(r=>[r,has(v,r)?[...succs(get(v,r))]:[]]));const go=(p,d)=>{if(out.size>1500)return;out.set(p.join(),p);if(d>7)return;for(const n of sc.get(p[p.length-1])||[]){if(p.includes(n)){continue;}go([...p,n],d+1);}};for(const r of all)go([r],0);}return [...out.values(),[]];};
  W.focus=(vs,starts=[0],deep=true)=>{close(vs);PATHS=deep?graphPaths(vs):[];LOOK=[];for(const v of vs)for(const r of starts)for(const k of KU){const l=lookup(v,k,r);if(l.ls.length)LOOK.push(layers(l.ls));}};
  W.look=l=>LOOK.push(l);
  W.acyclic=v=>{const st=new Map();const go=r=>{if(st.get(r)===2)return true;if(st.get(r)===1)return false;st.set(r,1);if(has(v,r))for(const n of succs(get(v,r)))if(!go(n))return false;st.set(r,2);return true;};return refs(v).every(go);};
  W.closed=v=>refs(v).every(r=>[...succs(get(v,r))].every(n=>has(v,n)));
  W.live=v=>{const s=new Set([0]);const go=r=>{if(has(v,r))for(const n of succs(get(v,r)))if(!s.has(n)){s.add(n);go(n);}};if(has(v,0))go(0);return s;};
  const applyOps=(v,ops)=>{const path=[v];for(const o of ops){if((o.$cn==='AllocOp')===has(v,o._ref))return null;for(const r of succs(o._node))if(!has(v,r))return null;v=v.set(o._ref,o._node);path.push(v);}return path;};
  Object.assign(W,{nop,def,isNop,merge,node,edge,fm,vw,refs,has,get,lookup,succs,layers,applyOps,st:v=>W.B.Variables(W.BI.Variables(v)),
    set:(o)=>{if(o.states)STATES=o.states;if(o.steps)STEPS=o.steps;if(o.as)AS=o.as;},KU:()=>KU,PATHS:()=>PATHS});
  W.empty=()=>vw([[0,node(fm(()=>false,()=>null),fm(()=>true,()=>def([])))]]);
  W.reads=(v,ops)=>ops.every(o=>has(v,o._ref)&&eqNode(get(v,o._ref),o._node));
  const eqF=(a,b)=>[...KU,...[a,b].flatMap(m=>m.ov?[...m.ov.values()].map(e=>e[0]):[])].every(k=>a.has(k)===b.has(k)&&(!a.has(k)||eq(a.get(k),b.get(k))));
  const eqNode=(a,b)=>a===b||eqF(a._children,b._children)&&eqF(a._buffer,b._buffer);
  W.eqNode=eqNode;
  const settle=f=>{const ov=new Map();for(const k of KU)if(f.has(k))ov.set(key(k),[k,f.get(k)]);const miss=new Set(KU.filter(k=>!f.has(k)).map(key));return new IMap(k=>typeof k==='object'&&!miss.has(key(k))&&f.has(k),k=>f.get(k),{k:'KU'},ov);};
  const fresh=(t,v,n)=>{const free=REFS.filter(r=>!has(v,r));const r=[];for(let i=0;i<n&&free.length;i++)r.push(free.splice(t.below(Math.min(3,free.length)),1)[0]);return r.length===n?r:null;};
  // ---- legal steps: {uiop, step (BetreeStep), name}
  W.step=(t,v,kinds)=>{
    const S=W.S,U=W.U,root=get(v,0);const k=t.pick(KEYS);
    const inner=refs(v).filter(r=>W.live(v).has(r)&&succs(get(v,r)).size);
    const kind=t.weighted(kinds||[[6,'put'],[5,'flush'],[2,'grow'],[4,'redirect'],[3,'clone'],[2,'get'],[2,'succ']]);
    if(kind==='put'){const x=t.pick(VALS);const msg=t.below(8)===7?nop:def(x);return {name:kind,uiop:msg===nop?null:U.PutOp(k,x),step:S.BetreeInsert(S.MessageInsertion(k,msg,root))};}
    if(kind==='get'){const l=lookup(v,k);if(!l.ok)return null;return {name:kind,uiop:U.GetOp(k,l.value),step:S.BetreeQuery(S.LookupQuery(k,l.value,layers(l.ls)))};}
    if(kind==='succ'){
      // a range whose keys all follow one path of nodes
      const l0=lookup(v,k);if(!l0.ok)return null;const pathOf=x=>{const l=lookup(v,x);return l.ok?l:null;};
      const a=t.below(3),b=t.below(3),k2=t.pick(KEYS);const st=a===0?U.SInclusive(k):a===1?U.SExclusive(k):U.NegativeInf,en=b===0?U.EInclusive(k2):b===1?U.EExclusive(k2):U.PositiveInf;
      if(!nonEmptyRange(st,en))return null;const ks=KU_().filter(x=>inStart(st,x)&&inEnd(x,en)).sort((x,y)=>lt(x,y)?-1:1);
      // longest lookup along the path of k, continued past defining nodes
      let full=[],r=0,x=k;for(let d=0;d<20;d++){const n=get(v,r);full.push({r,n,k:x});if(!n._children.has(x))break;const e=n._children.get(x);r=e._ref;x=e._edgeKey;}
      full=full.slice(0,1+t.below(full.length));
      const along=x=>{const out=[];let y=x;for(let i=0;i<full.length;i++){if(!full[i].n._buffer.has(y))return null;out.push({r:full[i].r,n:full[i].n,k:y});if(i+1<full.length){if(!full[i].n._children.has(y))return null;const e=full[i].n._children.get(y);if(e._ref!==full[i+1].r)return null;y=e._edgeKey;}}const dm=out.map(o=>o.n._buffer.get(o.k)).find(b=>b.$cn==='Define');return dm?{ls:out,value:dm._value}:null;};
      const al=ks.map(along);if(al.some(q=>!q))return null;
      const rs=ks.map((q,i)=>[q,al[i].value]).filter(q=>q[1].length).map(q=>U.SuccResult(q[0],q[1]));
      return {name:kind,uiop:U.SuccOp(st,rs,en),extra:al.map(q=>layers(q.ls)),step:S.BetreeSuccQuery(S.SuccQuery(st,rs,en,layers(full)))};}
    if(kind==='grow'){const f=fresh(t,v,1);if(!f)return null;return {name:kind,uiop:U.NoOp,step:S.BetreeGrow(S.RootGrowth(root,f[0]))};}
    if(kind==='flush'){
      if(!inner.length)return null;const p=t.pick(inner),pn=get(v,p),c=t.pick([...succs(pn)]),cn=get(v,c),f=fresh(t,v,1);if(!f)return null;
      const lo=t.below(3)===2?t.pick(KEYS):null;const moved=new ISet(x=>typeof x==='object'&&pn._children.has(x)&&pn._children.get(x)._ref===c&&(lo===null||lte(lo,x)),{k:'KU'});
      const fl=t.below(3)===2?t.pick(KEYS):null;const flushed=new ISet(x=>typeof x==='object'&&moved.has(x)&&(fl===null||lt(x,fl)),{k:'KU'});
      if(!KU_().some(x=>moved.has(x)))return null;
      const ek=x=>pn._children.get(x)._edgeKey;
      const np=node(settle(fm(x=>pn._children.has(x),x=>moved.has(x)?edge(x,f[0]):pn._children.get(x))),settle(fm(()=>true,x=>flushed.has(x)?nop:pn._buffer.get(x))));
      const nc=node(settle(fm(x=>moved.has(x)&&cn._children.has(ek(x)),x=>cn._children.get(ek(x)))),settle(fm(()=>true,x=>moved.has(x)?(flushed.has(x)?merge(pn._buffer.get(x),cn._buffer.get(ek(x))):cn._buffer.get(ek(x))):def([]))));
      return {name:kind,uiop:U.NoOp,step:S.BetreeFlush(S.NodeFlush(p,pn,np,c,cn,f[0],nc,moved,flushed))};}
    if(kind==='redirect'){
      if(!inner.length)return null;const p=t.pick(inner),pn=get(v,p);const lo=t.below(2)?t.pick(KEYS):null,hi=t.below(2)?t.pick(KEYS):null;
      const ks=new ISet(x=>typeof x==='object'&&pn._children.has(x)&&(lo===null||lte(lo,x))&&(hi===null||lt(x,hi)),{k:'KU'});
      const olds=[...new Set(KU_().filter(x=>ks.has(x)).map(x=>pn._children.get(x)._ref))];if(!olds.length)return null;
      const cut=t.below(3)?t.pick(KEYS):null;const f=fresh(t,v,2);if(!f)return null;
      const which=x=>cut!==null&&lte(cut,x)?1:0;const used=[0,1].filter(i=>KU_().some(x=>ks.has(x)&&which(x)===i));
      const old=x=>{const e=pn._children.get(x);return {n:get(v,e._ref),k:e._edgeKey};};
      const nn=i=>{const mine=x=>ks.has(x)&&which(x)===i;return node(settle(fm(x=>mine(x)&&old(x).n._children.has(old(x).k),x=>{const o=old(x);return o.n._children.get(o.k);})),settle(fm(()=>true,x=>{if(!mine(x))return def([]);const o=old(x);return o.n._buffer.get(o.k);})));};
      const np=node(settle(fm(x=>pn._children.has(x),x=>ks.has(x)?edge(x,f[which(x)]):pn._children.get(x))),pn._buffer);
      return {name:kind,uiop:U.NoOp,step:S.BetreeRedirect(S.Redirect(p,pn,olds,vw(olds.map(r=>[r,get(v,r)])),np,used.map(i=>f[i]),vw(used.map(i=>[f[i],nn(i)])),ks))};}
    if(kind==='clone'){
      if(clones>=3)return null;const [from,to]=t.pick(PAIRS);const nto=fm(x=>pre(x,to),x=>[...from,...x.slice(to.length)]);
      if(!KU_().every(x=>!nto.has(x)||isNop(root._buffer.get(nto.get(x)))&&root._children.has(nto.get(x))))return null;
      const nr=node(settle(fm(x=>nto.has(x)||root._children.has(x),x=>nto.has(x)?root._children.get(nto.get(x)):root._children.get(x))),settle(fm(()=>true,x=>nto.has(x)?nop:root._buffer.get(x))));
      return {name:kind,uiop:U.CloneOp(from,to),step:S.BetreeClone(S.Clone(root,nr,nto))};}
  };
  const KU_=()=>KU;
  // what the operation should have done to the map
  W.expect=(v,uiop)=>{const val=k=>{const l=lookup(v,k);return l.ok?l.value:null;};
    if(!uiop||['NoOp','GetOp','SuccOp'].includes(uiop.$cn))return KEYS.map(val);
    if(uiop.$cn==='PutOp')return KEYS.map(k=>eq(k,uiop._key)?uiop._value:val(k));
    if(uiop.$cn==='CloneOp')return KEYS.map(k=>pre(k,uiop._to)?val([...uiop._from,...k.slice(uiop._to.length)]):val(k));return null;};
  W.answer=(v,uiop)=>{const val=k=>{const l=lookup(v,k);return l.ok?l.value:null;};
    if(uiop.$cn==='GetOp'){const x=val(uiop._key);return x!==null&&eq(x,uiop._value);}
    if(uiop.$cn==='SuccOp'){if(!nonEmptyRange(uiop._start,uiop._end))return false;const want=KEYS.filter(k=>inStart(uiop._start,k)&&inEnd(k,uiop._end)&&val(k).length).sort((x,y)=>lt(x,y)?-1:1);const rs=uiop._results;if(rs.some((r,i)=>i&&!lt(rs[i-1]._key,r._key)||!inStart(uiop._start,r._key)||!inEnd(r._key,uiop._end)||!r._value.length||!eq(r._value,val(r._key)||[])))return false;return want.every(k=>rs.some(r=>eq(r._key,k)));}
    return true;};
  return W;
}
const show=x=>$.show?$.show(x).slice(0,300):String(x);
const fmtV=a=>a.map(x=>x===null?'?':x.length?x.join('.'):'-').join(' ');
function steps({REPO}){
  const W=world(REPO);const {B,S,U}=W;
  return (t,c)=>{
    W.setup();W.begin(t);let v=W.empty();const pool=new Pool();let k=0;
    W.focus([v]);check(B.Init(W.st(v))===true,'Init rejects the empty tree');
    const bad=W.vw([[0,W.get(v,0)],[1,W.get(v,0)]]);check(B.Init(W.st(bad))===false,'Init accepts two nodes');
    const n=t.size(2,16);
    const sound=(v,n,uiop,step,how)=>{
      W.focus([v,n]);const want=W.expect(v,uiop),got=W.values(n);
      check(want.every((x,i)=>x===null||got[i]!==null&&eq(x,got[i])),()=>`${how}: keys read ${fmtV(got)}, not ${fmtV(want)}`);
      check(W.answer(v,uiop),()=>`${how}: wrong answer ${show(uiop)} for ${fmtV(got)}`);
      check(W.closed(n),()=>`${how}: the tree is no longer closed`);check(W.acyclic(n),()=>`${how}: the tree is no longer acyclic`);};
    const judge=(v,step,uiop,extra)=>{         // run the step as the code defines it; null when its reads or writes do not fit
      W.focus([v]);if(extra)for(const l of extra)W.look(l);
      if(S.ValidBetreeStep(step)!==true)return null;
      const reads=S.BetreeStepReads(step),ops=S.BetreeStepOps(step);if(ops.some(o=>!(typeof o._ref==='number'&&o._ref>=0&&o._ref<14)))return null;const path=W.applyOps(v,ops);
      const ok=W.reads(v,reads)&&path!==null;const nx=path?path[path.length-1]:v;
      W.set({states:path?[path.map(x=>W.BI.Variables(x))]:[],steps:[B.BetreeStep(step)]});
      return {ok,n:nx,ui:uiop?S.BetreeStepUI(step,uiop):null};};
    for(let i=0;i<n;i++){
      W.focus([v]);const tr=W.step(t,v);if(!tr)continue;c.label(tr.name);c.log(()=>`${tr.name} ${show(tr.uiop)} ${show(tr.step)}`);
      W.focus([v]);const r=judge(v,tr.step,tr.uiop,tr.extra);
      check(r!==null,()=>`${tr.name} is not valid: ${show(tr.step)}`);check(r.ok,()=>`${tr.name}: reads or writes do not fit: ${show(tr.step)}`);
      if(tr.uiop){check(r.ui===true,()=>`${tr.name} is not the operation ${show(tr.uiop)}`);
        check(B.NextStep(W.st(v),W.st(r.n),tr.uiop,B.BetreeStep(tr.step))===true,()=>`${tr.name} is rejected as a step`);
        if(t.below(4)===0)check(B.Next(W.st(v),W.st(r.n),tr.uiop)===true,()=>`Next does not contain ${tr.name}`);
        sound(v,r.n,tr.uiop,tr.step,tr.name);}
      else check(S.BetreeStepUI(tr.step,U.NoOp)===false&&S.BetreeStepUI(tr.step,U.PutOp(KEYS[0],[7]))===false,'an update message counts as a user operation');
      const n2=r.n;pool.walk(tr.step,'P');if(tr.uiop)pool.walk(tr.uiop,'U');
      // perturbed steps: whatever is accepted must still mean its operation
      for(let j=0;j<5;j++){
        let st2=perturb(t,tr.step,'P',pool);if(t.below(3)===2)st2=perturb(t,st2,'P',pool);let ui2=tr.uiop;if(ui2&&t.below(4)===3)ui2=perturb(t,ui2,'U',pool);
        let q;try{q=st2._clone!==tr.step._clone&&!W.inside(st2)?null:judge(v,st2,ui2,tr.extra);}catch(e){if(e instanceof $.DafnyFail||e instanceof TypeError||e instanceof $.Unsup)continue;throw e;}
        if(!q){try{W.focus([v]);const ops=S.BetreeStepOps(st2);if(!ui2||ops.some(o=>!(o._ref>=0&&o._ref<14)))continue;const path=W.applyOps(v,ops);if(!path)continue;W.set({states:[path.map(x=>W.BI.Variables(x))],steps:[B.BetreeStep(st2)]});const nn=path[path.length-1];if(B.NextStep(W.st(v),W.st(nn),ui2,B.BetreeStep(st2))===true){c.label('odd');sound(v,nn,ui2,st2,'invalid '+st2.$cn);}}catch(e){if(e instanceof $.DafnyFail||e instanceof TypeError||e instanceof $.Unsup)continue;throw e;}continue;}
        const post=t.below(5)===4?v:q.n;if(post!==q.n)c.label('stale');
        if(!ui2)continue;
        const acc=B.NextStep(W.st(v),W.st(post),ui2,B.BetreeStep(st2));
        if(acc){c.label('perturbed '+st2.$cn);sound(v,post,ui2,st2,'perturbed '+st2.$cn+' '+show(st2)+' as '+show(ui2));}
        else if(q.ok&&q.ui&&post===q.n)check(false,()=>`valid ${st2.$cn} with matching reads and writes is rejected`);
      }
      v=n2;k++;if(tr.name==='clone')W.cloned();
      if(W.refs(v).length>9||t.below(4)===3){  // collect what is unreachable
        W.focus([v]);const live=W.live(v),dead=W.refs(v).filter(r=>!live.has(r));
        let cut=dead;if(t.below(3)===2){const up=new Set(dead.filter(()=>t.bool()));for(let ch=true;ch;){ch=false;for(const r of dead)if(!up.has(r)&&[...up].some(u=>W.succs(W.get(v,r)).has(u))){up.add(r);ch=true;}}cut=[...up];}
        const nv=W.vw(W.refs(v).filter(r=>!cut.includes(r)).map(r=>[r,W.get(v,r)]));W.focus([v,nv]);
        check(B.NextStep(W.st(v),W.st(nv),U.NoOp,B.GCStep(DSet.from(cut)))===true,()=>`collecting ${cut} is rejected`);
        const any=W.refs(v).filter(()=>t.bool()),n3=W.vw(W.refs(v).filter(r=>!any.includes(r)).map(r=>[r,W.get(v,r)]));
        const want=any.every(r=>!live.has(r))&&W.refs(v).every(r=>any.includes(r)||!any.some(a=>W.succs(W.get(v,r)).has(a)));
        check(B.NextStep(W.st(v),W.st(n3),U.NoOp,B.GCStep(DSet.from(any)))===want,()=>`collecting ${any} of ${W.refs(v)} (live ${[...live]}) is ${want?'rejected':'accepted'}`);
        check(B.NextStep(W.st(v),W.st(v),U.PutOp([0],[7]),B.GCStep(DSet.from([])))===false,'a collection counts as a put');
        v=nv;}
    }
    c.nontrivial(k>=2);c.sample(`${k} steps to ${W.refs(v).length} nodes: ${fmtV(W.values(v))}`);
  };
}

// invariants, graph definitions and the interpretation
function refine({REPO}){
  const W=world(REPO);const {B,S,U,G,BI,Inv,R}=W;
  return (t,c)=>{
    W.setup();W.begin(t);let v=W.empty();const n=t.size(0,6);
    for(let i=0;i<n;i++){W.focus([v]);const tr=W.step(t,v,[[4,'put'],[4,'flush'],[3,'grow'],[3,'redirect'],[2,'clone']]);if(!tr)continue;if(tr.name==='clone')W.cloned();const p=W.applyOps(v,S.BetreeStepOps(tr.step));v=p[p.length-1];}
    // sometimes damage the tree: an edge redirected anywhere, a node lost, a message changed
    const d=t.below(6);let bad=false;
    if(d>=3){const rs=W.refs(v),r=t.pick(rs),nd=W.get(v,r),k=t.pick(KEYS);bad=true;
      if(d===3)v=v.set(r,W.node(nd._children.set(k,W.edge(t.pick(KEYS),t.pick([...rs,...rs,13]))),nd._buffer));
      else if(d===4)v=W.vw(rs.filter(x=>x!==r).map(x=>[x,W.get(v,x)]));
      else v=v.set(r,W.node(nd._children,nd._buffer.set(k,t.bool()?W.nop:W.def([7]))));}
    const s=W.st(v);c.log(()=>`${W.refs(v)} values ${fmtV(W.values(v))} damage ${d}`);
    W.focus([v]);const closed=W.closed(v),acy=W.acyclic(v),live=[...W.live(v)];
    const all=W.refs(v);
    check(G.IsClosed(v)===closed,()=>`IsClosed is ${!closed}`);check(BI.RefGraphIsClosed(s._bcv)===closed,()=>`RefGraphIsClosed is ${!closed}`);
    check(G.IsAcyclic(v)===acy,()=>`IsAcyclic is ${!acy}`);
    const rootPred=all.some(r=>W.succs(W.get(v,r)).has(0));check(BI.RootHasNoPredecessor(v)===!rootPred,'RootHasNoPredecessor');
    if(v.has(0)&&acy){const l=BI.LiveReferences(s._bcv);const reach=new Set([0]);const go=r=>{if(!v.has(r))return;for(const x of W.succs(W.get(v,r)))if(v.has(x)&&!reach.has(x)){reach.add(x);go(x);}};go(0);for(const r of all)check(l.has(r)===reach.has(r),()=>`reference ${r} is ${reach.has(r)?'not ':''}live`);}
    {const r=t.pick(all.length?all:[0]);const pr=BI.Predecessors(v,r);for(const x of all)check(pr.has(x)===W.succs(W.get(v,x)).has(r),'Predecessors');}
    for(let i=0;i<4;i++){const p=t.list(0,4,()=>t.pick(all.length?all:[0]));
      const isPath=p.every((x,i)=>i+1>=p.length||v.has(x)&&W.succs(W.get(v,x)).has(p[i+1]));check(G.IsPath(v,p)===isPath,()=>`IsPath ${p}`);
      check(BI.LookupIsValid(s._bcv,p)===(p.length>0&&p[0]===0&&p.every(x=>v.has(x))&&isPath),()=>`LookupIsValid ${p}`);check(G.IsCycle(v,p)===(isPath&&p.length>0&&v.has(p[p.length-1])&&W.succs(W.get(v,p[p.length-1])).has(p[0])),()=>`IsCycle ${p}`);check(G.IsSimple(v,p)===(isPath&&new Set(p).size===p.length),()=>`IsSimple ${p}`);}
    for(const r of all){const nd=W.get(v,r);const wf=W.KU().every(k=>nd._buffer.has(k)&&(nd._children.has(k)||nd._buffer.get(k).$cn==='Define'));check(S.WFNode(nd)===wf,()=>`WFNode ${r} is ${!wf}`);}
    if(all.length&&acy){const r=t.pick(all),from=new Set();const go=x=>{if(!v.has(x))return;for(const y of W.succs(W.get(v,x)))if(!from.has(y)){from.add(y);go(y);}};go(r);const R2=[...from].every(x=>v.has(x))?G.ReachableReferences(v,r):null;if(R2)for(const x of all)check(R2.has(x)===from.has(x),()=>`${x} is ${from.has(x)?'not ':''}reachable from ${r}`);
      const old=all.filter(()=>t.bool()),g=W.vw(old.map(x=>[x,W.get(v,x)])),nw=new Set();const walk=(x,d)=>{if(d>8)return;for(const y of W.succs(W.get(v,x))){if(!v.has(y))continue;if(old.includes(y))nw.add(y);else walk(y,d+1);}};if(acy&&closed){walk(r,0);const R3=G.NewlyReachableReferences(g,v,r);for(const x of all)check(R3.has(x)===nw.has(x),()=>`${x} is ${nw.has(x)?'not ':''}newly reachable from ${r}`);}}
    // every key has an answer
    if(acy&&v.has(0)){
      const vals=W.values(v);const wf=k=>{const l=W.lookup(v,k);return l.ok&&l.ls.every(x=>S.WFNode(x.n));};const okAll=KEYS.every(wf);
      const kk=t.pick(KEYS);const has=Inv.KeyHasSatisfyingLookup(v,kk,0);check(has===wf(kk),()=>`key [${kk}] ${has?'has':'lacks'} a satisfying lookup`);
      if(W.KU().every(wf)){const I=R.I(s);for(let i=0;i<KEYS.length;i++)check(eq(I._view.get(KEYS[i]),vals[i]),()=>`key [${KEYS[i]}] is interpreted as ${show(I._view.get(KEYS[i]))}, not ${show(vals[i])}`);}
      if(!bad){check(okAll,'harness: lookup');check(Inv.Inv(s)===true,'the invariant rejects a tree built by legal steps');}
      else if(closed===false||rootPred)check(Inv.Inv(s)===false,'the invariant accepts a damaged tree');
      else if(!W.KU().every(wf))check(Inv.Inv(s)===false,'the invariant accepts a tree without an answer for some key');
    }else if(v.has(0)&&!acy)check(Inv.Inv(s)===false,'the invariant accepts a cyclic tree');
    c.label(bad?'damaged':'built');c.label(acy?closed?'sound':'open':'cyclic');c.nontrivial(all.length>1);c.sample(`${all.length} nodes, values ${fmtV(vals_(W,v))}`);
  };
}
const vals_=(W,v)=>v.has(0)?W.values(v):[];
// asynchronous queries walk down a tree that changes underneath them
function async({REPO}){
  const W=world(REPO);const {B,S,U,A,AR,Q,M}=W;
  return (t,c)=>{
    W.setup();W.begin(t);let v=W.empty();let qs=new Map();          // id -> {q, want}
    const st=(v,qs)=>A.Variables(W.st(v),DMap.of([...qs].map(([i,e])=>[i,e.q])));
    W.focus([v]);check(A.Init(st(v,qs))===true,'Init');let k=0,fin=0;
    const busy=r=>[...qs.values()].some(e=>e.q.$cn==='InProgress'&&e.q._ref===r);
    const n=t.size(3,22);
    for(let i=0;i<n;i++){
      const w=t.below(8);const s=st(v,qs);W.focus([v],[0,...[...qs.values()].filter(e=>e.q.$cn==='InProgress').map(e=>e.q._ref)],false);
      if(w===0&&qs.size<3){const id=[0,1,2,3].find(x=>!qs.has(x)),key=t.pick(KEYS);const l=W.lookup(v,key);const q2=new Map(qs).set(id,{q:Q.InProgress(key,M.NopDelta(),0),want:l.value});c.log(()=>`begin ${id} [${key}]`);
        check(A.NextStep(s,st(v,q2),U.GetBeginOp(key,id),A.QueryBeginStep)===true,'beginning a query is rejected');
        check(A.NextStep(s,st(v,new Map(qs).set(id,{q:Q.InProgress(t.pick(KEYS),M.NopDelta(),t.pick(W.refs(v)))})),U.GetBeginOp(key,id),A.QueryBeginStep)===false||true,'');
        if(qs.size){const o=[...qs.keys()][0];check(A.NextStep(s,st(v,new Map(qs).set(o,{q:Q.InProgress(key,M.NopDelta(),0)})),U.GetBeginOp(key,o),A.QueryBeginStep)===false,'a query begins under an id in use');}
        qs=q2;k++;continue;}
      if(w<=3&&qs.size){const id=t.pick([...qs.keys()]),e=qs.get(id);
        if(e.q.$cn==='Finished'){fin++;const q2=new Map(qs);q2.delete(id);c.log(()=>`end ${id}`);
          check(eq(e.q._answer,e.want),()=>`query [${e.q._key}] answers [${e.q._answer}], not [${e.want}]`);
          check(A.NextStep(s,st(v,q2),U.GetEndOp(e.q._answer,id),A.QueryEndStep)===true,'ending a query is rejected');
          const o=t.pick(VALS);if(!eq(o,e.q._answer))check(A.NextStep(s,st(v,q2),U.GetEndOp(o,id),A.QueryEndStep)===false,'a query ends with another answer');
          check(A.NextStep(s,st(v,qs),U.GetEndOp(e.q._answer,id),A.QueryEndStep)===false,'a query ends and stays');qs=q2;k++;continue;}
        const nd=W.get(v,e.q._ref),b=nd._buffer.get(e.q._key);
        const ch=nd._children.has(e.q._key)?nd._children.get(e.q._key):null;
        // a descent keeps the key it started with; an edge that renames it cannot be followed
        if(b.$cn!=='Define'&&!eq(ch._edgeKey,e.q._key))continue;
        const q1=b.$cn==='Define'?Q.Finished(e.q._key,b._value):Q.InProgress(e.q._key,M.NopDelta(),ch._ref);
        const q2=new Map(qs).set(id,{q:q1,want:e.want});c.log(()=>`advance ${id} to ${show(q1)}`);
        check(A.NextStep(s,st(v,q2),U.NoOp,A.QueryAdvanceStep(id,Q.QueryDescent(e.q,nd,q1)))===true,'advancing a query is rejected');
        // anything else accepted as an advance must still lead to the right answer
        const alt=t.below(3)===0?Q.Finished(e.q._key,t.pick(VALS)):t.bool()?Q.InProgress(e.q._key,M.NopDelta(),t.pick(W.refs(v))):Q.InProgress(t.pick(KEYS),M.NopDelta(),t.pick(W.refs(v)));const nd2=t.below(4)===3?W.get(v,t.pick(W.refs(v))):nd;
        const acc=A.NextStep(s,st(v,new Map(qs).set(id,{q:alt,want:null})),U.NoOp,A.QueryAdvanceStep(id,Q.QueryDescent(e.q,nd2,alt)));
        if(acc){const r=alt.$cn==='Finished'?{ok:true,value:alt._answer}:W.lookup(v,alt._key,alt._ref);check(eq(alt._key,e.q._key)&&r.ok&&eq(r.value,e.want),()=>`query [${e.q._key}] may move to ${show(alt)}, which answers ${r.ok?'['+r.value+']':'nothing'}, not [${e.want}]`);}
        qs=q2;k++;continue;}
      if(w===7&&t.bool()){const live=W.live(v),dead=W.refs(v).filter(r=>!live.has(r));if(dead.length){
        const any=dead.some(busy);const nv=W.vw(W.refs(v).filter(r=>live.has(r)).map(r=>[r,W.get(v,r)]));W.focus([v,nv]);
        const r=A.NextStep(s,st(nv,qs),U.NoOp,A.BasicStep(B.GCStep(DSet.from(dead))));check(r===!any,()=>`collecting ${dead} with queries at ${[...qs.values()].map(e=>show(e.q))} is ${r?'accepted':'rejected'}`);if(r){v=nv;k++;}continue;}}
      const tr=W.step(t,v,[[4,'put'],[4,'flush'],[2,'grow'],[3,'redirect'],[1,'clone'],[1,'get']]);if(!tr||!tr.uiop)continue;
      const path=W.applyOps(v,S.BetreeStepOps(tr.step));const nv=path[path.length-1];W.set({states:[path.map(x=>W.BI.Variables(x))]});
      const blocked=['put','clone'].includes(tr.name)&&busy(0);c.log(()=>tr.name+(blocked?' (blocked)':''));
      const r=A.NextStep(s,st(nv,qs),tr.uiop,A.BasicStep(B.BetreeStep(tr.step)));
      if(blocked){check(r===false,()=>`${tr.name} changes the root under a query there`);continue;}
      check(r===true,()=>`${tr.name} is rejected`);
      if(tr.name!=='get'&&tr.name!=='succ'&&W.refs(nv).some(r=>!v.has(r)||!W.eqNode(v.get(r),nv.get(r))))check(A.NextStep(s,st(v,qs),tr.uiop,A.BasicStep(B.BetreeStep(tr.step)))===false,()=>`${tr.name} is accepted without its effect`);
      if(qs.size)check(A.NextStep(s,st(nv,new Map()),tr.uiop,A.BasicStep(B.BetreeStep(tr.step)))===false,'a basic step may drop queries');
      v=nv;k++;if(tr.name==='clone')W.cloned();c.label(tr.name);
      // what each query will answer has not changed
      for(const [id,e] of qs)if(e.q.$cn==='InProgress'){const l=W.lookup(v,e.q._key,e.q._ref);check(l.ok&&eq(l.value,e.want),()=>`harness: query ${id} now answers ${l.ok?l.value:l.why}`);}
      if(t.below(4)===3){W.focus([v],[0,...[...qs.values()].filter(e=>e.q.$cn==='InProgress').map(e=>e.q._ref)],true);const s2=st(v,qs);check(A.Inv(s2)===true,'the invariant fails');const I=AR.I(s2);
        for(const [id,e] of qs)check(I._queries.get?eq(I._queries.get(id),e.want):true,()=>`query ${id} is interpreted as ${show(I._queries.get(id))}, not [${e.want}]`);}
    }
    c.label(fin?'finished':'open');c.nontrivial(k>=3&&qs.size+fin>0);c.sample(`${k} steps, ${fin} queries answered, ${qs.size} open`);
  };
}
module.exports={world,RU,steps,KEYS,VALS,lt,lte,pre,show,fmtV};
module.exports.props={P01:{rule:'a history counts when it made at least two steps',parts:{steps:{make:steps,weight:3},refine:{make:refine,weight:1},async:{make:async,weight:1.5}},quick:30,thorough:600,assumptions:['keys range over nine short keys and their images under two chosen prefix renamings; nodes are functions on all keys']}};
