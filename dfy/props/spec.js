'use strict';
// T01: the user-visible specification (map, asynchronous map, three-state versioned map); T02: the crash-safety protocol below it and its refinement.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES}=require('../externs.js');const {check,discard}=require('../pbt.js');
const {DMap,DSet,IMap,Tup}=$;const {table,J}=require('../tab.js');const {machine,upd}=require('../sm.js');
const load=(REPO,...f)=>new Program({externs:EX,types:TYPES}).load(...f.map(x=>REPO+'/'+x));
const eq=$.eq;
// ---------------------------------------------------------------- keys, views
const KEYS=[[],[0],[1],[2],[0,0],[0,1],[1,0],[1,1],[0,0,1]];
const VALS=[[],[7],[8,8],[9]];
const lt=(a,b)=>{for(let i=0;i<Math.min(a.length,b.length);i++)if(a[i]!==b[i])return a[i]<b[i];return a.length<b.length;};
const lte=(a,b)=>eq(a,b)||lt(a,b);
const hasPrefix=(k,p)=>p.length<=k.length&&p.every((x,i)=>k[i]===x);
const E=[];                                     // the empty value
const emptyView=()=>new IMap(x=>true,x=>E,null);
const complete=v=>KEYS.every(k=>v.has(k));
const eqV=(a,b)=>KEYS.every(k=>a.has(k)===b.has(k)&&(!a.has(k)||eq(a.get(k),b.get(k))))&&[...a.ov.values(),...b.ov.values()].every(([k])=>a.has(k)===b.has(k)&&(!a.has(k)||eq(a.get(k),b.get(k))));
const cloned=(v,from,to)=>new IMap(k=>true,k=>hasPrefix(k,to)?v.get([...from,...k.slice(to.length)]):v.get(k),null);
const cloneMap=(from,to)=>new IMap(k=>hasPrefix(k,to),k=>[...from,...k.slice(to.length)],null);
let cands=[];let OPS=[];
function setup(){ $.universes.length=0;$.universes.push(u=>{if(u&&u.k==='dt'&&u.cell.name==='Step')return cands.filter(x=>x.$cell===u.cell);if(u&&(u.k==='int'||u.k==='nat'))return [...Array(12).keys()];if(u&&u.k==='dt'&&u.cell.name==='Location')return LOCS;return KEYS;});}
let LOCS=[];
function inStart(s,k){return s.$cn==='SInclusive'?lte(s._key,k):s.$cn==='SExclusive'?lt(s._key,k):true;}
function inEnd(k,e){return e.$cn==='EInclusive'?lte(k,e._key):e.$cn==='EExclusive'?lt(k,e._key):true;}
function nonEmptyRange(s,e){if(s.$cn==='NegativeInf'||e.$cn==='PositiveInf')return true;return s.$cn==='SInclusive'&&e.$cn==='EInclusive'?lte(s._key,e._key):lt(s._key,e._key);}
// the map specification, independently
function mapModel(P,M){
  const U=P.m('UI');
  const V=x=>M.Variables(x);
  const canon=op=>{switch(op.$cn){
    case 'GetOp':return [M.QueryStep(op._key,op._value)];case 'PutOp':return [M.WriteStep(op._key,op._value)];case 'CloneOp':return [M.CloneStep(cloneMap(op._from,op._to))];
    case 'SuccOp':return [M.SuccStep(op._start,op._results,op._end)];case 'NoOp':return [M.StutterStep];default:return [];}};
  const sameMap=(a,b)=>KEYS.every(k=>a.has(k)===b.has(k)&&(!a.has(k)||eq(a.get(k),b.get(k))))&&[...a.ov.values(),...b.ov.values()].every(([k])=>a.has(k)===b.has(k)&&(!a.has(k)||eq(a.get(k),b.get(k))));
  function ref(s,n,op,st){
    const a=s._view,b=n._view;
    switch(st.$cn){
      case 'QueryStep':return op.$cn==='GetOp'&&eq(op._key,st._key)&&eq(op._value,st._result)&&complete(a)&&eq(a.get(st._key),st._result)&&eqV(a,b);
      case 'WriteStep':return op.$cn==='PutOp'&&eq(op._key,st._key)&&eq(op._value,st._new_value)&&complete(a)&&complete(b)&&eqV(b,a.set(st._key,st._new_value));
      case 'CloneStep':return op.$cn==='CloneOp'&&sameMap(st._new_to_old,cloneMap(op._from,op._to))&&complete(a)&&complete(b)&&eqV(b,cloned(a,op._from,op._to));
      case 'SuccStep':{const r=st._results;if(!(op.$cn==='SuccOp'&&eq(op._start,st._start)&&eq(op._end,st._end)&&eq(op._results,r)&&complete(a)&&eqV(a,b)&&nonEmptyRange(st._start,st._end)))return false;
        const want=KEYS.filter(k=>inStart(st._start,k)&&inEnd(k,st._end)&&!eq(a.get(k),E)).sort((x,y)=>lt(x,y)?-1:1);
        const extra=r.filter(x=>!KEYS.some(k=>eq(k,x._key)));if(extra.length)return null;
        return r.length===want.length&&r.every((x,i)=>eq(x._key,want[i])&&eq(x._value,a.get(want[i])));}
      case 'StutterStep':return op.$cn==='NoOp'&&eqV(a,b);
    }
  }
  // a legal operation and the state after it
  function op(t,s,kinds){
    const v=s._view,k=t.pick(KEYS);const kind=t.weighted(kinds||[[5,'put'],[2,'get'],[2,'clone'],[2,'succ'],[1,'noop']]);
    if(kind==='put'){const x=t.pick(VALS);return {l:U.PutOp(k,x),n:V(v.set(k,x))};}
    if(kind==='get')return {l:U.GetOp(k,v.get(k)),n:s};
    if(kind==='clone'){const f=t.pick(KEYS);return {l:U.CloneOp(f,k),n:V(settle(cloned(v,f,k)))};}
    if(kind==='noop')return {l:U.NoOp,n:s};
    const a=t.below(3),b=t.below(3),k2=t.pick(KEYS);const st=a===0?U.SInclusive(k):a===1?U.SExclusive(k):U.NegativeInf,en=b===0?U.EInclusive(k2):b===1?U.EExclusive(k2):U.PositiveInf;
    if(!nonEmptyRange(st,en))return {l:U.NoOp,n:s};
    const rs=KEYS.filter(x=>inStart(st,x)&&inEnd(x,en)&&!eq(v.get(x),E)).sort((x,y)=>lt(x,y)?-1:1);
    return {l:U.SuccOp(st,rs.map(x=>U.SuccResult(x,v.get(x))),en),n:s};
  }
  const next=(s,n,op)=>canon(op).some(st=>ref(s,n,op,st)===true);
  return {U,V,canon,ref,op,next,init:()=>V(emptyView()),isInit:s=>eqV(s._view,emptyView())};
}
// keep nested clones shallow: materialise the universe, keep the function for the rest
function settle(v){const m=new Map();for(const k of KEYS)m.set($.key(k),[k,v.get(k)]);return new IMap(v.pred,v.fn,null,m);}
const partial=t=>{const miss=t.pick(KEYS);return new IMap(k=>!eq(k,miss),k=>E,null);};
// ---------------------------------------------------------------- T01
function map({REPO}){
  const P=load(REPO,'MapSpec/MapSpec.s.dfy');const M=P.m('MapSpec');const mm=mapModel(P,M);
  return machine({setup,init:()=>mm.init(),runInit:s=>M.Init(s),isInit:s=>mm.isInit(s),
    seedPool(pool,t){for(const k of KEYS){pool.add('Variables_viewk',k);pool.add('CloneStep_new_to_oldk',k);pool.add('CloneStep_new_to_oldv',k);pool.add('GetOp_key',k);pool.add('SuccResult_key',k);}for(const v of VALS){pool.add('Variables_viewv',v);pool.add('GetOp_value',v);pool.add('QueryStep_result',v);pool.add('SuccResult_value',v);}pool.add('Variables_view',partial(t));pool.add('Variables_view',emptyView());
      pool.add('CloneStep_new_to_old',cloneMap([0],[1]));pool.add('L',mm.U.CrashOp);pool.add('L',mm.U.NoOp);pool.add('P',M.StutterStep);for(const k of [[0],[1]]){for(const f of ['SInclusive','SExclusive'])pool.add('SuccOp_start',mm.U[f](k)),pool.add('SuccStep_start',mm.U[f](k));for(const f of ['EInclusive','EExclusive'])pool.add('SuccOp_end',mm.U[f](k)),pool.add('SuccStep_end',mm.U[f](k));}pool.add('SuccResult',mm.U.SuccResult([1],[7]));
      pool.add('SuccOp_results[]',mm.U.SuccResult([1],[7]));pool.add('SuccStep_results[]',mm.U.SuccResult([0],[]));},
    next:(t,s)=>{const r=mm.op(t,s);r.step=mm.canon(r.l)[0];r.n=M.Variables(r.n._view);return r;},
    ref:mm.ref,run:(s,n,l,st)=>M.NextStep(s,n,l,st),runNext:(s,n,l)=>{cands=mm.canon(l);return M.Next(s,n,l);},
    inv:s=>M.Inv(s),invRef:s=>complete(s._view),perturbs:5,
    after(s,n,l,st,t){
      {const v=n._view,lo=t.pick(KEYS),hi=t.pick(KEYS);const a=t.pick([mm.U.NegativeInf,mm.U.SInclusive(lo),mm.U.SExclusive(lo)]),b=t.pick([mm.U.PositiveInf,mm.U.EInclusive(hi),mm.U.EExclusive(hi)]);
        let rs=KEYS.filter(x=>inStart(a,x)&&inEnd(x,b)&&(!eq(v.get(x),E)||t.below(6)===0)).sort((x,y)=>lt(x,y)?-1:1).map(x=>mm.U.SuccResult(x,v.get(x)));
        const w=t.below(6);if(w===1&&rs.length)rs.splice(t.below(rs.length),1);else if(w===2&&rs.length>1){const i=t.below(rs.length-1);[rs[i],rs[i+1]]=[rs[i+1],rs[i]];}else if(w===3&&rs.length){const i=t.below(rs.length);rs[i]=mm.U.SuccResult(rs[i]._key,t.pick(VALS));}else if(w===4){const x=t.pick(KEYS);rs.push(mm.U.SuccResult(x,v.get(x)));}else if(w===5&&rs.length)rs.push(rs[rs.length-1]);
        const op=mm.U.SuccOp(a,rs,b),sp=M.SuccStep(a,rs,b),want=mm.ref(n,n,op,sp);if(want!==null){const g=M.NextStep(n,n,op,sp);check(g===want,()=>`Succ ${J(op)} is ${g?'accepted':'rejected'}`);}}
const k=t.pick(KEYS),p=t.pick(KEYS);
      check(M.KeyHasPrefix(k,p)===hasPrefix(k,p),'KeyHasPrefix');const m=M.CloneMap(p,k);for(const q of KEYS){check(m.has(q)===hasPrefix(q,k),'CloneMap domain');if(m.has(q))check(eq(m.get(q),[...p,...q.slice(k.length)]),'CloneMap value');}
      const cv=M.CloneView(n._view,m),av=M.ApplyCloneView(n._view,m),w=cloned(n._view,p,k);check(eqV(cv,w),()=>'CloneView from '+J(p)+' to '+J(k));check(eqV(av,w),'ApplyCloneView');
      const pv=partial(t),ap=M.ApplyCloneView(pv,m);for(const q of KEYS){const src=hasPrefix(q,k)?[...p,...q.slice(k.length)]:q;const x=hasPrefix(q,k)&&pv.has(src)?pv.get(src):pv.has(q)?pv.get(q):E;check(ap.has(q)&&eq(ap.get(q),x),'ApplyCloneView of a partial view');}}});
}
function asyncMap({REPO}){
  const P=load(REPO,'MapSpec/AsyncMap.i.dfy');const A=P.m('AsyncMapSpec'),M=P.m('MapSpec');const mm=mapModel(P,M),U=mm.U;
  const qeq=(a,b)=>eq(a,b);
  function ref(s,n,l,st){
    const q=s._queries,r=n._queries,d=s._dict,e=n._dict;
    switch(st.$cn){
      case 'QueryBeginStep':return l.$cn==='GetBeginOp'&&eq(l._key,st._key)&&eqV(d._view,e._view)&&!q.has(l._id)&&complete(d._view)&&qeq(r,q.set(l._id,d._view.get(st._key)));
      case 'QueryEndStep':return l.$cn==='GetEndOp'&&eq(l._value,st._result)&&eqV(d._view,e._view)&&q.has(l._id)&&qeq(r,DMap.of([...q].filter(k=>!eq(k,l._id)).map(k=>[k,q.get(k)])))&&eq(st._result,q.get(l._id));
      case 'QueryStep':return qeq(q,r)&&mm.ref(d,e,l,M.QueryStep(st._key,st._result));
      case 'WriteStep':return qeq(q,r)&&mm.ref(d,e,l,M.WriteStep(st._key,st._new_value));
      case 'SuccStep':return qeq(q,r)&&mm.ref(d,e,l,M.SuccStep(st._start,st._results,st._end));
      case 'StutterStep':return eqV(d._view,e._view)&&qeq(q,r);
    }
  }
  return machine({setup,init:()=>A.Variables(mm.init(),DMap.of([])),runInit:s=>A.Init(s),isInit:s=>mm.isInit(s._dict)&&![...s._queries].length,
    seedPool(pool,t){for(const k of KEYS)pool.add('Variables_viewk',k);for(const v of VALS){pool.add('Variables_viewv',v);pool.add('Variables_queriesv',v);pool.add('GetEndOp_value',v);}for(const i of [0,1,2,3])pool.add('Variables_queriesk',i),pool.add('GetBeginOp_id',i),pool.add('GetEndOp_id',i);pool.add('Variables_view',partial(t));pool.add('L',U.NoOp);pool.add('P',A.StutterStep);},
    next(t,s){
      const k=t.below(4),q=s._queries,ids=[...q];
      if(k===0){const id=t.below(4),key=t.pick(KEYS);if(!q.has(id))return {n:A.Variables(s._dict,q.set(id,s._dict._view.get(key))),l:U.GetBeginOp(key,id),step:A.QueryBeginStep(key)};}
      if(k===1&&ids.length){const id=t.pick(ids),v=q.get(id);return {n:A.Variables(s._dict,DMap.of(ids.filter(x=>x!==id).map(x=>[x,q.get(x)]))),l:U.GetEndOp(v,id),step:A.QueryEndStep(v)};}
      const r=mm.op(t,s._dict,[[5,'put'],[2,'get'],[2,'succ'],[1,'noop']]);const m=mm.canon(r.l)[0];
      const step=m.$cn==='StutterStep'?A.StutterStep:m.$cn==='QueryStep'?A.QueryStep(m._key,m._result):m.$cn==='WriteStep'?A.WriteStep(m._key,m._new_value):A.SuccStep(m._start,m._results,m._end);
      return {n:A.Variables(r.n,q),l:r.l,step};},
    ref,run:(s,n,l,st)=>A.NextStep(s,n,l,st),runNext:(s,n,l,c)=>{cands=[A.StutterStep,...c];return A.Next(s,n,l);},perturbs:5});
}
function mapv(m,f,T){return DMap.of([...m].map(k=>[k,f(m.get(k),T)]));}
function reqs(P){const T=P.m('ThreeStateTypes');return {T,r21:m=>mapv(m,x=>x.$cn==='State2'?T.State1:x),r32:m=>mapv(m,x=>x.$cn==='State3'?T.State2:x),drop:(m,id)=>DMap.of([...m].filter(k=>!eq(k,id)).map(k=>[k,m.get(k)]))};}
function three({REPO}){
  const P=load(REPO,'MapSpec/ThreeStateVersionedMap.s.dfy');const S=P.m('ThreeStateVersionedMap'),M=P.m('MapSpec');const mm=mapModel(P,M),U=mm.U,{T,r21,r32,drop}=reqs(P);
  const ES=(a,b)=>eqV(a._view,b._view);
  const is=(n,a,b,c,q)=>ES(n._s1,a)&&ES(n._s2,b)&&ES(n._s3,c)&&eq(n._outstandingSyncReqs,q);
  function ref(s,n,l,st){
    const q=s._outstandingSyncReqs,{_s1:a,_s2:b,_s3:c}=s;
    switch(st.$cn){
      case 'CrashStep':return l.$cn==='CrashOp'&&is(n,a,a,a,DMap.of([]));
      case 'Move1to2Step':return l.$cn==='NoOp'&&is(n,b,b,c,r21(q));
      case 'Move2to3Step':return l.$cn==='NoOp'&&is(n,a,c,c,r32(q));
      case 'Move3Step':return mm.next(c,n._s3,l)&&is(n,a,b,n._s3,q);
      case 'PushSyncStep':return l.$cn==='PushSyncOp'&&eq(l._id,st._id)&&!q.has(st._id)&&is(n,a,b,c,q.set(st._id,T.State3));
      case 'PopSyncStep':return l.$cn==='PopSyncOp'&&eq(l._id,st._id)&&q.has(st._id)&&q.get(st._id).$cn==='State1'&&is(n,a,b,c,drop(q,st._id));
    }
  }
  // ghost history: every state version is one the user saw, and a popped sync means its state is durable
  return machine({setup,len:20,init:()=>{const i=mm.init();return S.Variables(i,i,i,DMap.of([]));},runInit:s=>S.Init(s),isInit:s=>mm.isInit(s._s1)&&mm.isInit(s._s2)&&mm.isInit(s._s3)&&![...s._outstandingSyncReqs].length,
    seedPool(pool,t){for(const k of KEYS)pool.add('Variables_viewk',k);for(const v of VALS)pool.add('Variables_viewv',v);for(const i of [0,1,2,3])pool.add('Variables_outstandingSyncReqsk',i),pool.add('PushSyncStep_id',i),pool.add('PopSyncStep_id',i),pool.add('PopSyncOp_id',i);for(const x of [T.State1,T.State2,T.State3])pool.add('Variables_outstandingSyncReqsv',x);pool.add('L',U.CrashOp);pool.add('L',U.NoOp);for(const x of [S.CrashStep,S.Move1to2Step,S.Move2to3Step,S.Move3Step])pool.add('P',x);},
    next(t,s){
      const q=s._outstandingSyncReqs,{_s1:a,_s2:b,_s3:c}=s,k=t.below(12),V=(a,b,c,q)=>S.Variables(a,b,c,q);
      if(k===0)return {n:V(a,a,a,DMap.of([])),l:U.CrashOp,step:S.CrashStep};
      if(k<=2)return {n:V(b,b,c,r21(q)),l:U.NoOp,step:S.Move1to2Step};
      if(k<=4)return {n:V(a,c,c,r32(q)),l:U.NoOp,step:S.Move2to3Step};
      if(k<=6){const id=t.below(4);if(!q.has(id))return {n:V(a,b,c,q.set(id,T.State3)),l:U.PushSyncOp(id),step:S.PushSyncStep(id)};}
      if(k<=8){const ids=[...q].filter(i=>q.get(i).$cn==='State1');if(ids.length){const id=t.pick(ids);return {n:V(a,b,c,drop(q,id)),l:U.PopSyncOp(id),step:S.PopSyncStep(id)};}}
      const r=mm.op(t,c);return {n:V(a,b,r.n,q),l:r.l,step:S.Move3Step};},
    ref,run:(s,n,l,st)=>{cands=mm.canon(l);return S.NextStep(s,n,l,st);},runNext:(s,n,l,cs)=>{cands=[...cs,...mm.canon(l)];return S.Next(s,n,l);},perturbs:5,
    after(s,n){check(eq(T.SyncReqs2to1(n._outstandingSyncReqs),r21(n._outstandingSyncReqs))&&eq(T.SyncReqs3to2(n._outstandingSyncReqs),r32(n._outstandingSyncReqs)),'SyncReqs transitions');}});
}
function vop({REPO}){
  const P=load(REPO,'Versions/VOp.i.dfy');const V=P.m('ViewOp'),U=P.m('UI'),L=P.m('DiskLayout');
  return (t,c)=>{
    const id=()=>t.below(3),op=()=>[()=>U.NoOp,()=>U.SyncOp,()=>U.CrashOp,()=>U.PushSyncOp(id()),()=>U.PopSyncOp(id()),()=>U.GetOp(t.pick(KEYS),t.pick(VALS)),()=>U.GetBeginOp(t.pick(KEYS),id()),()=>U.GetEndOp(t.pick(VALS),id()),()=>U.PutOp(t.pick(KEYS),t.pick(VALS)),()=>U.CloneOp(t.pick(KEYS),t.pick(KEYS)),()=>U.SuccOp(U.NegativeInf,[],U.PositiveInf)][t.below(11)]();
    const u=op(),loc=L.Location(t.below(3),t.below(3));
    const v=[()=>V.StatesInternalOp,()=>V.JournalInternalOp,()=>V.AdvanceOp(t.bool()?u:op(),t.bool()),()=>V.SendPersistentLocOp(loc),()=>V.FreezeOp,()=>V.SendFrozenLocOp(loc),()=>V.CleanUpOp,()=>V.CrashOp,()=>V.PushSyncOp(id()),()=>V.PopSyncOp(id())][t.below(10)]();
    const k=v.$cn,w=k==='AdvanceOp'?(v._replay?u.$cn==='NoOp':eq(u,v._uiop)):k==='CrashOp'?u.$cn==='CrashOp':k==='PushSyncOp'||k==='PopSyncOp'?u.$cn===k&&eq(u._id,v._id):u.$cn==='NoOp';
    c.nontrivial();c.sample(J(v)+' '+J(u));check(V.VOpAgreesUIOp(v,u)===w,()=>`VOpAgreesUIOp(${J(v)}, ${J(u)}) is ${!w}`);
  };
}
// ---------------------------------------------------------------- T02
const vfrom=(m)=>new IMap(()=>false,()=>null,null,m);
function viewModel(P){
  const SV=P.m('StatesViewMap'),M=P.m('MapSpec'),V=P.m('ViewOp'),L=P.m('DiskLayout'),O=P.m('Options');const mm=mapModel(P,M),U=mm.U;
  LOCS=[1,2,3,4].map(i=>L.Location(i*1000,10));
  const disk=es=>vfrom(new Map(es.map(([k,v])=>[$.key(k),[k,v]])));
  const dom=d=>[...d.ov.values()].map(e=>e[0]);
  const ES=(a,b)=>eqV(a._view,b._view);
  const dget=(d,k)=>d.get(k);const dsame=(d,e)=>{const a=dom(d),b=dom(e);return a.every(k=>e.has(k)&&ES(d.get(k),e.get(k)))&&b.every(k=>d.has(k));};
  const osame=(a,b)=>a.$cn===b.$cn&&(a.$cn==='None'||ES(a._value,b._value));
  const Some=O.Some,None=O.None;
  const keep=(s,n,...fs)=>fs.every(f=>f==='disk'?dsame(s._disk,n._disk):f.endsWith('State')?osame(s['_'+f],n['_'+f]):eq(s['_'+f],n['_'+f]));
  const preserved=(s,n)=>{const d=s._disk,e=n._disk;const one=o=>o.$cn==='None'||(d.has(o._value)&&e.has(o._value)&&ES(d.get(o._value),e.get(o._value)));
    if(s._persistentLoc.$cn==='None'&&!dom(d).every(k=>e.has(k)&&ES(d.get(k),e.get(k))))return false;return one(s._persistentLoc)&&one(s._frozenLoc);};
  const isN=o=>o.$cn==='None';
  function ref(s,n,v,st){
    const k=v.$cn;
    switch(st.$cn){
      case 'ObtainPersistentLocStep':return k==='SendPersistentLocOp'&&isN(s._persistentLoc)&&keep(s,n,'disk','frozenLoc','frozenState')&&eq(n._persistentLoc,Some(v._loc))&&s._disk.has(v._loc)&&complete(s._disk.get(v._loc)._view)&&osame(n._ephemeralState,Some(s._disk.get(v._loc)));
      case 'AdvanceStep':return k==='AdvanceOp'&&keep(s,n,'disk','persistentLoc','frozenLoc','frozenState')&&!isN(s._ephemeralState)&&!isN(n._ephemeralState)&&mm.next(s._ephemeralState._value,n._ephemeralState._value,v._uiop);
      case 'CrashStep':return k==='CrashOp'&&preserved(s,n)&&isN(n._persistentLoc)&&isN(n._frozenLoc)&&isN(n._frozenState)&&isN(n._ephemeralState);
      case 'FreezeStep':return k==='FreezeOp'&&keep(s,n,'disk','persistentLoc','ephemeralState')&&isN(n._frozenLoc)&&osame(n._frozenState,s._ephemeralState);
      case 'DiskChangeStep':return k==='StatesInternalOp'&&preserved(s,n)&&keep(s,n,'persistentLoc','frozenLoc','frozenState','ephemeralState');
      case 'ProvideFrozenLocStep':return k==='SendFrozenLocOp'&&isN(s._frozenLoc)&&eq(n._frozenLoc,Some(v._loc))&&!isN(n._frozenState)&&s._disk.has(v._loc)&&ES(s._disk.get(v._loc),n._frozenState._value)&&keep(s,n,'disk','persistentLoc','frozenState','ephemeralState');
      case 'ForgetOldStep':return k==='CleanUpOp'&&keep(s,n,'disk','ephemeralState')&&eq(n._persistentLoc,s._frozenLoc)&&isN(n._frozenLoc)&&isN(n._frozenState);
      case 'StutterStep':return ['JournalInternalOp','StatesInternalOp','PushSyncOp','PopSyncOp'].includes(k)&&keep(s,n,'disk','persistentLoc','frozenLoc','frozenState','ephemeralState');
    }
  }
  const invRef=s=>{const ok=x=>complete(x._view),lo=o=>isN(o)||(s._disk.has(o._value)&&ok(s._disk.get(o._value)));return lo(s._persistentLoc)&&lo(s._frozenLoc)&&(isN(s._frozenState)||ok(s._frozenState._value))&&(isN(s._ephemeralState)||ok(s._ephemeralState._value));};
  const steps=()=>['ObtainPersistentLocStep','AdvanceStep','CrashStep','FreezeStep','DiskChangeStep','ProvideFrozenLocStep','ForgetOldStep','StutterStep'].map(x=>SV[x]);
  const rndState=t=>{let x=mm.init();for(let i=t.below(3);i>=0;i--)x=M.Variables(x._view.set(t.pick(KEYS),t.pick(VALS)));return x;};
  // a disk change that spares the given locations
  const change=(t,s,keepAll)=>{let d=s._disk;const hold=[s._persistentLoc,s._frozenLoc].filter(o=>!isN(o)).map(o=>o._value);
    const es=dom(d).map(k=>[k,d.get(k)]);const loc=t.pick(LOCS);
    if(!keepAll&&!isN(s._persistentLoc)){if(hold.some(h=>eq(h,loc)))return d;const rest=es.filter(([k])=>!eq(k,loc));return disk(t.below(4)===0?rest:[...rest,[loc,t.bool()&&!isN(s._frozenState)?s._frozenState._value:rndState(t)]]);}
    if(d.has(loc))return d;return disk([...es,[loc,rndState(t)]]);};
  return {SV,M,V,L,O,mm,U,disk,dom,ES,Some,None,isN,ref,invRef,steps,rndState,change,preserved};
}
function poolKV(pool){for(const k of KEYS)pool.add('Variables_viewk',k);for(const v of VALS)pool.add('Variables_viewv',v);}
function states({REPO}){
  const P=load(REPO,'Versions/StatesViewMap.i.dfy');const m=viewModel(P),{SV,V,Some,None,isN,mm}=m;
  return machine({setup,len:16,init:t=>SV.Variables(m.disk([[LOCS[0],mm.init()]]),None,None,None,None),runInit:s=>SV.Init(s,LOCS[0]),isInit:s=>s._disk.has(LOCS[0])&&mm.isInit(s._disk.get(LOCS[0]))&&[s._persistentLoc,s._frozenLoc,s._frozenState,s._ephemeralState].every(isN),
    seedPool(pool,t){poolKV(pool);for(const l of LOCS){pool.add('Variables_diskk',l);pool.add('Some_value',l);pool.add('Variables_persistentLoc',Some(l));pool.add('Variables_frozenLoc',Some(l));pool.add('SendFrozenLocOp_loc',l);pool.add('SendPersistentLocOp_loc',l);}for(const f of ['persistentLoc','frozenLoc','frozenState','ephemeralState'])pool.add('Variables_'+f,None);
      const p=m.M.Variables(partial(t));for(const f of ['frozenState','ephemeralState'])pool.add('Variables_'+f,Some(p)),pool.add('Variables_'+f,Some(m.rndState(t)));pool.add('Variables_diskv',p);pool.add('Variables_diskv',m.rndState(t));
      for(const x of ['StatesInternalOp','JournalInternalOp','FreezeOp','CleanUpOp','CrashOp'])pool.add('L',V[x]);for(const x of m.steps())pool.add('P',x);},
    next(t,s){
      const k=t.below(14),V2=o=>upd(s,o);
      if(isN(s._persistentLoc)&&k<8){const ls=m.dom(s._disk).filter(l=>complete(s._disk.get(l)._view));if(ls.length){const l=t.pick(ls);return {n:V2({persistentLoc:Some(l),ephemeralState:Some(s._disk.get(l))}),l:V.SendPersistentLocOp(l),step:SV.ObtainPersistentLocStep};}}
      if(k<=3&&!isN(s._ephemeralState)){const r=mm.op(t,s._ephemeralState._value);return {n:V2({ephemeralState:Some(r.n)}),l:V.AdvanceOp(r.l,t.bool()),step:SV.AdvanceStep};}
      if(k<=5)return {n:V2({frozenLoc:None,frozenState:s._ephemeralState}),l:V.FreezeOp,step:SV.FreezeStep};
      if(k<=8&&isN(s._frozenLoc)&&!isN(s._frozenState)){const ls=m.dom(s._disk).filter(l=>m.ES(s._disk.get(l),s._frozenState._value));if(ls.length){const l=t.pick(ls);return {n:V2({frozenLoc:Some(l)}),l:V.SendFrozenLocOp(l),step:SV.ProvideFrozenLocStep};}}
      if(k===9&&!isN(s._frozenLoc))return {n:V2({persistentLoc:s._frozenLoc,frozenLoc:None,frozenState:None}),l:V.CleanUpOp,step:SV.ForgetOldStep};
      if(k===10){const n=SV.Variables(m.change(t,s),None,None,None,None);return {n,l:V.CrashOp,step:SV.CrashStep};}
      if(k===11)return {n:s,l:t.pick([V.JournalInternalOp,V.StatesInternalOp,V.PushSyncOp(1),V.PopSyncOp(2)]),step:SV.StutterStep};
      return {n:V2({disk:m.change(t,s)}),l:V.StatesInternalOp,step:SV.DiskChangeStep};},
    ref:m.ref,run:(s,n,l,st)=>{cands=l.$cn==='AdvanceOp'?mm.canon(l._uiop):[];return SV.NextStep(s,n,l,st);},runNext:(s,n,l)=>{cands=[...m.steps(),...(l.$cn==='AdvanceOp'?mm.canon(l._uiop):[])].filter(x=>x);return nextOf(SV,m.steps(),s,n,l,mm);},
    inv:s=>SV.Inv(s),invRef:m.invRef,perturbs:5,
    after(s,n,l,st,t){
      const b=t.bool()?s:n;cands=[];
      for(const loc of LOCS){
        const c1=[V.SendFrozenLocOp(loc),SV.ProvideFrozenLocStep,upd(b,{frozenLoc:Some(loc)})],c2=[V.SendPersistentLocOp(loc),SV.ObtainPersistentLocStep,upd(b,{persistentLoc:Some(loc),ephemeralState:b._disk.has(loc)?Some(b._disk.get(loc)):b._ephemeralState})];
        for(const [v,x,a] of [c1,c2]){const w=m.ref(b,a,v,x);const g=SV.NextStep(b,a,v,x);check(g===w,()=>`${x.$cn} at ${J(loc)} from ${$.show(b).slice(0,400)} is ${g?'accepted':'rejected'}`);}
      }}});
}
function nextOf(SV,steps,s,n,l,mm){ // Next quantifies over the machine's own steps and, inside, over map steps
  const inner=l.$cn==='AdvanceOp'?mm.canon(l._uiop):[];$.universes.push(u=>u&&u.k==='dt'&&u.cell.name==='Step'?(u.cell.qname&&/MapSpec/.test(u.cell.qname)||/MapSpec/.test(u.cell.plain||'')?inner:steps):undefined);
  try{return SV.Next(s,n,l);}finally{$.universes.pop();}
}
const je=(J,op)=>op.$cn==='PutOp'?[J.JournalInsert(op._key,op._value)]:op.$cn==='CloneOp'?[J.JournalClone(op._from,op._to)]:[];
const toOp=(U,j)=>j.$cn==='JournalInsert'?U.PutOp(j._key,j._value):U.CloneOp(j._from,j._to);
function journalModel(P){
  const JV=P.m('JournalView'),Jm=P.m('Journal'),V=P.m('ViewOp'),O=P.m('Options'),{T,r21,r32,drop}=reqs(P),U=P.m('UI');const Some=O.Some,None=O.None;
  const is=(n,a)=>['j1','j2','j3','j_gamma','j_delta','persistentLoc','frozenLoc','syncReqs'].every((f,i)=>eq(n['_'+f],a[i]));
  function nexts(s,v,st,n){
    const {_j1:a,_j2:b,_j3:c,_j_gamma:g,_j_delta:d,_persistentLoc:p,_frozenLoc:f,_syncReqs:q}=s,k=v.$cn;
    switch(st){
      case 'PresentPersistentLocStep':return k==='SendPersistentLocOp'&&eq(v._loc,p)&&[a,b,c,g,d,p,f,q];
      case 'ObtainFrozenLocStep':return k==='SendFrozenLocOp'&&[a,b,c,g,d,p,Some(v._loc),q];
      case 'CleanUpStep':return k==='CleanUpOp'&&f.$cn==='Some'&&eq(f._value,p)&&[a,b,c,g,d,p,None,q];
      case 'CrashStep':return k==='CrashOp'&&[a,a,a,a,[],p,None,DMap.of([])];
      case 'Move1to2Step':return k==='JournalInternalOp'&&f.$cn==='Some'&&[b,b,c,b,d,f._value,f,r21(q)];
      case 'Move2to3Step':return k==='FreezeOp'&&!(f.$cn==='Some'&&eq(f._value,p))&&[a,c,c,[...g,...d],[],p,None,r32(q)];
      case 'ExtendLog1Step':return k==='JournalInternalOp'&&[g,b,c,g,d,p,f,r21(q)];
      case 'ExtendLog2Step':return k==='JournalInternalOp'&&[a,[...b,...d],c,[...g,...d],[],p,f,r32(q)];
      case 'Move3Step':return k==='AdvanceOp'&&!v._replay&&c.length===0&&[a,b,c,g,[...d,...je(Jm,v._uiop)],p,f,q];
      case 'ReplayStep':{if(k!=='AdvanceOp'||!v._replay)return false;const e=je(Jm,v._uiop);return c.length>=e.length&&eq(c.slice(0,e.length),e)&&[a,b,c.slice(e.length),g,d,p,f,q];}
      case 'PushSyncStep':return k==='PushSyncOp'&&!q.has(v._id)&&[a,b,c,g,d,p,f,q.set(v._id,T.State3)];
      case 'PopSyncStep':return k==='PopSyncOp'&&q.has(v._id)&&q.get(v._id).$cn==='State1'&&[a,b,c,g,d,p,f,drop(q,v._id)];
      case 'StutterStep':return (k==='JournalInternalOp'||k==='StatesInternalOp')&&[a,b,c,g,d,p,f,q];
    }
  }
  const ref=(s,n,v,st)=>{const r=nexts(s,v,st.$cn);return !!r&&is(n,r);};
  const NAMES=['PresentPersistentLoc','ObtainFrozenLoc','CleanUp','Crash','Move1to2','Move2to3','ExtendLog1','ExtendLog2','Move3','Replay','PushSync','PopSync','Stutter'].map(x=>x+'Step');
  const apply=(s,v,name)=>{const r=nexts(s,v,name);return r?JV.Variables(...r):null;};
  return {JV,Jm,V,O,U,T,Some,None,ref,apply,NAMES,steps:()=>NAMES.map(x=>JV[x]),init:loc=>JV.Variables([],[],[],[],[],loc,None,DMap.of([]))};
}
const rndOp=(t,U)=>t.weighted([[5,()=>U.PutOp(t.pick(KEYS),t.pick(VALS))],[1,()=>U.CloneOp(t.pick(KEYS),t.pick(KEYS))],[1,()=>U.NoOp],[1,()=>U.GetOp(t.pick(KEYS),[])]])();
function journal({REPO}){
  const P=load(REPO,'Versions/JournalView.i.dfy');const m=journalModel(P),{JV,V,U,T,Some,None,Jm}=m;const L=P.m('DiskLayout');LOCS=[1,2,3,4].map(i=>L.Location(i*1000,10));
  const mk=machine({setup,len:18,init:()=>m.init(LOCS[0]),runInit:s=>JV.Init(s,LOCS[0]),isInit:s=>m.ref(m.init(LOCS[0]),s,V.StatesInternalOp,JV.StutterStep),
    seedPool(pool){for(const l of LOCS){pool.add('Variables_persistentLoc',l);pool.add('Variables_frozenLoc',Some(l));pool.add('Some_value',l);pool.add('SendFrozenLocOp_loc',l);}pool.add('Variables_frozenLoc',None);for(const f of ['j1','j2','j3','j_gamma','j_delta'])pool.add(`Variables_${f}[]`,Jm.JournalInsert([0],[7])),pool.add('Variables_'+f,[]);
      for(const i of [0,1,2,3])pool.add('Variables_syncReqsk',i),pool.add('PopSyncOp_id',i);for(const x of [T.State1,T.State2,T.State3])pool.add('Variables_syncReqsv',x);for(const x of ['StatesInternalOp','JournalInternalOp','FreezeOp','CleanUpOp','CrashOp'])pool.add('L',V[x]);for(const x of m.steps())pool.add('P',x);},
    next(t,s){
      for(let i=0;i<10;i++){
        const name=t.pick(m.NAMES.concat(['Move3Step','Move3Step','ReplayStep','PopSyncStep','ObtainFrozenLocStep']));
        const v={PresentPersistentLocStep:()=>V.SendPersistentLocOp(s._persistentLoc),ObtainFrozenLocStep:()=>V.SendFrozenLocOp(t.pick(LOCS)),CleanUpStep:()=>V.CleanUpOp,CrashStep:()=>t.below(3)?null:V.CrashOp,Move1to2Step:()=>V.JournalInternalOp,Move2to3Step:()=>V.FreezeOp,ExtendLog1Step:()=>V.JournalInternalOp,ExtendLog2Step:()=>V.JournalInternalOp,
          Move3Step:()=>V.AdvanceOp(rndOp(t,U),false),ReplayStep:()=>V.AdvanceOp(s._j3.length&&t.below(4)?toOp(U,s._j3[0]):U.NoOp,true),PushSyncStep:()=>V.PushSyncOp(t.below(4)),PopSyncStep:()=>V.PopSyncOp(t.below(4)),StutterStep:()=>t.bool()?V.JournalInternalOp:V.StatesInternalOp}[name]();
        if(!v)continue;const n=m.apply(s,v,name);if(n)return {n,l:v,step:JV[name]};
      }
      return {n:s,l:V.StatesInternalOp,step:JV.StutterStep};},
    ref:m.ref,run:(s,n,l,st)=>JV.NextStep(s,n,l,st),runNext:(s,n,l)=>{cands=m.steps();return JV.Next(s,n,l);},perturbs:6});
  return (t,c)=>{
    if(t.below(8)===0){ // journal entries of operations
      const ops=t.list(0,6,()=>rndOp(t,U));c.nontrivial(ops.length>1);c.log(J(ops));c.sample(J(ops).slice(0,150));const w=ops.flatMap(o=>je(Jm,o));
      check(eq(Jm.JournalEntriesForUIOps(ops),w),'JournalEntriesForUIOps');for(const o of ops)check(eq(Jm.JournalEntriesForUIOp(o),je(Jm,o)),'JournalEntriesForUIOp');for(const e of w)check(eq(Jm.JournalEntryToUIOp(e),toOp(U,e)),'JournalEntryToUIOp');return;
    }
    mk(t,c);
  };
}
// the composed protocol, its refinement to the journalled and the plain three-state map, and recovery
function composite({REPO}){
  const P=load(REPO,'Versions/CompositeView.i.dfy','MapSpec/TSJMap_Refines_ThreeStateVersionedMap.i.dfy');
  const C=P.m('CompositeView'),TJ=P.m('TSJMap'),RV=P.m('TSJMap_Refines_ThreeStateVersionedMap'),TV=P.m('ThreeStateVersionedMap');
  const sm=viewModel(P),jm=journalModel(P),{V,U,mm,Some,None,isN,SV}=sm,JV=jm.JV;
  const applyJ=(x,es)=>es.reduce((x,e)=>e.$cn==='JournalInsert'?sm.M.Variables(x._view.set(e._key,e._value)):sm.M.Variables(settle(cloned(x._view,e._from,e._to))),x);
  const agree=(v,u)=>{const k=v.$cn;return k==='AdvanceOp'?(v._replay?u.$cn==='NoOp':eq(u,v._uiop)):k==='CrashOp'?u.$cn==='CrashOp':k==='PushSyncOp'||k==='PopSyncOp'?u.$cn===k&&eq(u._id,v._id):u.$cn==='NoOp';};
  const sNext=(s,n,v)=>sm.steps().some(st=>sm.ref(s,n,v,st)===true),jNext=(s,n,v)=>jm.steps().some(st=>jm.ref(s,n,v,st)===true);
  const I=s=>C.I(s);
  return machine({setup,len:26,perturbs:2,perturbPre:false,init:()=>C.Variables(SV.Variables(sm.disk([[LOCS[0],mm.init()]]),None,None,None,None),jm.init(LOCS[0])),
    seedPool(pool){poolKV(pool);for(const l of LOCS)pool.add('Variables_diskk',l),pool.add('Variables_persistentLoc',l);},
    next(t,s){
      const T=s._tsm,Jc=s._jc;const W=(a,j,l,u,tsj,extra)=>({n:C.Variables(a,j),l:new Tup([l,u]),step:undefined,name:l.$cn,tsj,extra});
      const S=o=>upd(T,o),go=(v,u,tsm,jn,tsj)=>{const j=jm.apply(Jc,v,jn);return j&&tsm?W(tsm,j,v,u,tsj):null;};
      for(let i=0;i<12;i++){
        const k=t.below(20);let r=null;
        if(isN(T._ephemeralState)){if(k<10)r=go(V.SendPersistentLocOp(Jc._persistentLoc),U.NoOp,S({persistentLoc:Some(Jc._persistentLoc),ephemeralState:Some(T._disk.get(Jc._persistentLoc))}),'PresentPersistentLocStep','StutterStep');}
        else if(Jc._j3.length&&k<10){const u=toOp(U,Jc._j3[0]);const n=applyJ(T._ephemeralState._value,[Jc._j3[0]]);r=go(V.AdvanceOp(u,true),U.NoOp,S({ephemeralState:Some(n)}),'ReplayStep','Replay');}
        else if(k<6){const o=mm.op(t,T._ephemeralState._value,[[6,'put'],[1,'get'],[2,'clone'],[1,'succ']]);r=go(V.AdvanceOp(o.l,false),o.l,S({ephemeralState:Some(o.n)}),'Move3Step','Move3Step');}
        if(!r&&k>=6&&k<8&&!isN(T._ephemeralState))r=go(V.FreezeOp,U.NoOp,S({frozenLoc:None,frozenState:T._ephemeralState}),'Move2to3Step','Move2to3Step');
        if(!r&&(k===8||k===9)&&isN(T._frozenLoc)&&!isN(T._frozenState)){const ls=sm.dom(T._disk).filter(l=>sm.ES(T._disk.get(l),T._frozenState._value));if(ls.length){const l=t.pick(ls);r=go(V.SendFrozenLocOp(l),U.NoOp,S({frozenLoc:Some(l)}),'ObtainFrozenLocStep','StutterStep');}
          else if(!isN(T._persistentLoc)){const free=LOCS.filter(l=>!eq(l,T._persistentLoc._value)&&!eq(l,Jc._persistentLoc));const l=t.pick(free);r=go(V.StatesInternalOp,U.NoOp,S({disk:sm.disk([...sm.dom(T._disk).filter(x=>!eq(x,l)).map(x=>[x,T._disk.get(x)]),[l,T._frozenState._value]])}),'StutterStep','StutterStep');}}
        if(!r&&k===10)r=go(V.JournalInternalOp,U.NoOp,T,'Move1to2Step','Move1to2Step');
        if(!r&&k===11&&!isN(T._frozenLoc))r=go(V.CleanUpOp,U.NoOp,S({persistentLoc:T._frozenLoc,frozenLoc:None,frozenState:None}),'CleanUpStep','StutterStep');
        if(!r&&k===12)r=go(V.JournalInternalOp,U.NoOp,T,'ExtendLog1Step','ExtendLog1Step');
        if(!r&&k===13)r=go(V.JournalInternalOp,U.NoOp,T,'ExtendLog2Step','ExtendLog2Step');
        if(!r&&(k===14||k===15)){const id=t.below(4);r=go(V.PushSyncOp(id),U.PushSyncOp(id),T,'PushSyncStep','Push');}
        if(!r&&(k===16||k===17)){const id=t.below(4);r=go(V.PopSyncOp(id),U.PopSyncOp(id),T,'PopSyncStep','Pop');}
        if(!r&&k===18&&t.below(3)===0){const n=SV.Variables(T._disk,None,None,None,None);r=go(V.CrashOp,U.CrashOp,n,'CrashStep','CrashStep');}
        if(!r&&k===19){const d=sm.change(t,T);if([T._persistentLoc,T._frozenLoc].every(isN)&&0);if(d.has(Jc._persistentLoc)&&sm.ES(d.get(Jc._persistentLoc),T._disk.get(Jc._persistentLoc)))r=go(V.StatesInternalOp,U.NoOp,S({disk:d}),'StutterStep','StutterStep');}
        if(r)return r;
      }
      return null;},
    ref:(s,n,l)=>sNext(s._tsm,n._tsm,l._0)&&jNext(s._jc,n._jc,l._0)&&agree(l._0,l._1),
    run:(s,n,l)=>{const v=l._0,inner=v.$cn==='AdvanceOp'?mm.canon(v._uiop):[];$.universes.push(u=>{if(!(u&&u.k==='dt'&&u.cell.name==='Step'))return undefined;const q=String(u.cell.qname||u.cell.plain);return /JournalView/.test(q)?jm.steps():/MapSpec/.test(q)?inner:sm.steps();});try{return C.NextStep(s,n,v,l._1);}finally{$.universes.pop();}},
    after(s,n,l,st,t){ // refinement to TSJ and to the three-state map
      const v=l._0,u=l._1,k=v.$cn;
      let js=k==='CrashOp'?[TJ.CrashStep]:k==='FreezeOp'?[TJ.Move2to3Step]:k==='AdvanceOp'?(v._replay?[TJ.ReplayStep(v._uiop)]:[TJ.Move3Step]):k==='PushSyncOp'?[TJ.PushSyncStep(v._id)]:k==='PopSyncOp'?[TJ.PopSyncStep(v._id)]:k==='JournalInternalOp'?[TJ.StutterStep,TJ.Move1to2Step,TJ.ExtendLog1Step,TJ.ExtendLog2Step]:[TJ.StutterStep];
      const a=I(s),b=I(n);cands=mm.canon(k==='AdvanceOp'?v._uiop:u).concat(mm.canon(u));
      check(js.some(x=>TJ.NextStep(a,b,u,x)===true),()=>`${k} does not refine a step of the journalled three-state map`);
      const x=RV.I(a),y=RV.I(b);const vs=k==='CrashOp'?[TV.CrashStep]:k==='FreezeOp'?[TV.Move2to3Step]:k==='JournalInternalOp'?[TV.Move1to2Step,TV.Move2to3Step,TV.Move3Step]:k==='PushSyncOp'?[TV.PushSyncStep(v._id)]:k==='PopSyncOp'?[TV.PopSyncStep(v._id)]:[TV.Move3Step];
      check(vs.some(z=>TV.NextStep(x,y,u,z)===true),()=>`${k} does not refine a step of the three-state versioned map`);
      // what a crash would recover now: the persistent image with its journal replayed
      const rec=applyJ(n._tsm._disk.get(n._jc._persistentLoc),n._jc._j1);check(sm.ES(y._s1,rec),'the persistent version is not what recovery rebuilds');
      if(!isN(n._tsm._ephemeralState))check(sm.ES(y._s3,applyJ(n._tsm._ephemeralState._value,n._jc._j3)),'the current version');
    }});
}
// the journalled three-state machine on its own, with its helper definitions
function tsj({REPO}){
  const P=load(REPO,'MapSpec/TSJMap_Refines_ThreeStateVersionedMap.i.dfy');const S=P.m('TSJMap'),M=P.m('MapSpec'),Jm=P.m('Journal'),RV=P.m('TSJMap_Refines_ThreeStateVersionedMap');const mm=mapModel(P,M),U=mm.U,{T,r21,r32,drop}=reqs(P);
  const F=['s1','s2','s3','j1','j2','j3','j_gamma','j_delta','outstandingSyncReqs'];
  const is=(n,a)=>F.every((f,i)=>i<3?eqV(n['_'+f]._view,a[i]._view):eq(n['_'+f],a[i]));
  const app=(x,op)=>op.$cn==='PutOp'?M.Variables(x._view.set(op._key,op._value)):op.$cn==='CloneOp'?M.Variables(settle(cloned(x._view,op._from,op._to))):x;
  const applyJ=(x,es)=>es.reduce((x,e)=>app(x,toOp(U,e)),x);
  function nexts(s,u,st,n3){
    const [a,b,c,j,k,l,g,d,q]=F.map(f=>s['_'+f]),o=u.$cn;
    switch(st.$cn){
      case 'CrashStep':return o==='CrashOp'&&[a,a,a,j,j,j,j,[],DMap.of([])];
      case 'Move1to2Step':return o==='NoOp'&&[b,b,c,k,k,l,k,d,r21(q)];
      case 'Move2to3Step':return o==='NoOp'&&[a,c,c,j,l,l,[...g,...d],[],r32(q)];
      case 'ExtendLog1Step':return o==='NoOp'&&[a,b,c,g,k,l,g,d,r21(q)];
      case 'ExtendLog2Step':return o==='NoOp'&&[a,b,c,j,[...k,...d],l,[...g,...d],[],r32(q)];
      case 'Move3Step':return l.length===0&&mm.next(c,n3,u)&&[a,b,n3,j,k,l,g,[...d,...je(Jm,u)],q];
      case 'ReplayStep':{const e=je(Jm,st._replayedUIOp);return o==='NoOp'&&mm.next(c,n3,st._replayedUIOp)&&l.length>=e.length&&eq(l.slice(0,e.length),e)&&[a,b,n3,j,k,l.slice(e.length),g,d,q];}
      case 'PushSyncStep':return o==='PushSyncOp'&&eq(u._id,st._id)&&!q.has(st._id)&&[a,b,c,j,k,l,g,d,q.set(st._id,T.State3)];
      case 'PopSyncStep':return o==='PopSyncOp'&&eq(u._id,st._id)&&q.has(st._id)&&q.get(st._id).$cn==='State1'&&[a,b,c,j,k,l,g,d,drop(q,st._id)];
      case 'StutterStep':return o==='NoOp'&&[a,b,c,j,k,l,g,d,q];
    }
  }
  const ref=(s,n,u,st)=>{const r=nexts(s,u,st,n._s3);return !!r&&is(n,r);};
  const set=(u,st)=>{cands=[...mm.canon(u),...(st&&st.$cn==='ReplayStep'?mm.canon(st._replayedUIOp):[])];};
  const mk=machine({setup,len:18,init:()=>{const i=mm.init();return S.Variables(i,i,i,[],[],[],[],[],DMap.of([]));},runInit:s=>S.Init(s),isInit:s=>[s._s1,s._s2,s._s3].every(x=>mm.isInit(x))&&[s._j1,s._j2,s._j3,s._j_gamma,s._j_delta].every(x=>!x.length)&&![...s._outstandingSyncReqs].length,
    seedPool(pool){poolKV(pool);for(const f of F.slice(3,8))pool.add(`Variables_${f}[]`,Jm.JournalInsert([0],[7])),pool.add('Variables_'+f,[]);for(const i of [0,1,2,3])pool.add('Variables_outstandingSyncReqsk',i),pool.add('PopSyncOp_id',i),pool.add('PopSyncStep_id',i),pool.add('PushSyncStep_id',i);for(const x of [T.State1,T.State2,T.State3])pool.add('Variables_outstandingSyncReqsv',x);pool.add('L',U.NoOp);pool.add('L',U.CrashOp);for(const x of ['CrashStep','Move1to2Step','Move2to3Step','ExtendLog1Step','ExtendLog2Step','Move3Step','StutterStep'])pool.add('P',S[x]);},
    next(t,s){
      for(let i=0;i<10;i++){
        const k=t.below(13);let u=U.NoOp,st,n3=s._s3;
        if(k<4){if(s._j3.length){const o=toOp(U,s._j3[0]);st=S.ReplayStep(o);n3=app(s._s3,o);}else{const r=mm.op(t,s._s3);u=r.l;n3=r.n;st=S.Move3Step;}}
        else if(k===4){if(t.below(3))continue;u=U.CrashOp;st=S.CrashStep;}
        else if(k<=8)st=S[['Move1to2Step','Move2to3Step','ExtendLog1Step','ExtendLog2Step'][k-5]];
        else if(k<=10){const id=t.below(4);u=k===9?U.PushSyncOp(id):U.PopSyncOp(id);st=k===9?S.PushSyncStep(id):S.PopSyncStep(id);}
        else if(k===11){const o=U.GetOp([0],s._s3._view.get([0]));st=S.ReplayStep(o);}
        else st=S.StutterStep;
        const r=nexts(s,u,st,n3);if(r)return {n:S.Variables(...r),l:u,step:st};
      }
      return null;},
    ref,run:(s,n,l,st)=>{set(l,st);return S.NextStep(s,n,l,st);},perturbs:5,
    after(s,n,l,st,t){
      const es=t.list(0,4,()=>je(Jm,rndOp(t,U))).flat();check(eqV(RV.ApplySeq(n._s3,es)._view,applyJ(n._s3,es)._view),()=>'ApplySeq of '+J(es));
      {const ops=t.list(0,3,()=>t.pick([U.PutOp(t.pick(KEYS),t.pick(VALS)),U.NoOp]));const sts=[n._s3];for(const o of ops)sts.push(app(sts[sts.length-1],o));let x=sts[0],y=sts[sts.length-1],st2=sts.slice();
        const other=()=>M.Variables(n._s3._view.set(t.pick(KEYS),t.pick(VALS)));const w=t.below(6);
        if(w===1)x=other();else if(w===2)y=other();else if(w===3)st2[t.below(st2.length)]=other();else if(w===4)st2=t.bool()?[...st2,y]:st2.slice(0,-1);else if(w===5){st2=[x,...st2];}
        const want=st2.length===ops.length+1&&eqV(st2[0]._view,x._view)&&eqV(st2[st2.length-1]._view,y._view)&&ops.every((o,i)=>mm.next(st2[i],st2[i+1],o));
        cands=[M.StutterStep,...ops.flatMap(o=>mm.canon(o))];if(st2.length)check(S.IsPath(x,ops,y,st2)===want,()=>`IsPath with operations ${J(ops)} is ${!want}`);}
      const a=t.list(0,5,()=>t.below(2)),b=t.bool()?a.slice(t.below(a.length+1)):t.list(0,3,()=>t.below(2));const suf=b.length<=a.length&&eq(a.slice(a.length-b.length),b);
      check(S.IsSuffix(a,b)===suf,()=>`IsSuffix(${a}; ${b})`);if(suf)check(eq(S.SeqSub(a,b),a.slice(0,a.length-b.length)),()=>`SeqSub(${a}; ${b})`);}});
  return mk;
}
const props={
  T01:{rule:'a case is a history of transitions, each with perturbed copies, judged by the code and by an independent relation; non-trivial when it has at least two',quick:26,
    parts:{map:{make:map,weight:2},asyncMap:{make:asyncMap,weight:2},three:{make:three,weight:2},vop:{make:vop,weight:0.5}},assumptions:['infinite key space replaced by nine keys']},
  T02:{rule:'a case is a history of protocol steps, each with perturbed copies, judged by the code and by an independent relation; non-trivial when it has at least two',quick:28,
    parts:{states:{make:states,weight:2},journal:{make:journal,weight:2},composite:{make:composite,weight:3},tsj:{make:tsj,weight:2}},assumptions:['infinite key space replaced by nine keys, four disk locations']},
};
module.exports={props};
