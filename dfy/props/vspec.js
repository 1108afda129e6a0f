'use strict';
// V01: the trusted specification of Splinter: keys, messages, total maps, versions, and the map, asynchronous map and crash-tolerant map machines.
const L=require('../vlib.js');const {V,$,check,discard,DMap,DSet,IMap,load,ty,fn,U,eq}=L;const {machine,upd}=require('../sm.js');
const DIRS=['spec'];
const NK=7;
// ---------------------------------------------------------------- values
function base(REPO,dirs=DIRS,opts={}){
  let params=null;
  const P=load(REPO,dirs,Object.assign({params:(m,tr,p,pre,post,lbl)=>params&&params(m,tr,p,pre,post,lbl)},opts));
  const Key=ty(P,'spec::KeyType_t::Key'),El=ty(P,'spec::KeyType_t::Element'),Msg=ty(P,'spec::Messages_t::Message'),Value=ty(P,'spec::Messages_t::Value'),Delta=ty(P,'spec::Messages_t::Delta');
  const TM=ty(P,'spec::TotalKMMap_t::TotalKMMap');
  const KEYS=[...Array(opts.nk||NK).keys()].map(i=>Key(i));const ELS=[...KEYS.map(k=>El.Elem(k._0)),El.Max];
  const w={P,Key,El,Msg,Value,Delta,TM,KEYS,ELS,setParams:f=>{params=f;}};
  w.keyU=u=>u&&u.ty&&(u.ty.n==='Key')?KEYS:u&&u.ty&&u.ty.n==='Element'?ELS:null;
  w.setup=more=>{$.universes.length=0;$.universes.push(u=>more&&more(u)||w.keyU(u)||(!u||!u.ty?KEYS:null));};
  w.def=v=>Msg.Define(Value(v));w.upd=d=>Msg.Update(Delta(d));
  w.msg=t=>t.below(4)===3?w.upd(t.below(3)):w.def(t.below(5));
  // independent meaning of messages
  w.merge=(o,n)=>n.$cn==='Define'?n:o.$cn==='Define'?o:(n._delta._0===0?o:n);
  w.emptyMap=()=>TM(new IMap(()=>true,()=>w.def(0),{k:'v',ty:{n:'Key'}}));
  w.mk=m=>TM(KEYS.reduce((a,k)=>m[k._0]?a.set(k,m[k._0]):a,w.emptyMap()._0));
  w.rows=m=>KEYS.map(k=>m._0.get(k));
  w.eqM=(a,b)=>[...KEYS,...(a._0.ov?[...a._0.ov.values(),...b._0.ov.values()].map(e=>e[0]):[])].every(k=>a._0.has(k)===b._0.has(k)&&(!a._0.has(k)||eq(a._0.get(k),b._0.get(k))));
  w.total=m=>KEYS.every(k=>m._0.has(k));
  return w;
}
const sgn=(a,b)=>{a=BigInt(a);b=BigInt(b);return a<b?-1:a>b?1:0;};
function keys({REPO}){
  const w=base(REPO);const {P,Key,El,Msg,Value,Delta,TM}=w;const f=n=>fn(P,'spec::KeyType_t::'+n);
  const F={klte:f('Key::lte'),klt:f('Key::lt'),kss:f('Key::is_strictly_sorted'),ks:f('Key::is_sorted'),kll:f('Key::largest_lte'),klt2:f('Key::largest_lt'),mpu:f('Key::map_pivoted_union'),elte:f('Element::lte'),elt:f('Element::lt'),ess:f('Element::is_strictly_sorted'),es:f('Element::is_sorted'),ell:f('Element::largest_lte'),min:f('Element::min_elem'),tk:f('to_key'),te:f('to_element')};
  const BIG=[0,1,2,3,255,256,65536,4294967296,2**40,9007199254740991,18446744073709551615n,18446744073709551614n];
  const ecmp=(a,b)=>a.$cn==='Max'?(b.$cn==='Max'?0:1):b.$cn==='Max'?-1:sgn(a._e,b._e);
  const ins=fn(P,'spec::TotalKMMap_t::TotalKMMap::insert'),em=fn(P,'spec::TotalKMMap_t::TotalKMMap::empty'),wf=fn(P,'spec::TotalKMMap_t::TotalKMMap::wf'),ix=fn(P,'spec::TotalKMMap_t::TotalKMMap::spec_index'),ext=fn(P,'spec::TotalKMMap_t::TotalKMMap::ext_equal');
  const merge=fn(P,'spec::Messages_t::Message::merge'),me=fn(P,'spec::Messages_t::Message::empty');
  return (t,c)=>{
    w.setup();
    const num=()=>t.below(3)===2?t.pick(BIG):t.below(6);const run=t.list(0,7,num);const want=t.below(3);
    if(want>=1)run.sort((a,b)=>sgn(a,b));const set=want===2?run.filter((x,i)=>!i||sgn(x,run[i-1])):run;
    const ks=set.map(Key),n=num(),N=Key(n);
    const ss=set.every((x,i)=>!i||sgn(set[i-1],x)<0),so=set.every((x,i)=>!i||sgn(set[i-1],x)<=0);
    check(F.kss(ks)===ss,()=>`is_strictly_sorted of ${$.show(ks)}`);check(F.ks(ks)===so,()=>`is_sorted of ${$.show(ks)}`);
    const a=num(),b=num();check(F.klte(Key(a),Key(b))===(sgn(a,b)<=0),()=>`lte(${a},${b})`);check(F.klt(Key(a),Key(b))===(sgn(a,b)<0),()=>`lt(${a},${b})`);
    if(so){check(F.kll(ks,N)===set.filter(x=>sgn(x,n)<=0).length-1,()=>`largest_lte of ${$.show(ks)} at ${n}`);check(F.klt2(ks,N)===set.filter(x=>sgn(x,n)<0).length-1,()=>`largest_lt of ${$.show(ks)} at ${n}`);}
    const es=set.map(x=>El.Elem(x));if(t.bool())es.splice(want?es.length:t.below(es.length+1),0,El.Max);const e=t.below(4)?El.Elem(n):El.Max;
    const ess=es.every((x,i)=>!i||ecmp(es[i-1],x)<0),eso=es.every((x,i)=>!i||ecmp(es[i-1],x)<=0);
    check(F.ess(es)===ess,()=>`Element::is_strictly_sorted of ${$.show(es)}`);check(F.es(es)===eso,()=>`Element::is_sorted of ${$.show(es)}`);
    if(eso)check(F.ell(es,e)===es.filter(x=>ecmp(x,e)<=0).length-1,()=>`Element::largest_lte of ${$.show(es)} at ${$.show(e)}`);
    const e2=t.below(4)?El.Elem(num()):El.Max;check(F.elte(e,e2)===(ecmp(e,e2)<=0)&&F.elt(e,e2)===(ecmp(e,e2)<0),()=>`order of ${$.show(e)} and ${$.show(e2)}`);
    check(F.elte(F.min(),e),'min_elem');check(eq(F.te(N),El.Elem(n))&&eq(F.tk(El.Elem(n)),N),'to_element and to_key');
    const l=DMap.of(ks.map((k,i)=>[k,i])),r=DMap.of(t.list(0,5,num).map((k,i)=>[Key(k),100+i]));const u=F.mpu(l,N,r);
    for(const k of new Set([...run,...[...r].map(x=>x._0),n])){const s=sgn(k,n)<0?l:r;check(u.has(Key(k))===s.has(Key(k))&&(!s.has(Key(k))||eq(u.get(Key(k)),s.get(Key(k)))),()=>`map_pivoted_union at ${k}`);}
    // messages and total maps
    const A=w.msg(t),B=w.msg(t),C=w.msg(t);check(eq(merge(A,B),w.merge(A,B)),()=>`merge of ${$.show(A)} and ${$.show(B)}`);check(eq(merge(merge(A,B),C),merge(A,merge(B,C))),()=>`merge is not associative on ${$.show([A,B,C])}`);check(eq(me(),w.def(0)),'the empty message');
    let m=em(),ref={};check(wf(m)&&w.KEYS.every(k=>eq(ix(m,k),w.def(0))),'the empty map');
    for(let i=t.size(0,6);i>0;i--){const k=t.pick(w.KEYS),v=w.msg(t);m=ins(m,k,v);ref[k._0]=v;}
    const o=w.mk(ref);check(wf(m),'a map after inserts is not total');check(w.KEYS.every(k=>eq(ix(m,k),ref[k._0]||w.def(0))),'a value read from the map');check(ext(m,o)&&ext(o,m),'ext_equal of equal maps');
    const k=t.pick(w.KEYS),v=w.msg(t),m2=ins(m,k,v);check(ext(m,m2)===eq(ix(m,k),v),'ext_equal of maps differing at one key');
    const part=TM(new IMap(x=>!eq(x,k),()=>w.def(0),{k:'v',ty:{n:'Key'}}));check(!wf(part),'a partial map is well formed');
    c.nontrivial(set.length>=2);c.sample($.show(ks).slice(0,120));
  };
}
function floating({REPO}){
  const w=base(REPO);const {P}=w;const f=n=>fn(P,'spec::FloatingSeq_t::FloatingSeq::'+n);const FS=ty(P,'spec::FloatingSeq_t::FloatingSeq');
  const F={};for(const n of ['new','len','first_active_index','is_active','get','spec_index','get_prefix','get_suffix','append','last','drop_last'])F[n]=f(n);
  return (t,c)=>{
    w.setup();let st=t.size(0,9),n=t.size(0,8);let s=F.new(st,st+n,i=>i*3+1),m=[...Array(n)].map((_,i)=>(st+i)*3+1);let k=0;
    const same=()=>{
      check(F.first_active_index(s)===st,'first_active_index');check(F.len(s)===st+m.length,()=>`len of ${$.show(s)}`);
      for(let i=Math.max(0,st-2);i<=st+m.length+1;i++){const act=i>=st&&i<st+m.length;check(F.is_active(s,i)===act,()=>`is_active(${i}) of ${$.show(s)}`);if(act){check(F.get(s,i)===m[i-st]&&F.spec_index(s,i)===m[i-st],()=>`entry ${i} of ${$.show(s)}`);}}
      if(m.length)check(F.last(s)===m[m.length-1],'last');
    };
    same();
    for(let j=t.size(0,8);j>0;j--){const o=t.below(4);
      if(o===0){const e=t.below(st+m.length+1);s=F.get_prefix(s,e);if(e<=st){st=e;m=[];}else m=m.slice(0,e-st);}
      else if(o===1){const e=st+t.below(m.length+1);s=F.get_suffix(s,e);m=m.slice(e-st);st=e;}
      else if(o===2){const x=t.list(0,4,()=>t.below(50));s=F.append(s,x);m=[...m,...x];}
      else if(m.length){s=F.drop_last(s);m.pop();}
      k++;same();}
    c.nontrivial(k>=2);c.sample($.show(s));
  };
}
// ---------------------------------------------------------------- machines
function model(w){
  const P=w.P,M=P.machines.get('MapSpec'),A=P.machines.get('AsyncMap'),C=P.machines.get('CrashTolerantAsyncMap');
  const q='spec::MapSpec_t::';const In=ty(P,q+'Input'),Out=ty(P,q+'Output'),ML=ty(P,q+'MapSpec::Label'),AL=ty(P,q+'AsyncMap::Label'),CL=ty(P,q+'CrashTolerantAsyncMap::Label');
  const Req=ty(P,q+'Request'),Rep=ty(P,q+'Reply'),PS=ty(P,q+'PersistentState'),ES=ty(P,q+'EphemeralState');
  const step=(MM,n,...a)=>{const v=MM.Step.variants.get(n);return v.single||new v.K(...a);};
  const eqS=(a,b)=>w.eqM(a._kmmap,b._kmmap);
  // map: does op (input, output) lead from a to b
  function mapOp(a,b,i,o){
    if(i.$cn==='QueryInput')return o.$cn==='QueryOutput'&&w.eqM(a,b)&&a._0.has(i._key)&&a._0.get(i._key).$cn==='Define'&&eq(a._0.get(i._key)._value,o._value);
    if(i.$cn==='PutInput')return o.$cn==='PutOutput'&&w.eqM(b,w.TM(a._0.set(i._key,w.Msg.Define(i._value))));
    return o.$cn==='NoopOutput'&&w.eqM(a,b);
  }
  const kind={QueryInput:'Query',PutInput:'Put',NoopInput:'Noop'};
  function input(t){const k=t.pick(w.KEYS);const x=t.below(5);return x<2?In.QueryInput(k):x<4?In.PutInput(k,w.Value(t.below(5))):In.NoopInput;}
  function exec(m,i){if(i.$cn==='QueryInput')return [m,Out.QueryOutput(m._0.get(i._key)._value)];if(i.$cn==='PutInput')return [w.TM(m._0.set(i._key,w.Msg.Define(i._value))),Out.PutOutput];return [m,Out.NoopOutput];}
  const mlabels=(i,o)=>['Query','Put','Noop'].map(n=>ML[n](i,o));
  return {P,M,A,C,In,Out,ML,AL,CL,Req,Rep,PS,ES,step,eqS,mapOp,kind,input,exec,mlabels,
    mapNext:(a,b,l)=>kind[l._input.$cn]===l.$cn&&mapOp(a,b,l._input,l._output)};
}
function asyncNext(m,w,s,n,l){ // s, n: {p: map, e: EphemeralState}
  const rq=s.e._requests,rp=s.e._replies;const E=(a,b)=>eq(n.e,m.ES(a,b));const rm=(x,y)=>DSet.from([...x].filter(z=>!eq(z,y))),add=(x,y)=>DSet.from([...x,y]);
  if(l.$cn==='RequestOp')return !rq.has(l._req)&&w.eqM(s.p,n.p)&&E(add(rq,l._req),rp);
  if(l.$cn==='ReplyOp')return rp.has(l._reply)&&w.eqM(s.p,n.p)&&E(rq,rm(rp,l._reply));
  return eq(l._req._id,l._reply._id)&&rq.has(l._req)&&!rp.has(l._reply)&&E(rm(rq,l._req),add(rp,l._reply))&&m.mapOp(s.p,n.p,l._req._input,l._reply._output);
}
// a relation that depends on an unspecified value accepts when some value makes it hold
function guard(f){try{return f();}catch(e){if(!(e instanceof V.DafnyFail))throw e;}
  for(let k=0;k<3;k++){V.havoc=k;try{if(f())return true;}catch(e){if(!(e instanceof V.DafnyFail||e instanceof TypeError))throw e;}finally{V.havoc=null;}}return false;}
function seedVals(pool,w){for(const k of w.KEYS){for(const p of ['QueryInputkey','PutInputkey','TotalKMMap0k'])pool.add(p,k);}for(let v=0;v<5;v++){for(const p of ['QueryOutputvalue','PutInputvalue'])pool.add(p,w.Value(v));pool.add('TotalKMMap0v',w.def(v));pool.add('TotalKMMap_0v',w.def(v));}for(const k of w.KEYS)for(const p of ['QueryInput_key','PutInput_key','TotalKMMap_0k'])pool.add(p,k);for(let v=0;v<5;v++)for(const p of ['QueryOutput_value','PutInput_value'])pool.add(p,w.Value(v));
  pool.add('TotalKMMap_0',new IMap(x=>x._0!==2,()=>w.def(0),{k:'v',ty:{n:'Key'}}));}
function map({REPO}){
  const w=base(REPO);const m=model(w);const S=x=>new m.M.state.K(x);
  return machine({setup:()=>w.setup(),init:()=>S(w.emptyMap()),runInit:s=>m.P.C[m.M.state.members.get('init').i](s),isInit:s=>w.eqM(s._kmmap,w.emptyMap()),
    seedPool(pool,t){seedVals(pool,w);for(const o of [m.Out.PutOutput,m.Out.NoopOutput,m.Out.QueryOutput(w.Value(1))])for(const l of ['Query','Put','Noop'])pool.add(l+'_output',o);for(const i of [m.In.NoopInput,m.In.QueryInput(w.KEYS[1]),m.In.PutInput(w.KEYS[2],w.Value(3))])for(const l of ['Query','Put','Noop'])pool.add(l+'_input',i);},
    next(t,s){const i=m.input(t);const [n,o]=m.exec(s._kmmap,i);const wild=t.below(6)===0;return {n:S(n),l:m.ML[m.kind[i.$cn]](i,o),step:m.step(m.M,m.kind[i.$cn].toLowerCase())};},
    ref:(s,n,l,st)=>st.$cn===l.$cn.toLowerCase()&&(w.total(s._kmmap)?m.mapNext(s._kmmap,n._kmmap,l):null),
    run:(s,n,l,st)=>guard(()=>m.M.by(s,n,l,st)),runNext:(s,n,l)=>guard(()=>m.M.next(s,n,l)),inv:s=>s.m_invariant(),invRef:s=>w.total(s._kmmap),perturbs:5});
}
const mapOf=p=>p._appv._kmmap;
function asyncMap({REPO}){
  const w=base(REPO);const m=model(w);const MS=x=>new m.M.state.K(x);const S=(p,e)=>new m.A.state.K(m.PS(MS(p)),e);
  const emp=()=>m.ES(DSet.from([]),DSet.from([]));
  return machine({setup(){w.setup();},len:18,init:()=>S(w.emptyMap(),emp()),
    seedPool(pool,t){seedVals(pool,w);for(let i=0;i<4;i++)pool.add('Request_id',i),pool.add('Reply_id',i);for(const o of [m.Out.PutOutput,m.Out.NoopOutput,m.Out.QueryOutput(w.Value(1))]){pool.add('Reply_output',o);pool.add('EphemeralState_repliesk',m.Rep(o,t.below(4)));}pool.add('Request_input',m.In.NoopInput);pool.add('EphemeralState_requestsk',m.Req(m.In.NoopInput,t.below(3)));},
    next(t,s){
      const rq=[...s._ephemeral._requests],rp=[...s._ephemeral._replies],k=t.below(8),p=mapOf(s._persistent),E=(a,b)=>m.ES(DSet.from(a),DSet.from(b));
      if(k<3&&rq.length){const r=t.pick(rq),[n,o]=m.exec(p,r._input),y=m.Rep(o,r._id);if(!rp.some(z=>eq(z,y)))return {n:S(n,E(rq.filter(z=>z!==r),[...rp,y])),l:m.AL.ExecuteOp(r,y),step:m.step(m.A,'execute',m.ML[m.kind[r._input.$cn]](r._input,o),m.PS(MS(n)))};}
      if(k===3&&rp.length){const y=t.pick(rp);return {n:S(p,E(rq,rp.filter(z=>z!==y))),l:m.AL.ReplyOp(y),step:m.step(m.A,'reply')};}
      const r=m.Req(m.input(t),t.below(4));if(rq.some(z=>eq(z,r)))return null;
      return {n:S(p,E([...rq,r],rp)),l:m.AL.RequestOp(r),step:m.step(m.A,'request')};},
    ref(s,n,l,st){if(!w.total(mapOf(s._persistent)))return null;const want={request:'RequestOp',execute:'ExecuteOp',reply:'ReplyOp'}[st.$cn];if(l.$cn!==want)return false;
      if(st.$cn==='execute'){const ml=st._0;if(!eq(ml._input,l._req._input)||!eq(ml._output,l._reply._output)||m.kind[ml._input.$cn]!==ml.$cn||!w.eqM(mapOf(st._1),mapOf(n._persistent)))return false;}
      return asyncNext(m,w,{p:mapOf(s._persistent),e:s._ephemeral},{p:mapOf(n._persistent),e:n._ephemeral},l);},
    run:(s,n,l,st)=>guard(()=>m.A.by(s,n,l,st)),runNext:(s,n,l)=>{w.setParams((mm,tr,p)=>p==='map_label'&&l.$cn==='ExecuteOp'?m.mlabels(l._req._input,l._reply._output):null);return guard(()=>m.A.next(s,n,l));},perturbs:5,
    after(s0,n0,l0,st0,t){const s=n0,rq=[...s._ephemeral._requests],rp=[...s._ephemeral._replies],p=mapOf(s._persistent);
      const r=rq.length&&t.below(3)?t.pick(rq):m.Req(m.input(t),t.below(4));const j=t.below(4)?r._input:m.input(t);let [n,o]=m.exec(p,j);if(t.below(4)===0)o=t.pick([m.Out.PutOutput,m.Out.NoopOutput,m.Out.QueryOutput(w.Value(t.below(5)))]);
      const y=m.Rep(o,t.below(3)?r._id:t.below(4));const post=S(n,m.ES(DSet.from(rq.filter(z=>!eq(z,r))),DSet.from([...rp,y])));const l=m.AL.ExecuteOp(r,y);const want=asyncNext(m,w,{p,e:s._ephemeral},{p:n,e:post._ephemeral},l);
      w.setParams((mm,tr,q)=>q==='map_label'?m.mlabels(r._input,o):null);const got=guard(()=>m.A.next(s,post,l));check(got===want,()=>`executing ${$.show(r)} with reply ${$.show(y)} is ${got?'accepted':'rejected'}`);}});
}
function crashMap({REPO}){
  const w=base(REPO);const m=model(w);const MS=x=>new m.M.state.K(x);const FS=ty(w.P,'spec::FloatingSeq_t::FloatingSeq');
  const S=(f,vs,e,q)=>new m.C.state.K(FS(f,vs.map(p=>m.PS(MS(p)))),e,q);const emp=()=>m.ES(DSet.from([]),DSet.from([]));
  const maps=s=>s._versions._entries.map(mapOf);const FV=(f,vs)=>FS(f,vs.map(p=>m.PS(MS(p))));
  const same=(a,b)=>a.length===b.length&&a.every((x,i)=>w.eqM(x,b[i]));
  const cand=l=>(mm,tr,p)=>p==='map_label'?(l.$cn==='OperateOp'&&l._base_op.$cn==='ExecuteOp'?m.mlabels(l._base_op._req._input,l._base_op._reply._output):[]):p==='new_stable_index'?[...Array(30).keys()]:null;
  const is=(n,f,vs,e,q)=>n._versions._start===f&&same(maps(n),vs)&&eq(n._async_ephemeral,e)&&eq(n._sync_requests,q);
  function ref(s,n,l,st){
    const f=s._versions._start,vs=maps(s),e=s._async_ephemeral,q=s._sync_requests;if(!vs.length||!vs.every(w.total))return null;
    switch(st.$cn){
      case 'operate':{if(l.$cn!=='OperateOp')return false;if(!eq(st._0._start,n._versions._start)||!same(st._0._entries.map(mapOf),maps(n))||!eq(st._1,n._async_ephemeral)||!eq(q,n._sync_requests))return false;
        const nv=maps(n);if(n._versions._start!==f||!nv.length)return false;if(!(same(nv,vs)||nv.length===vs.length+1&&same(nv.slice(0,-1),vs)))return false;
        return asyncNext(m,w,{p:vs[vs.length-1],e},{p:nv[nv.length-1],e:n._async_ephemeral},l._base_op);}
      case 'crash':return l.$cn==='CrashOp'&&is(n,f,[vs[0]],emp(),DMap.of([]));
      case 'sync':{if(l.$cn!=='SyncOp')return false;const i=st._0;return f<=i&&i<f+vs.length&&is(n,i,vs.slice(i-f),e,q);}
      case 'req_sync':return l.$cn==='ReqSyncOp'&&!q.has(l._sync_req_id)&&is(n,f,vs,e,q.set(l._sync_req_id,f+vs.length-1));
      case 'reply_sync':return l.$cn==='ReplySyncOp'&&q.has(l._sync_req_id)&&q.get(l._sync_req_id)<=f&&is(n,f,vs,e,DMap.of([...q].filter(k=>!eq(k,l._sync_req_id)).map(k=>[k,q.get(k)])));
      case 'noop':return l.$cn==='Noop'&&is(n,f,vs,e,q);
    }
    return null;
  }
  return machine({setup(){w.setup();},len:24,init:()=>S(0,[w.emptyMap()],emp(),DMap.of([])),runInit:s=>guard(()=>w.P.C[m.C.state.members.get('initialize').i](s)),isInit:s=>s._versions._start===0&&same(maps(s),[w.emptyMap()])&&eq(s._async_ephemeral,emp())&&eq(s._sync_requests,DMap.of([])),
    seedPool(pool,t){seedVals(pool,w);for(let i=0;i<4;i++){for(const p of ['Request_id','Reply_id','ReqSyncOp_sync_req_id','ReplySyncOp_sync_req_id','State_sync_requestsk'])pool.add(p,i);}for(let i=0;i<8;i++)pool.add('State_sync_requestsv',i),pool.add('FloatingSeq_start',i),pool.add('sync_0',i);for(const l of [m.CL.CrashOp,m.CL.SyncOp,m.CL.Noop])pool.add('L',l);for(const n of ['crash','req_sync','reply_sync','noop'])pool.add('P',m.step(m.C,n));},
    next(t,s){
      const f=s._versions._start,vs=maps(s),e=s._async_ephemeral,q=s._sync_requests,k=t.below(14),last=vs[vs.length-1];
      if(k===0)return {n:S(f,[vs[0]],emp(),DMap.of([])),l:m.CL.CrashOp,step:m.step(m.C,'crash')};
      if(k<=2){const i=f+t.below(vs.length);return {n:S(i,vs.slice(i-f),e,q),l:m.CL.SyncOp,step:m.step(m.C,'sync',i)};}
      if(k===3){const id=t.below(4);if(!q.has(id))return {n:S(f,vs,e,q.set(id,f+vs.length-1)),l:m.CL.ReqSyncOp(id),step:m.step(m.C,'req_sync')};}
      if(k<=5){const ids=[...q].filter(i=>q.get(i)<=f);if(ids.length){const id=t.pick(ids);return {n:S(f,vs,e,DMap.of([...q].filter(x=>x!==id).map(x=>[x,q.get(x)]))),l:m.CL.ReplySyncOp(id),step:m.step(m.C,'reply_sync')};}}
      if(k===6)return {n:s,l:m.CL.Noop,step:m.step(m.C,'noop')};
      const rq=[...e._requests],rp=[...e._replies],E=(a,b)=>m.ES(DSet.from(a),DSet.from(b));
      const op=(vs2,e2,b)=>({n:S(f,vs2,e2,q),l:m.CL.OperateOp(b),step:m.step(m.C,'operate',FV(f,vs2),e2)});
      if(k<=9&&rq.length){const r=t.pick(rq),[n,o]=m.exec(last,r._input),y=m.Rep(o,r._id);if(!rp.some(z=>eq(z,y)))return op(r._input.$cn==='PutInput'||t.below(4)===0?(w.eqM(n,last)&&t.bool()?vs:[...vs,n]):vs,E(rq.filter(z=>z!==r),[...rp,y]),m.AL.ExecuteOp(r,y));}
      if(k===10&&rp.length){const y=t.pick(rp);return op(vs,E(rq,rp.filter(z=>z!==y)),m.AL.ReplyOp(y));}
      const r=m.Req(m.input(t),t.below(4));if(rq.some(z=>eq(z,r)))return null;
      return op(vs,E([...rq,r],rp),m.AL.RequestOp(r));},
    ref,run:(s,n,l,st)=>{w.setParams(cand(l));return guard(()=>m.C.by(s,n,l,st));},runNext:(s,n,l)=>{w.setParams(cand(l));return guard(()=>m.C.next(s,n,l));},inv:s=>guard(()=>s.m_invariant()),perturbs:5,
    after(s0,n,l0,st0,t){
      const f=n._versions._start,q=n._sync_requests;const id=t.below(5),l=m.CL.ReplySyncOp(id),st=m.step(m.C,'reply_sync');
      const post=S(f,maps(n),n._async_ephemeral,DMap.of([...q].filter(x=>x!==id).map(x=>[x,q.get(x)])));const want=ref(n,post,l,st),got=guard(()=>m.C.by(n,post,l,st));check(got===want,()=>`a reply to sync request ${id} is ${got?'accepted':'rejected'} with stable index ${f} and requests ${$.show(q)}`);
      const sv=fn(w.P,'spec::MapSpec_t::SingletonVersions')(mapless(m,MS,maps(n)[0]));check(sv._start===0&&sv._entries.length===1&&w.eqM(mapOf(sv._entries[0]),maps(n)[0]),'SingletonVersions');
      const o=t.below(4),vs=maps(n).slice();let g=f;if(o===1)g=f+1;else if(o===2)vs.push(vs[0]);else if(o===3){const i=t.below(vs.length);vs[i]=w.TM(vs[i]._0.set(t.pick(w.KEYS),w.def(t.below(5))));}
      const b=FV(g,vs),ee=g===f&&vs.length===maps(n).length&&vs.every((x,i)=>w.eqM(x,maps(n)[i]));const ge=guard(()=>n._versions.m_ext_equal(b));check(ge===ee,()=>`ext_equal of version sequences is ${ge}`);}});
}
const mapless=(m,MS,x)=>MS(x);
module.exports={base,model,asyncNext,guard,props:{V01:{rule:'a case counts when at least two operations or transitions were performed, or two keys compared',quick:60,thorough:600,
  parts:{keys,floating,map,asyncMap,crashMap},assumptions:['keys are drawn from a small set plus 64-bit boundary values; total maps are compared on that set','the semantics of the Verus specification language is our interpreter (vrs/), which evaluates the specification text of the repository']}}};
