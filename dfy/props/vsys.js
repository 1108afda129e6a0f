'use strict';
// V06: the running Splinter program over its disk (SystemModel with ConcreteProgramModel and AsyncDisk) is a crash-tolerant asynchronous map.
const L=require('../vlib.js');const {V,$,check,DMap,DSet,DMs,ty,fn,eq,Some,None}=L;const {machine,upd}=require('../sm.js');
const vs=require('./vspec.js');const {guard,asyncNext}=vs;
const DIRS=['spec','abstract_system','disk','journal','trusted','implementation'];
const I='implementation::';
const PAGES=3,AUS=3;
function setup(REPO){
  const pages=[],byKey=new Map(),store={};let ws=null;
  const mar=sb=>{const k=ws.KEYS.map(x=>$.key(sb._store._appv._kmmap._0.get(x))).join()+'@'+sb._version_index;let i=byKey.get(k);if(i===undefined){i=pages.length;pages.push(sb);byKey.set(k,i);}return [i%251,Math.floor(i/251),7];};
  const unm=r=>{const i=r.length===3&&r[2]===7?r[0]+251*r[1]:-1;return i>=0&&i<pages.length?pages[i]:store.odd;};
  const w=vs.base(REPO,DIRS,{nk:4,tparams:{ProgramModel:I+'ConcreteProgramModel_v::ConcreteProgramModel'},overrides:{
    'spec::AsyncDisk_t::page_count':()=>PAGES,'spec::AsyncDisk_t::au_count':()=>AUS,
    [I+'DiskLayout_v::spec_marshall']:mar,[I+'DiskLayout_v::spec_unmarshall']:unm}});
  ws=w;const P=w.P,m=vs.model(w);const A='spec::AsyncDisk_t::',T='trusted::ProgramModelTrait_t::';
  const W=Object.assign(w,{m,mar,unm,pages,
    M:P.machines.get('SystemModel'),D:P.machines.get('AsyncDisk'),C:P.machines.get('CrashTolerantAsyncMap'),
    LB:ty(P,'trusted::SystemModel_t::SystemModel::Label'),DL:ty(P,A+'AsyncDisk::Label'),Addr:ty(P,A+'Address'),Rq:ty(P,A+'GenericDiskRequest'),Rs:ty(P,A+'GenericDiskResponse'),
    Op:ty(P,T+'ProgramUserOp'),Info:ty(P,T+'ProgramDiskInfo'),AS:ty(P,I+'AtomicState_v::AtomicState'),IF:ty(P,I+'AtomicState_v::InflightInfo'),RS:ty(P,I+'AtomicState_v::RecoveryState'),DE:ty(P,I+'AtomicState_v::DiskEvent'),
    CP:ty(P,I+'ConcreteProgramModel_v::ConcreteProgramModel'),SB:ty(P,I+'DiskLayout_v::Superblock'),FS:ty(P,'spec::FloatingSeq_t::FloatingSeq')});
  if(new w.D.state.K(1,2,3).$cn==='State')w.D.state.K.prototype.$cn='DiskState';
  w.MS=x=>new m.M.state.K(x);w.PSt=x=>m.PS(w.MS(x));w.S=(...a)=>new w.M.state.K(...a);w.Dk=(...a)=>new w.D.state.K(...a);
  w.sb0=w.Addr(0,0);w.isSb=a=>eq(a,w.sb0);
  store.odd=w.SB(w.PSt(w.mk({1:w.def(3)})),2);
  w.ctx={ids:[0,1,2,3,4,5,6,7],ev:[],pairs:[],reqs:[],resps:[]};
  w.go=()=>{w.setup(u=>{if(!u)return null;const n=u.ty&&u.ty.n;
    if(n==='DiskEvent'||u.name==='disk_event')return w.ctx.ev;
    if(u.name==='pr'||u.name==='p1'||u.name==='p2')return w.ctx.pairs;
    if(n==='ID'||n==='SyncReqId'||u.name==='id'||u.name==='id1'||u.name==='id2'||/multiset_to_map/.test(u.fn||''))return w.ctx.ids;
    if(u.name==='i')return [...Array(30).keys()];
    if(/^req/.test(u.name||''))return w.ctx.reqs;if(/^reply/.test(u.name||''))return w.ctx.replies;
    if(n==='Address'||u.name==='addr')return w.addrs;
    return null;});V.junk='?';};
  w.addrs=[];for(let a=0;a<AUS;a++)for(let p=0;p<PAGES;p++)w.addrs.push(w.Addr(a,p));
  return w;
}
const list=ms=>{const l=[];for(const [,e] of ms.m)for(let i=0;i<e[1];i++)l.push(e[0]);return l;};
const ms=l=>DMs.from(l);const less=(l,x)=>{const i=l.findIndex(y=>eq(y,x));return i<0?l:[...l.slice(0,i),...l.slice(i+1)];};
const dm=(m,f)=>DMap.of([...m].filter(f).map(k=>[k,m.get(k)]));const drop=(m,k)=>dm(m,x=>!eq(x,k));
const mapOf=p=>p._appv._kmmap;
function model(w){
  const {m,RS,Op,LB,DL}=w;const X={};
  X.ready=p=>p._recovery_state.$cn==='RecoveryComplete';
  X.vs=p=>p._history._entries.map(mapOf);X.first=p=>p._history._start;X.len=p=>p._history._start+p._history._entries.length;
  X.sameMaps=(a,b)=>a.length===b.length&&a.every((x,i)=>w.eqM(x,b[i]));
  X.last=p=>{const v=X.vs(p);return v[v.length-1];};
  X.ok=p=>!X.ready(p)||p._history&&Array.isArray(p._history._entries)&&X.vs(p).length>0&&X.vs(p).every(w.total)&&p._sync_req_map instanceof DMap&&(p._in_flight.$cn==='None'||p._in_flight._0._version>=X.first(p)&&p._in_flight._0._version<X.len(p));
  // everything but the history is the same, the history holds the same versions
  X.same=(a,b)=>a._recovery_state===b._recovery_state&&eq(a._persistent_version,b._persistent_version)&&eq(a._in_flight,b._in_flight)&&eq(a._sync_req_map,b._sync_req_map)&&X.sameH(a._history,b._history);
  X.sameH=(a,b)=>{if(a===b)return true;if(!a||!b||!Array.isArray(a._entries)||!Array.isArray(b._entries))return eq(a,b);return a._start===b._start&&X.sameMaps(a._entries.map(mapOf),b._entries.map(mapOf));};
  X.sb=p=>w.SB(p._history._entries[p._history._entries.length-1],X.len(p)-1);
  X.blank=()=>w.AS(RS.Begin,'?','?','?','?');
  X.suffix=(p,v)=>w.FS(v,p._history._entries.slice(v-X.first(p)));
  X.pairOk=(r,y)=>eq(r._id,y._id)&&r._input.$cn.slice(0,3)===y._output.$cn.slice(0,3);
  // the program: what an operation, a disk event or an internal step may do
  X.exec=(a,b,r,y)=>{
    if(!X.ready(a)||!X.ready(b)||!X.pairOk(r,y))return false;const va=X.vs(a),vb=X.vs(b);
    if(X.first(a)!==X.first(b)||!(vb.length===va.length||vb.length===va.length+1)||!X.sameMaps(va,vb.slice(0,va.length)))return false;
    if(!m.mapOp(va[va.length-1],vb[vb.length-1],r._input,y._output))return false;return X.same(upd(a,{history:b._history}),b);};
  X.user=(a,b,op)=>{
    if(op.$cn==='Execute')return X.exec(a,b,op._req,op._reply);if(!X.ready(a))return false;const id=op._sync_req_id,q=a._sync_req_map;
    if(op.$cn==='AcceptSyncRequest')return X.same(b,upd(a,{sync_req_map:q.set(id,X.len(a)-1)}));
    return (!q.has(id)||q.get(id)<=X.first(a))&&X.same(b,upd(a,{sync_req_map:drop(q,id)}));};
  X.diskEvent=(a,b,info)=>{
    const rq=list(info._reqs),rp=list(info._resps);
    switch(a._recovery_state.$cn){
      case 'Begin':return rp.length===0&&rq.length===1&&rq[0]._1.$cn==='ReadReq'&&w.isSb(rq[0]._1._from)&&X.same(b,upd(a,{recovery_state:RS.AwaitingSuperblock}));
      case 'AwaitingSuperblock':{if(rq.length||rp.length!==1||rp[0]._1.$cn!=='ReadResp')return false;const sb=w.unm(rp[0]._1._data);return X.same(b,w.AS(RS.RecoveryComplete,w.FS(sb._version_index,[w.PSt(mapOf(sb._store))]),sb._version_index,None,DMap.of([])));}
      default:{
        if(a._in_flight.$cn==='None'){if(rp.length||rq.length!==1||rq[0]._1.$cn!=='WriteReq'||!w.isSb(rq[0]._1._to)||!eq(rq[0]._1._data,w.mar(X.sb(a))))return false;return X.same(b,upd(a,{in_flight:Some(w.IF(X.len(a)-1,rq[0]._0))}));}
        const f=a._in_flight._0;if(rq.length||rp.length!==1||rp[0]._1.$cn!=='WriteResp'||!eq(rp[0]._0,f._req_id))return false;
        return X.same(b,w.AS(RS.RecoveryComplete,X.suffix(a,f._version),f._version,None,a._sync_req_map));}}};
  // the disk
  X.diskOps=(a,b,rq,rp)=>{const ids=new Set();for(const [i] of rq){if(a._requests.has(i)||a._responses.has(i)||ids.has(i))return false;ids.add(i);}
    for(const [i,r] of rp)if(!a._responses.has(i)||!eq(a._responses.get(i),r))return false;
    return eq(b,w.Dk(rq.reduce((z,[i,r])=>z.set(i,r),a._requests),dm(a._responses,k=>!rp.some(x=>eq(x[0],k))),a._content));};
  X.inDisk=a=>a._au<AUS&&a._page<PAGES;
  X.process=(a,id)=>{if(!a._requests.has(id))return null;const r=a._requests.get(id),q=drop(a._requests,id);
    if(r.$cn==='ReadReq')return X.inDisk(r._from)&&a._content.has(r._from)?w.Dk(q,a._responses.set(id,w.Rs.ReadResp(a._content.get(r._from))),a._content):null;
    return X.inDisk(r._to)?w.Dk(q,a._responses.set(id,w.Rs.WriteResp),a._content.set(r._to,r._data)):null;};
  X.diskStep=(a,b,l,st)=>{switch(st.$cn){
    case 'disk_ops':if(l.$cn!=='DiskOps')return false;return X.diskOps(a,b,[...l._requests].map(k=>[k,l._requests.get(k)]),[...l._responses].map(k=>[k,l._responses.get(k)]));
    case 'crash':return l.$cn==='Crash'&&eq(b,w.Dk(DMap.of([]),DMap.of([]),a._content));
    default:{if(l.$cn!=='Internal')return false;const id=st._0;if(!a._requests.has(id))return false;const r=a._requests.get(id);if(r.$cn!==(st.$cn==='process_read'?'ReadReq':'WriteReq'))return false;if(r.$cn==='ReadReq'&&!a._content.has(r._from)&&X.inDisk(r._from))return null;const y=X.process(a,id);return y!==null&&eq(b,y);}}};
  const others=(s,n,...f)=>['requests','replies','sync_requests','sync_replies','id_history'].every(k=>f.includes(k)||eq(s['_'+k],n['_'+k]))&&(f.includes('program')||X.same(s._program._state,n._program._state))&&(f.includes('disk')||eq(s._disk,n._disk));
  X.next=(s,n,l,st)=>{
    const a=s._program._state,b=n._program._state;if(!X.ok(a))return null;const op=l.$cn==='ProgramUIOp'?l._op:null;const has=(M,x)=>M.has(x);
    const np=st.$cn&&st._0&&/^program_|^crash/.test(st.$cn)?st._0._state:null;if(np&&!X.same(np,b))return false;
    const nd=st.$cn==='program_disk'||st.$cn==='crash'?st._1:st.$cn==='disk_internal'?st._0:null;if(nd&&!eq(nd,n._disk))return false;
    switch(st.$cn){
      case 'accept_request':return l.$cn==='AcceptRequest'&&!has(s._id_history,l._req._id)&&eq(n._requests,ms([...list(s._requests),l._req]))&&eq(n._id_history,ms([...list(s._id_history),l._req._id]))&&others(s,n,'requests','id_history');
      case 'deliver_reply':return l.$cn==='DeliverReply'&&has(s._replies,l._reply)&&eq(n._replies,ms(less(list(s._replies),l._reply)))&&others(s,n,'replies');
      case 'program_execute':return !!op&&op.$cn==='Execute'&&has(s._requests,op._req)&&X.user(a,b,op)&&eq(n._requests,ms(less(list(s._requests),op._req)))&&eq(n._replies,ms([...list(s._replies),op._reply]))&&others(s,n,'program','requests','replies');
      case 'accept_sync_request':return l.$cn==='AcceptSyncRequest'&&!has(s._id_history,l._sync_req_id)&&eq(n._sync_requests,ms([...list(s._sync_requests),l._sync_req_id]))&&eq(n._id_history,ms([...list(s._id_history),l._sync_req_id]))&&others(s,n,'sync_requests','id_history');
      case 'program_accept_sync_request':if(!op||op.$cn!=='AcceptSyncRequest')return false;if(!has(s._sync_requests,op._sync_req_id)||X.ready(a)&&a._sync_req_map.has(op._sync_req_id))return null;return X.user(a,b,op)&&eq(n._sync_requests,ms(less(list(s._sync_requests),op._sync_req_id)))&&others(s,n,'program','sync_requests');
      case 'program_deliver_sync_reply':if(!op||op.$cn!=='DeliverSyncReply')return false;if(X.ready(a)&&!a._sync_req_map.has(op._sync_req_id))return null;return X.user(a,b,op)&&eq(n._sync_replies,ms([...list(s._sync_replies),op._sync_req_id]))&&others(s,n,'program','sync_replies');
      case 'deliver_sync_reply':return l.$cn==='DeliverSyncReply'&&has(s._sync_replies,l._sync_req_id)&&eq(n._sync_replies,ms(less(list(s._sync_replies),l._sync_req_id)))&&others(s,n,'sync_replies');
      case 'program_disk':if(l.$cn!=='ProgramDiskOp')return false;if(!(X.diskEvent(a,b,l._info)))return false;return X.diskOps(s._disk,n._disk,list(l._info._reqs).map(x=>[x._0,x._1]),list(l._info._resps).map(x=>[x._0,x._1]))&&others(s,n,'program','disk');
      case 'program_internal':return l.$cn==='ProgramInternal'&&X.ready(a)&&others(s,n);
      case 'disk_internal':{if(l.$cn!=='DiskInternal')return false;if([...s._disk._requests].some(i=>{const r=s._disk._requests.get(i);return r.$cn==='ReadReq'&&!s._disk._content.has(r._from);}))return null;return others(s,n,'disk')&&[...s._disk._requests].some(i=>{const y=X.process(s._disk,i);return y&&eq(y,n._disk);});}
      case 'crash':return l.$cn==='Crash'&&X.same(b,X.blank())&&eq(n._disk,w.Dk(DMap.of([]),DMap.of([]),s._disk._content))&&n._requests.size===0&&n._replies.size===0&&n._sync_requests.size===0&&others(s,n,'program','disk','requests','replies','sync_requests');
      case 'noop':return l.$cn==='Noop'&&others(s,n);
    }
    return null;};
  X.init=()=>{const sb=w.SB(w.PSt(w.emptyMap()),0);return w.S(w.CP(X.blank()),w.Dk(DMap.of([]),DMap.of([]),DMap.of([[w.sb0,w.mar(sb)]])),ms([]),ms([]),ms([]),ms([]),ms([]));};
  return X;
}
// ---------------------------------------------------------------- the disk alone
function disk({REPO}){
  const w=setup(REPO);const X=model(w);const {D,DL,Rq,Rs}=w;const st=(n,...a)=>w.m.step(D,n,...a);
  const data=t=>[t.below(3)];const S=w.Dk,e=()=>DMap.of([]);
  return machine({setup:()=>{w.go();w.ctx.ev=[];},len:20,init:()=>S(e(),e(),e()),runInit:s=>guard(()=>w.P.C[D.state.members.get('initialize').i](s)),isInit:s=>s._requests.size===0&&s._responses.size===0&&s._content.size===0,
    seedPool(pool,t){for(const a of w.addrs.slice(0,3)){pool.add('DiskState_requestsv',Rq.ReadReq(a));pool.add('DiskState_contentk',a);}for(let i=0;i<4;i++){pool.add('DiskOps_requestsk',i);pool.add('DiskOps_responsesk',i);pool.add('process_read_0',i);pool.add('process_write_0',i);pool.add('P',st('process_read',i));pool.add('P',st('process_write',i));}pool.add('P',st('crash'));pool.add('P',st('disk_ops'));pool.add('L',DL.Crash);pool.add('L',DL.Internal);},
    next(t,s){const k=t.below(8);const req=()=>{const a=t.below(20)===0?w.Addr(AUS,0):t.pick(w.addrs.slice(0,4));return t.bool()?Rq.WriteReq(a,data(t)):Rq.ReadReq(a);};
      if(k===0)return {n:S(e(),e(),s._content),l:DL.Crash,step:st('crash')};
      if(k<=4&&s._requests.size){const id=t.pick([...s._requests]);const y=X.process(s,id);if(y)return {n:y,l:DL.Internal,step:st(s._requests.get(id).$cn==='ReadReq'?'process_read':'process_write',id)};}
      const fr=[0,1,2,3,4,5].filter(i=>!s._requests.has(i)&&!s._responses.has(i));const nq=[],np=[];for(const i of fr)if(nq.length<3&&t.below(3)===0)nq.push([i,req()]);for(const i of s._responses)if(t.bool())np.push([i,s._responses.get(i)]);
      return {n:S(nq.reduce((z,[i,r])=>z.set(i,r),s._requests),dm(s._responses,x=>!np.some(y=>y[0]===x)),s._content),l:DL.DiskOps(DMap.of(nq),DMap.of(np)),step:st('disk_ops')};},
    tricks(t,s){const r=[];const ids=[...s._requests];const odd=w.Addr(t.bool()?AUS:0,t.bool()?PAGES:0);const id=t.below(6);
      if(ids.length){const i=t.pick(ids),q=s._requests.get(i),rq=drop(s._requests,i);const bad=q.$cn==='WriteReq'?Rq.WriteReq(odd,q._data):Rq.ReadReq(odd);
        if(q.$cn==='WriteReq'){r.push({n:S(rq,s._responses.set(i,Rs.WriteResp),s._content),l:DL.Internal,step:st('process_write',i)});r.push({n:S(rq,s._responses,s._content.set(q._to,q._data)),l:DL.Internal,step:st('process_write',i)});r.push({n:S(s._requests,s._responses.set(i,Rs.WriteResp),s._content.set(q._to,q._data)),l:DL.Internal,step:st('process_write',i)});}
        else if(s._content.has(q._from)){r.push({n:S(rq,s._responses.set(i,Rs.ReadResp(data(t))),s._content),l:DL.Internal,step:st('process_read',i)});}}
      r.push({n:S(s._requests,s._responses.set(id,Rs.WriteResp),s._content),l:DL.Internal,step:st('process_write',id)});
      const y=Rs.ReadResp(data(t));r.push({n:s,l:DL.DiskOps(e(),DMap.of([[id,y]])),step:st('disk_ops')});if(s._responses.has(id))r.push({n:S(s._requests,drop(s._responses,id),s._content),l:DL.DiskOps(e(),DMap.of([[id,y]])),step:st('disk_ops')});
      const q=Rq.ReadReq(w.addrs[0]);r.push({n:S(s._requests.set(id,q),s._responses,s._content),l:DL.DiskOps(DMap.of([[id,q]]),e()),step:st('disk_ops')});
      return r;},
    ref:(s,n,l,p)=>X.diskStep(s,n,l,p),run:(s,n,l,p)=>guard(()=>D.by(s,n,l,p)),runNext:(s,n,l)=>{w.setParams((mm,tr,p)=>p==='id'?[0,1,2,3,4,5,6,7]:null);return guard(()=>D.next(s,n,l));},
    inv:s=>s.m_inv(),invRef:s=>![...s._requests].some(i=>s._responses.has(i)),perturbs:6});
}
// ---------------------------------------------------------------- the system
function system({REPO}){
  const w=setup(REPO);const X=model(w);const {M,LB,Op,m,C}=w;const st=(n,...a)=>m.step(M,n,...a);const rp='implementation::ModelRefinement_v::RefinementProof::';
  const IV=fn(w.P,rp+'i'),IL=fn(w.P,rp+'i_lbl');const cl=fn(w.P,'trusted::RefinementObligation_t::externally_visible');
  const FV=(f,v)=>w.FS(f,v.map(p=>w.PSt(p)));
  // what a user may rely on, tracked on its own
  let T=null;const reset=()=>{T={first:0,vs:[w.emptyMap()],rq:[],rp:[],syncs:new Map()};};
  function see(s,n,l,step){
    const a=s._program._state;switch(step.$cn){
      case 'accept_request':T.rq=[...T.rq,l._req];return 'op';
      case 'deliver_reply':T.rp=less(T.rp,l._reply);return 'op';
      case 'program_execute':{const r=l._op._req;T.rq=less(T.rq,r);T.rp=[...T.rp,l._op._reply];const last=T.vs[T.vs.length-1];const d=X.len(n._program._state)-X.len(a);const nx=r._input.$cn==='PutInput'?w.TM(last._0.set(r._input._key,w.Msg.Define(r._input._value))):last;if(d)T.vs=[...T.vs,nx];return 'op';}
      case 'program_accept_sync_request':T.syncs=new Map(T.syncs).set(l._op._sync_req_id,T.first+T.vs.length-1);return 'req';
      case 'program_deliver_sync_reply':{const v=T.syncs.get(l._op._sync_req_id);check(v!==undefined&&v<=T.first,()=>`sync ${l._op._sync_req_id} is acknowledged although version ${v} is not durable (durable ${T.first})`);T.syncs=new Map(T.syncs);T.syncs.delete(l._op._sync_req_id);return 'rep';}
      case 'disk_internal':{if(!X.ready(a)||a._in_flight.$cn==='None')return 'noop';const i=a._in_flight._0;if(!s._disk._responses.has(i._req_id)&&n._disk._responses.has(i._req_id)){T.vs=T.vs.slice(i._version-T.first);T.first=i._version;return 'sync';}return 'noop';}
      case 'crash':T.vs=T.vs.slice(0,1);T.rq=[];T.rp=[];T.syncs=new Map();return 'crash';
      default:return 'noop';}}
  const dset=l=>DSet.from(l);
  const sync=()=>w.C.state.K&&new w.C.state.K(FV(T.first,T.vs),m.ES(dset(T.rq),dset(T.rp)),DMap.of([...T.syncs]));
  const eqC=(a,b)=>a._versions._start===b._versions._start&&X.sameMaps(a._versions._entries.map(mapOf),b._versions._entries.map(mapOf))&&eq(a._async_ephemeral,b._async_ephemeral)&&eq(a._sync_requests,b._sync_requests);
  const ctx=(l,s,n)=>{const c=w.ctx;c.pairs=[];c.ev=[];if(l.$cn==='ProgramDiskOp'){c.pairs=[...list(l._info._reqs),...list(l._info._resps)];for(const p of c.pairs)for(const id of [p._0]){c.ev.push(w.DE.InitiateRecovery(id));if(p._1.$cn==='ReadResp')c.ev.push(w.DE.CompleteRecovery(id,p._1._data));}for(const p of c.pairs)c.ev.push(w.DE.ExecuteSyncBegin(p._0));}c.ev.push(w.DE.ExecuteSyncEnd);
    c.reqs=[...s._requests,...n._requests];c.replies=[...s._replies,...n._replies];
    w.setParams((mm,tr,p)=>p==='new_program'?[n._program]:p==='new_disk'?[n._disk]:p==='id'?c.ids:p==='map_label'?(l.$cn==='ProgramUIOp'&&l._op.$cn==='Execute'?m.mlabels(l._op._req._input,l._op._reply._output):[]):p==='new_stable_index'?[...Array(40).keys()]:null);};
  const conj=['in_flight_request_present','persistent_sb_disk_inv','no_writes_till_recovery_complete','at_most_one_oustanding_request_per_address','responses_consistent_with_disk','requests_have_unique_ids','replies_have_unique_ids','requests_replies_id_disjoint'];
  return machine({setup:()=>{w.go();reset();},len:34,init:()=>{w.go();reset();return X.init();},
    runInit:s=>guard(()=>w.P.C[M.state.members.get('initialize').i](s,s._program,s._disk)),isInit:s=>X.same(s._program._state,X.blank())&&s._disk._requests.size===0&&s._disk._responses.size===0&&s._disk._content.has(w.sb0)&&eq(s._disk._content.get(w.sb0),w.mar(w.SB(w.PSt(w.emptyMap()),0)))&&['requests','replies','sync_requests','sync_replies','id_history'].every(k=>s['_'+k].size===0),
    seedPool(pool,t){
      for(let i=0;i<8;i++)for(const p of ['Request_id','Reply_id','AcceptSyncRequest_sync_req_id','DeliverSyncReply_sync_req_id','State_id_historyk','State_sync_requestsk','State_sync_repliesk','State_requestsk2'])pool.add(p,i);
      for(const o of [m.Out.PutOutput,m.Out.NoopOutput,m.Out.QueryOutput(w.Value(1))])pool.add('Reply_output',o);for(const x of [m.In.NoopInput,m.In.QueryInput(w.KEYS[1]),m.In.PutInput(w.KEYS[2],w.Value(3))])pool.add('Request_input',x);
      for(let v=0;v<4;v++)pool.add('QueryOutput_value',w.Value(v));for(const r of [w.RS.Begin,w.RS.AwaitingSuperblock,w.RS.RecoveryComplete])pool.add('AtomicState_recovery_state',r);
      for(const a of w.addrs.slice(0,3)){pool.add('DiskState_contentk',a);pool.add('WriteReq_to',a);pool.add('ReadReq_from',a);}pool.add('AtomicState_in_flight',None);
      for(const l of [LB.Crash,LB.Noop,LB.ProgramInternal,LB.DiskInternal])pool.add('L',l);},
    next(t,s){
      const a=s._program._state,rq=list(s._requests),rp=list(s._replies),sr=list(s._sync_requests),sp=list(s._sync_replies),hist=list(s._id_history),d=s._disk;const k=t.below(24);const ids=[...Array(60).keys()].filter(i=>!hist.includes(i));const id=ids[t.below(Math.min(3,ids.length))];
      const U=o=>upd(s,o),prog=b=>w.CP(b);
      if(k===0&&t.below(2)===0){const n=w.S(prog(X.blank()),w.Dk(DMap.of([]),DMap.of([]),d._content),ms([]),ms([]),ms([]),s._sync_replies,s._id_history);return {n,l:LB.Crash,step:st('crash',n._program,n._disk)};}
      if(k===1)return {n:s,l:LB.Noop,step:st('noop')};
      if(k===2&&X.ready(a))return {n:s,l:LB.ProgramInternal,step:st('program_internal',s._program)};
      if(k<=5&&d._requests.size){const i=t.pick([...d._requests]);const nd=X.process(d,i);if(nd)return {n:U({disk:nd}),l:LB.DiskInternal,step:st('disk_internal',nd)};}
      if(k<=10){ // the program talks to the disk
        const go=(b,reqs,resps)=>{const nd=w.Dk(reqs.reduce((z,[i,r])=>z.set(i,r),d._requests),dm(d._responses,x=>!resps.some(y=>eq(y[0],x))),d._content);const n=U({program:prog(b),disk:nd});const tp=x=>V.Tup(x[0],x[1]);return {n,l:LB.ProgramDiskOp(w.Info(ms(reqs.map(tp)),ms(resps.map(tp)))),step:st('program_disk',n._program,nd)};};
        const free=[0,1,2,3,4,5,6,7].filter(i=>!d._requests.has(i)&&!d._responses.has(i));const fid=t.pick(free);
        if(a._recovery_state.$cn==='Begin')return go(upd(a,{recovery_state:w.RS.AwaitingSuperblock}),[[fid,w.Rq.ReadReq(w.sb0)]],[]);
        if(!X.ready(a)){const rs=[...d._responses];if(rs.length){const i=rs[0],y=d._responses.get(i);const sb=w.unm(y._data);return go(w.AS(w.RS.RecoveryComplete,w.FS(sb._version_index,[sb._store]),sb._version_index,None,DMap.of([])),[],[[i,y]]);}}
        else if(a._in_flight.$cn==='None')return go(upd(a,{in_flight:Some(w.IF(X.len(a)-1,fid))}),[[fid,w.Rq.WriteReq(w.sb0,w.mar(X.sb(a)))]],[]);
        else{const f=a._in_flight._0;if(d._responses.has(f._req_id))return go(w.AS(w.RS.RecoveryComplete,X.suffix(a,f._version),f._version,None,a._sync_req_map),[],[[f._req_id,d._responses.get(f._req_id)]]);}
      }
      if(k<=14&&rq.length&&X.ready(a)){const r=t.pick(rq),last=X.last(a);const [n,o]=m.exec(last,r._input),y=m.Rep(o,r._id);const grow=!w.eqM(n,last)||t.bool();const b=grow?upd(a,{history:w.FS(X.first(a),[...a._history._entries,w.PSt(n)])}):a;
        if(X.vs(b).length<12){const nn=U({program:prog(b),requests:ms(less(rq,r)),replies:ms([...rp,y])});return {n:nn,l:LB.ProgramUIOp(Op.Execute(r,y)),step:st('program_execute',nn._program)};}}
      if(k===15&&rp.length){const y=t.pick(rp);return {n:U({replies:ms(less(rp,y))}),l:LB.DeliverReply(y),step:st('deliver_reply')};}
      if(k===16)return {n:U({sync_requests:ms([...sr,id]),id_history:ms([...hist,id])}),l:LB.AcceptSyncRequest(id),step:st('accept_sync_request')};
      if(k<=18&&sr.length&&X.ready(a)){const i=t.pick(sr);const n=U({program:prog(upd(a,{sync_req_map:a._sync_req_map.set(i,X.len(a)-1)})),sync_requests:ms(less(sr,i))});return {n,l:LB.ProgramUIOp(Op.AcceptSyncRequest(i)),step:st('program_accept_sync_request',n._program)};}
      if(k<=20&&X.ready(a)){const c=[...a._sync_req_map].filter(i=>a._sync_req_map.get(i)<=X.first(a));if(c.length){const i=t.pick(c);const n=U({program:prog(upd(a,{sync_req_map:drop(a._sync_req_map,i)})),sync_replies:ms([...sp,i])});return {n,l:LB.ProgramUIOp(Op.DeliverSyncReply(i)),step:st('program_deliver_sync_reply',n._program)};}}
      if(k===21&&sp.length){const i=t.pick(sp);return {n:U({sync_replies:ms(less(sp,i))}),l:LB.DeliverSyncReply(i),step:st('deliver_sync_reply')};}
      const r=m.Req(m.input(t),id);return {n:U({requests:ms([...rq,r]),id_history:ms([...hist,id])}),l:LB.AcceptRequest(r),step:st('accept_request')};},
    tricks(t,s){const r=[];const U=o=>upd(s,o);const id=t.below(8),rp=list(s._replies),sp=list(s._sync_replies),rq=list(s._requests),hist=list(s._id_history),sr=list(s._sync_requests),a=s._program._state;
      r.push({n:s,l:LB.DeliverSyncReply(id),step:st('deliver_sync_reply')});if(!sp.includes(id))r.push({n:s,l:LB.DeliverSyncReply(id),step:st('deliver_sync_reply')});
      const y=m.Rep(m.Out.QueryOutput(w.Value(t.below(3))),id);r.push({n:s,l:LB.DeliverReply(y),step:st('deliver_reply')});if(rp.length)r.push({n:s,l:LB.DeliverReply(rp[0]),step:st('deliver_reply')});
      if(hist.length){const i=t.pick(hist),q=m.Req(m.input(t),i);r.push({n:U({requests:ms([...rq,q]),id_history:ms([...hist,i])}),l:LB.AcceptRequest(q),step:st('accept_request')});r.push({n:U({sync_requests:ms([...sr,i]),id_history:ms([...hist,i])}),l:LB.AcceptSyncRequest(i),step:st('accept_sync_request')});}
      if(X.ready(a)){const inp=rq.length&&t.bool()?rq[0]._input:m.input(t),q=m.Req(inp,id),last=X.last(a);const [n,o]=m.exec(last,inp);const y2=m.Rep(t.below(3)?o:t.pick([m.Out.PutOutput,m.Out.NoopOutput,m.Out.QueryOutput(w.Value(1))]),t.below(4)?id:t.below(8));const b=upd(a,{history:w.FS(X.first(a),[...a._history._entries,w.PSt(n)])});
        r.push({n:U({program:w.CP(b),requests:ms(less(rq,q)),replies:ms([...rp,y2])}),l:LB.ProgramUIOp(Op.Execute(q,y2)),step:st('program_execute',w.CP(b))});
        const v=X.first(a)+t.below(X.len(a)-X.first(a));r.push({n:U({program:w.CP(upd(a,{sync_req_map:drop(a._sync_req_map,id)})),sync_replies:ms([...sp,id])}),l:LB.ProgramUIOp(Op.DeliverSyncReply(id)),step:st('program_deliver_sync_reply',w.CP(upd(a,{sync_req_map:drop(a._sync_req_map,id)})))});}
      return r;},
    ref:(s,n,l,p)=>X.next(s,n,l,p),
    valid:s=>X.ok(s._program._state),
    run:(s,n,l,p)=>{ctx(l,s,n);return guard(()=>M.by(s,n,l,p));},runNext:(s,n,l)=>{ctx(l,s,n);return guard(()=>M.next(s,n,l));},perturbs:6,
    after(s,n,l,step,t){
      ctx(l,s,n);const pre=IV(s);check(eqC(pre,sync()),()=>`the system stands for ${$.show(pre).slice(0,300)}, but it is ${$.show(sync()).slice(0,300)}`);const kind=see(s,n,l,step);const post=IV(n);check(eqC(post,sync()),()=>`after ${step.$cn} the system stands for ${$.show(post).slice(0,300)}, but it is ${$.show(sync()).slice(0,300)}`);
      const il=IL(s,n,l);const want={op:'OperateOp',req:'ReqSyncOp',rep:'ReplySyncOp',sync:'SyncOp',crash:'CrashOp',noop:'Noop'}[kind];check(il.$cn===want,()=>`${step.$cn} is taken for ${il.$cn}, but it is ${want}`);check(l.m_label_correspondence(il)===true,()=>`label_correspondence refuses ${$.show(il)} for ${$.show(l)}`);
      check(cl(il)===(kind==='req'||kind==='rep'||kind==='crash'||kind==='op'&&il._base_op.$cn!=='ExecuteOp'),()=>`externally_visible of ${$.show(il)}`);
      w.setParams((mm,tr,p)=>p==='map_label'?(l.$cn==='ProgramUIOp'&&l._op.$cn==='Execute'?m.mlabels(l._op._req._input,l._op._reply._output):[]):p==='new_stable_index'?[...Array(40).keys()]:p==='new_versions'?[post._versions]:p==='new_async_ephemeral'?[post._async_ephemeral]:null);
      check(guard(()=>C.next(pre,post,il)),()=>`${step.$cn} from ${$.show(pre).slice(0,300)} to ${$.show(post).slice(0,300)} is no ${il.$cn} step of the map`);
      const p=n._program._state;check(p.m_wf(),()=>`program not well formed after ${step.$cn}`);check(n._disk.m_inv(),'the disk');for(const k of conj)check(n['m_'+k]()===true,()=>`${k} fails after ${step.$cn}: ${$.show(n).slice(0,400)}`);
      check(p.m_client_ready()===X.ready(p),'client_ready');if(X.ready(p)){check(w.eqM(p.m_mapspec()._kmmap,X.last(p)),'mapspec');check(eq(p.m_ephemeral_sb()._version_index,X.len(p)-1)&&w.eqM(mapOf(p.m_ephemeral_sb()._store),X.last(p)),'ephemeral_sb');check(w.eqM(mapOf(p.m_persistent_sb()._store),X.vs(p)[0]),'persistent_sb');}
    }});
}
// multisets of pairs as maps
function pairs({REPO}){
  const w=setup(REPO);const q=I+'MultisetMapRelation_v::';const F={};for(const n of ['multiset_to_map','unique_keys','all_elems_single','multiset_map_singleton'])F[n]=fn(w.P,q+n);
  return (t,c)=>{w.go();const l=t.list(0,5,()=>V.Tup(t.below(5),t.below(3)));w.ctx.pairs=[];for(let k=0;k<8;k++)for(let v=0;v<3;v++)w.ctx.pairs.push(V.Tup(k,v));
    const dup=l.some((x,i)=>l.some((y,j)=>j<i&&eq(x,y)));const keyDup=l.some((x,i)=>l.some((y,j)=>j<i&&x._0===y._0));$.universes.unshift(u=>u&&u.name==='e'?w.ctx.pairs:null);
    check(F.all_elems_single(ms(l))===!dup,()=>`all_elems_single of ${$.show(l)}`);check(F.unique_keys(ms(l))===!keyDup,()=>`unique_keys of ${$.show(l)}`);
    if(!keyDup){const m=F.multiset_to_map(ms(l));for(let k=0;k<8;k++){const e=l.find(x=>x._0===k);check(m.has(k)===!!e&&(!e||m.get(k)===e._1),()=>`multiset_to_map of ${$.show(l)} at ${k}`);}}
    const k=t.below(5),v=t.below(3);check(eq(F.multiset_map_singleton(k,v),ms([V.Tup(k,v)])),'multiset_map_singleton');
    c.nontrivial(l.length>=2);c.sample($.show(l));};
}
module.exports={setup,props:{V06:{rule:'a case counts when at least two transitions were taken or two pairs compared',quick:30,thorough:600,
  parts:{disk:{make:disk,weight:2},system:{make:system,weight:6},pairs:{make:pairs,weight:1}},assumptions:['four keys, up to 34 steps and 11 versions; marshalling of the superblock is stood in for by an interning table, as the specification leaves it unspecified','a program accepts only sync requests that were made and answers only those it accepted (the tokens of the client interface enforce this; SystemModel alone does not)']}}};
