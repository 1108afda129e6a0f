'use strict';
// D01: the coordination of a crash-tolerant map and journal, and the crash-tolerant map specification above it.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES}=require('../externs.js');const {check,discard}=require('../pbt.js');
const {DMap,DSet,IMap}=$;const {machine,upd,perturb,Pool}=require('../sm.js');const N=Number,eq=$.eq;const show=x=>$.show?$.show(x).slice(0,600):String(x);
const KEYS=[[],[0],[1],[2,2]],VALS=[[],[7],[8,8],[9]];
function world(REPO){
  const P=new Program({externs:EX,types:TYPES,guess:true}).load(REPO+'/Splinter/CoordinationLayer/CoordinationSystemRefinement.i.dfy');const m=n=>P.m(n);
  const W={P,CS:m('CoordinationSystem'),CM:m('CrashTolerantMap'),CJ:m('CrashTolerantJournal'),AJ:m('AbstractJournal'),AM:m('AbstractMap'),H:m('MsgHistoryMod'),SM:m('StampedMod'),R:m('CoordinationSystemRefinement'),F:m('FloatingSeqMod'),V:m('ValueMessage'),C:m('CrashTolerantMapSpecMod'),MS:m('MapSpecMod'),O:m('Options'),TK:m('TotalKMMapMod')};
  W.C.Constants;const ui=P.mod('CrashTolerantMapSpecMod').members.get('uiopifc').mod;W.U=P.m(ui);W.A=P.m(ui.modOf(ui.own('async')));
  const fsq=W.F.FloatingSeq(0,[]);const proto=Object.getPrototypeOf(fsq);const card=W.F['operator||'],at=W.F['operator[]'];
  if(!proto['_operator||']){proto['_operator||']=function(){return card(this);};proto['_operator[]']=function(i){return at(this,i);};}
  W.setup=()=>{$.universes.length=0;$.universes.push(u=>{if(u&&(u.k==='int'||u.k==='nat'))return [...Array(26).keys()];if(u&&u.k==='dt'){const q=u.cell.qname||'';
    if(/CrashTolerantMap\.Step$/.test(q)){const c=W.CM;return [c.LoadEphemeralFromPersistentStep,c.PutRecordsStep,c.QueryStep,c.FreezeFromPersistentInternalStep,c.EphemeralInternalStep,c.CommitStartStep,c.CommitCompleteStep,c.CrashStep,...(W.maps||[]).map(x=>c.FreezeMapInternalStep(x))];}
    if(/CoordinationSystem\.Step$/.test(q))return W.steps||[];
    if(/CrashTolerantUIOp.*\.UIOp$/.test(q))return W.ops||[];
    return null;}return KEYS;});};
  // histories and stamped maps, independently
  W.hist=(a,ms)=>W.H.MsgHistory(DMap.of(ms.map((x,i)=>[a+i,x])),a,a+ms.length);
  W.hok=h=>{const a=N(h._seqStart),b=N(h._seqEnd);if(a>b||h._msgs.size!==b-a||a<0)return false;for(let i=a;i<b;i++)if(!h._msgs.has(i))return false;return true;};
  W.msgs=h=>{const r=[];for(let i=N(h._seqStart);i<N(h._seqEnd);i++)r.push(h._msgs.get(i));return r;};
  W.cut=(h,a,b)=>W.hist(a,W.msgs(h).slice(a-N(h._seqStart),b-N(h._seqStart)));
  W.sub=(h,x)=>{const a=N(h._seqStart),b=N(h._seqEnd);if(!(a<=N(x._seqStart)&&N(x._seqEnd)<=b))return false;return W.msgs(x).every((y,i)=>eq(y,h._msgs.get(N(x._seqStart)+i)));};
  W.merge=(nw,old)=>nw.$cn==='Define'?nw:old;
  W.play=(st,h)=>{let mp=st._value;for(const x of W.msgs(h))mp=mp.set(x._key,W.merge(x._message,mp.get(x._key)));return W.SM.Stamped(mp,N(st._seqEnd)+W.msgs(h).length);};
  W.zero=()=>W.SM.Stamped(new IMap(()=>true,()=>W.V.Define([]),null),0);
  W.put=(k,v)=>W.H.KeyedMessage(k,W.V.Define(v));
  return W;
}
const SOME=(W,x)=>W.O.Some(x);
function make(W){
  const {CS,CM,CJ,AJ,AM,H,O,A,U,MS}=W;const {hist,hok,msgs,cut,sub,play}=W;const noop=U.NoopOp,NONE=O.None;
  const known=s=>s._ephemeral.$cn==='Known',isS=x=>x.$cn==='Some';
  const okJ=j=>hok(j._persistent)&&(!known(j)||hok(j._ephemeral._v._journal))&&(!isS(j._inFlight)||hok(j._inFlight._value));
  const wf=s=>okJ(s._journal)&&known(s)===known(s._journal)&&known(s._journal)===known(s._mapadt)&&(!isS(s._journal._inFlight)||isS(s._mapadt._inFlight));
  const EJ=s=>s._journal._ephemeral._v._journal,EM=s=>s._mapadt._ephemeral._v._stampedMap;
  const withJ=(s,o)=>upd(s,{journal:upd(s._journal,o)}),withM=(s,o)=>upd(s,{mapadt:upd(s._mapadt,o)}),withE=(s,o)=>upd(s,{ephemeral:upd(s._ephemeral,o)});
  const setEJ=(s,h)=>withJ(s,{ephemeral:CJ.Known(AJ.Variables(h))}),setEM=(s,m)=>withM(s,{ephemeral:CM.Known(AM.Variables(m))});
  const prog=s=>s._ephemeral._progress;const add=(st,x)=>DSet.from([...st,x]),del=(st,x)=>DSet.from([...st].filter(y=>!eq(x,y)));
  const fresh=s=>N(EJ(s)._seqEnd)===N(s._ephemeral._mapLsn);
  const base=u=>u.$cn==='OperateOp'?u._baseOp:null;
  // the states a step may lead to
  const posts=(s,u,st,n)=>{switch(st.$cn){
    case 'LoadEphemeralFromPersistentStep':{if(!wf(s)||!eq(u,noop)||known(s)||known(s._journal)||known(s._mapadt))return [];
      let r=setEM(setEJ(s,s._journal._persistent),s._mapadt._persistent);return [upd(r,{ephemeral:CS.Known(A.EphemeralState(DSet.from([]),DSet.from([])),DMap.of([]),s._mapadt._persistent._seqEnd)})];}
    case 'RecoverStep':{const h=st._records;if(!eq(u,noop)||!wf(s)||!known(s)||!hok(h)||!sub(EJ(s),h)||N(h._seqStart)!==N(EM(s)._seqEnd))return [];return [withE(setEM(s,play(EM(s),h)),{mapLsn:h._seqEnd})];}
    case 'AcceptRequestStep':{const b=base(u);if(!known(s)||!b||b.$cn!=='RequestOp'||prog(s)._requests.has(b._req))return [];return [withE(s,{progress:upd(prog(s),{requests:add(prog(s)._requests,b._req)})})];}
    case 'QueryStep':case 'PutStep':{const b=base(u);const q=st.$cn==='QueryStep';if(!wf(s)||!known(s)||!b||b.$cn!=='ExecuteOp'||b._req._input.$cn!==(q?'GetInput':'PutInput')||b._reply._output.$cn!==(q?'GetOutput':'PutOutput')||!prog(s)._requests.has(b._req)||!eq(b._req._id,b._reply._id)||prog(s)._replies.has(b._reply))return [];
      const i=b._req._input;let r=withE(s,{progress:A.EphemeralState(del(prog(s)._requests,b._req),add(prog(s)._replies,b._reply))});
      if(!fresh(s)||N(EM(s)._seqEnd)!==N(s._ephemeral._mapLsn))return [];
      if(q){const v=EM(s)._value.get(i._key);return v.$cn==='Define'&&eq(v._value,b._reply._output._value)?[r]:[];}
      const e=N(s._ephemeral._mapLsn),h=hist(e,[W.put(i._key,i._value)]);r=setEM(setEJ(r,hist(N(EJ(s)._seqStart),[...msgs(EJ(s)),...msgs(h)])),play(EM(s),h));return [withE(r,{mapLsn:e+1})];}
    case 'DeliverReplyStep':{const b=base(u);if(!known(s)||!b||b.$cn!=='ReplyOp'||!prog(s)._replies.has(b._reply))return [];return [withE(s,{progress:upd(prog(s),{replies:del(prog(s)._replies,b._reply)})})];}
    case 'JournalInternalStep':return known(s)&&eq(u,noop)&&okJ(s._journal)&&known(s._journal)?[s]:[];
    case 'MapInternalStep':{if(!known(s)||!eq(u,noop)||!known(s._mapadt))return [];const m=s._mapadt;return [s,...(isS(m._inFlight)?[]:[withM(s,{inFlight:SOME(W,EM(s))}),withM(s,{inFlight:SOME(W,m._persistent)})])];}
    case 'ReqSyncStep':{if(!wf(s)||!known(s)||u.$cn!=='ReqSyncOp'||s._ephemeral._syncReqs.has(u._syncReqId)||!fresh(s))return [];return [withE(s,{syncReqs:DMap.of([...[...s._ephemeral._syncReqs].map(k=>[k,s._ephemeral._syncReqs.get(k)]),[u._syncReqId,s._ephemeral._mapLsn]])})];}
    case 'ReplySyncStep':{const q=known(s)?s._ephemeral._syncReqs:null;if(!wf(s)||!q||u.$cn!=='ReplySyncOp'||!q.has(u._syncReqId)||!(N(q.get(u._syncReqId))<=N(s._journal._persistent._seqEnd)))return [];return [withE(s,{syncReqs:DMap.of([...q].filter(k=>!eq(k,u._syncReqId)).map(k=>[k,q.get(k)]))})];}
    case 'CommitStartStep':{if(!eq(u,noop)||!wf(s)||!known(s)||isS(s._journal._inFlight)||!isS(s._mapadt._inFlight))return [];const b=N(st._newBoundaryLsn);if(!(N(s._mapadt._persistent._seqEnd)<=b&&b===N(s._mapadt._inFlight._value._seqEnd)&&b<=N(s._ephemeral._mapLsn)))return [];
      const f=n._journal._inFlight;if(!isS(f)||!hok(f._value)||N(f._value._seqStart)!==b||N(s._journal._persistent._seqEnd)>N(f._value._seqEnd)||!sub(EJ(s),f._value))return [];return [withJ(s,{inFlight:f})];}
    case 'CommitCompleteStep':{if(!wf(s)||u.$cn!=='SyncOp'||!known(s)||!isS(s._journal._inFlight)||!isS(s._mapadt._inFlight))return [];const f=s._journal._inFlight._value,j=EJ(s),a=N(f._seqStart);if(!fresh(s)||!(N(j._seqStart)<=a&&a<=N(j._seqEnd)))return [];
      return [withM(withJ(setEJ(s,cut(j,a,N(j._seqEnd))),{persistent:f,inFlight:NONE}),{persistent:s._mapadt._inFlight._value,inFlight:NONE})];}
    case 'CrashStep':{if(!wf(s)||u.$cn!=='CrashOp')return [];return [upd(withM(withJ(s,{ephemeral:CJ.Unknown,inFlight:NONE}),{ephemeral:CM.Unknown,inFlight:NONE}),{ephemeral:CS.Unknown})];}
  }return [];};
  const needWF2=new Set(['RecoverStep','QueryStep','PutStep','ReqSyncStep','CommitCompleteStep','CrashStep']);
  const ref=(s,n,u,st)=>posts(s,u,st,n).some(x=>eq(x,n))&&(!needWF2.has(st.$cn)||wf(n));
  const note=(...ss)=>{const r=[];for(const s of ss)for(const x of [s._mapadt._persistent,known(s._mapadt)?EM(s):null,isS(s._mapadt._inFlight)?s._mapadt._inFlight._value:null])if(x)r.push(x);W.maps=r;};
  const run=(s,n,u,st)=>{note(s,n);return CS.NextStep(s,n,u,st)===true;};
  const init=()=>CS.Variables(CJ.Variables(hist(0,[]),CJ.Unknown,NONE),CM.Variables(W.zero(),CM.Unknown,NONE),CS.Unknown);
  const go=(s,u,st,f)=>{const p=posts(s,u,st,f||s);return p.length?{n:p[p.length>1?1+(W.k++%(p.length-1)):0],l:u,step:st}:null;};W.k=0;
  const cand=(t,s)=>{
    if(!known(s))return t.below(12)?go(s,noop,CS.LoadEphemeralFromPersistentStep):go(s,U.CrashOp,CS.CrashStep);
    const e=s._ephemeral,rq=[...prog(s)._requests],rp=[...prog(s)._replies],sy=[...e._syncReqs];const op=b=>U.OperateOp(b);
    if(!fresh(s)&&t.below(3)){const j=EJ(s),a=N(EM(s)._seqEnd);const b=a+t.below(N(j._seqEnd)-a+1);return go(s,noop,CS.RecoverStep(cut(j,a,b)));}
    switch(t.weighted([[4,'req'],[9,'exec'],[2,'rep'],[.6,'ji'],[5,'mi'],[2.5,'rs'],[3,'ps'],[6,'cs'],[5,'cc'],[1,'crash'],[.6,'rec']])){
      case 'req':{if(rq.length>3)return null;const i=t.below(6),k=t.pick(KEYS);return go(s,op(A.RequestOp(A.Request(t.below(3)?MS.PutInput(k,t.pick(VALS)):MS.GetInput(k),i))),CS.AcceptRequestStep);}
      case 'exec':{if(!rq.length)return null;const r=t.pick(rq);if(r._input.$cn==='GetInput')return go(s,op(A.ExecuteOp(r,A.Reply(MS.GetOutput(EM(s)._value.get(r._input._key)._value),r._id))),CS.QueryStep);if(N(EJ(s)._seqEnd)>18)return null;return go(s,op(A.ExecuteOp(r,A.Reply(MS.PutOutput,r._id))),CS.PutStep);}
      case 'rep':return rp.length?go(s,op(A.ReplyOp(t.pick(rp))),CS.DeliverReplyStep):null;
      case 'ji':return go(s,noop,CS.JournalInternalStep);case 'mi':return go(s,noop,CS.MapInternalStep);
      case 'rs':return go(s,U.ReqSyncOp(t.below(6)),CS.ReqSyncStep);
      case 'ps':return sy.length?go(s,U.ReplySyncOp(t.pick(sy)),CS.ReplySyncStep):null;
      case 'cs':{if(!isS(s._mapadt._inFlight))return null;const b=N(s._mapadt._inFlight._value._seqEnd),j=EJ(s);if(b<N(j._seqStart))return null;const lo=Math.max(b,N(s._journal._persistent._seqEnd)),hi=N(j._seqEnd);if(lo>hi)return null;const x=t.below(3)?hi:lo+t.below(hi-lo+1);return go(s,noop,CS.CommitStartStep(b),withJ(s,{inFlight:SOME(W,cut(j,b,x))}));}
      case 'cc':return go(s,U.SyncOp,CS.CommitCompleteStep);case 'crash':return go(s,U.CrashOp,CS.CrashStep);
      case 'rec':{const a=N(EM(s)._seqEnd);return go(s,noop,CS.RecoverStep(cut(EJ(s),a,N(EJ(s)._seqEnd))));}}return null;};
  const next=(t,s)=>{for(let i=0;i<30;i++){const r=cand(t,s);if(r)return r;}return go(s,U.CrashOp,CS.CrashStep);};
  const tricks=(t,s)=>{if(!known(s))return [];const out=[];const put=(n,l,step)=>out.push({n,l,step});const j=EJ(s),m=EM(s),e=N(s._ephemeral._mapLsn);
    // stale executions, wrong bounds, sync replies before their time, commits that lose or invent messages
    for(const r of prog(s)._requests){const k=r._input._key;if(r._input.$cn==='GetInput'){const n=v=>withE(s,{progress:A.EphemeralState(del(prog(s)._requests,r),add(prog(s)._replies,A.Reply(MS.GetOutput(v),r._id)))});for(const v of [m._value.get(k)._value||[],t.pick(VALS)])put(n(v),U.OperateOp(A.ExecuteOp(r,A.Reply(MS.GetOutput(v),r._id))),CS.QueryStep);}
      else if(hok(j)){const h=hist(e,[W.put(k,r._input._value)]);const n=setEM(setEJ(s,hist(N(j._seqStart),[...msgs(j),...msgs(h)])),play(m,h));put(withE(n,{mapLsn:e+1,progress:A.EphemeralState(del(prog(s)._requests,r),add(prog(s)._replies,A.Reply(MS.PutOutput,r._id)))}),U.OperateOp(A.ExecuteOp(r,A.Reply(MS.PutOutput,r._id))),CS.PutStep);}}
    for(const k of s._ephemeral._syncReqs)put(withE(s,{syncReqs:DMap.of([...s._ephemeral._syncReqs].filter(x=>x!==k).map(x=>[x,s._ephemeral._syncReqs.get(x)]))}),U.ReplySyncOp(k),CS.ReplySyncStep);
    put(withE(s,{syncReqs:DMap.of([...[...s._ephemeral._syncReqs].map(x=>[x,s._ephemeral._syncReqs.get(x)]),[7,e]])}),U.ReqSyncOp(7),CS.ReqSyncStep);
    if(hok(j))for(let i=0;i<2;i++){const a=N(j._seqStart)+t.below(msgs(j).length+1),b=a+t.below(N(j._seqEnd)-a+1);put(withJ(s,{inFlight:SOME(W,cut(j,a,b))}),noop,CS.CommitStartStep(t.bool()?a:b));if(isS(s._mapadt._inFlight)){const q=N(s._mapadt._inFlight._value._seqEnd);if(q>=N(j._seqStart)&&q<=N(j._seqEnd)){const z=q+t.below(N(j._seqEnd)-q+1);put(withJ(s,{inFlight:SOME(W,cut(j,q,z))}),noop,CS.CommitStartStep(q));}}
      put(withE(setEM(s,play(m,cut(j,a,b))),{mapLsn:b}),noop,CS.RecoverStep(cut(j,a,b)));}
    for(const x of [m,s._mapadt._persistent])put(withM(s,{inFlight:SOME(W,x)}),noop,CS.MapInternalStep);
    if(isS(s._journal._inFlight)&&isS(s._mapadt._inFlight)){const f=s._journal._inFlight._value,a=N(f._seqStart);if(hok(j)&&a>=N(j._seqStart)&&a<=N(j._seqEnd)){const n=withM(withJ(setEJ(s,cut(j,a,N(j._seqEnd))),{persistent:f,inFlight:NONE}),{persistent:s._mapadt._inFlight._value,inFlight:NONE});put(n,U.SyncOp,CS.CommitCompleteStep);put(withM(withJ(n,{persistent:s._journal._persistent}),{}),U.SyncOp,CS.CommitCompleteStep);put(setEJ(n,j),U.SyncOp,CS.CommitCompleteStep);put(n,noop,CS.CommitCompleteStep);}}
    return out;};
  return {ref,run,next,init,tricks,posts,wf,known,isS,EJ,EM,prog,fresh,noop,note,okJ};
}
function system({REPO}){
  const W=world(REPO),M=make(W);const {CS,R,C,F,A,U,MS,V}=W;const {known,EJ,EM,isS,wf}=M;
  const inv=s=>{try{return R.Inv(s)===true;}catch(e){if(e instanceof $.DafnyFail)return false;throw e;}};
  const flat=m=>KEYS.map(k=>{const x=m.get(k);return x.$cn==='Define'?'['+x._value+']':'?';}).join(' ');
  const nats=s=>[s._journal._persistent,known(s._journal)?EJ(s):null,isS(s._journal._inFlight)?s._journal._inFlight._value:null].every(h=>!h||(N(h._seqStart)>=0&&N(h._seqEnd)>=0&&[...h._msgs].every(k=>N(k)>=0)))&&W.maps.every(m=>N(m._seqEnd)>=0)&&(!known(s)||(N(s._ephemeral._mapLsn)>=0&&[...s._ephemeral._syncReqs].every(k=>N(k)>=0&&N(s._ephemeral._syncReqs.get(k))>=0)));
  const typed=x=>{try{M.note(x);return typed0(x);}catch(e){if(e instanceof TypeError)return false;throw e;}};const typed0=x=>{return nats(x)&&W.maps.every(m=>KEYS.every(k=>m._value.has(k)&&m._value.get(k).$cn==='Define'));};
  // the versions a state stands for: from the last durable one to the newest
  const meaning=s=>{const j=known(s)?EJ(s):s._journal._persistent;let m=s._mapadt._persistent._value;const all=[flat(m)];for(const x of W.msgs(j)){m=m.set(x._key,W.merge(x._message,m.get(x._key)));all.push(flat(m));}const st=N(s._journal._persistent._seqEnd),b=N(s._mapadt._persistent._seqEnd);return {start:st,vs:all.slice(st-b)};};
  const theirs=s=>{const x=R.I(s);return {start:N(x._versions._start),vs:x._versions._entries.map(e=>flat(e._appv._kmmap)),x};};
  const S=x=>x.start+':'+x.vs.join(' | ');
  return machine({setup:W.setup,init:t=>{W.setup();return M.init();},runInit:s=>s._Init()===true&&CS.Init(s)===true&&inv(s),isInit:s=>eq(s,M.init()),valid:typed,next:M.next,ref:M.ref,run:M.run,perturbs:5,len:34,tricks:M.tricks,partial:true,
    seedPool:p=>{for(const o of [M.noop,U.CrashOp,U.SyncOp,U.ReqSyncOp(1),U.ReplySyncOp(1),U.OperateOp(A.RequestOp(A.Request(MS.GetInput([0]),1)))])p.add('L',o);for(const o of [CS.JournalInternalStep,CS.MapInternalStep,CS.CrashStep,CS.PutStep,CS.QueryStep])p.add('P',o);for(const v of VALS)p.add('Define_value',v);for(const k of KEYS)p.add('KeyedMessage_key',k);},
    after:(s,n,u,step,t,c)=>{
      const judge=(s,n,u,step)=>{const k=step.$cn;
        const a=meaning(s),b=meaning(n),ti=theirs(n);check(S(ti)===S(b),()=>`${show(n)} is taken to stand for ${S(ti)}, should be ${S(b)}`);
        let want=a;if(k==='PutStep'){const i=u._baseOp._req._input;const m=EM(s)._value.set(i._key,V.Define(i._value));want={start:a.start,vs:[...a.vs,flat(m)]};check(a.vs[a.vs.length-1]===flat(EM(s)._value),()=>`a put is taken on a stale map: ${show(s)}`);}
        else if(k==='QueryStep'){const x=flat(EM(s)._value);check(x===a.vs[a.vs.length-1],()=>`a query is answered from ${x}, the newest version is ${a.vs[a.vs.length-1]}`);}
        else if(k==='CommitCompleteStep'){const d=b.start-a.start;check(d>=0&&d<a.vs.length,()=>`a commit moves the durable point from ${a.start} to ${b.start}`);want={start:b.start,vs:a.vs.slice(d)};}
        else if(k==='CrashStep')want={start:a.start,vs:a.vs.slice(0,1)};
        else if(k==='ReplySyncStep')check(N(s._ephemeral._syncReqs.get(u._syncReqId))<=a.start,()=>'a sync is answered early');
        else if(k==='ReqSyncStep')check(N(n._ephemeral._syncReqs.get(u._syncReqId))===a.start+a.vs.length-1,()=>'a sync request names the wrong version');
        check(S(want)===S(b),()=>`${k} from ${show(s)}: versions ${S(b)}, should be ${S(want)}`);
        const xs=theirs(s).x,xn=ti.x;if(known(n))check(eq(xn._asyncEphemeral,n._ephemeral._progress)&&eq(xn._syncRequests,n._ephemeral._syncReqs),'requests in progress');
        check(C.NextStep(C.Constants,xs,xn,u)===true,()=>`${k} is not the specified step ${show(u)}`);W.ops=[u];check(C.Next(C.Constants,xs,xn,u)===true,()=>`${k}: the specification has no step`);};
      M.note(s,n);W.steps=[step];check(CS.Next(s,n,u)===true,()=>`Next does not contain ${step.$cn}`);
      check(inv(n),()=>`the invariant fails after ${step.$cn} from ${show(s)} to ${show(n)}`);judge(s,n,u,step);
      if(t.below(2)){const pool=new Pool();for(const x of [s,n])pool.walk(x,'S');for(const v of VALS)pool.add('Define_value',v);let x=perturb(t,n,'S',pool);if(t.bool())x=perturb(t,x,'S',pool);
        if(typed(x)&&inv(x)){c.label('perturbed state satisfies the invariant');const tr=M.next(t,x);if(tr&&M.run(x,tr.n,tr.l,tr.step)){check(inv(tr.n),()=>`${tr.step.$cn} from ${show(x)} breaks the invariant`);judge(x,tr.n,tr.l,tr.step);}}}
    }});
}
// the specification itself
const spec=label=>({REPO})=>{
  const W=world(REPO);const {C,F,A,U,MS,V,SM}=W;const K=C.Constants;const FS=(a,x)=>F.FloatingSeq(a,x),VR=(v,a,q)=>C.Variables(v,a,q);
  const vs=s=>s._versions,es=s=>Array.from(s._versions._entries),len=s=>N(vs(s)._start)+es(s).length,last=s=>es(s)[es(s).length-1];const wf=s=>es(s).length>0;
  const mp=e=>e._appv._kmmap,mk=m=>A.PersistentState(MS.Variables(m));const qs=s=>[...s._syncRequests].map(k=>[k,s._syncRequests.get(k)]);const E0=()=>A.EphemeralState(DSet.from([]),DSet.from([]));
  const add=(st,x)=>DSet.from([...st,x]),del=(st,x)=>DSet.from([...st].filter(y=>!eq(x,y)));
  const atomic=(m,n,i,o)=>i.$cn==='GetInput'?o.$cn==='GetOutput'&&eq(m,n)&&m.get(i._key).$cn==='Define'&&eq(m.get(i._key)._value,o._value):i.$cn==='PutInput'?o.$cn==='PutOutput'&&eq(n,m.set(i._key,V.Define(i._value))):o.$cn==='NoopOutput'&&eq(m,n);
  const oper=(s,n,b)=>{if(!wf(s)||!wf(n)||!eq(s._syncRequests,n._syncRequests))return false;const same=eq(vs(s),vs(n)),app=N(vs(s)._start)===N(vs(n)._start)&&eq(es(n).slice(0,-1),es(s));if(!same&&!app)return false;
    const e=s._asyncEphemeral,e2=n._asyncEphemeral,p=last(s),p2=last(n);switch(b.$cn){
      case 'RequestOp':return !e._requests.has(b._req)&&eq(p,p2)&&eq(e2,upd(e,{requests:add(e._requests,b._req)}));
      case 'ExecuteOp':return eq(b._req._id,b._reply._id)&&e._requests.has(b._req)&&!e._replies.has(b._reply)&&atomic(mp(p),mp(p2),b._req._input,b._reply._output)&&eq(e2,A.EphemeralState(del(e._requests,b._req),add(e._replies,b._reply)));
      case 'ReplyOp':return e._replies.has(b._reply)&&eq(p,p2)&&eq(e2,upd(e,{replies:del(e._replies,b._reply)}));}return false;};
  const ref=(s,n,u)=>{const st=N(vs(s)._start);switch(u.$cn){case 'OperateOp':return oper(s,n,u._baseOp);case 'NoopOp':return eq(s,n);
    case 'CrashOp':return wf(s)&&eq(n,VR(FS(st,es(s).slice(0,1)),E0(),DMap.of([])));
    case 'SyncOp':{const k=N(vs(n)._start);return wf(s)&&st<=k&&k<len(s)&&eq(n,VR(FS(k,es(s).slice(k-st)),s._asyncEphemeral,s._syncRequests));}
    case 'ReqSyncOp':return wf(s)&&!s._syncRequests.has(u._syncReqId)&&eq(n,upd(s,{syncRequests:DMap.of([...qs(s),[u._syncReqId,len(s)-1]])}));
    case 'ReplySyncOp':return wf(s)&&s._syncRequests.has(u._syncReqId)&&N(s._syncRequests.get(u._syncReqId))<=st&&eq(n,upd(s,{syncRequests:DMap.of(qs(s).filter(([k])=>!eq(k,u._syncReqId)))}));}return false;};
  const init=()=>VR(FS(0,[mk(W.zero()._value)]),E0(),DMap.of([]));
  const cand=(t,s)=>{const e=s._asyncEphemeral,rq=[...e._requests],rp=[...e._replies],sy=[...s._syncRequests];const op=(b,v,e2)=>({n:VR(v,e2,s._syncRequests),l:U.OperateOp(b)});
    switch(t.weighted([[4,'req'],[7,'exec'],[2,'rep'],[1,'crash'],[2,'sync'],[2,'rs'],[2,'ps'],[.5,'noop']])){
      case 'req':{if(rq.length>3)return null;const k=t.pick(KEYS),r=A.Request(t.pick([MS.PutInput(k,t.pick(VALS)),MS.PutInput(k,t.pick(VALS)),MS.GetInput(k),MS.NoopInput]),t.below(5));if(e._requests.has(r))return null;const v=t.below(8)?vs(s):FS(vs(s)._start,[...es(s),last(s)]);return op(A.RequestOp(r),v,upd(e,{requests:add(e._requests,r)}));}
      case 'exec':{if(!rq.length||es(s).length>7)return null;const r=t.pick(rq),i=r._input,m=mp(last(s));const o=i.$cn==='GetInput'?MS.GetOutput(m.get(i._key)._value):i.$cn==='PutInput'?MS.PutOutput:MS.NoopOutput,y=A.Reply(o,r._id);if(e._replies.has(y))return null;const v=i.$cn==='PutInput'?FS(vs(s)._start,[...es(s),mk(m.set(i._key,V.Define(i._value)))]):vs(s);return op(A.ExecuteOp(r,y),v,A.EphemeralState(del(e._requests,r),add(e._replies,y)));}
      case 'rep':{if(!rp.length)return null;const y=t.pick(rp);return op(A.ReplyOp(y),vs(s),upd(e,{replies:del(e._replies,y)}));}
      case 'crash':return {n:VR(FS(vs(s)._start,es(s).slice(0,1)),E0(),DMap.of([])),l:U.CrashOp};
      case 'sync':{const d=t.below(es(s).length);return {n:upd(s,{versions:FS(N(vs(s)._start)+d,es(s).slice(d))}),l:U.SyncOp};}
      case 'rs':{const i=t.below(5);return s._syncRequests.has(i)?null:{n:upd(s,{syncRequests:DMap.of([...qs(s),[i,len(s)-1]])}),l:U.ReqSyncOp(i)};}
      case 'ps':{const k=sy.filter(k=>N(s._syncRequests.get(k))<=N(vs(s)._start));if(!k.length)return null;const i=t.pick(k);return {n:upd(s,{syncRequests:DMap.of(qs(s).filter(x=>!eq(x[0],i)))}),l:U.ReplySyncOp(i)};}
      case 'noop':return {n:s,l:U.NoopOp};}return null;};
  const next=(t,s)=>{for(let i=0;i<30;i++){const r=cand(t,s);if(r)return Object.assign(r,{name:r.l.$cn});}return {n:s,l:U.NoopOp,name:'NoopOp'};};
  const tricks=(t,s)=>{const out=[],e=s._asyncEphemeral;const put=(n,l)=>out.push({n,l});const a=N(vs(s)._start);
    for(const k of s._syncRequests)put(upd(s,{syncRequests:DMap.of(qs(s).filter(x=>!eq(x[0],k)))}),U.ReplySyncOp(k));
    for(const d of [0,1,es(s).length-1,es(s).length]){put(VR(FS(a+d,es(s).slice(d,d+1)),E0(),DMap.of([])),U.CrashOp);put(VR(FS(a,es(s).slice(0,d)),E0(),DMap.of([])),U.CrashOp);put(upd(s,{versions:FS(a+d,es(s).slice(d))}),U.SyncOp);}
    put(VR(FS(a,es(s).slice(0,1)),e,s._syncRequests),U.CrashOp);put(upd(s,{syncRequests:DMap.of([...qs(s),[t.below(5),len(s)-(t.bool()?1:0)]])}),U.ReqSyncOp(t.below(5)));
    for(const r of e._requests){const m=mp(last(s)),i=r._input;const o=t.pick([MS.GetOutput(t.pick(VALS)),MS.PutOutput,MS.NoopOutput]),y=A.Reply(o,t.below(4)?r._id:t.below(5));const m2=i.$cn==='PutInput'?m.set(i._key,V.Define(t.below(3)?i._value:t.pick(VALS))):m;put(VR(t.bool()?FS(a,[...es(s),mk(m2)]):FS(a,[...es(s).slice(0,-1),mk(m2)]),A.EphemeralState(del(e._requests,r),add(e._replies,y)),s._syncRequests),U.OperateOp(A.ExecuteOp(r,y)));}
    return out;};
  const mach=machine({setup:W.setup,init:t=>{W.setup();return init();},runInit:s=>eq(C.InitState(),s),isInit:s=>eq(s,init()),valid:s=>N(vs(s)._start)>=0&&[...s._syncRequests].every(k=>N(k)>=0&&N(s._syncRequests.get(k))>=0)&&es(s).every(e=>KEYS.every(k=>mp(e).has(k)&&mp(e).get(k).$cn==='Define')),next,ref,run:(s,n,u)=>C.NextStep(K,s,n,u)===true,perturbs:8,len:22,tricks,partial:true,
    seedPool:p=>{for(const o of [U.NoopOp,U.CrashOp,U.SyncOp,U.ReqSyncOp(1),U.ReplySyncOp(1)])p.add('L',o);for(const v of VALS)p.add('Define_value',v);},
    after:(s,n,u,st,t)=>{W.ops=[u,U.NoopOp,U.CrashOp,U.SyncOp];check(C.Next(K,s,n,u)===true,()=>`Next refuses ${show(u)}`);
      // the label belongs to the step: another label must be judged on its own
      const o=t.pick([U.NoopOp,U.CrashOp,U.SyncOp,U.ReqSyncOp(0),U.ReplySyncOp(0)]);const want=ref(s,n,o);W.ops=[o];check((C.Next(K,s,n,o)===true)===want,()=>`Next from ${show(s)} to ${show(n)} labelled ${show(o)} is ${want?'refused':'allowed'}`);
      if(u.$cn==='OperateOp'){const b=u._baseOp,x=A.Variables(last(s),s._asyncEphemeral),y=A.Variables(last(n),n._asyncEphemeral);check(A.NextStep(x,y,b)===true,'the asynchronous step');}
    }});
  if(!label)return mach;
  // one step under another step's label, with every label to choose from
  return (t,c)=>{W.setup();let s=init();const k=t.below(9);for(let i=0;i<k;i++)s=next(t,s).n;const {n,l:u}=next(t,s);const o=t.pick([U.NoopOp,U.CrashOp,U.SyncOp,U.ReqSyncOp(t.below(5)),U.ReplySyncOp(t.below(5))].filter(x=>!eq(x,u)));c.nontrivial(k>1);c.log(()=>`${show(u)} from ${show(s)}`);c.sample(`${u.$cn} taken as ${o.$cn} after ${k} steps`);c.label(`${u.$cn} as ${o.$cn}`);
    W.ops=[u,o];const want=ref(s,n,o);check((C.NextStep(K,s,n,o)===true)===want,()=>`NextStep from ${show(s)} to ${show(n)} labelled ${show(o)} is ${want?'refused':'allowed'}`);
    const got=C.Next(K,s,n,o)===true;check(got||!want,()=>`Next refuses ${show(o)}`);check(!got||want,()=>`Next of the specification takes a step under the label of another: ${show(u)} from ${show(s)} passes as ${show(o)}`);};
};
// histories of messages and sequences that forget their start
function algebra({REPO}){
  const W=world(REPO);const {H,F,V,SM}=W;const {hist,hok,msgs,cut,sub,play}=W;
  const km=t=>H.KeyedMessage(t.pick(KEYS),t.below(6)?V.Define(t.pick(VALS)):V.Update(V.NoDelta));
  const gen=(t,a)=>hist(a===undefined?t.below(5):a,t.list(0,5,km));
  return (t,c)=>{W.setup();
    if(t.below(3)===0){ // floating sequences
      const a=t.below(5),xs=t.list(0,6,u=>u.below(9)),f=F.FloatingSeq(a,xs),L=a+xs.length,i=t.below(L+2);c.nontrivial(xs.length>1);c.log(()=>`sequence from ${a}: ${xs} at ${i}`);c.sample(`sequence from ${a}: ${xs} at ${i}`);
      check(N(f._Len())===L&&N(F['operator||'](f))===L&&N(f._FirstActiveIndex())===a,'length');check(f._IsActive(i)===(i>=a&&i<L),()=>`IsActive(${i})`);
      if(i>=a&&i<L)check(f._Get(i)===xs[i-a]&&F['operator[]'](f,i)===xs[i-a],()=>`element ${i} is ${f._Get(i)}`);
      if(i<=L){const p=f._GetPrefix(i);check(eq(p,i<=a?F.FloatingSeq(i,[]):F.FloatingSeq(a,xs.slice(0,i-a))),()=>`prefix ${i} is ${show(p)}`);}
      if(i>=a&&i<=L)check(eq(f._GetSuffix(i),F.FloatingSeq(i,xs.slice(i-a))),()=>`suffix ${i}`);
      const ys=t.list(0,3,u=>u.below(9));check(eq(f._Append(ys),F.FloatingSeq(a,[...xs,...ys])),'append');
      if(xs.length){check(f._Last()===xs[xs.length-1],'last');check(eq(f._DropLast(),xs.length===1?F.FloatingSeq(a,[]):F.FloatingSeq(a,xs.slice(0,-1))),'drop last');}
      check(eq(F.floatingSeq(a,L,x=>N(x)*2),F.FloatingSeq(a,xs.map((_,j)=>2*(a+j)))),'floatingSeq');return;}
    let h=gen(t);const a=N(h._seqStart),b=N(h._seqEnd);c.nontrivial(b>a);c.log(()=>show(h));c.sample(show(h).slice(0,120));
    const bad=t.below(4)===0?H.MsgHistory(DMap.of([...h._msgs].filter(()=>t.below(4)).map(k=>[k,h._msgs.get(k)])),t.below(3)?h._seqStart:t.below(6),t.below(3)?h._seqEnd:t.below(9)):h;
    check(bad._WF()===hok(bad),()=>`WF of ${show(bad)}`);
    check(N(h._Len())===b-a&&h._IsEmpty()===(a===b),'length');const i=t.below(12);check(h._Contains(i)===(i>=a&&i<b)&&h._CanFollow(i)===(i===a)&&h._CanDiscardTo(i)===(i>=a&&i<=b),()=>`Contains, CanFollow or CanDiscardTo ${i}`);
    check(eq(h._LSNSet(),DSet.from(Array.from({length:b-a},(_,j)=>a+j))),'LSNSet');
    const g=gen(t,t.below(4)?b:undefined);check(h._CanConcat(g)===(N(g._seqStart)===b),'CanConcat');if(N(g._seqStart)===b)check(eq(h._Concat(g),hist(a,[...msgs(h),...msgs(g)])),()=>`Concat gives ${show(h._Concat(g))}`);
    if(i>=a&&i<=b){check(eq(h._DiscardOld(i),cut(h,i,b)),()=>`DiscardOld(${i})`);check(eq(h._DiscardRecent(i),cut(h,a,i)),()=>`DiscardRecent(${i})`);}
    if(i<=b)check(eq(h._MaybeDiscardOld(i),i>=a?cut(h,i,b):h),()=>`MaybeDiscardOld(${i})`);
    let x=t.below(3)&&b>a?(lo=>cut(h,lo,lo+t.below(b-lo+1)))(a+t.below(b-a)):gen(t);if(t.below(4)===0&&msgs(x).length)x=hist(N(x._seqStart),msgs(x).map((y,j)=>j===0?km(t):y));check(h._IncludesSubseq(x)===sub(h,x),()=>`IncludesSubseq(${show(x)})`);
    let m=W.zero();for(const y of t.list(0,3,km))m=SM.Stamped(m._value.set(y._key,W.merge(y._message,m._value.get(y._key))),0);m=SM.Stamped(m._value,a);
    const want=play(m,h);check(eq(h._ApplyToStampedMap(m),want)&&eq(H.MapPlusHistory(m,h),want),()=>`applying gives ${show(h._ApplyToStampedMap(m))}, should be ${show(want)}`);
    check(eq(H.EmptyHistoryAt(i),hist(i,[]))&&eq(H.SingletonAt(i,km.call(null,t))._WF(),true),'small histories');const y=km(t);check(eq(H.SingletonAt(i,y),hist(i,[y])),'SingletonAt');
    const T=W.TK;check(T.AnyKey(t.pick(KEYS))===true,'AnyKey');check(T.TotalMapIsFull(m._value)===true,'TotalMapIsFull');const um=m._value.set(t.pick(KEYS),V.Update(V.NoDelta));check(T.TotalMapIsFull(um)===false,'a map with a pending update is taken as full');check(eq(SM.Empty(),W.zero()),'Empty');
    const p=t.bool()?V.Update(V.NoDelta):V.Define(t.pick(VALS)),q=t.bool()?V.Update(V.NoDelta):V.Define(t.pick(VALS));check(eq(V.Merge(p,q),W.merge(p,q)),()=>`Merge(${show(p)},${show(q)})`);check(eq(V.IdentityMessage(),V.Update(V.NoDelta))&&eq(V.DefaultMessage(),V.Define([])),'messages');check(V.EncodableMessage(p)===(p.$cn==='Define'),'EncodableMessage');
  };
}
exports.props={D01:{rule:'a history of at least two steps; a message history or sequence of more than one element',parts:{system:{make:system,weight:4},spec:{make:spec(false),weight:2},label:{make:spec(true),weight:.3},algebra:{make:algebra,weight:1}},quick:24,thorough:500,assumptions:['four keys and four values; up to 20 messages']}};
