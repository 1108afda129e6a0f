'use strict';
// E02: the write-ahead log over a disk: what is durable, what a crash leaves, and the log it stands for.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES}=require('../externs.js');const {check}=require('../pbt.js');
const {DMap}=$;const {machine,upd,perturb,Pool}=require('../sm.js');const N=Number,eq=$.eq;const show=x=>$.show?$.show(x).slice(0,500):String(x);
const dir="/examples/log/";const EL=[10,20,30],AL=Array.from({length:60},(_,i)=>i-9);
function world(REPO){
  const P=new Program({externs:EX,types:TYPES,guess:true}).load(REPO+dir+'DiskLogSystemCrashSafeLogRefinement.dfy');const m=n=>P.m(n);
  const W={M:m('DiskLog'),D:m('Disk'),S:m('DiskLogSystem'),L:m('LogSpec'),C:m('CrashSafeLog'),I:m('DiskLogSystemInv'),R:m('DiskLogSystemCrashSafeLogRefinement'),LB:m('LBAType')};
  const {M,D,S,L,C}=W;W.kd=D.Constants();W.km=M.Constants();W.k=S.Constants(W.kd,W.km);W.kl=L.Constants();
  const ints=[-1,0,1,2,3,4,5,6,7,8,9,10];
  W.setup=()=>{$.universes.length=0;$.universes.push(u=>{if(!u)return null;if(u.k==='dt'){const q=u.cell.qname||'';
    if(/LogSpec\.Index$/.test(q))return ints.map(i=>L.Index(i));
    if(/LogSpec\.Step$/.test(q))return [L.StutterStep,...AL.map(e=>L.AppendStep(e)),...W.qs(L.QueryStep)];
    if(/CrashSafeLog\.Step$/.test(q))return [C.EphemeralMoveStep,C.SyncStep,C.CrashStep];
    if(/DiskLog\.Step$/.test(q))return [M.StutterStep,M.StageElementStep,M.FlushStep,...EL.map(e=>M.AppendStep(e)),...ints.map(i=>M.FetchSuperblockStep(i)),...ints.flatMap(i=>EL.map(e=>M.FetchElementStep(L.Index(i),e))),...W.qs(M.QueryStep)];
    if(/\bDisk\.Step$/.test(q))return [D.WriteStep,D.ReadStep,D.StutterStep];
    if(/DiskLogSystem\.Step$/.test(q))return [S.CrashStep,...(W.dops||[]).map(o=>S.MachineStep(o))];}
    return null;});};
  W.qs=f=>ints.slice(0,9).flatMap(i=>EL.map(e=>f(L.Index(i),e)));
  // meaning
  W.dlog=d=>{if(!d._blocks.has(0))return null;const b=d._blocks.get(0);if(b.$cn!=='SuperblockSector')return null;const n=N(b._superblock._length);if(n<0)return null;const r=[];for(let i=0;i<n;i++){if(!d._blocks.has(i+1))return null;const x=d._blocks.get(i+1);if(x.$cn!=='LogSector')return null;r.push(x._element);}return r;};
  W.eph=s=>{const m=s._machine;return m._cachedSuperblock.$cn==='Ready'&&N(m._cachedSuperblock._superblock._length)<=m._log.length?Array.from(m._log):W.dlog(s._disk);};
  return W;
}
function make(W){
  const {M,D,S,L}=W;const nd=D.NoDiskOp,SB=n=>M.SuperblockSector(M.Superblock(n)),LS=e=>M.LogSector(e);
  const ready=s=>s._cachedSuperblock.$cn==='Ready';const sup=s=>ready(s)&&N(s._cachedSuperblock._superblock._length)<=s._log.length;
  const post=(s,o,st)=>{switch(st.$cn){
    case 'QueryStep':{const i=N(st._idx._idx);return i>=0&&i<s._log.length&&eq(st._result,s._log[i])&&eq(o,nd)?s:null;}
    case 'FetchSuperblockStep':return !ready(s)&&eq(o,D.ReadOp(0,SB(st._length)))?upd(s,{cachedSuperblock:M.Ready(M.Superblock(st._length))}):null;
    case 'FetchElementStep':{const i=N(st._idx._idx);return ready(s)&&i<N(s._cachedSuperblock._superblock._length)&&s._log.length===i&&eq(o,D.ReadOp(i+1,LS(st._element)))?upd(s,{log:[...s._log,st._element],stagedLength:i+1}):null;}
    case 'AppendStep':return sup(s)&&eq(o,nd)?upd(s,{log:[...s._log,st._element]}):null;
    case 'StageElementStep':{const i=N(s._stagedLength);return sup(s)&&i>=0&&i<s._log.length&&eq(o,D.WriteOp(i+1,LS(s._log[i])))?upd(s,{stagedLength:i+1}):null;}
    case 'FlushStep':return sup(s)&&N(s._stagedLength)===s._log.length&&eq(o,D.WriteOp(0,SB(s._stagedLength)))?upd(s,{cachedSuperblock:M.Ready(M.Superblock(s._stagedLength))}):null;
    case 'StutterStep':return eq(o,nd)?s:null;}return null;};
  const postD=(d,o)=>{switch(o.$cn){case 'NoDiskOp':return d;case 'ReadOp':return d._blocks.has(o._lba)&&eq(d._blocks.get(o._lba),o._sector)?d:null;case 'WriteOp':return upd(d,{blocks:d._blocks.set(o._lba,o._sector)});}return null;};
  const fresh=M.Variables([],M.Unready,0);
  const ref=(s,n,l,st)=>{if(st.$cn==='CrashStep')return eq(n._machine,fresh)&&eq(n._disk,s._disk);const a=post(s._machine,l,st),b=postD(s._disk,l);return !!a&&!!b&&eq(a,n._machine)&&eq(b,n._disk);};
  const run=(s,n,l,st)=>st.$cn==='CrashStep'?S.NextStep(W.k,s,n,S.CrashStep)===true:M.NextStep(W.km,s._machine,n._machine,l,st)===true&&D.Next(W.kd,s._disk,n._disk,l)===true;
  const mk=(s,l,st)=>{const a=post(s._machine,l,st),b=postD(s._disk,l);return a&&b?{n:S.Variables(b,a),l,step:st}:null;};
  const crash=s=>({n:S.Variables(s._disk,fresh),l:nd,step:S.CrashStep});
  const cand=(t,s)=>{const m=s._machine,d=s._disk;const rd=a=>d._blocks.has(a)?D.ReadOp(a,d._blocks.get(a)):nd;const i=t.below(6);
    switch(t.weighted([[3,'q'],[5,'fs'],[6,'fe'],[5,'app'],[7,'st'],[4,'fl'],[1,'stu'],[1.2,'crash']])){
      case 'q':return mk(s,nd,M.QueryStep(L.Index(i),m._log[i]===undefined?10:m._log[i]));
      case 'fs':{const b=d._blocks.has(0)?d._blocks.get(0):null;return b&&b.$cn==='SuperblockSector'?mk(s,rd(0),M.FetchSuperblockStep(b._superblock._length)):null;}
      case 'fe':{const j=m._log.length,b=d._blocks.has(j+1)?d._blocks.get(j+1):null;return b&&b.$cn==='LogSector'?mk(s,rd(j+1),M.FetchElementStep(L.Index(j),b._element)):null;}
      case 'app':return m._log.length>8?null:(e=>mk(s,nd,M.AppendStep(e)))(t.pick(EL));
      case 'st':{const j=N(m._stagedLength);return j<m._log.length?mk(s,D.WriteOp(j+1,LS(m._log[j])),M.StageElementStep):null;}
      case 'fl':return mk(s,D.WriteOp(0,SB(m._stagedLength)),M.FlushStep);
      case 'stu':return mk(s,nd,M.StutterStep);
      case 'crash':return crash(s);}return null;};
  const next=(t,s)=>{for(let i=0;i<30;i++){const r=cand(t,s);if(r)return r;}return mk(s,nd,M.StutterStep);};
  // likely wrong steps, built whole
  const tricks=(t,s)=>{const m=s._machine,d=s._disk,out=[];const put=(mp,l,st)=>out.push({n:S.Variables(l.$cn==='WriteOp'?upd(d,{blocks:d._blocks.set(l._lba,l._sector)}):d,mp),l,step:st});const i=t.below(6),e=t.pick(EL);
    put(m,nd,M.QueryStep(L.Index(i),e));put(upd(m,{log:[...m._log,e]}),nd,M.AppendStep(e));
    for(const n of [N(m._stagedLength),m._log.length,i])put(upd(m,{cachedSuperblock:M.Ready(M.Superblock(n))}),D.WriteOp(0,SB(n)),M.FlushStep);
    const j=t.bool()?N(m._stagedLength):i;if(j>=0&&j<m._log.length)put(upd(m,{stagedLength:N(m._stagedLength)+1}),D.WriteOp(t.below(4)?j+1:t.below(8),LS(t.below(4)?m._log[j]:e)),M.StageElementStep);
    for(const a of [0,m._log.length+1,i])if(d._blocks.has(a)){const b=d._blocks.get(a);if(b.$cn==='SuperblockSector')put(upd(m,{cachedSuperblock:M.Ready(b._superblock)}),D.ReadOp(a,b),M.FetchSuperblockStep(b._superblock._length));else put(upd(m,{log:[...m._log,b._element],stagedLength:t.bool()?m._log.length+1:m._stagedLength}),D.ReadOp(a,b),M.FetchElementStep(L.Index(t.bool()?a-1:m._log.length),b._element));}
    out.push({n:S.Variables(t.bool()?d:upd(d,{blocks:DMap.of([...d._blocks].slice(1).map(x=>[x,d._blocks.get(x)]))}),t.bool()?m:fresh),l:nd,step:S.CrashStep});return out;};
  const init=t=>S.Variables(D.Variables(DMap.of([[0,SB(0)]])),fresh);
  return {ref,run,next,init,tricks,mk,crash,nd,SB,LS,fresh};
}
const es=a=>a===null?'unreadable':'['+a+']';
function system({REPO}){
  const W=world(REPO),M=make(W);const {S,I,R,C,L}=W;
  const inv=s=>{try{return I.Inv(W.k,s)===true;}catch(e){if(e instanceof $.DafnyFail)return false;throw e;}};
  const csl=(s)=>{const x=R.I(W.k,s);return [Array.from(x._persistent._log),Array.from(x._ephemeral._log)];};
  return machine({setup:W.setup,init:t=>{W.setup();return M.init(t);},runInit:s=>S.Init(W.k,s)===true&&inv(s),isInit:s=>eq(s,M.init()),next:M.next,ref:M.ref,run:M.run,perturbs:6,perturbPre:false,len:50,tricks:M.tricks,partial:true,
    seedPool:(pool)=>{for(const e of EL)pool.add('LogSectorelement',e);for(const o of [M.nd,W.D.ReadOp(0,M.SB(1)),W.D.WriteOp(0,M.SB(1)),W.D.WriteOp(1,M.LS(10))])pool.add('L',o);for(const o of [W.M.StutterStep,W.M.FlushStep,W.M.StageElementStep])pool.add('P',o);},
    after:(s,n,l,step,t,c)=>{
      const k=step.$cn;const st=k==='CrashStep'?step:S.MachineStep(l);check(S.NextStep(W.k,s,n,st)===true,()=>`the system refuses ${k} from ${show(s)}`);W.dops=k==='CrashStep'?[]:[l];check(S.Next(W.k,s,n)===true,()=>`Next does not contain ${k}`);
      check(inv(n),()=>`the invariant fails after ${k}: ${show(n)}`);
      const judge=(s,n,k,l)=>{const [p0,e0]=csl(s),[p,e]=csl(n);const is=(a,b,w)=>check(eq(a,b),()=>`${k} in ${show(s)}: the ${w} log is ${es(a)}, should be ${es(b)}`);
        is(p,W.dlog(n._disk),'durable');is(e,W.eph(n),'current');
        if(k==='CrashStep'){is(p,p0,'durable');is(e,p0,'current');}
        else if(k==='FlushStep'){is(p,e0,'durable');is(e,e0,'current');}
        else{is(p,p0,'durable');is(e,k==='AppendStep'?[...e0,step._element]:e0,'current');}
        check(C.Next(W.kl,R.I(W.k,s),R.I(W.k,n))===true,()=>`${k} is no step of the crash-safe log`);};
      judge(s,n,k,l);
      if(t.below(2)){const pool=new Pool();for(const x of [s,n])pool.walk(x,'S');for(const e of EL)pool.add('LogSectorelement',e);let x=perturb(t,n,'S',pool);if(t.bool())x=perturb(t,x,'S',pool);
        if(inv(x)){c.label('perturbed state satisfies the invariant');check(W.dlog(x._disk)!==null,()=>'the invariant admits an unreadable log: '+show(x));const tr=M.next(t,x);if(tr.step.$cn!=='AppendStep'&&M.run(x,tr.n,tr.l,tr.step)===true){check(inv(tr.n),()=>`${tr.step.$cn} from ${show(x)} breaks the invariant`);judge(x,tr.n,tr.step.$cn,tr.l);}}}
    }});
}
// the two specifications
function specs({REPO}){
  const W=world(REPO);const {L,C}=W;const V=a=>L.Variables(a);
  const refL=(s,n,l,st)=>{const a=Array.from(s._log);switch(st.$cn){case 'StutterStep':return eq(s,n);case 'AppendStep':return eq(n,V([...a,st._element]));case 'QueryStep':{const i=N(st._idx._idx);return eq(s,n)&&i>=0&&i<a.length&&eq(a[i],st._result);}}return false;};
  const lg=machine({setup:W.setup,init:()=>V([]),isInit:s=>!s._log.length,runInit:s=>L.Init(W.kl,s)===true,len:10,perturbs:8,partial:true,ref:refL,run:(s,n,l,st)=>L.NextStep(W.kl,s,n,st)===true,
    next:(t,s)=>{const e=t.pick(EL),a=Array.from(s._log);switch(t.below(4)){case 0:return {n:s,step:L.StutterStep};case 1:if(a.length){const i=t.below(a.length);return {n:s,step:L.QueryStep(L.Index(i),a[i])};}}return {n:V([...a,e]),step:L.AppendStep(e)};},
    after:(s,n,l,st,t)=>{check(L.Next(W.kl,s,n)===true,'Next of the log');const x=V(t.pick([[10],[],[10,20],[...Array.from(n._log),20,10],Array.from(n._log).slice(1)]));const ok=eq(x,s)||AL.some(e=>eq(x,V([...Array.from(s._log),e])));check((L.Next(W.kl,s,x)===true)===ok,()=>`Next of the log from ${show(s)} to ${show(x)} ${ok?'rejected':'accepted'}`);}});
  const nxt=(a,b)=>eq(a,b)||b._log.length===a._log.length+1&&eq(Array.from(b._log).slice(0,-1),Array.from(a._log));
  const refC=(s,n,l,st)=>{switch(st.$cn){case 'EphemeralMoveStep':return eq(s._persistent,n._persistent)&&nxt(s._ephemeral,n._ephemeral);case 'SyncStep':return eq(n._persistent,s._ephemeral)&&eq(n._ephemeral,s._ephemeral);case 'CrashStep':return eq(n._persistent,s._persistent)&&eq(n._ephemeral,s._persistent);}return false;};
  const cs=machine({setup:W.setup,init:()=>C.Variables(V([]),V([])),isInit:s=>!s._persistent._log.length&&!s._ephemeral._log.length,runInit:s=>C.Init(W.kl,s)===true,len:14,perturbs:8,partial:true,ref:refC,run:(s,n,l,st)=>C.NextStep(W.kl,s,n,st)===true,seedPool:p=>{for(const e of EL)p.add('Variableslog[]',e);},
    next:(t,s)=>{const k=t.below(6);if(k===0)return {n:C.Variables(s._persistent,s._persistent),step:C.CrashStep};if(k===1)return {n:C.Variables(s._ephemeral,s._ephemeral),step:C.SyncStep};return {n:C.Variables(s._persistent,t.below(4)?V([...Array.from(s._ephemeral._log),t.pick(EL)]):s._ephemeral),step:C.EphemeralMoveStep};},
    after:(s,n)=>check(C.Next(W.kl,s,n)===true,'Next of the crash-safe log')});
  return (t,c)=>t.bool()?lg(t,c):cs(t,c);
}
exports.props={E02:{rule:'a history of at least two steps; a satisfied precondition',parts:{system:{make:system,weight:3},specs:{make:specs,weight:1}},quick:15,thorough:300,assumptions:['logs of up to nine elements of three kinds']}};
