'use strict';
// C01: concurrent tables and hand-over-hand locking: any interleaving acts as atomic operations.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES}=require('../externs.js');const {check}=require('../pbt.js');
const {DMap,DMs}=$;const {machine,upd,perturb,Pool}=require('../sm.js');const N=Number,eq=$.eq;const show=x=>$.show?$.show(x).slice(0,600):String(x);
const fs=require('fs');const {specOf}=require('../contract.js');const load=(REPO,f,ov)=>new Program({externs:EX,types:TYPES,guess:true,overrides:ov||{},redirect:g=>/concurrency\/concurrency-strategies\/spec\.s\.dfy$/.test(g)&&!fs.existsSync(g)?REPO+'/examples/concurrency-strategies/spec.s.dfy':g}).load(REPO+'/'+f);
const R=n=>[...Array(n).keys()];const mput=(m,k,v)=>m.set(k,v),mdel=(m,k)=>DMap.of([...m].filter(x=>!eq(x,k)).map(x=>[x,m.get(x)]));
// ------------------------------------------------------------------ the linear-probing table
function tableWorld(REPO){
  const W={h:(n,k)=>0};const P=load(REPO,'concurrency/ConcurrentMap/ConcurrentLinearHashTable.i.dfy',{'LocalConcurrentLinearHashTable.SlotForKey':(n,k)=>W.L.Slot(W.h(N(n),N(k)))});
  W.some=v=>P.m('Options').Some(v);W.L=P.m('LocalConcurrentLinearHashTable');W.T=P.m('ConcurrentLinearHashTable');W.C=P.m('ConcurrentMap');W.steps=[];W.csteps=[];
  W.setup=()=>{$.universes.length=0;$.universes.push(u=>{if(!u)return null;if(u.k==='int'||u.k==='nat')return R(12);if(u.k==='dt'){const q=u.cell.qname||'';if(/\.Slot$/.test(q))return R(12).map(i=>W.L.Slot(i));if(/ConcurrentMap\.Step$/.test(q))return W.csteps;if(/\.Step$/.test(q))return W.steps;}return null;});};
  return W;
}
function table({REPO}){
  const W=tableWorld(REPO),{L,T,C}=W;const tb=s=>Array.from(s._sv._table),len=s=>tb(s).length,th=(s,i)=>s._threads.get(i);const SL=x=>N(x._slot._slot);
  const wfT=(n,x)=>x.$cn==='Idle'||SL(x)<n&&SL(x)>=0;
  const post=(s,i,st)=>{if(!s._threads.has(i))return null;const x=th(s,i),a=tb(s),n=a.length;if(!wfT(n,x))return null;const go=(t2,x2)=>T.Variables(L.SharedVariables(t2),mput(s._threads,i,x2));
    const it=x.$cn==='Idle'?null:a[SL(x)],emp=it&&it.$cn==='Empty',mine=it&&!emp&&eq(it._key,x._key);
    switch(st.$cn){
      case 'InsertInitStep':return n>0&&x.$cn==='Idle'?go(a,L.Insert(st._key,st._value,L.Slot(W.h(n,N(st._key))))):null;
      case 'QueryInitStep':return n>0&&x.$cn==='Idle'?go(a,L.Query(st._key,L.Slot(W.h(n,N(st._key))))):null;
      case 'InsertAdvanceStep':case 'QueryAdvanceStep':return x.$cn===st.$cn.slice(0,-11)&&!emp&&!mine&&SL(x)<n-1?go(a,upd(x,{slot:L.Slot(SL(x)+1)})):null;
      case 'InsertCompleteStep':return x.$cn==='Insert'&&(emp||mine)?go(a.map((y,j)=>j===SL(x)?L.Entry(x._key,x._value):y),L.Idle):null;
      case 'QueryCompleteStep':return x.$cn==='Query'&&eq(it,L.Entry(x._key,st._value))?go(a,L.Idle):null;}return null;};
  const run=(s,n,i,st)=>{W.steps=[st];const r=s._threads.has(i)&&n._threads.has(i)&&eq(n._threads,mput(s._threads,i,th(n,i)))&&L.NextStep(s._sv,n._sv,th(s,i),th(n,i),st)===true;const q=T.NextThread(s,n,i)===true;check(q===r,()=>`NextThread is ${q}, its step ${r}, for ${show(s)} to ${show(n)} thread ${i}`);return r;};
  const ref=(s,n,i,st)=>{const p=post(s,i,st);return !!p&&eq(p,n);};
  const reach=(a,k,e)=>{const n=a.length;if(!(n>0&&e<n&&e>=0))return false;const b=W.h(n,k);if(b>e)return false;for(let j=b;j<e;j++)if(a[j].$cn==='Empty'||N(a[j]._key)===k)return false;return true;};
  const tinv=a=>{const ks=a.filter(x=>x.$cn!=='Empty').map(x=>N(x._key));return new Set(ks).size===ks.length&&a.every((x,i)=>x.$cn==='Empty'||reach(a,N(x._key),i));};
  const invRef=s=>tinv(tb(s))&&[...s._threads].every(i=>{const x=th(s,i);return x.$cn==='Idle'||reach(tb(s),N(x._key),SL(x));});
  const itab=a=>DMap.of(a.filter(x=>x.$cn==='Entry').map(x=>[x._key,x._value]));
  const I=s=>C.Variables(itab(tb(s)),DMap.of([...s._threads].filter(i=>th(s,i).$cn!=='Idle').map(i=>{const x=th(s,i);return [i,x.$cn==='Insert'?C.ReqInsert(x._key,x._value):C.ReqQuery(x._key)];})));
  const init=t=>{W.setup();const n=t.int(1,7),hs=t.list(8,8,u=>u.below(n));W.h=(m,k)=>m===n?hs[((k%8)+8)%8]:m>0?(hs[((k%8)+8)%8]%m):0;
    const a=Array(n).fill(L.Empty);if(t.bool())for(const k of t.list(0,4,u=>u.below(7))){let i=W.h(n,k);while(i<n&&a[i].$cn!=='Empty'&&N(a[i]._key)!==k)i++;if(i<n)a[i]=t.below(4)?L.Entry(k,t.below(5)):L.Tombstone(k);}
    return T.Variables(L.SharedVariables(a),DMap.of(R(3).map(i=>[i,L.Idle])));};
  const cand=(t,s)=>{const i=t.below(3),x=th(s,i),k=t.below(7);const ss=x.$cn==='Idle'?[t.below(3)?L.InsertInitStep(k,t.below(5)):L.QueryInitStep(k)]:x.$cn==='Insert'?[L.InsertAdvanceStep,L.InsertCompleteStep]:[L.QueryAdvanceStep,...R(5).map(v=>L.QueryCompleteStep(v))];
    for(const st of ss){const n=post(s,i,st);if(n)return {n,l:i,step:st};}return null;};
  const next=(t,s)=>{for(let j=0;j<12;j++){const r=cand(t,s);if(r)return r;}return null;};
  const tricks=(t,s)=>{const out=[];const i=t.below(3),x=th(s,i),a=tb(s);const go=(t2,x2)=>T.Variables(L.SharedVariables(t2),mput(s._threads,i,x2));
    if(x.$cn==='Insert'||x.$cn==='Query'){if(SL(x)>=0&&SL(x)<a.length){const at=(j,y)=>a.map((z,q)=>q===j?y:z);if(x.$cn==='Insert'){for(const j of [SL(x),t.below(a.length)])out.push({n:go(at(j,L.Entry(x._key,x._value)),L.Idle),l:i,step:L.InsertCompleteStep});}else {const it=a[SL(x)];out.push({n:go(a,L.Idle),l:i,step:L.QueryCompleteStep(it.$cn==='Entry'?it._value:0)});for(const y of a)if(y.$cn==='Entry'&&eq(y._key,x._key))out.push({n:go(a,L.Idle),l:i,step:L.QueryCompleteStep(y._value)});}
      out.push({n:go(a,upd(x,{slot:L.Slot(SL(x)+1)})),l:i,step:x.$cn==='Insert'?L.InsertAdvanceStep:L.QueryAdvanceStep});out.push({n:go(a,upd(x,{slot:L.Slot(0)})),l:i,step:L.InsertAdvanceStep});}}
    const k=t.below(7);out.push({n:go(a,L.Insert(k,1,L.Slot(t.below(a.length)))),l:i,step:L.InsertInitStep(k,1)});out.push({n:go(a,L.Query(k,L.Slot(W.h(a.length,k)))),l:i,step:L.QueryInitStep(k)});return out;};
  return machine({setup:W.setup,init,next,ref,run,perturbs:8,len:34,tricks,partial:true,inv:s=>T.Inv(s)===true,invRef,valid:s=>[...s._threads].every(i=>N(i)>=0&&(th(s,i).$cn==='Idle'||SL(th(s,i))>=0)),
    seedPool:p=>{for(const x of [L.Empty,L.Tombstone(1),L.Entry(1,2),L.Entry(3,0),L.Idle])p.add('Stable',x);for(const i of R(4))p.add('L',i);},
    after:(s,n,i,st,t)=>{
      const ini=x=>tb(x).length>0&&tb(x).every(y=>y.$cn==='Empty')&&[...x._threads].every(j=>th(x,j).$cn==='Idle');for(const x of [s,n])check((T.Init(x)===true)===ini(x),()=>`Init of ${show(x)}`);
      check(T.TableInv(tb(n))===tinv(tb(n)),()=>`TableInv of ${show(n)}`);check((T.WFVariables(n)===true)===true,'WFVariables');
      const a=I(s),b=I(n),ti=T.I(n);check(eq(ti,b),()=>`${show(n)} is taken to stand for ${show(ti)}, should be ${show(b)}`);
      const c=st.$cn==='InsertInitStep'?C.InsertStartStep(i,st._key,st._value):st.$cn==='QueryInitStep'?C.QueryStartStep(i,st._key):st.$cn==='InsertCompleteStep'?C.InsertEndStep(i):st.$cn==='QueryCompleteStep'?C.QueryEndStep(i,T_some(C,st._value)):C.NoOpStep;
      check(C.NextStep(a,b,c)===true,()=>`${st.$cn} is not ${show(c)} from ${show(a)} to ${show(b)}`);W.csteps=[c];check(C.Next(a,b)===true,'Next of the map');}});
  function T_some(C,v){return W.some(v);}
}
// a machine for the map the tables implement
function cmap({REPO}){
  const W=tableWorld(REPO),{C}=W;const O=load(REPO,'lib/Base/Option.s.dfy').m('Options');
  const st0=(s)=>s;const post=(s,st)=>{const i=st._tid,q=s._threads.has(i)?s._threads.get(i):null;switch(st.$cn){
    case 'InsertStartStep':return q?null:upd(s,{threads:mput(s._threads,i,C.ReqInsert(st._key,st._value))});
    case 'QueryStartStep':return q?null:upd(s,{threads:mput(s._threads,i,C.ReqQuery(st._key))});
    case 'InsertEndStep':return q&&q.$cn==='ReqInsert'?C.Variables(mput(s._m,q._key,q._value),mdel(s._threads,i)):null;
    case 'QueryEndStep':{if(!q||q.$cn!=='ReqQuery')return null;const r=st._res;if(r.$cn==='None'?s._m.has(q._key):!(s._m.has(q._key)&&eq(s._m.get(q._key),r._value)))return null;return upd(s,{threads:mdel(s._threads,i)});}
    case 'NoOpStep':return s;}return null;};
  const next=(t,s)=>{for(let j=0;j<10;j++){const i=t.below(4),q=s._threads.has(i)?s._threads.get(i):null,k=t.below(4);const st=t.below(12)===0?C.NoOpStep:!q?(t.bool()?C.InsertStartStep(i,k,t.below(4)):C.QueryStartStep(i,k)):q.$cn==='ReqInsert'?C.InsertEndStep(i):C.QueryEndStep(i,s._m.has(q._key)?O.Some(s._m.get(q._key)):O.None);const n=post(s,st);if(n)return {n,step:st};}return null;};
  return machine({setup:W.setup,init:t=>{W.setup();return C.Variables(DMap.of([]),DMap.of([]));},next,ref:(s,n,l,st)=>{const p=post(s,st);return !!p&&eq(p,n);},run:(s,n,l,st)=>C.NextStep(s,n,st)===true,perturbs:8,len:24,partial:true,
    seedPool:p=>{p.add('S',C.ReqQuery(1));p.add('S',C.ReqInsert(1,1));p.add('P',O.None);p.add('P',O.Some(1));},
    tricks:(t,s)=>[...s._threads].flatMap(i=>{const q=s._threads.get(i),n=upd(s,{threads:mdel(s._threads,i)});return q.$cn==='ReqQuery'?[O.None,O.Some(t.below(4)),O.Some(0)].map(r=>({n,step:C.QueryEndStep(i,r)})):[{n,step:C.InsertEndStep(i)},{n:C.Variables(mput(s._m,q._key,t.below(4)),n._threads),step:C.InsertEndStep(i)},{n,step:C.QueryEndStep(i,O.None)}];}),
    after:(s,n,l,st)=>{W.csteps=[st];check(C.Next(s,n)===true,'Next');}});
}
// ------------------------------------------------------------------ hand over hand
function handWorld(REPO){const P=load(REPO,'examples/concurrency-strategies/commutativity-strategy.dfy');const W={A:P.m('Abstract'),C:P.m('Concrete'),O:P.m('ConcreteOrdered'),T:P.m('TheoremProof'),Op:P.m('Options')};
  W.setup=()=>{$.universes.length=0;$.universes.push(u=>{if(!u)return null;if(u.k==='int'||u.k==='nat')return R(9);if(u.k==='dt'&&/Thread$/.test(u.cell.qname||''))return R(7).flatMap(i=>R(7).map(j=>W.C.Thread(i,j)));return null;});};
  W.spec=specOf(P.mod('Abstract').members.get('LeastIndexOf'));const {A,C,Op}=W;W.ui=(v,i)=>Op.Some(A.DonateOp(v,i===null?Op.None:Op.Some(i)));
  W.brd=s=>Array.from(s._board).map(x=>N(x._stones));const th=s=>[...s._threads].map(k=>[k,s._threads.get(k)]);W.th=th;
  W.free=(s,i)=>!th(s).some(([,x])=>N(x._lockHeld)===i);
  // successors of one thread: {n, ui}
  W.start=(s,tid,v)=>W.free(s,0)&&!s._threads.has(tid)?{n:C.State(s._board,mput(s._threads,tid,C.Thread(0,v))),ui:Op.None}:null;
  W.adv=(s,tid)=>{if(!s._threads.has(tid))return null;const x=s._threads.get(tid),h=N(x._lockHeld),v=N(x._victim),b=W.brd(s);if(!(h>=0&&h<b.length))return null;
    if(b[h]===v)return {n:C.State(b.map((y,j)=>C.Well(j===h?v+1:y)),mdel(s._threads,tid)),ui:W.ui(v,h)};
    if(h+1>=b.length)return {n:C.State(s._board,mdel(s._threads,tid)),ui:W.ui(v,null)};
    return W.free(s,h+1)?{n:C.State(s._board,mput(s._threads,tid,C.Thread(h+1,v))),ui:Op.None}:null;};
  W.donate=(b,v)=>{const i=b.indexOf(v);return [i<0?b:b.map((x,j)=>j===i?v+1:x),i<0?null:i];};
  W.optn=o=>o.$cn==='None'?null:N(o._value);
  return W;
}
function hand({REPO}){
  const W=handWorld(REPO),{A,C,Op}=W;
  const ref=(s,n,ui,tid)=>{const a=W.adv(s,tid);if(a&&eq(a.n,n)&&eq(a.ui,ui))return true;if(s._threads.has(tid)||!n._threads.has(tid))return false;const v=n._threads.get(tid)._victim;const b=W.start(s,tid,v);return !!b&&eq(b.n,n)&&eq(b.ui,ui);};
  const next=(t,s)=>{for(let j=0;j<12;j++){const tid=t.below(4);const r=s._threads.has(tid)?W.adv(s,tid):W.start(s,tid,t.below(4));if(r)return {n:r.n,l:r.ui,step:tid,name:s._threads.has(tid)?'advance':'start'};}return null;};
  const invRef=s=>{const h=W.th(s).map(([,x])=>N(x._lockHeld));return new Set(h).size===h.length;};
  return machine({setup:W.setup,init:t=>{W.setup();return C.State(t.list(1,5,u=>C.Well(u.below(4))),DMap.of([]));},next,ref,run:(s,n,ui,tid)=>C.Next(s,n,tid,ui)===true,perturbs:8,len:24,partial:true,inv:s=>C.Inv(s)===true,invRef,
    valid:s=>W.brd(s).every(x=>x>=0)&&W.th(s).every(([k,x])=>N(x._lockHeld)>=0&&N(x._victim)>=0&&N(x._victim)<9&&N(x._lockHeld)<7&&N(x._victim)<7&&N(k)>=0&&N(k)<9),
    seedPool:p=>{p.add('L',Op.None);p.add('L',W.ui(1,0));p.add('L',W.ui(1,null));p.add('S',C.Thread(0,1));p.add('S',C.Well(1));},
    tricks:(t,s)=>W.th(s).flatMap(([tid,x])=>{const h=N(x._lockHeld),v=N(x._victim),gone=mdel(s._threads,tid),b=W.brd(s);return [{n:C.State(s._board,gone),l:W.ui(v,null),step:tid},{n:C.State(s._board,mput(s._threads,tid,C.Thread(h+1,v))),l:Op.None,step:tid},{n:C.State(b.map((y,j)=>C.Well(j===h?v+1:y)),gone),l:W.ui(v,h),step:tid},{n:C.State(s._board,gone),l:W.ui(v,h),step:tid}];}),
    after:(s,n,ui,tid,t)=>{check((C.Init(s)===true)===(W.brd(s).every(x=>x===0)&&s._threads.size===0),'Init');
      const b=W.brd(s),i=t.below(b.length+1);check(eq(C.View(s._board,i),b.slice(i)),()=>`View from ${i} of ${show(s)}`);const k=t.below(4);check(eq(C.MapRemove1(s._threads,k),mdel(s._threads,k)),'MapRemove1');
      const j=t.below(6);check(C.LockFree(s,j)===W.free(s,j),()=>`LockFree ${j} of ${show(s)}`);}});
}
// whole schedules against one atomic operation per start, and commuting adjacent steps
function atomic({REPO}){
  const W=handWorld(REPO),{A,C,O,T,Op}=W;
  const HL=x=>x===null?O.NotStarted:O.HasLock(x);
  const lock=(s,tid,none)=>s._threads.has(tid)?O.HasLock(s._threads.get(tid)._lockHeld):none;const lt=(s,n,tid)=>O.LockTrans(lock(s,tid,O.NotStarted),lock(n,tid,O.Done));
  const less=(a,b)=>[a._from,a._to].filter(x=>x.$cn==='HasLock').every(x=>[b._from,b._to].filter(y=>y.$cn==='HasLock').every(y=>N(x._lock)<N(y._lock)));
  return (t,c)=>{W.setup();const len=t.int(1,5),b0=t.list(len,len,u=>u.below(3));let s=C.State(b0.map(x=>C.Well(x)),DMap.of([]));const ops=[],out=new Map(),states=[s],edges=[];let left=t.int(1,5),tid=0;
    for(let k=0;k<60;k++){const ids=[...s._threads];let r=null,id;if(left&&(!ids.length||t.below(3)===0)){id=tid;const v=t.below(4);r=W.start(s,id,v);if(r){tid++;left--;ops.push([id,v]);}}if(!r&&ids.length){id=t.pick(ids);r=W.adv(s,id);}
      if(!r){if(!left&&!ids.length)break;continue;}check(C.Next(s,r.n,id,r.ui)===true,()=>`thread ${id} from ${show(s)} to ${show(r.n)} is rejected`);if(r.ui.$cn==='Some')out.set(N(id),W.optn(r.ui._value._outidx));edges.push({ui:r.ui,tid:id,lt:lt(s,r.n,id)});states.push(s=r.n);}
    c.nontrivial(ops.length>1);c.log(()=>`wells ${b0}, operations ${ops.map(o=>o[1])}`);c.sample(`wells ${b0}, operations ${ops.map(o=>o[1])}, ${edges.length} steps`);
    // whoever starts first goes first, whatever the schedule: finish the threads still under way in that order
    let guard=0;while([...s._threads].length&&guard++<200)for(const id of [...s._threads]){const r=W.adv(s,id);if(r){if(r.ui.$cn==='Some')out.set(N(id),W.optn(r.ui._value._outidx));check(C.Advance(s,r.n,id,r.ui)===true,'Advance');s=r.n;}}
    let b=b0;for(const [id,v] of ops){const dn=A.Donate(b,v),b2=dn._0,i=dn._1;const w=W.donate(b,v);check(eq(b2,w[0])&&W.optn(i)===w[1],()=>`Donate(${b}, ${v}) is ${show([b2,i])}`);const li=A.LeastIndexOf(b,v);check(W.optn(li)===w[1],()=>`LeastIndexOf(${b}, ${v}) is ${show(li)}`);for(const r of [Op.None,...R(b.length+1).map(Op.Some)])check(W.spec.post([b,v],[r],[])===eq(r,li),()=>`the contract of LeastIndexOf(${b}, ${v}) ${eq(r,li)?'refuses':'allows'} ${show(r)}`);
      const u=W.ui(v,w[1]),sa=A.State(b),sb=A.State(Array.from(b2));check(A.DonateStep(sa,sb,v,u)===true&&A.Next(sa,sb,u)===true&&A.Next(sa,sa,Op.None)===true&&(A.Next(sa,sb,Op.None)===true)===eq(sa,sb),'the atomic step');const sc=A.State(Array.from(b2).map((x,q)=>t.below(3)?x:t.below(5)));check((A.DonateStep(sa,sc,v,u)===true)===eq(sc,sb),()=>`the atomic step from ${show(sa)} to ${show(sc)}`);const u2=W.ui(v,t.below(6));check((A.Next(sa,sb,u2)===true)===eq(u2,u),'the atomic step reports another index');
      check(out.get(N(id))===w[1],()=>`operation ${v} found ${out.get(N(id))}, one at a time it finds ${w[1]}`);b=Array.from(b2);}
    check(eq(W.brd(s),b.map(N)),()=>`the wells end as ${W.brd(s)}, one at a time as ${b}`);
    // ordered steps, and swapping two that use smaller locks first
    edges.forEach((e,i)=>{check(O.Next(states[i],states[i+1],e.tid,e.ui,e.lt)===true,()=>`ordered step ${i}`);const o=O.LockTrans(e.lt._from,t.pick([O.Done,O.NotStarted,O.HasLock(t.below(4))]));check((O.Next(states[i],states[i+1],e.tid,e.ui,o)===true)===eq(o,e.lt),()=>`ordered step ${i} with ${show(o)}`);
      if(i+1<edges.length&&!eq(e.tid,edges[i+1].tid)){const f=edges[i+1];check(O.lt_less(e.lt,f.lt)===less(e.lt,f.lt),()=>`lt_less(${show(e.lt)}, ${show(f.lt)})`);
        if(less(e.lt,f.lt)){c.label('commuting steps');const r=states[i]._threads.has(f.tid)?W.adv(states[i],f.tid):W.start(states[i],f.tid,states[i+2]._threads.get(f.tid)._victim);check(!!r&&O.Next(states[i],r.n,f.tid,f.ui,f.lt)===true&&O.Next(r.n,states[i+2],e.tid,e.ui,e.lt)===true,()=>`steps ${i} and ${i+1} from ${show(states[i])} do not commute`);}}});
    // the trace with the order of starts written down
    let m=DMap.of([]),big=t.below(3);const ss=[T.SState(states[0],m,big)],es=[];edges.forEach((e,i)=>{const was=states[i]._threads.has(e.tid),is=states[i+1]._threads.has(e.tid);let ord;if(was){ord=m.get(e.tid);if(!is)m=mdel(m,e.tid);}else{ord=++big;if(is)m=mput(m,e.tid,ord);}es.push(T.SEdge(e.ui,e.lt,e.tid,ord));ss.push(T.SState(states[i+1],m,big));});
    const tr=T.STrace(ss,es),zero=b0.every(x=>x===0);check((T.WFSTrace(tr)===true)===zero,()=>`WFSTrace of ${show(tr)}`);
    if(es.length){const i=t.below(es.length);check(T.WFSTraceAt(tr,i)===true,()=>`WFSTraceAt ${i}`);const bad=T.STrace(ss,es.map((e,j)=>j===i?upd(e,{order:N(e._order)+1}):e));check(T.WFSTraceAt(bad,i)!==true,()=>`WFSTraceAt ${i} accepts another order`);const k=t.below(3);const y=ss[i+1];const z=k===0?upd(y,{largest_so_far:N(y._largest_so_far)+1}):k===1?upd(y,{thread_map:mput(y._thread_map,99,1)}):upd(y,{state:upd(y._state,{board:[...y._state._board,C.Well(0)]})});check(T.WFSTraceAt(T.STrace(ss.map((x,j)=>j===i+1?z:x),es),i)!==true,()=>`WFSTraceAt ${i} accepts ${show(z)}`);}
  };
}
// tokens: wells, their locks, threads standing at a lock
function tokens({REPO}){
  const LEN=4,W={};const P=load(REPO,'concurrency/seq-hoh/StateMachine.i.dfy',{'WellStateObjects.len':()=>LEN});const S=P.m('WellStateObjects'),Op=P.m('Options');const ms=x=>DMs.from(x);
  const setup=s=>{$.universes.length=0;$.universes.push(u=>{if(!u)return null;if(u.k==='int'||u.k==='nat')return R(9);if(u.k==='dt'){const q=u.cell.qname||'';if(/StateObject$/.test(q))return W.objs||[];if(/\.Step$/.test(q))return W.steps||[];}return null;});};
  // what a step takes and gives back
  const io=st=>{const {StoneValue:V,StoneLock:K,ThreadPos:Tp,Ticket,Stub}=S,tid=st._tid,v=st._victim;switch(st.$cn){
    case 'StartStep':return [[Ticket(tid,v),K(0)],[Tp(tid,0,v)]];
    case 'AdvanceStep':{const i=N(st._i);return eq(st._v,v)||!(i+1<LEN)?null:[[Tp(tid,i,v),K(i+1),V(i,st._v)],[Tp(tid,i+1,v),K(i),V(i,st._v)]];}
    case 'FailStep':return eq(st._v,v)?null:[[Tp(tid,LEN-1,v),V(LEN-1,st._v)],[Stub(tid,Op.None),K(LEN-1),V(LEN-1,st._v)]];
    case 'DoneStep':{const i=N(st._i);return [[Tp(tid,i,v),V(i,v)],[Stub(tid,Op.Some(i)),K(i),V(i,N(v)+1)]];}}};
  const takes=(s,a)=>ms(a).every?true:null;const cnt=s=>{const m=new Map();for(const x of s){const k=$.key(x);m.set(k,(m.get(k)||0)+1);}return m;};
  const sub=(a,s)=>{const c=cnt(s);for(const x of a){const k=$.key(x),n=c.get(k)||0;if(!n)return false;c.set(k,n-1);}return true;};
  const minus=(s,a)=>{const r=[...s];for(const x of a){const i=r.findIndex(y=>eq(x,y));r.splice(i,1);}return r;};
  const inv1=o=>o.$cn==='StoneValue'||o.$cn==='StoneLock'?N(o._i)>=0&&N(o._i)<LEN:o.$cn==='ThreadPos'?N(o._n)>=0&&N(o._n)<LEN:true;
  const inv2=(o,p)=>{const c=o.$cn,d=p.$cn;if(c==='StoneValue'&&d==='StoneValue')return !eq(o._i,p._i);const at=x=>x.$cn==='StoneLock'?N(x._i):x.$cn==='ThreadPos'?N(x._n):null;if(c==='ThreadPos'&&d==='StoneLock')return true;const a=at(o),b=at(p);return a===null||b===null||a!==b;};
  const invA=xs=>xs.every(inv1)&&xs.every((o,i)=>xs.every((p,j)=>i===j||inv2(o,p)));
  const gobj=t=>t.pick([()=>S.StoneValue(t.below(5),t.below(3)),()=>S.StoneLock(t.below(5)),()=>S.ThreadPos(t.below(3),t.below(5),t.below(3)),()=>S.Ticket(t.below(3),t.below(3)),()=>S.Stub(t.below(3),t.bool()?Op.None:Op.Some(t.below(4)))])();
  return (t,c)=>{setup();const b0=R(LEN).map(()=>t.below(3));let xs=[...R(LEN).flatMap(i=>[S.StoneValue(i,b0[i]),S.StoneLock(i)])];const ops=[];let k=0;
    const steps=()=>{const r=[];for(const o of xs){if(o.$cn==='Ticket')r.push(S.StartStep(o._tid,o._victim));if(o.$cn==='ThreadPos'){const i=N(o._n),w=xs.find(x=>x.$cn==='StoneValue'&&N(x._i)===i);if(w){r.push(eq(w._v,o._victim)?S.DoneStep(o._tid,i,o._victim):i===LEN-1?S.FailStep(o._tid,o._victim,w._v):S.AdvanceStep(o._tid,i,o._victim,w._v));}}}return r.filter(st=>{const z=io(st);return z&&sub(z[0],xs);});};
    const judge=(a,b,st)=>{const z=io(st);const want=!!z&&eq(ms(a),ms(z[0]))&&eq(ms(b),ms(z[1]));const got=S.transform_step(ms(a),ms(b),st)===true;check(got===want,()=>`${show(st)} from ${a.map(show)} to ${b.map(show)} is ${got?'accepted':'rejected'}`);W.steps=[st];check((S.transform(ms(a),ms(b))===true)===got,'transform');};
    {const id=t.below(3),v=t.below(3),u=t.below(3),i=t.int(LEN-2,LEN);judge([S.ThreadPos(id,i,v),S.StoneLock(i+1),S.StoneValue(i,u)],[S.ThreadPos(id,i+1,v),S.StoneLock(i),S.StoneValue(i,u)],S.AdvanceStep(id,i,v,u));}
    const started=[];let n=0;while(n++<24){const ss=steps();
      if(ops.length<4&&(t.below(4)===0||!ss.length)){const v=t.below(4),id=ops.length,y=[...xs,S.Ticket(id,v)];check(S.DonateStart(ms(xs),ms(y),id,v)===true&&S.DonateStart(ms(xs),ms(xs),id,v)!==true&&S.DonateStart(ms(xs),ms(y),id,v+1)!==true,'DonateStart');ops.push(v);xs=y;}
      else{if(!ss.length)break;const st=t.pick(ss),[a,b]=io(st);judge(a,b,st);if(st.$cn==='StartStep')started.push(N(st._tid));k++;c.label(st.$cn);xs=[...minus(xs,a),...b];
        // near misses
        for(let j=0;j<5;j++){let a2=a.slice(),b2=b.slice(),s2=st;const w=t.below(5);const tw=l=>{const i=t.below(l.length);const m=t.below(4);if(m===0)return l.filter((_,q)=>q!==i);if(m===1)return [...l,t.pick([gobj(t),l[i]])];if(m===2){const pool=new Pool();for(const o of xs)pool.walk(o,'S');const z=l.slice();z[i]=perturb(t,z[i],'S',pool);return z;}const z=l.slice();z[i]=gobj(t);return z;};
          if(w<=1)a2=tw(a2);if(w===2||w===1)b2=tw(b2);if(w>=3){const i=t.below(5),v=t.below(3),u=t.below(3),id=t.below(3);s2=w===3?t.pick([S.StartStep(id,v),S.AdvanceStep(id,i,v,u),S.FailStep(id,v,u),S.DoneStep(id,i,v)]):st;if(w===3||t.bool()){const z=io(s2)||[[S.ThreadPos(id,i,v),S.StoneLock(i+1),S.StoneValue(i,v)],[S.ThreadPos(id,i+1,v),S.StoneLock(i),S.StoneValue(i,v)]];a2=z[0];b2=z[1];}
            if(s2.$cn==='FailStep'&&t.bool()){const q=t.below(LEN);a2=[S.ThreadPos(id,q,v),S.StoneValue(q,u)];b2=[S.Stub(id,Op.None),S.StoneLock(q),S.StoneValue(q,u)];}}
          judge(a2,b2,s2);}}
      W.objs=[...new Map(xs.map(x=>[$.key(x),x])).values()];check(S.Inv(ms(xs))===true&&invA(xs),()=>`the invariant fails in ${xs.map(show)}`);
      if(t.below(2)){const ys=t.bool()?[...xs,gobj(t)]:xs.map((x,i)=>i===0?gobj(t):x);if(t.bool())ys.push(t.pick(ys));W.objs=[...new Map(ys.map(x=>[$.key(x),x])).values()];check(S.Inv(ms(ys))===invA(ys),()=>`Inv of ${ys.map(show)} is ${!invA(ys)}`);const o=gobj(t),p=gobj(t);check(S.Inv1(o)===inv1(o),()=>`Inv1(${show(o)})`);check(S.Inv2(o,p)===inv2(o,p),()=>`Inv2(${show(o)}, ${show(p)})`);}}
    c.nontrivial(k>2);c.log(()=>`wells ${b0}, operations ${ops}`);c.sample(`wells ${b0}, operations ${ops}, ${k} steps`);
    // run the rest: in the order of starting, every operation did what it would have done alone
    for(let g=0;g<80;g++){const ss=steps();if(!ss.length)break;const st=ss[0];const [a,b]=io(st);judge(a,b,st);if(st.$cn==='StartStep')started.push(N(st._tid));xs=[...minus(xs,a),...b];}
    let b=b0.slice();for(const id of started){const i=b.indexOf(ops[id]);if(i>=0)b[i]++;const st=xs.filter(x=>x.$cn==='Stub'&&N(x._tid)===id);check(st.length===1&&eq(st[0],S.Stub(id,i<0?Op.None:Op.Some(i))),()=>`operation ${id} ends with ${st.map(show)}, alone it finds ${i}`);
      const y=minus(xs,st);check(S.DonateEnd(ms(xs),ms(y),id,i<0?Op.None:Op.Some(i))===true&&S.DonateEnd(ms(xs),ms(xs),id,i<0?Op.None:Op.Some(i))!==true,'DonateEnd');}
    for(let i=0;i<LEN;i++)check(xs.some(x=>eq(x,S.StoneValue(i,b[i])))&&xs.some(x=>eq(x,S.StoneLock(i))),()=>`well ${i} ends wrong in ${xs.map(show)}`);
  };
}
// transfers between locked accounts
function bank({REPO}){
  const P=load(REPO,'concurrency/bank/bank.dfy');const B=P.m('Bank'),M=P.m('BankImpl');
  return (t,c)=>{$.universes.length=0;const n=t.int(2,5),vs=t.list(n,n,u=>u.int(-5,9)),i=t.int(-1,n),j=t.int(-1,n),amt=t.int(-4,4);c.nontrivial(i!==j);c.log(()=>`${vs}: ${amt} from ${i} to ${j}`);c.sample(`${vs}: ${amt} from ${i} to ${j}`);
    const ok=i!==j&&i>=0&&j>=0&&i<n&&j<n,want=vs.map((x,k)=>k===i?x-amt:k===j?x+amt:x);const V=x=>B.variables(x);$.universes.push(u=>u&&u.k==='dt'?[B.TransferStep(i,j,amt),B.TransferStep(j,i,-amt)]:null);
    const alt=t.list(0,3,u=>u.below(n)).reduce((a,k)=>a.map((x,q)=>q===k?x+t.int(-2,2):x),t.bool()?want:vs);
    for(const to of [want,vs,alt,want.slice(1)]){const w=ok&&eq(to,want);check((B.Transfer(V(vs),V(to),i,j,amt)===true)===w,()=>`Transfer of ${amt} from ${i} to ${j} taking ${vs} to ${to} is ${!w}`);check((B.NextStep(V(vs),V(to),B.TransferStep(i,j,amt))===true)===w,'NextStep');if(w)check(B.Next(V(vs),V(to))===true,'Next');}
    check(B.Init(V(vs))===vs.every(x=>x===0)&&B.Init(V(vs.map(()=>0)))===true,'Init');
    if(ok){const val=new Map(vs.map((x,k)=>[k*3,x])),held=new Set();const lh={_can_acquire:()=>true,_is_acquired:m=>held.has(N(m)),_value:m=>val.get(N(m)),_acquire:m=>{check(!held.has(N(m)),()=>`lock ${m} taken twice`);held.add(N(m));return val.get(N(m));},_release:(m,v)=>{check(held.has(N(m)),()=>`lock ${m} released but not held`);held.delete(N(m));val.set(N(m),N(v));}};
      const st=M.state(vs.map((_,k)=>k*3));check(eq(M.mutex_values(lh,vs.map((_,k)=>k*3)),vs)&&eq(M.I(lh,st),V(vs)),'what the accounts hold');M.transaction(st,lh,i,j,amt);check(held.size===0,'a lock is left held');check(eq(vs.map((_,k)=>val.get(k*3)),want),()=>`transaction of ${amt} from ${i} to ${j} leaves ${vs.map((_,k)=>val.get(k*3))}, should be ${want}`);}
  };
}
exports.props={C01:{rule:'a history of at least two steps; two operations; a transfer between different accounts',parts:{table:{make:table,weight:3},cmap:{make:cmap,weight:1},hand:{make:hand,weight:2},atomic:{make:atomic,weight:2},tokens:{make:tokens,weight:2},bank:{make:bank,weight:.5}},quick:24,thorough:300,assumptions:['tables of up to seven slots, three threads; up to five wells']}};
