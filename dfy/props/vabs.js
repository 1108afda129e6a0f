'use strict';
// V02: message histories, stamped maps, the abstract journal and map, their crash-tolerant versions, and the coordination system with its
// refinement to the crash-tolerant asynchronous map.
const L=require('../vlib.js');const {V,$,check,discard,DMap,DSet,IMap,load,ty,fn,U,eq,Some,None}=L;const {machine,upd}=require('../sm.js');
const {base,model,asyncNext,guard}=require('./vspec.js');
const isN=o=>o.$cn==='None';
// independent operations on histories: LSN -> keyed message
function hist(w){
  const P=w.P,MH=ty(P,'abstract_system::MsgHistory_v::MsgHistory'),KM=ty(P,'abstract_system::MsgHistory_v::KeyedMessage'),St=ty(P,'abstract_system::StampedMap_v::Stamped');
  const wf=h=>h._seq_start<=h._seq_end&&[...h._msgs].length===h._seq_end-h._seq_start&&[...h._msgs].every(k=>k>=h._seq_start&&k<h._seq_end);
  const mk=(s,a)=>MH(DMap.of(a.map((m,i)=>[s+i,m])),s,s+a.length);
  const arr=h=>{const r=[];for(let i=h._seq_start;i<h._seq_end;i++)r.push(h._msgs.get(i));return r;};
  const slice=(h,a,b)=>mk(a,arr(h).slice(a-h._seq_start,b-h._seq_start));
  const cat=(a,b)=>mk(a._seq_start,[...arr(a),...arr(b)]);
  const sub=(h,g)=>g._seq_start>=h._seq_start&&g._seq_end<=h._seq_end&&[...g._msgs].every(k=>h._msgs.has(k)&&eq(h._msgs.get(k),g._msgs.get(k)));
  const play=(m,h)=>St(w.TM(arr(h).reduce((a,x)=>a.set(x._key,w.merge(a.get(x._key),x._message)),m._value._0)),m._seq_end+(h._seq_end-h._seq_start));
  const eqSt=(a,b)=>a._seq_end===b._seq_end&&w.eqM(a._value,b._value);
  const km=t=>KM(t.pick(w.KEYS),w.msg(t));const put=t=>KM(t.pick(w.KEYS),w.def(t.below(5)));
  const rnd=(t,s,n)=>mk(s===undefined?t.below(5):s,t.list(0,n||6,()=>km(t)));
  return {MH,KM,St,wf,mk,arr,slice,cat,sub,play,eqSt,km,put,rnd};
}
const DIRS=['spec','abstract_system'];
function histories({REPO}){
  const w=base(REPO,DIRS);const h=hist(w);const f=n=>fn(w.P,'abstract_system::MsgHistory_v::MsgHistory::'+n);const F={};
  for(const n of ['wf','contains','contains_exactly','is_empty','len','can_follow','can_concat','concat','can_discard_to','discard_recent','apply_to_stamped_map','discard_old','maybe_discard_old','includes_subseq','empty_history_at','singleton_at','map_plus_history','ext_equal','contains_key'])F[n]=f(n);
  const plus=fn(w.P,'abstract_system::StampedMap_v::Stamped::plus_history'),empty=fn(w.P,'abstract_system::StampedMap_v::empty'),sext=fn(w.P,'abstract_system::StampedMap_v::Stamped::ext_equal');
  return (t,c)=>{
    w.setup(NATU);
    const a=h.rnd(t),b=h.rnd(t,t.below(3)?a._seq_end:undefined),s=a._seq_start,e=a._seq_end,x=t.below(e+3);c.log(()=>$.show(a)+' | '+$.show(b)+' at '+x);
    const show=()=>$.show(a);
    let bad=a;const k=t.below(5);if(k===1)bad=h.MH(a._msgs,s,e+1);else if(k===2)bad=h.MH(a._msgs,s+1,e);else if(k===3)bad=h.MH(a._msgs.set(t.below(12),h.km(t)),s,e);else if(k===4&&e>s)bad=h.MH(DMap.of([...a._msgs].filter(z=>z!==s+t.below(e-s)).map(z=>[z,a._msgs.get(z)])),s,e);
    check(F.wf(bad)===h.wf(bad),()=>`wf of ${$.show(bad)}`);
    check(F.contains(a,x)===(x>=s&&x<e),()=>`contains(${x}) of ${show()}`);check(F.is_empty(a)===(s===e)&&F.len(a)===e-s,()=>`size of ${show()}`);
    check(F.can_follow(a,x)===(s===x)&&F.can_concat(a,b)===(b._seq_start===e),()=>`can_follow or can_concat of ${show()} and ${$.show(b)}`);check(F.can_discard_to(a,x)===(x>=s&&x<=e),'can_discard_to');
    if(b._seq_start===e)check(eq(F.concat(a,b),h.cat(a,b)),()=>`concat of ${show()} and ${$.show(b)}`);
    if(x>=s&&x<=e){check(eq(F.discard_recent(a,x),h.slice(a,s,x)),()=>`discard_recent(${x}) of ${show()}`);check(eq(F.discard_old(a,x),h.slice(a,x,e)),()=>`discard_old(${x}) of ${show()}`);}
    if(x<=e)check(eq(F.maybe_discard_old(a,x),x>=s?h.slice(a,x,e):a),()=>`maybe_discard_old(${x}) of ${show()}`);
    let g=t.bool()?h.slice(a,Math.min(e,s+t.below(3)),Math.max(Math.min(e,s+2),e-t.below(3))):t.bool()?b:h.mk(s,h.arr(a).map(m=>t.below(5)?m:h.km(t)));if(g._seq_start>g._seq_end)g=a;
    check(F.includes_subseq(a,g)===(h.wf(g)&&h.sub(a,g)),()=>`includes_subseq of ${$.show(g)} in ${show()}`);
    check(eq(F.empty_history_at(x),h.mk(x,[])),'empty_history_at');const m=h.km(t);check(eq(F.singleton_at(x,m),h.mk(x,[m])),()=>`singleton_at(${x})`);
    check(F.ext_equal(a,g)===eq(a,g),'ext_equal of histories');
    const key=t.pick(w.KEYS);
    let m0=h.St(w.mk(Object.fromEntries(t.list(0,3,()=>[t.below(7),w.msg(t)]))),s);const want=h.play(m0,a);
    for(const [n,r] of [['apply_to_stamped_map',F.apply_to_stamped_map(a,m0)],['map_plus_history',F.map_plus_history(m0,a)],['plus_history',plus(m0,a)]])check(h.eqSt(r,want),()=>`${n} of ${show()}`);
    check(h.eqSt(empty(),h.St(w.emptyMap(),0)),'the empty stamped map');check(sext(m0,want)===h.eqSt(m0,want),'ext_equal of stamped maps');
    if(b._seq_start===e)check(h.eqSt(F.map_plus_history(want,b),F.map_plus_history(m0,h.cat(a,b))),'replaying a history in two pieces');
    c.nontrivial(e-s>=2);c.sample($.show(a).slice(0,150));
  };
}
// ---------------------------------------------------------------- machines
function abs(w){
  const P=w.P,h=hist(w);const A='abstract_system::';
  const AJ=P.machines.get('AbstractJournal'),AM=P.machines.get('AbstractMap'),CJ=P.machines.get('CrashTolerantJournal'),CM=P.machines.get('CrashTolerantMap'),CS=P.machines.get('CoordinationSystem');
  const J=ty(P,A+'AbstractJournal_v::AbstractJournal::Label'),M=ty(P,A+'AbstractMap_v::AbstractMap::Label'),CJL=ty(P,A+'AbstractCrashAwareJournal_v::CrashTolerantJournal::Label'),CML=ty(P,A+'AbstractCrashAwareMap_v::CrashTolerantMap::Label');
  const JE=ty(P,A+'AbstractCrashAwareJournal_v::Ephemeral'),ME=ty(P,A+'AbstractCrashAwareMap_v::Ephemeral');
  const aj=x=>new AJ.state.K(x),am=x=>new AM.state.K(x);
  const ext=(a,b)=>eq(a,b);
  // journal relation
  function jstep(s,n,l,st){
    const j=s._journal,k=n._journal;if(!h.wf(j))return null;const keep=()=>eq(j,k);
    switch(st){
      case 'read_for_recovery':if(l.$cn!=='ReadForRecoveryLabel')return false;return h.wf(l._messages)?h.sub(j,l._messages)&&keep():null;
      case 'freeze_for_commit':return l.$cn==='FreezeForCommitLabel'&&h.wf(l._frozen_journal)&&h.sub(j,l._frozen_journal)&&keep();
      case 'observe_fresh_journal':return l.$cn==='QueryEndLsnLabel'&&l._end_lsn===j._seq_end&&keep();
      case 'put':{if(l.$cn!=='PutLabel'||l._messages._seq_start!==j._seq_end)return false;if(!h.wf(l._messages))return null;return eq(k,h.cat(j,l._messages));}
      case 'discard_old':return l.$cn==='DiscardOldLabel'&&l._require_end===j._seq_end&&l._start_lsn>=j._seq_start&&l._start_lsn<=j._seq_end&&eq(k,h.slice(j,l._start_lsn,j._seq_end));
      case 'internal':return l.$cn==='InternalLabel'&&keep();
    }
    return null;
  }
  const JS=['read_for_recovery','freeze_for_commit','observe_fresh_journal','put','discard_old','internal'];
  const or=(f,a)=>{let u=false;for(const x of a){const r=f(x);if(r===true)return true;if(r===null)u=true;}return u?null:false;};
  const jnext=(s,n,l)=>or(x=>jstep(s,n,l,x),JS);
  function mstep(s,n,l,st){
    const a=s._stamped_map,b=n._stamped_map;if(!w.total(a._value))return null;
    switch(st){
      case 'query':return l.$cn==='QueryLabel'&&l._end_lsn===a._seq_end&&(a._value._0.get(l._key).$cn==='Define'?eq(a._value._0.get(l._key)._value,l._value):null)&&h.eqSt(a,b);
      case 'put':{if(l.$cn!=='PutLabel')return false;if(l._puts._seq_start!==a._seq_end)return false;if(!h.wf(l._puts))return null;return h.eqSt(b,h.play(a,l._puts));}
      case 'freeze_as':return l.$cn==='FreezeAsLabel'&&h.eqSt(l._stamped_map,a)&&h.eqSt(a,b);
      case 'internal':return l.$cn==='InternalLabel'&&h.eqSt(a,b);
    }
    return null;
  }
  const MS=['query','put','freeze_as','internal'];const mnext=(s,n,l)=>or(x=>mstep(s,n,l,x),MS);
  const and=(...fs)=>{let u=false;for(const f of fs){const r=typeof f==='function'?f():f;if(r===false)return false;if(r===null)u=true;}return u?null:true;};
  const oeq=(a,b,e)=>a.$cn===b.$cn&&(isN(a)||e(a._0,b._0));
  // crash-tolerant journal
  function cjstep(s,n,l,st){
    const e=s._ephemeral,f=n._ephemeral,kn=e.$cn==='Known';const P=()=>eq(s._persistent,n._persistent),I=()=>eq(s._in_flight,n._in_flight),E=()=>eq(e,f);
    const to=q=>f.$cn==='Known'?jnext(e._v,f._v,q):false;
    switch(st){
      case 'load_ephemeral_from_persistent':return l.$cn==='LoadEphemeralFromPersistentLabel'&&!kn&&h.wf(s._persistent)&&f.$cn==='Known'&&eq(f._v,aj(s._persistent))&&P()&&I();
      case 'read_for_recovery':return l.$cn==='ReadForRecoveryLabel'&&kn&&and(E,P,I,()=>jnext(e._v,e._v,J.ReadForRecoveryLabel(l._records)));
      case 'query_end_lsn':return l.$cn==='QueryEndLsnLabel'&&kn&&and(E,P,I,()=>jnext(e._v,e._v,J.QueryEndLsnLabel(l._end_lsn)));
      case 'put':return l.$cn==='PutLabel'&&kn&&and(P,I,()=>to(J.PutLabel(l._records)));
      case 'internal':return l.$cn==='InternalLabel'&&kn&&and(P,I,()=>to(J.InternalLabel));
      case 'query_lsn_persistence':return l.$cn==='QueryLsnPersistenceLabel'&&l._sync_lsn<=s._persistent._seq_end&&E()&&P()&&I();
      case 'commit_start':{if(l.$cn!=='CommitStartLabel'||!kn||!isN(s._in_flight)||isN(n._in_flight))return false;const z=n._in_flight._0;
        return h.wf(z)&&z._seq_start===l._new_boundary_lsn&&s._persistent._seq_end<=z._seq_end&&z._seq_start<=l._max_lsn&&and(E,P,()=>jnext(e._v,e._v,J.FreezeForCommitLabel(z)));}
      case 'commit_complete':return l.$cn==='CommitCompleteLabel'&&kn&&!isN(s._in_flight)&&isN(n._in_flight)&&eq(n._persistent,s._in_flight._0)&&to(J.DiscardOldLabel(s._in_flight._0._seq_start,l._require_end));
      case 'crash':return l.$cn==='CrashLabel'&&f.$cn==='Unknown'&&isN(n._in_flight)&&eq(n._persistent,l._keep_in_flight&&!isN(s._in_flight)?s._in_flight._0:s._persistent);
    }
    return null;
  }
  const CJS=['load_ephemeral_from_persistent','read_for_recovery','query_end_lsn','put','internal','query_lsn_persistence','commit_start','commit_complete','crash'];
  const cjnext=(s,n,l)=>or(x=>cjstep(s,n,l,x),CJS);
  function cmstep(s,n,l,st){
    const e=s._ephemeral,f=n._ephemeral,kn=e.$cn==='Known';const P=()=>h.eqSt(s._persistent,n._persistent),I=()=>oeq(s._in_flight,n._in_flight,h.eqSt),E=()=>e.$cn===f.$cn&&(!kn||h.eqSt(e._v._stamped_map,f._v._stamped_map));
    const to=q=>f.$cn==='Known'?mnext(e._v,f._v,q):false;
    switch(st){
      case 'load_ephemeral_from_persistent':return l.$cn==='LoadEphemeralFromPersistentLabel'&&!kn&&l._end_lsn===s._persistent._seq_end&&f.$cn==='Known'&&h.eqSt(f._v._stamped_map,s._persistent)&&P()&&I();
      case 'put_records':return l.$cn==='PutRecordsLabel'&&kn&&and(P,I,()=>to(M.PutLabel(l._records)));
      case 'query':return l.$cn==='QueryLabel'&&kn&&and(E,P,I,()=>mnext(e._v,e._v,M.QueryLabel(l._end_lsn,l._key,l._value)));
      case 'freeze_map_internal':return l.$cn==='InternalLabel'&&kn&&isN(s._in_flight)&&!isN(n._in_flight)&&and(P,E,h.eqSt(n._in_flight._0,e._v._stamped_map));
      case 'ephemeral_internal':return l.$cn==='InternalLabel'&&kn&&and(P,I,E);
      case 'commit_start':return l.$cn==='CommitStartLabel'&&kn&&!isN(s._in_flight)&&s._persistent._seq_end<=l._new_boundary_lsn&&l._new_boundary_lsn===s._in_flight._0._seq_end&&P()&&I()&&E();
      case 'commit_complete':return l.$cn==='CommitCompleteLabel'&&!isN(s._in_flight)&&isN(n._in_flight)&&h.eqSt(n._persistent,s._in_flight._0)&&E();
      case 'crash':{if(l.$cn!=='CrashLabel'||f.$cn!=='Unknown'||!isN(n._in_flight))return false;if(l._keep_in_flight&&isN(s._in_flight))return null;return h.eqSt(n._persistent,l._keep_in_flight?s._in_flight._0:s._persistent);}
    }
    return null;
  }
  const CMS=['load_ephemeral_from_persistent','put_records','query','freeze_map_internal','ephemeral_internal','commit_start','commit_complete','crash'];
  const cmnext=(s,n,l)=>or(x=>cmstep(s,n,l,x),CMS);
  // witnesses for the nondeterministic arguments of the code's transitions
  const params=(m,tr,p,pre,post,l)=>{
    if(m==='CrashTolerantJournal'){if(p==='new_journal')return post&&post._ephemeral.$cn==='Known'?[post._ephemeral._v]:[];if(p==='frozen_journal')return isN(post._in_flight)?[]:[post._in_flight._0];}
    if(m==='CrashTolerantMap'){if(p==='new_map')return [post,pre].filter(x=>x._ephemeral.$cn==='Known').map(x=>x._ephemeral._v);if(p==='frozen_map')return isN(post._in_flight)?[]:[post._in_flight._0];}
    return null;
  };
  return {h,AJ,AM,CJ,CM,CS,J,M,CJL,CML,JE,ME,aj,am,jstep,jnext,mstep,mnext,cjstep,cjnext,cmstep,cmnext,params,CJS,CMS,and,oeq,
    cj:(p,e,i)=>new CJ.state.K(p,e,i),cm:(p,e,i)=>new CM.state.K(p,e,i),st:(MM,n,...a)=>{const v=MM.Step.variants.get(n);return v.single||new v.K(...a);}};
}
const NATS=[...Array(30).keys()];
const NATU=u=>u&&(u.ty?['LSN','nat','int'].includes(u.ty.n):!/^k(ey)?$|^k\d?$/.test(u.name||''))?NATS:null;
function seedMsgs(pool,w,h){for(let i=0;i<10;i++){for(const p of ['MsgHistory_seq_start','MsgHistory_seq_end','Stamped_seq_end','MsgHistory_msgsk','QueryEndLsnLabel_end_lsn','DiscardOldLabel_start_lsn','DiscardOldLabel_require_end','QueryLabel_end_lsn','CommitStartLabel_new_boundary_lsn','CommitStartLabel_max_lsn','CommitCompleteLabel_require_end','QueryLsnPersistenceLabel_sync_lsn'])pool.add(p,i);}
  for(const k of w.KEYS)for(const p of ['KeyedMessage_key','QueryLabel_key','TotalKMMap_0k'])pool.add(p,k);for(let v=0;v<5;v++){pool.add('QueryLabel_value',w.Value(v));for(const p of ['KeyedMessage_message','TotalKMMap_0v'])pool.add(p,w.def(v));}pool.add('KeyedMessage_message',w.upd(1));for(let i=0;i<4;i++)pool.add('MsgHistory_msgsv',h.KM(w.KEYS[i],w.def(i)));}
function journal({REPO}){
  const w=base(REPO,DIRS);const a=abs(w),{h,J}=a;const S=a.aj;
  return machine({setup:()=>w.setup(NATU),len:14,init:t=>S(h.rnd(t)),
    seedPool(pool){seedMsgs(pool,w,h);for(const n of ['read_for_recovery','freeze_for_commit','observe_fresh_journal','put','discard_old','internal'])pool.add('P',a.st(a.AJ,n));pool.add('L',J.InternalLabel);},
    next(t,s){const j=s._journal,k=t.below(9),st=n=>a.st(a.AJ,n);
      const sub=()=>{const x=j._seq_start+t.below(j._seq_end-j._seq_start+1);return h.slice(j,x,x+t.below(j._seq_end-x+1));};
      if(k<4){const m=h.mk(j._seq_end,t.list(0,3,()=>h.km(t)));return {n:S(h.cat(j,m)),l:J.PutLabel(m),step:st('put')};}
      if(k===4)return {n:s,l:J.ReadForRecoveryLabel(sub()),step:st('read_for_recovery')};if(k===5)return {n:s,l:J.FreezeForCommitLabel(sub()),step:st('freeze_for_commit')};
      if(k===6)return {n:s,l:J.QueryEndLsnLabel(j._seq_end),step:st('observe_fresh_journal')};if(k===7){const x=j._seq_start+t.below(j._seq_end-j._seq_start+1);return {n:S(h.slice(j,x,j._seq_end)),l:J.DiscardOldLabel(x,j._seq_end),step:st('discard_old')};}
      return {n:s,l:J.InternalLabel,step:st('internal')};},
    ref:(s,n,l,st)=>a.jstep(s,n,l,st.$cn),run:(s,n,l,st)=>guard(()=>a.AJ.by(s,n,l,st)),runNext:(s,n,l)=>guard(()=>a.AJ.next(s,n,l)),inv:undefined,perturbs:6});
}
function map({REPO}){
  const w=base(REPO,DIRS);const a=abs(w),{h,M}=a;const S=a.am;
  return machine({setup:()=>w.setup(NATU),len:14,init:t=>S(h.St(w.emptyMap(),t.below(4))),
    seedPool(pool){seedMsgs(pool,w,h);for(const n of ['query','put','freeze_as','internal'])pool.add('P',a.st(a.AM,n));pool.add('L',M.InternalLabel);pool.add('TotalKMMap_0',new IMap(x=>x._0!==2,()=>w.def(0),{k:'v',ty:{n:'Key'}}));},
    next(t,s){const m=s._stamped_map,k=t.below(7),st=n=>a.st(a.AM,n);
      if(k<3){const p=h.mk(m._seq_end,t.list(0,3,()=>h.km(t)));return {n:S(h.play(m,p)),l:M.PutLabel(p),step:st('put')};}
      if(k<5){const q=t.pick(w.KEYS),v=m._value._0.get(q);if(v.$cn==='Define')return {n:s,l:M.QueryLabel(m._seq_end,q,v._value),step:st('query')};}
      if(k===5)return {n:s,l:M.FreezeAsLabel(m),step:st('freeze_as')};return {n:s,l:M.InternalLabel,step:st('internal')};},
    ref:(s,n,l,st)=>a.mstep(s,n,l,st.$cn),run:(s,n,l,st)=>guard(()=>a.AM.by(s,n,l,st)),runNext:(s,n,l)=>guard(()=>a.AM.next(s,n,l)),perturbs:6});
}
function crashJournal({REPO}){
  const w=base(REPO,DIRS);const a=abs(w),{h,CJL:Lb,JE}=a;w.setParams(a.params);const st=n=>a.st(a.CJ,n);
  const args=(s,n,name)=>['load_ephemeral_from_persistent','put','internal','commit_complete'].includes(name)?n._ephemeral.$cn==='Known'?[n._ephemeral._v]:null:name==='commit_start'?isN(n._in_flight)?null:[n._in_flight._0]:[];
  const run=(s,n,l,x)=>{const g=args(s,n,x.$cn);if(!g)return false;return guard(()=>a.CJ.by(s,n,l,a.st(a.CJ,x.$cn,...g)));};
  const S=(s,o)=>upd(s,o);
  return machine({setup:()=>w.setup(NATU),len:20,init:()=>a.cj(h.mk(0,[]),JE.Unknown,None),runInit:s=>guard(()=>w.P.C[a.CJ.state.members.get('init').i](s)),isInit:s=>eq(s,a.cj(h.mk(0,[]),JE.Unknown,None)),
    seedPool(pool){seedMsgs(pool,w,h);pool.add('State_in_flight',None);pool.add('State_ephemeral',JE.Unknown);pool.add('L',Lb.InternalLabel);pool.add('L',Lb.LoadEphemeralFromPersistentLabel);pool.add('L',Lb.CrashLabel(true));},
    next(t,s){
      const e=s._ephemeral;
      if(t.below(14)===0){const k=t.bool();return {n:a.cj(k&&!isN(s._in_flight)?s._in_flight._0:s._persistent,JE.Unknown,None),l:Lb.CrashLabel(k),step:mark('crash')};}
      if(e.$cn==='Unknown')return {n:S(s,{ephemeral:JE.Known(a.aj(s._persistent))}),l:Lb.LoadEphemeralFromPersistentLabel,step:mark('load_ephemeral_from_persistent')};
      const j=e._v._journal,k=t.below(12);
      if(k<4){const m=h.mk(j._seq_end,t.list(0,3,()=>h.km(t)));return {n:S(s,{ephemeral:JE.Known(a.aj(h.cat(j,m)))}),l:Lb.PutLabel(m),step:mark('put')};}
      if(k===4){const x=j._seq_start+t.below(j._seq_end-j._seq_start+1);return {n:s,l:Lb.ReadForRecoveryLabel(h.slice(j,x,x+t.below(j._seq_end-x+1))),step:mark('read_for_recovery')};}
      if(k===5)return {n:s,l:Lb.QueryEndLsnLabel(j._seq_end),step:mark('query_end_lsn')};if(k===6)return {n:s,l:Lb.InternalLabel,step:mark('internal')};
      if(k===7)return {n:s,l:Lb.QueryLsnPersistenceLabel(t.below(s._persistent._seq_end+1)),step:mark('query_lsn_persistence')};
      if(k<10&&isN(s._in_flight)&&s._persistent._seq_end<=j._seq_end){const x=j._seq_start+t.below(j._seq_end-j._seq_start+1),y=Math.max(x,s._persistent._seq_end)+t.below(j._seq_end-Math.max(x,s._persistent._seq_end)+1);const z=h.slice(j,x,y);return {n:S(s,{in_flight:Some(z)}),l:Lb.CommitStartLabel(x,x+t.below(3)),step:mark('commit_start')};}
      if(!isN(s._in_flight)){const z=s._in_flight._0;if(z._seq_start>=j._seq_start&&z._seq_start<=j._seq_end)return {n:a.cj(z,JE.Known(a.aj(h.slice(j,z._seq_start,j._seq_end))),None),l:Lb.CommitCompleteLabel(j._seq_end),step:mark('commit_complete')};}
      return {n:s,l:Lb.InternalLabel,step:mark('internal')};},
    ref:(s,n,l,x)=>a.cjstep(s,n,l,x.$cn),run,runNext:(s,n,l)=>guard(()=>a.CJ.next(s,n,l)),perturbs:6});
}
// a bare transition name (arguments are derived from the states)
class Mark extends V.DT{constructor(n){super();this.n=n;} get $cn(){return this.n;} get $f(){return [];} $vals(){return [];} $clone(){return this;}}
const marks=new Map();const mark=n=>{let m=marks.get(n);if(!m)marks.set(n,m=new Mark(n));return m;};
function crashMap({REPO}){
  const w=base(REPO,DIRS);const a=abs(w),{h,CML:Lb,ME}=a;w.setParams(a.params);
  const args=(s,n,name)=>{const kn=n._ephemeral.$cn==='Known';switch(name){case 'put_records':case 'ephemeral_internal':case 'query':return kn?[n._ephemeral._v]:null;case 'freeze_map_internal':return kn&&!isN(n._in_flight)?[n._in_flight._0,n._ephemeral._v]:null;}return [];};
  const run=(s,n,l,x)=>{const g=args(s,n,x.$cn);if(!g)return false;return guard(()=>a.CM.by(s,n,l,a.st(a.CM,x.$cn,...g)));};const S=(s,o)=>upd(s,o);
  const i0=()=>a.cm(h.St(w.emptyMap(),0),ME.Unknown,None);
  return machine({setup:()=>w.setup(NATU),len:20,init:i0,runInit:s=>guard(()=>w.P.C[a.CM.state.members.get('init').i](s)),isInit:s=>h.eqSt(s._persistent,h.St(w.emptyMap(),0))&&s._ephemeral.$cn==='Unknown'&&isN(s._in_flight),
    seedPool(pool){seedMsgs(pool,w,h);pool.add('State_in_flight',None);pool.add('State_ephemeral',ME.Unknown);pool.add('L',Lb.InternalLabel);pool.add('L',Lb.CommitCompleteLabel);for(let i=0;i<9;i++)pool.add('LoadEphemeralFromPersistentLabel_end_lsn',i);},
    next(t,s){
      const e=s._ephemeral;
      if(t.below(14)===0){const k=t.bool()&&!isN(s._in_flight);return {n:a.cm(k?s._in_flight._0:s._persistent,ME.Unknown,None),l:Lb.CrashLabel(k),step:mark('crash')};}
      if(e.$cn==='Unknown')return {n:S(s,{ephemeral:ME.Known(a.am(s._persistent))}),l:Lb.LoadEphemeralFromPersistentLabel(s._persistent._seq_end),step:mark('load_ephemeral_from_persistent')};
      const m=e._v._stamped_map,k=t.below(12);
      if(k<4){const p=h.mk(m._seq_end,t.list(0,3,()=>h.km(t)));return {n:S(s,{ephemeral:ME.Known(a.am(h.play(m,p)))}),l:Lb.PutRecordsLabel(p),step:mark('put_records')};}
      if(k<6){const q=t.pick(w.KEYS),v=m._value._0.get(q);if(v.$cn==='Define')return {n:s,l:Lb.QueryLabel(m._seq_end,q,v._value),step:mark('query')};}
      if(k<8&&isN(s._in_flight))return {n:S(s,{in_flight:Some(m)}),l:Lb.InternalLabel,step:mark('freeze_map_internal')};
      if(k===8&&!isN(s._in_flight)&&s._persistent._seq_end<=s._in_flight._0._seq_end)return {n:s,l:Lb.CommitStartLabel(s._in_flight._0._seq_end),step:mark('commit_start')};
      if(k<11&&!isN(s._in_flight))return {n:a.cm(s._in_flight._0,e,None),l:Lb.CommitCompleteLabel,step:mark('commit_complete')};
      return {n:s,l:Lb.InternalLabel,step:mark('ephemeral_internal')};},
    ref:(s,n,l,x)=>a.cmstep(s,n,l,x.$cn),run,runNext:(s,n,l)=>guard(()=>a.CM.next(s,n,l)),perturbs:6});
}
// ---------------------------------------------------------------- the coordination system
function sys(w){
  const a=abs(w),m=model(w),{h,CJL,CML,JE,ME}=a;const P=w.P;
  const KN=ty(P,'abstract_system::AbstractCrashAwareSystem_v::Known'),LB=ty(P,'abstract_system::AbstractCrashAwareSystem_v::CoordinationSystem::Label');const FS=ty(P,'spec::FloatingSeq_t::FloatingSeq');
  const mkL=x=>LB.Label(x);const S=(j,mm,e,b)=>new a.CS.state.K(j,mm,e,b);
  const prog0=()=>m.ES(DSet.from([]),DSet.from([]));
  const keepJ=(s,n)=>eq(s._journal,n._journal),keepM=(s,n)=>eqCM(s._mapadt,n._mapadt),keepB=(s,n)=>s._superblock_in_flight===n._superblock_in_flight;
  const eqE=(x,y)=>x.$cn===y.$cn&&(x.$cn==='Unknown'||h.eqSt(x._v._stamped_map,y._v._stamped_map));
  const eqCM=(x,y)=>h.eqSt(x._persistent,y._persistent)&&eqE(x._ephemeral,y._ephemeral)&&a.oeq(x._in_flight,y._in_flight,h.eqSt);
  const rm=(s,x)=>DSet.from([...s].filter(y=>!eq(x,y))),add=(s,x)=>DSet.from([...s,x]);
  function step(s,n,L0,st){
    const l=L0._ctam_label,e=s._ephemeral,k=isN(e)?null:e._0;const pg=k&&k._progress;const E=x=>eq(n._ephemeral,x===null?None:Some(x));
    const J=q=>a.cjnext(s._journal,n._journal,q),M=q=>a.cmnext(s._mapadt,n._mapadt,q);
    const op=l.$cn==='OperateOp'?l._base_op:null;
    switch(st){
      case 'load_ephemeral_from_persistent':{if(l.$cn!=='Noop'||isN(n._ephemeral))return false;if(!n._ephemeral._0)return null;const x=n._ephemeral._0._map_lsn;return a.and(keepB(s,n),E(KN(prog0(),DMap.of([]),x)),()=>J(CJL.LoadEphemeralFromPersistentLabel),()=>M(CML.LoadEphemeralFromPersistentLabel(x)));}
      case 'recover':{if(l.$cn!=='Noop'||!k||isN(n._ephemeral)||!n._ephemeral._0)return false;const j=s._journal._ephemeral;if(j.$cn!=='Known')return false;const mp=s._mapadt._ephemeral;if(mp.$cn!=='Known')return false;const jj=j._v._journal,x=mp._v._stamped_map._seq_end,y=n._ephemeral._0._map_lsn;
        if(!h.wf(jj))return null;if(!(jj._seq_start<=x&&x<=y&&y<=jj._seq_end))return false;const r=h.slice(jj,x,y);return a.and(keepB(s,n),E(KN(pg,k._sync_reqs,y)),()=>J(CJL.ReadForRecoveryLabel(r)),()=>M(CML.PutRecordsLabel(r)));}
      case 'accept_request':return !!k&&!!op&&op.$cn==='RequestOp'&&!pg._requests.has(op._req)&&keepJ(s,n)&&keepM(s,n)&&keepB(s,n)&&E(KN(m.ES(add(pg._requests,op._req),pg._replies),k._sync_reqs,k._map_lsn));
      case 'query':case 'put':{if(!k||!op||op.$cn!=='ExecuteOp')return false;const {_req:r,_reply:y}=op;if(!pg._requests.has(r)||!eq(r._id,y._id)||pg._replies.has(y))return false;const pg2=m.ES(rm(pg._requests,r),add(pg._replies,y));
        if(st==='query')return r._input.$cn==='QueryInput'&&y._output.$cn==='QueryOutput'&&a.and(keepB(s,n),E(KN(pg2,k._sync_reqs,k._map_lsn)),()=>J(CJL.QueryEndLsnLabel(k._map_lsn)),()=>M(CML.QueryLabel(k._map_lsn,r._input._key,y._output._value)));
        if(r._input.$cn!=='PutInput'||y._output.$cn!=='PutOutput')return false;const rec=h.mk(k._map_lsn,[h.KM(r._input._key,w.Msg.Define(r._input._value))]);
        return a.and(keepB(s,n),E(KN(pg2,k._sync_reqs,k._map_lsn+1)),()=>J(CJL.PutLabel(rec)),()=>M(CML.PutRecordsLabel(rec)));}
      case 'deliver_reply':return !!k&&!!op&&op.$cn==='ReplyOp'&&pg._replies.has(op._reply)&&keepJ(s,n)&&keepM(s,n)&&keepB(s,n)&&E(KN(m.ES(pg._requests,rm(pg._replies,op._reply)),k._sync_reqs,k._map_lsn));
      case 'journal_internal':return !!k&&l.$cn==='Noop'&&a.and(keepM(s,n),keepB(s,n),E(k),()=>J(CJL.InternalLabel));
      case 'map_internal':return !!k&&l.$cn==='Noop'&&a.and(keepJ(s,n),keepB(s,n),E(k),()=>M(CML.InternalLabel));
      case 'req_sync':return !!k&&l.$cn==='ReqSyncOp'&&!k._sync_reqs.has(l._sync_req_id)&&a.and(keepM(s,n),keepB(s,n),E(KN(pg,k._sync_reqs.set(l._sync_req_id,k._map_lsn),k._map_lsn)),()=>J(CJL.QueryEndLsnLabel(k._map_lsn)));
      case 'reply_sync':return !!k&&l.$cn==='ReplySyncOp'&&k._sync_reqs.has(l._sync_req_id)&&a.and(keepM(s,n),keepB(s,n),E(KN(pg,DMap.of([...k._sync_reqs].filter(x=>x!==l._sync_req_id).map(x=>[x,k._sync_reqs.get(x)])),k._map_lsn)),()=>J(CJL.QueryLsnPersistenceLabel(k._sync_reqs.get(l._sync_req_id))));
      case 'superblock_write_lands':return l.$cn==='SyncOp'&&s._superblock_in_flight&&!n._superblock_in_flight&&keepJ(s,n)&&keepM(s,n)&&eq(s._ephemeral,n._ephemeral);
      case 'commit_complete':return l.$cn==='Noop'&&!s._superblock_in_flight&&!!k&&a.and(keepB(s,n),E(k),()=>J(CJL.CommitCompleteLabel(k._map_lsn)),()=>M(CML.CommitCompleteLabel));
      case 'crash':{if(l.$cn!=='CrashOp'||!isN(n._ephemeral)||n._superblock_in_flight)return false;const kp=!isN(s._journal._in_flight)&&!s._superblock_in_flight;return a.and(()=>J(CJL.CrashLabel(kp)),()=>M(CML.CrashLabel(kp)));}
    }
    return null;
  }
  const params=(mm,tr,p,pre,post,l)=>{
    if(mm!=='CoordinationSystem')return a.params(mm,tr,p,pre,post,l)||((mm==='CrashTolerantAsyncMap'||mm==='AsyncMap')?null:null);
    if(p==='new_journal')return [post._journal];if(p==='new_mapadt')return [post._mapadt];if(p==='map_lsn')return isN(post._ephemeral)?[]:[post._ephemeral._0._map_lsn];
    if(p==='records'){const j=pre._journal._ephemeral,mp=pre._mapadt._ephemeral;if(j.$cn!=='Known'||mp.$cn!=='Known'||isN(post._ephemeral))return [];const jj=j._v._journal,x=mp._v._stamped_map._seq_end,y=post._ephemeral._0._map_lsn;return h.wf(jj)&&jj._seq_start<=x&&x<=y&&y<=jj._seq_end?[h.slice(jj,x,y)]:[];}
    if(p==='new_boundary_lsn')return isN(pre._mapadt._in_flight)?[]:[pre._mapadt._in_flight._0._seq_end];
    return null;
  };
  const upParams=l=>(mm,tr,p,pre,post,x)=>p==='map_label'?(l.$cn==='OperateOp'&&l._base_op.$cn==='ExecuteOp'?m.mlabels(l._base_op._req._input,l._base_op._reply._output):[]):mm==='CrashTolerantAsyncMap'&&p==='new_stable_index'?[post._versions._start]:null;
  return {a,m,h,KN,mkL,S,step,params,upParams,prog0,FS,eqCM};
}
function system({REPO}){
  const w=base(REPO,DIRS);const y=sys(w),{a,m,h,KN,mkL,S}=y,{CJL,CML,JE,ME}=a,CL=m.CL;const CS=a.CS;
  const args=(s,n,name)=>{switch(name){case 'load_ephemeral_from_persistent':return isN(n._ephemeral)?null:[n._journal,n._mapadt,n._ephemeral._0._map_lsn];case 'recover':{const r=y.params('CoordinationSystem',name,'records',s,n);return r.length?[n._journal,n._mapadt,r[0]]:null;}
    case 'query':case 'put':case 'crash':return [n._journal,n._mapadt];case 'commit_complete':return [n._mapadt,n._journal];case 'journal_internal':case 'req_sync':case 'reply_sync':return [n._journal];case 'map_internal':return [n._mapadt];}return [];};
  // argument order follows the declaration
  const order=(name,s,n)=>{const x=CS.trans.get(name);if(!x)return null;const r=[];for(const p of x.args){const c=y.params('CoordinationSystem',name,p.n,s,n);if(!c||!c.length)return null;r.push(c[0]);}return r;};
  const run=(s,n,l,st)=>{const g=order(st.$cn,s,n);if(!g)return false;w.setParams(y.params);return guard(()=>CS.by(s,n,l,a.st(CS,st.$cn,...g)));};
  const init=()=>S(a.cj(h.mk(0,[]),JE.Unknown,None),a.cm(h.St(w.emptyMap(),0),ME.Unknown,None),None,false);
  const versions=s=>{ // what the user may observe: every version from the stable one to the newest
    const jn=s._journal,mp=s._mapadt;const known=!isN(s._ephemeral);const landed=known&&!isN(jn._in_flight)&&!s._superblock_in_flight;
    const bm=landed?mp._in_flight._0:mp._persistent,stable=landed?jn._in_flight._0._seq_end:jn._persistent._seq_end;const j=known?jn._ephemeral._v._journal:jn._persistent;
    const r=[];for(let x=stable;x<=j._seq_end;x++)r.push(h.play(bm,h.slice(j,bm._seq_end,x))._value);return [stable,r];};
  const okE=x=>isN(x)||x.$cn==='Some'&&!!x._0&&!!x._0._progress;
  return machine({setup(){w.setup(NATU);},len:30,init,valid:x=>okE(x._ephemeral),runInit:s=>{w.setParams((mm,tr,p,pre,post)=>mm==='CoordinationSystem'&&p==='state'?[s]:a.params(mm,tr,p,pre,post));return guard(()=>w.P.C[CS.state.members.get('init').i](s));},isInit:s=>{const i=init();return eq(s._journal,i._journal)&&y.eqCM(s._mapadt,i._mapadt)&&isN(s._ephemeral)&&!s._superblock_in_flight;},
    seedPool(pool){seedMsgs(pool,w,h);for(let i=0;i<4;i++)for(const p of ['Request_id','Reply_id','ReqSyncOp_sync_req_id','ReplySyncOp_sync_req_id','Known_sync_reqsk'])pool.add(p,i);for(let i=0;i<8;i++)pool.add('Known_sync_reqsv',i),pool.add('Known_map_lsn',i);for(const x of [CL.Noop,CL.SyncOp,CL.CrashOp])pool.add('Label_ctam_label',x);pool.add('State_in_flight',None);pool.add('State_ephemeral',None);pool.add('State_superblock_in_flight',true);pool.add('State_superblock_in_flight',false);},
    next(t,s){
      const jn=s._journal,mp=s._mapadt,U2=o=>upd(s,o),go=(n,l,name)=>({n,l:mkL(l),step:mark(name)});
      if(t.below(16)===0){const kp=!isN(jn._in_flight)&&!s._superblock_in_flight;return go(S(a.cj(kp?jn._in_flight._0:jn._persistent,JE.Unknown,None),a.cm(kp?mp._in_flight._0:mp._persistent,ME.Unknown,None),None,false),CL.CrashOp,'crash');}
      if(s._superblock_in_flight&&t.below(4)===0)return go(U2({superblock_in_flight:false}),CL.SyncOp,'superblock_write_lands');
      if(isN(s._ephemeral))return go(S(upd(jn,{ephemeral:JE.Known(a.aj(jn._persistent))}),upd(mp,{ephemeral:ME.Known(a.am(mp._persistent))}),Some(KN(y.prog0(),DMap.of([]),mp._persistent._seq_end)),s._superblock_in_flight),CL.Noop,'load_ephemeral_from_persistent');
      const k=s._ephemeral._0,pg=k._progress,rq=[...pg._requests],rp=[...pg._replies],j=jn._ephemeral._v._journal,mm=mp._ephemeral._v._stamped_map,E=o=>Some(upd(k,o)),PG=(x,z)=>m.ES(DSet.from(x),DSet.from(z));
      const c=t.below(20),caught=k._map_lsn===j._seq_end;
      if(!caught&&c<12){const x=k._map_lsn+1+t.below(j._seq_end-k._map_lsn),r=h.slice(j,mm._seq_end,x);return go(U2({mapadt:upd(mp,{ephemeral:ME.Known(a.am(h.play(mm,r)))}),ephemeral:E({map_lsn:x})}),CL.Noop,'recover');}
      if(c<6&&rq.length&&caught){const r=t.pick(rq),i=r._input;
        if(i.$cn==='QueryInput'){const o=m.Rep(m.Out.QueryOutput(mm._value._0.get(i._key)._value),r._id);if(!rp.some(z=>eq(z,o)))return go(U2({ephemeral:E({progress:PG(rq.filter(z=>z!==r),[...rp,o])})}),CL.OperateOp(m.AL.ExecuteOp(r,o)),'query');}
        if(i.$cn==='PutInput'){const o=m.Rep(m.Out.PutOutput,r._id),rec=h.mk(k._map_lsn,[h.KM(i._key,w.Msg.Define(i._value))]);if(!rp.some(z=>eq(z,o)))return go(S(upd(jn,{ephemeral:JE.Known(a.aj(h.cat(j,rec)))}),upd(mp,{ephemeral:ME.Known(a.am(h.play(mm,rec)))}),E({map_lsn:k._map_lsn+1,progress:PG(rq.filter(z=>z!==r),[...rp,o])}),s._superblock_in_flight),CL.OperateOp(m.AL.ExecuteOp(r,o)),'put');}}
      if(c===6&&rp.length){const o=t.pick(rp);return go(U2({ephemeral:E({progress:PG(rq,rp.filter(z=>z!==o))})}),CL.OperateOp(m.AL.ReplyOp(o)),'deliver_reply');}
      if(c===7&&caught){const id=t.below(4);if(!k._sync_reqs.has(id))return go(U2({ephemeral:E({sync_reqs:k._sync_reqs.set(id,k._map_lsn)})}),CL.ReqSyncOp(id),'req_sync');}
      if(c===8){const ids=[...k._sync_reqs].filter(i=>k._sync_reqs.get(i)<=jn._persistent._seq_end);if(ids.length){const id=t.pick(ids);return go(U2({ephemeral:E({sync_reqs:DMap.of([...k._sync_reqs].filter(x=>x!==id).map(x=>[x,k._sync_reqs.get(x)]))})}),CL.ReplySyncOp(id),'reply_sync');}}
      if((c===9||c===10)&&isN(mp._in_flight))return go(U2({mapadt:upd(mp,{in_flight:Some(mm)})}),CL.Noop,'map_internal');
      if(c<=13&&!isN(mp._in_flight)&&isN(jn._in_flight)&&mp._in_flight._0._seq_end<=j._seq_end&&mp._in_flight._0._seq_end>=j._seq_start&&jn._persistent._seq_end<=j._seq_end){ // a commit starts: the journal freezes its image and the superblock write is issued
        const b=mp._in_flight._0._seq_end,lo=Math.max(b,jn._persistent._seq_end),e=lo+t.below(j._seq_end-lo+1),nj=upd(jn,{in_flight:Some(h.slice(j,b,e))});
        return {n:U2({journal:nj,superblock_in_flight:true}),l:mkL(CL.Noop),step:mark('commit_start'),commit:true};}
      if(c<=16&&!isN(jn._in_flight)&&!s._superblock_in_flight&&caught){const z=jn._in_flight._0;return go(S(a.cj(z,JE.Known(a.aj(h.slice(j,z._seq_start,j._seq_end))),None),a.cm(mp._in_flight._0,mp._ephemeral,None),s._ephemeral,false),CL.Noop,'commit_complete');}
      if(c===17)return go(s,CL.Noop,t.bool()?'journal_internal':'map_internal');
      const r=m.Req(m.input(t),t.below(4));if(r._input.$cn==='NoopInput'||rq.some(z=>eq(z,r)))return go(s,CL.Noop,'journal_internal');
      return go(U2({ephemeral:E({progress:PG([...rq,r],rp)})}),CL.OperateOp(m.AL.RequestOp(r)),'accept_request');},
    ref(s,n,l,st){if(st.$cn==='commit_start'){const z=n._journal._in_flight;return !isN(z)&&a.cjstep(s._journal,n._journal,CJL.CommitStartLabel(z._0._seq_start,s._ephemeral._0._map_lsn),'commit_start')===true&&a.cmstep(s._mapadt,n._mapadt,CML.CommitStartLabel(z._0._seq_start),'commit_start')===true?(commitDead=true,true):null;}return y.step(s,n,l,st.$cn);},
    run(s,n,l,st){
      if(st.$cn!=='commit_start')return run(s,n,l,st);
      w.setParams(y.params);return guard(()=>a.CJ.next(s._journal,n._journal,CJL.CommitStartLabel(n._journal._in_flight._0._seq_start,s._ephemeral._0._map_lsn)))&&guard(()=>a.CM.next(s._mapadt,n._mapadt,CML.CommitStartLabel(n._journal._in_flight._0._seq_start)));},
    perturbs:3,
    inv:s=>{try{return s.m_inv();}catch(e){if(e instanceof V.DafnyFail)return false;throw e;}},
    after(s,n,l,st,t){
      // interpretation: the versions the user can observe, and refinement of the crash-tolerant map
      const [st0,vs]=versions(n);const i=n.m_i(),iv=i._versions;
      check(iv._start===st0&&iv._entries.length===vs.length&&iv._entries.every((x,q)=>w.eqM(x._appv._kmmap,vs[q])),()=>`interpretation after ${st.$cn}: stable index ${iv._start} with ${iv._entries.length} versions, expected ${st0} with ${vs.length}`);
      check(eq(i._async_ephemeral,isN(n._ephemeral)?y.prog0():n._ephemeral._0._progress)&&eq(i._sync_requests,isN(n._ephemeral)?DMap.of([]):n._ephemeral._0._sync_reqs),'interpretation of requests and syncs');
      w.setParams(y.upParams(l._ctam_label));check(guard(()=>m.C.next(s.m_i(),i,l._ctam_label)),()=>`${st.$cn} does not refine a step of the crash-tolerant map`);}});
}
let commitDead=false;
// the coordination system's own commit step
function commit({REPO}){
  const w=base(REPO,DIRS);const y=sys(w),{a,m,h,KN,mkL,S}=y,{JE,ME}=a;
  return (t,c)=>{
    w.setup(NATU);const n=t.size(1,5),p=t.below(n),j=h.mk(0,[...Array(n)].map(()=>h.put(t)));const z=h.St(w.emptyMap(),0),mp=h.play(z,h.slice(j,0,n));const pj=h.slice(j,0,p);
    const s=S(a.cj(pj,JE.Known(a.aj(j)),None),a.cm(z,ME.Known(a.am(mp)),Some(mp)),Some(KN(y.prog0(),DMap.of([]),n)),false);
    c.nontrivial();c.sample(`${n} records, ${p} persistent`);c.log(()=>$.show(s));
    check(s.m_inv()===true,'harness: the state violates the invariant');
    const x=a.CS.trans.get('commit_start');if(!x)discard();
    // some transition labelled Noop must begin the commit: the journal's image and the superblock write in flight
    const post=upd(s,{journal:upd(s._journal,{in_flight:Some(h.slice(j,n,n))}),superblock_in_flight:true});
    w.setParams((mm,tr,q,pre,po,l)=>mm==='CoordinationSystem'&&q==='new_boundary_lsn'?[n]:y.params(mm,tr,q,pre,po,l));
    check(guard(()=>a.CS.next(s,post,mkL(m.CL.Noop))),'no step of the coordination system begins a commit (commit_start demands that the journal does not change)');
  };
}
const LFILES=/^abstract_system::(MsgHistory_v|StampedMap_v|AbstractCrashAwareSystemRefinement_v)|^spec::/;
module.exports={hist,abs,sys,NATU,isN,mark,LFILES,props:{V02:{rule:'a case counts when it has at least two transitions, or a history of at least two records',quick:70,thorough:600,
  parts:{histories,journal,map,crashJournal,crashMap,system:{make:system,weight:3},commit:{make:commit,weight:0.2}},assumptions:['seven keys and sequence numbers below forty','the commit step of the coordination system, which its text makes impossible (known finding), is taken as its two components describe it']}}};
