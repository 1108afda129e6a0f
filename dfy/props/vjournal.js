'use strict';
// V03: the journal layers of Splinter below the abstract journal: paged, linked, with reference counts ("likes"), with allocation, and their
// crash-tolerant versions. One independent model (a boundary, a disk of records, a root, a tail) drives all of them.
const L=require('../vlib.js');const {V,$,check,DMap,DSet,load,ty,fn,eq,Some,None,init}=L;const {perturb,Pool}=require('../sm.js');
const {base}=require('./vspec.js');const {hist}=require('./vabs.js');
const DIRS=['spec','abstract_system','journal','disk','allocation_layer'];
const PAGES=3,AUS=9,MAXL=26;
const nonneg=v=>{let ok=true;const go=(x,d)=>{if(!ok||d>14)return;if(typeof x==='number'){if(x<0)ok=false;return;}if(!x||typeof x!=='object')return;if(x instanceof DMap){for(const k of x){go(k,d+1);go(x.get(k),d+1);}return;}if(x instanceof DSet||Array.isArray(x)){for(const k of x)go(k,d+1);return;}for(const f of x.$f||Object.keys(x))if(f[0]==='_')go(x[f],d+1);};go(v,0);return ok;};
const isN=o=>o.$cn==='None';
class Bad extends Error{}
const bad=m=>{throw new Bad(m);};
const soft=f=>{try{return f();}catch(e){if(e instanceof V.DafnyFail||e instanceof V.Unsup||e instanceof TypeError||e instanceof RangeError)return undefined;throw e;}};
function world(REPO,dirs=DIRS,over={}){
  const w=base(REPO,dirs,{overrides:{...over,'spec::AsyncDisk_t::page_count':()=>PAGES,'spec::AsyncDisk_t::au_count':()=>AUS}});const P=w.P,h=hist(w);
  const Addr=ty(P,'spec::AsyncDisk_t::Address');const JP='journal::PagedJournal_v::',JL='journal::LinkedJournal_v::',A='allocation_layer::';
  const ADDRS=[];for(let a=0;a<AUS;a++)for(let p=0;p<PAGES;p++)ADDRS.push(Addr(a,p));
  const adr=(a,p)=>ADDRS[a*PAGES+p];const ak=a=>a._au+'/'+a._page;
  Object.assign(w,{h,Addr,ADDRS,adr,ak,
    PRec:ty(P,JP+'JournalRecord'),PTJ:ty(P,JP+'TruncatedJournal'),LRec:ty(P,JL+'JournalRecord'),DV:ty(P,JL+'DiskView'),LTJ:ty(P,JL+'TruncatedJournal'),
    M:n=>P.machines.get(n),lab:(n,q)=>ty(P,q+'::'+n+'::Label'),st:n=>(...a)=>new (P.machines.get(n).state.K)(...a)});
  w.play=[];// disk views in play (candidates for rankings)
  const ranks=()=>w.play.map(e=>DMap.of([...e].map(a=>[a,e.get(a)._message_seq._seq_end])));
  w.lsns=[...Array(64).keys()];
  w.ready=()=>{V.S.arbitrary=V.arb=()=>0;w.play=[];w.top=6;w.setup(u=>{
    if(!u)return null;const n=u.ty&&u.ty.n,m=u.name||'';if(w.more){const r=w.more(u,n,m);if(r)return r;}
    if(n==='Ranking'||/ranking/.test(m))return ranks();
    if(n==='Address'||/^a(ddr|lo|hi)/.test(m)){if(/Allocator/.test(u.fn||''))return ADDRS;const s=new Map();for(const e of w.play)for(const a of e)s.set(ak(a),a);return [...s.values()];}
    if(n==='Pointer')return [None,...ADDRS.map(Some)];
    if(n==='AU'||n==='IAU'||m==='au')return [...Array(AUS).keys()];
    if(n==='LSN'||n==='nat'||n==='int'||/lsn|depth|cut/.test(m)||m==='k'||m==='x')return w.lsns.slice(0,w.top+3);
    if(n==='DiskView'||n==='TruncatedJournal')return [];
    return null;});};
  w.see=v=>{const go=(v,d)=>{if(!v||typeof v!=='object'||d>8)return;if(v instanceof V.DT){if(typeof v._seq_end==='number'&&v._seq_end<60&&v._seq_end>w.top)w.top=v._seq_end;if(v._msgs instanceof DMap)for(const k of v._msgs)if(k>=w.top&&k<60)w.top=k+1;if(v._entries instanceof DMap&&[...v._entries].every(a=>v._entries.get(a)._message_seq)){w.play.push(v._entries);for(const a of v._entries)go(v._entries.get(a),d+1);return;}for(const f of v.$f||Object.keys(v))if(f[0]==='_')go(v[f],d+1);}};go(v,0);};
  w.only=(...x)=>{w.play=[];w.top=4;for(const y of x)w.see(y);};
  // ---------------------------------------------------------------- independent reading of code values
  const mh=x=>{if(!h.wf(x))bad('malformed messages');return x;};
  w.readPaged=tj=>{ // history held by a paged journal
    let r=tj._freshest_rec,b=tj._boundary_lsn;if(isN(r))return h.mk(b,[]);const parts=[];r=r._0;if(!(b<r._message_seq._seq_end))bad('newest record below the boundary');
    for(;;){mh(r._message_seq);parts.unshift(r._message_seq);if(r._message_seq._seq_start<=b)break;const p=r._prior_rec;if(isN(p))bad('missing record');if(p._0._message_seq._seq_end!==r._message_seq._seq_start)bad('gap');r=p._0;}
    const all=parts.reduce((a,x)=>h.cat(a,x));return h.slice(all,b,all._seq_end);};
  w.chain=(entries,root,b)=>{const c=[];let p=root,n=0;while(!isN(p)){if(n++>60)bad('cycle');if(!entries.has(p._0))bad('dangling pointer');const r=entries.get(p._0);mh(r._message_seq);if(r._message_seq._seq_start>=r._message_seq._seq_end)bad('empty record');
      if(c.length&&r._message_seq._seq_end!==c[0][1]._message_seq._seq_start)bad('gap');c.unshift([p._0,r]);if(r._message_seq._seq_start<=b)break;p=r._prior_rec;if(isN(p))bad('missing record');}return c;};
  w.readLinked=tj=>{const b=tj._disk_view._boundary_lsn,c=w.chain(tj._disk_view._entries,tj._freshest_rec,b);if(!c.length)return h.mk(b,[]);const all=c.map(x=>x[1]._message_seq).reduce((a,x)=>h.cat(a,x));if(!(b<all._seq_end))bad('newest record below the boundary');return h.slice(all,b,all._seq_end);};
  w.dvOk=dv=>{const b=dv._boundary_lsn,e=dv._entries;for(const a of e){const r=e.get(a),m=r._message_seq;if(!h.wf(m)||m._seq_start>=m._seq_end)return false;if(m._seq_start<=b)continue;if(isN(r._prior_rec)||!e.has(r._prior_rec._0))return false;if(e.get(r._prior_rec._0)._message_seq._seq_end!==m._seq_start)return false;}return true;};
  w.readAny=tj=>tj._disk_view?w.readLinked(tj):w.readPaged(tj);
  w.H=s=>{const a=w.readAny(s._truncated_journal);mh(s._unmarshalled_tail);if(s._unmarshalled_tail._seq_start!==a._seq_end)bad('tail does not follow');return h.cat(a,s._unmarshalled_tail);};
  w.tryH=s=>{try{return w.H(s);}catch(e){if(e instanceof Bad)return null;throw e;}};
  w.tryR=tj=>{try{return w.readAny(tj);}catch(e){if(e instanceof Bad)return null;throw e;}};
  return w;
}
// ---------------------------------------------------------------- the model
// {b, disk: Map(ak -> {a,s,ms,prior}), root: ak|null, tail: [ms], free?}
function mod(w){
  const {h}=w;const S={};
  S.end=m=>m.root===null?m.b:(r=>r.s+r.ms.length)(m.disk.get(m.root));
  S.tend=m=>S.end(m)+m.tail.length;
  S.chain=(m,root=m.root,b=m.b)=>{const c=[];let p=root;while(p!==null){const r=m.disk.get(p);c.unshift(r);if(r.s<=b)break;p=r.prior;}return c;};
  S.hist=m=>{const all=S.chain(m).flatMap(r=>r.ms.map((x,i)=>[r.s+i,x])).filter(x=>x[0]>=m.b).map(x=>x[1]);return [...all,...m.tail];};
  S.upd=(m,o)=>Object.assign({},m,o);
  S.put=(m,ms)=>S.upd(m,{tail:[...m.tail,...ms]});
  S.marshal=(m,cut,a)=>{const n=cut-S.end(m),d=new Map(m.disk);d.set(w.ak(a),{a,s:S.end(m),ms:m.tail.slice(0,n),prior:m.root});return S.upd(m,{disk:d,root:w.ak(a),tail:m.tail.slice(n)});};
  // entries that must stay: closed under prior links that the new boundary keeps
  S.closed=(m,b,keep)=>{const k=new Set();const go=x=>{if(x===null||k.has(x))return;k.add(x);const r=m.disk.get(x);if(r.s>b)go(r.prior);};for(const x of keep)go(x);return k;};
  S.canClose=(m,b)=>[...m.disk.keys()].filter(x=>{let p=x,n=0;for(;;){if(p===null||!m.disk.has(p)||n++>60)return false;const r=m.disk.get(p);if(r.s<=b)return true;p=r.prior;}});
  S.cut=(m,b,root,keep)=>{const d=new Map([...m.disk].filter(x=>keep.has(x[0])));return S.upd(m,{b,root,disk:d});};
  // values
  S.entries=m=>DMap.of([...m.disk.values()].map(r=>[r.a,w.LRec(h.mk(r.s,r.ms),r.prior===null?None:Some(key2a(r.prior)))]));
  const key2a=k=>{const [a,p]=k.split('/').map(Number);return w.adr(a,p);};S.key2a=key2a;S.ptr=k=>k===null?None:Some(key2a(k));
  S.ltj=m=>w.LTJ(S.ptr(m.root),w.DV(m.b,S.entries(m)));
  S.ptj=m=>w.PTJ(m.b,S.chain(m).reduce((p,r)=>Some(w.PRec(h.mk(r.s,r.ms),p)),None));
  S.tail=m=>h.mk(S.end(m),m.tail);
  return S;
}
/* one machine: o={name, lab, build(m)->state, read(state)->history|null, ops(t,m)->{name,args,m2,kind,...}, ok(state): independent well-formedness} */
function drive(w,o){
  const {h}=w;const M=w.M(o.name);
  const app=(name,s,a)=>{w.only(s,...a);try{return M.apply(name,s,...a);}catch(e){if(e instanceof V.DafnyFail)return null;throw e;}};
  return (t,c)=>{
    w.ready();const pool=new Pool();let m=o.init(t),s=o.build(m),k=0;const past=[];const len=t.size(2,o.len||16);
    for(const a of w.ADDRS.slice(0,12)){pool.add('Some_0',a);}
    for(let i=0;i<6;i++)for(const p of ['LSN','MsgHistory_seq_start','MsgHistory_seq_end'])pool.add(p,i);
    const judge=(name,pre,a,post)=>{ // effect of an accepted step on the history; pre is a good state
      const lbl=a[0],H0=o.H(pre),H1=o.H(post);const d=()=>`${o.name}.${name} from ${show(pre)} with ${show(a)}`;
      check(H1!==null,()=>`${d()} leaves an unreadable journal ${show(post)}`);
      const r=o.rel(lbl,H0,H1,pre,post,name,a);check(r!==false,()=>`${d()} is accepted and leads to ${show(post)}`);
      if(o.ok)check(o.ok(post)===null,()=>`${d()} leads to ${show(post)}: ${o.ok(post)}`);
    };
    const invOk=(x,why)=>{w.only(x);let r;try{r=x.m_inv?x.m_inv():x.m_wf();}catch(e){if(e instanceof V.DafnyFail)r=e.message;else throw e;}check(r===true,()=>`the invariant of ${o.name} ${r} ${why}: ${show(x)}`);};
    invOk(s,'initially');
    for(let i=0;i<len;i++){
      const op=o.op(t,m);if(!op)continue;k++;c.label(op.name);c.log(()=>op.name+' '+show(op.args));
      const want=o.build(op.m2);pool.walk(want,'S');op.args.forEach((x,j)=>pool.walk(x,j?'S':'L'));
      const got=app(op.name,s,op.args);
      check(got!==null,()=>`${o.name}.${op.name} from ${show(s)} with ${show(op.args)} is rejected`);
      check(o.same?o.same(got,want):eq(got,want),()=>`${o.name}.${op.name} from ${show(s)} with ${show(op.args)} leads to ${show(got)}, not ${show(want)}`);
      judge(op.name,s,op.args,got);if(op.reads)op.reads(s,op.args,t);
      for(let j=0;j<(o.odd||3);j++){ // perturbed arguments and states
        let a=op.args.slice(),nm=op.name;const z=t.below(a.length);a[z]=perturb(t,a[z],z?'S':'L',pool);if(t.below(3)===0){const y=t.below(a.length);a[y]=perturb(t,a[y],y?'S':'L',pool);}
        const y=t.below(8);if(y===0&&op.alt){const b=op.alt(t);if(b)a=b;}else if(y===1&&past.length){const b=t.pick(past);nm=b[0];a=b[1];}else if(y===2&&past.length)a=[t.pick(past)[1][0],...op.args.slice(1)];
        if(!nonneg(a))continue;let p;try{p=app(nm,s,a);}catch(e){if(e instanceof V.Unsup||e instanceof TypeError||e instanceof RangeError)continue;throw e;}
        if(p===null)continue;if(o.shape&&!o.shape(a))continue;judge(nm,s,a,p);c.label('odd');
      }
      if(o.interp&&t.below(2)){w.only(want);o.interp(t,want,op.m2,w);}
      invOk(want,'after '+op.name);
      if(o.after)o.after(t,c,op,s,want);
      past.push([op.name,op.args]);m=op.m2;s=want;
      if(o.restart&&t.below(10)===0){const r=o.restart(t,m);if(r){m=r.m;s=o.build(m);const g=(()=>{w.only(...r.args);return init(M,'initialize',...r.args);})();check(g!==null,()=>`${o.name}.initialize rejects ${show(r.args)}`);check(o.same?o.same(g,s):eq(g,s),()=>`${o.name}.initialize of ${show(r.args)} gives ${show(g)}, not ${show(s)}`);invOk(s,'initialised');
        if(r.odd){const x=r.odd(t,pool);if(!nonneg(x))continue;w.only(...x);const q=soft(()=>init(M,'initialize',...x));if(q)check(o.H(q)!==null&&(!o.ok||o.ok(q)===null),()=>`${o.name}.initialize accepts ${show(x)}`);}}}
    }
    c.nontrivial(k>=3);c.sample(k+' steps to '+show(s).slice(0,150));
  };
}
const show=x=>$.show(x).slice(0,900);
const msgs=(w,t,n)=>t.list(0,n||4,()=>w.h.km(t));
// what each kind of step may do to the history
function rel(w){const {h}=w;
  return (l,a,b,pre,post)=>{const f=n=>l['_'+n];
    switch(l.$cn){
      case 'ReadForRecovery':return h.wf(f('messages'))&&h.sub(a,f('messages'))&&eq(a,b);
      case 'FreezeForCommit':{const z=w.tryR(f('frozen_journal')._tj||f('frozen_journal'));return z!==null&&h.sub(a,z)&&eq(a,b);}
      case 'QueryEndLsn':return f('end_lsn')===a._seq_end&&eq(a,b);
      case 'Put':return h.wf(f('messages'))&&f('messages')._seq_start===a._seq_end&&eq(b,h.cat(a,f('messages')));
      case 'DiscardOld':return f('require_end')===a._seq_end&&f('start_lsn')>=a._seq_start&&f('start_lsn')<=a._seq_end&&eq(b,h.slice(a,f('start_lsn'),a._seq_end));
      case 'Internal':case 'InternalAllocations':return eq(a,b);
    }return null;};}
function common(w,S,t,m,LB){ // operations shared by the layers; returns null for "choose another"
  const e=S.end(m),te=S.tend(m),k=t.below(10);
  if(k<3&&te<MAXL-4){const ms=msgs(w,t);return {name:'put',lbl:LB.Put(w.h.mk(te,ms)),m2:S.put(m,ms)};}
  if(k===3)return {name:'query_end_lsn',lbl:LB.QueryEndLsn(te),m2:m};
  if(k===4){const c=S.chain(m);if(!c.length)return null;const d=t.below(c.length),r=c[c.length-1-d];const from=Math.max(m.b,r.s);return {name:'read_for_recovery',lbl:LB.ReadForRecovery(w.h.mk(from,r.ms.slice(from-r.s))),depth:d,m2:m};}
  return null;
}
// ---------------------------------------------------------------- layers
function paged({REPO}){
  const w=world(REPO),S=mod(w),St=w.st('PagedJournal'),LB=w.lab('PagedJournal','journal::PagedJournal_v');
  const mkfs=fn(w.P,'journal::PagedJournal_v::mkfs');

  return drive(w,{name:'PagedJournal',init:t=>({b:t.below(3),disk:new Map(),root:null,tail:[]}),build:m=>St(S.ptj(m),S.tail(m)),H:w.tryH,rel:rel(w),
    op(t,m){
      const o=common(w,S,t,m,LB);if(o){o.args=[o.lbl,...(o.depth!==undefined?[o.depth]:[])];return o;}
      const e=S.end(m),te=S.tend(m),k=t.below(5);
      if(k<2&&m.tail.length){const cut=e+1+t.below(m.tail.length);return {name:'internal_journal_marshal',args:[LB.Internal,cut],m2:S.marshal(m,cut,fresh(m))};}
      if(k===2){const z=frz(S,t,m,true);return {name:'freeze_for_commit',args:[LB.FreezeForCommit(S.ptj(z.m)),z.depth],m2:m};}
      if(k===3){const x=m.b+t.below(te-m.b+1);const m2=x>=e?{b:x,disk:new Map(),root:null,tail:m.tail.slice(x-e)}:S.cut(m,x,m.root,S.closed(m,x,[m.root]));return {name:'discard_old',args:[LB.DiscardOld(x,te)],m2};}
      return {name:'internal_no_op',args:[LB.Internal],m2:m};},
    interp(t,s,m){const i=soft(()=>s.m_i());if(i)check(eq(i._journal,w.h.mk(m.b,S.hist(m))),()=>`the view of ${show(s)} as an abstract journal is ${show(i)}`);},
    restart(t,m){if(t.below(4)===0)check(eq(mkfs(),w.PTJ(0,None)),'mkfs of the paged journal');const z=frz(S,t,m,true).m;return {m:z,args:[S.ptj(z)],odd:(t,pool)=>[perturb(t,S.ptj(z),'S',pool)]};},
  });
  function fresh(m){for(let i=0;;i++){const a=w.ADDRS[i%w.ADDRS.length];if(!m.disk.has(w.ak(a)))return a;if(i>w.ADDRS.length)throw new Error('full');}}
}
function frz(S,t,m,tight){ // a version to freeze: crop some newest records, discard some oldest
  const c=S.chain(m);const depth=t.below(c.length+1);let root=m.root;for(let i=0;i<depth;i++){const r=m.disk.get(root);root=r.s>m.b?r.prior:null;}
  const e=root===null?m.b:(r=>r.s+r.ms.length)(m.disk.get(root));const b=m.b+t.below(e-m.b+1);const r2=b===e?null:root;
  const keep=new Set(S.closed(m,b,r2===null?[]:[r2]));
  if(!tight){const can=S.canClose(m,b);const extra=can.filter(()=>t.below(3)===0);for(const x of S.closed(m,b,extra))keep.add(x);}
  return {m:Object.assign(S.cut(m,b,r2,keep),{tail:[]}),depth};
}
function linked({REPO}){
  const w=world(REPO),S=mod(w),St=w.st('LinkedJournal'),LB=w.lab('LinkedJournal','journal::LinkedJournal_v');
  const PR='journal::LinkedJournal_v::';
  setLinkedParams(w);
  const mkfs=fn(w.P,PR+'TruncatedJournal::mkfs');
  return drive(w,{name:'LinkedJournal',init:t=>({b:t.below(3),disk:new Map(),root:null,tail:[]}),build:m=>St(S.ltj(m),S.tail(m)),H:w.tryH,rel:rel(w),
    ok:s=>w.dvOk(s._truncated_journal._disk_view)?null:'the disk is malformed',
    op(t,m){const o=common(w,S,t,m,LB);if(o){o.args=[o.lbl,...(o.depth!==undefined?[o.depth]:[])];return o;}return linkedOp(w,S,t,m,LB);},
    interp(t,s,m){linkedInterp(w,S,t,s,m);},
    restart(t,m){if(t.below(4)===0)check(eq(mkfs(),w.LTJ(None,w.DV(0,new DMap()))),'mkfs of the linked journal');const z=frz(S,t,m,false).m;return {m:z,args:[S.ltj(z)],odd:(t,pool)=>[perturb(t,S.ltj(z),'S',pool)]};},
  });
}
function linkedOp(w,S,t,m,LB){
  const e=S.end(m),te=S.tend(m),k=t.below(5);
  if(k<2&&m.tail.length){const cut=e+1+t.below(m.tail.length);const free=w.ADDRS.filter(a=>!m.disk.has(w.ak(a)));if(!free.length)return null;const a=t.pick(free);return {name:'internal_journal_marshal',args:[LB.Internal,cut,a],m2:S.marshal(m,cut,a)};}
  if(k===2){const z=frz(S,t,m,false);return {name:'freeze_for_commit',args:[LB.FreezeForCommit(S.ltj(z.m)),z.depth],m2:m};}
  if(k===3){const x=m.b+t.below(e-m.b+1);const root=x===e?null:m.root;const keep=new Set(S.closed(m,x,root===null?[]:[root]));for(const y of S.closed(m,x,S.canClose(m,x).filter(()=>t.bool())))keep.add(y);const m2=S.cut(m,x,root,keep);return {name:'discard_old',args:[LB.DiscardOld(x,te),S.ltj(m2)],m2};}
  return {name:'internal_no_op',args:[LB.Internal],m2:m};
}
function linkedInterp(w,S,t,s,m){
  const i=soft(()=>s.m_i());if(i){check(eq(i._truncated_journal,S.ptj(m))&&eq(i._unmarshalled_tail,S.tail(m)),()=>`the view of ${show(s)} as a paged journal is ${show(i)}`);}
  const tj=s._truncated_journal,dv=tj._disk_view;const T=soft(()=>tj.m_build_tight());const c=S.chain(m);
  if(T)check(eq(T._freshest_rec,tj._freshest_rec)&&T._disk_view._boundary_lsn===m.b&&eq(T._disk_view._entries,DMap.of(c.map(r=>[r.a,dv._entries.get(r.a)]))),()=>`build_tight of ${show(tj)} is ${show(T)}`);
  const ix=soft(()=>tj.m_build_lsn_addr_index&&tj.m_build_lsn_addr_index());if(ix)check(eq(ix,index(S,m,r=>r.a)),()=>`build_lsn_addr_index of ${show(tj)} is ${show(ix)}`);
}
const index=(S,m,f)=>DMap.of(S.chain(m).flatMap(r=>r.ms.map((_,i)=>[r.s+i,f(r)])).filter(x=>x[0]>=m.b));
function setLinkedParams(w){
  w.setParams((M,tr,p,pre,post,lbl)=>{
    if(p==='depth')return [0,1,2,3,4,5,6,7,8];
    if(M==='LinkedJournal'&&post){if(p==='new_tj')return [post._truncated_journal];if(p==='cut')return [post._unmarshalled_tail._seq_start];if(p==='addr')return isN(post._truncated_journal._freshest_rec)?[]:[post._truncated_journal._freshest_rec._0];}
    if(M==='AllocationJournal'&&post){if(p==='new_journal'||p==='post_linked_journal')return [post._journal];if(p==='cut')return [post._journal._unmarshalled_tail._seq_start];if(p==='addr')return isN(post._journal._truncated_journal._freshest_rec)?[]:[post._journal._truncated_journal._freshest_rec._0];}
    return null;});
}
function likes({REPO}){
  const w=world(REPO),S=mod(w),SL=w.st('LinkedJournal'),St=w.st('LikesJournal'),LB=w.lab('LikesJournal','allocation_layer::LikesJournal_v');setLinkedParams(w);
  const lj=m=>SL(S.ltj(m),S.tail(m));
  return drive(w,{name:'LikesJournal',init:t=>({b:t.below(3),disk:new Map(),root:null,tail:[]}),build:m=>St(lj(m),index(S,m,r=>r.a)),H:s=>w.tryH(s._journal),rel:rel(w),
    ok:s=>{if(!w.dvOk(s._journal._truncated_journal._disk_view))return 'the disk is malformed';const tj=s._journal._truncated_journal,b=tj._disk_view._boundary_lsn;const want=DMap.of(w.chain(tj._disk_view._entries,tj._freshest_rec,b).flatMap(([a,r])=>[...r._message_seq._msgs].filter(x=>x>=b).map(x=>[x,a])));return eq(want,s._lsn_addr_index)?null:'the index is wrong';},
    op(t,m){const o=common(w,S,t,m,LB)||linkedOp(w,S,t,m,LB);if(!o)return o;if(!o.args)o.args=[o.lbl];
      if(o.name==='put'||o.name==='internal_journal_marshal')o.args.push(lj(o.m2));if(o.name==='discard_old')o.args[1]=lj(o.m2);return o;},
    interp(t,s,m){linkedInterp(w,S,t,s._journal,m);const i=soft(()=>s.m_i());if(i)check(eq(w.tryH(i),w.h.mk(m.b,S.hist(m))),()=>`the view of ${show(s)} as a linked journal is ${show(i)}`);},
    restart(t,m){const z=frz(S,t,m,false).m;return {m:z,args:[S.ltj(z)],odd:(t,pool)=>[perturb(t,S.ltj(z),'S',pool)]};},
  });
}
// ---------------------------------------------------------------- allocation
function alloc(w,S){
  const A='allocation_layer::',JI=ty(w.P,A+'AllocationJournal_v::JournalImage'),PA=ty(w.P,A+'MiniAllocator_v::PageAllocator'),MA=ty(w.P,A+'MiniAllocator_v::MiniAllocator'),SL=w.st('LinkedJournal'),SA=w.st('AllocationJournal'),LB=w.lab('AllocationJournal',A+'AllocationJournal_v');
  const R={JI,LB};
  R.empty=b=>({b,disk:new Map(),root:null,tail:[],first:0,al:new Map(),curr:null});
  R.index=m=>index(S,m,r=>r.a._au);R.aus=m=>new Set(S.chain(m).map(r=>r.a._au));
  R.lj=m=>SL(S.ltj(m),S.tail(m));
  R.ma=m=>MA(DMap.of([...m.al].map(([au,ps])=>{const z=DSet.from([...ps].map(p=>w.adr(au,p)));return [au,PA(z,z,au)];})),m.curr===null?None:Some(m.curr));
  R.build=m=>SA(R.lj(m),R.index(m),m.first,R.ma(m));
  R.image=m=>JI(S.ltj(m),m.first);
  R.set=a=>DSet.from([...a]);
  // keep the records in the units that still hold live messages, but nothing after the root in its unit
  R.trim=(m,b,root,past)=>{const c=root===null?[]:S.chain(m,root,b);const us=new Set(c.map(r=>r.a._au)),ra=root===null?null:S.key2a(root);
    const keep=new Set([...m.disk].filter(([k,r])=>us.has(r.a._au)&&!(past&&ra&&r.a._au===ra._au&&r.a._page>ra._page)).map(x=>x[0]));
    return Object.assign(S.cut(m,b,root,keep),{first:c.length?c[0].a._au:0});};
  R.freeze=(t,m)=>{const c=S.chain(m),depth=t.below(c.length+1);let root=m.root;for(let i=0;i<depth;i++){const r=m.disk.get(root);root=r.s>m.b?r.prior:null;}
    const e=root===null?m.b:(r=>r.s+r.ms.length)(m.disk.get(root)),b=m.b+t.below(e-m.b+1);return {m:Object.assign(R.trim(m,b,b===e?null:root,true),{tail:[],al:new Map(),curr:null}),depth};};
  R.discard=(m,x)=>{const e=S.end(m),dead=new Set(R.aus(m));const z=R.trim(m,x,x===e?null:m.root,false);for(const a of R.aus(z))dead.delete(a);z.al=new Map([...m.al].filter(y=>!dead.has(y[0])));if(z.curr!==null&&dead.has(z.curr))z.curr=null;return {m:z,dead};};
  R.next=(t,m)=>{if(m.curr!==null){const r=S.key2a(m.root);return w.adr(r._au,r._page+1);}const f=[...m.al].filter(x=>!x[1].size);return f.length?w.adr(t.pick(f)[0],0):null;};
  R.marshal=(m,cut,a)=>{const z=S.marshal(m,cut,a);z.al=new Map(m.al);const ps=new Set(m.al.get(a._au));ps.add(a._page);z.al.set(a._au,ps);z.curr=ps.size===PAGES?null:a._au;z.first=m.root===null?a._au:m.first;return z;};
  // an internal step of the allocating journal: {allocs,deallocs,args of the transition, m2}
  R.internal=(t,m,avoid=new Set())=>{
    const k=t.below(6),e=S.end(m),E=new DSet();
    if(k<3&&m.tail.length){const a=R.next(t,m);if(a){const cut=e+1+t.below(m.tail.length),m2=R.marshal(m,cut,a);return {name:'internal_journal_marshal',allocs:E,deallocs:E,extra:[cut,a,R.lj(m2)],m2};}}
    if(k<5){const used=R.aus(m);const free=[...Array(AUS).keys()].filter(a=>!m.al.has(a)&&!used.has(a)&&!avoid.has(a));const z=free.filter(()=>t.below(3)===0).slice(0,2);return {name:'internal_mini_allocator_fill',allocs:R.set(z),deallocs:E,extra:[],m2:S.upd(m,{al:new Map([...m.al,...z.map(a=>[a,new Set()])])})};}
    if(t.bool()){const z=[...m.al].filter(x=>!x[1].size&&t.bool()).map(x=>x[0]);return {name:'internal_mini_allocator_prune',allocs:E,deallocs:R.set(z),extra:[],m2:S.upd(m,{al:new Map([...m.al].filter(x=>!z.includes(x[0])))})};}
    return {name:'internal_no_op',allocs:E,deallocs:E,extra:[],m2:m};};
  // independent well-formedness of a code value
  R.chainOf=s=>{const tj=s._journal?s._journal._truncated_journal:s._tj;return w.chain(tj._disk_view._entries,tj._freshest_rec,tj._disk_view._boundary_lsn);};
  R.live=s=>new Set(R.chainOf(s).map(x=>x[0]._au));
  R.ok=s=>{const tj=s._journal._truncated_journal,b=tj._disk_view._boundary_lsn;if(!w.dvOk(tj._disk_view))return 'the disk is malformed';const c=R.chainOf(s);
    const want=DMap.of(c.flatMap(([a,r])=>[...r._message_seq._msgs].filter(x=>x>=b).map(x=>[x,a._au])));if(!eq(want,s._lsn_au_index))return 'the index is wrong';
    if(c.length&&c[0][0]._au!==s._first)return 'the first unit is wrong';
    for(const [a] of c)if(!(a._au<AUS&&a._page<PAGES))return 'a record outside the disk';
    const al=s._mini_allocator._allocs;for(const a of tj._disk_view._entries)if(al.has(a._au)){const p=al.get(a._au);if(!p._observed.has(a)&&!p._reserved.has(a))return 'a page in use is free';}
    for(const au of al)if(al.get(au)._au!==au)return 'allocator entry under the wrong unit';
    return null;};
  R.rel=l=>null;
  return R;
}
function allocation({REPO}){
  const w=world(REPO),S=mod(w),R=alloc(w,S),LB=R.LB;setLinkedParams(w);const base=rel(w);
  const E=()=>new DSet();const acc='m_accessible_aus';
  return drive(w,{name:'AllocationJournal',len:26,init:t=>R.empty(t.below(3)),build:R.build,H:s=>w.tryH(s._journal),ok:R.ok,
    rel:(l,a,b,pre,post)=>{const r=base(l,a,b,pre,post);if(r===false)return r;const x=R.live(pre),y=R.live(post);
      if(l.$cn==='DiscardOld'){const d=[...x].filter(z=>!y.has(z));return eq(l._deallocs,R.set(d));}
      if(l.$cn==='InternalAllocations')return [...l._deallocs].every(z=>!y.has(z)&&!post._mini_allocator._allocs.has(z))&&[...l._allocs].every(z=>!x.has(z)&&!pre._mini_allocator._allocs.has(z)&&post._mini_allocator._allocs.has(z));
      if(l.$cn==='FreezeForCommit'){const f=l._frozen_journal,c=w.chain(f._tj._disk_view._entries,f._tj._freshest_rec,f._tj._disk_view._boundary_lsn);return !c.length||c[0][0]._au===f._first;}
      return r;},
    op(t,m){
      const o=common(w,S,t,m,LB);if(o){o.args=[o.lbl];if(o.name==='put')o.args.push(R.lj(o.m2));return o;}
      const k=t.below(8),e=S.end(m),te=S.tend(m);
      if(k===0){const z=R.freeze(t,m);return {name:'freeze_for_commit',args:[LB.FreezeForCommit(R.image(z.m)),z.depth],m2:m};}
      if(k===1){const x=m.b+t.below(e-m.b+1),z=R.discard(m,x);return {name:'discard_old',args:[LB.DiscardOld(x,te,R.set(z.dead)),R.lj(z.m)],m2:z.m};}
      const z=R.internal(t,m);return {name:z.name,args:[LB.InternalAllocations(z.allocs,z.deallocs),...z.extra],m2:z.m2};},
    interp(t,s,m){linkedInterp(w,S,t,s._journal,m);const i=soft(()=>s.m_i());if(i)check(eq(w.tryH(i._journal),w.h.mk(m.b,S.hist(m))),()=>`the view of ${show(s)} as a journal with reference counts is ${show(i)}`);
      const a=s.m_accessible_aus();check(eq(R.set(a),R.set([...R.aus(m),...m.al.keys()])),()=>`accessible units of ${show(s)} are ${show(a)}`);
      const z=R.freeze(t,m).m,im=R.image(z);w.only(im);check(im.m_valid_image()===true,()=>`a frozen journal is not a valid image: ${show(im)}`);check(eq(R.set(im.m_accessible_aus()),R.set([...z.disk.values()].map(r=>r.a._au))),()=>`accessible units of ${show(im)}`);
      const ix=soft(()=>im._tj.m_build_lsn_au_index(z.first));if(ix)check(eq(ix,R.index(z)),()=>`the unit index of ${show(im)} is ${show(ix)}`);
      const pw=soft(()=>im._tj._disk_view.m_build_lsn_au_index_page_walk(im._tj._freshest_rec));if(pw)check(eq(pw,R.index(z)),()=>`the page walk index of ${show(im)} is ${show(pw)}`);},
    restart(t,m){const z=R.freeze(t,m).m;return {m:z,args:[R.lj(z),R.image(z)],odd:(t,pool)=>{const im=perturb(t,R.image(z),'S',pool);return [w.st('LinkedJournal')(im._tj,soft(()=>w.h.mk(im._tj.m_seq_end(),[]))||S.tail(z)),im];}};},
  });
}
// ---------------------------------------------------------------- crash-tolerant versions; o.build(model), o.read(state) -> {p,f,e}: histories (null: unreadable, undefined: absent)
const NOTHING={$none:1};
function crashing(w,S,R,o){
  const {h}=w,LB=o.LB,E=new DSet();const lab=n=>LB[n];
  const M=w.M(o.name);
  const imgAus=im=>new Set([...im.disk.values()].map(r=>r.a._au));
  function op(t,m){
    const L0=n=>typeof LB[n]==='function'?LB[n]():LB[n];
    if(t.below(14)===0){const k=t.bool();const p=k&&m.f?m.f:m.p;return {name:'crash',lbl:LB.Crash(k),m2:o.crash({p,f:null,e:null},m)};}
    if(!m.e){if(t.below(6)===0)return {name:'query_lsn_persistence',lbl:LB.QueryLsnPersistence(t.below(S.end(m.p)+1)),m2:m};const e=Object.assign({},m.p,{tail:[],al:new Map(),curr:null});return {name:'load_ephemeral_from_persistent',lbl:L0('LoadEphemeralFromPersistent'),m2:o.load({p:m.p,f:m.f,e},m)};}
    const e=m.e,te=S.tend(e),up=x=>({p:m.p,f:m.f,e:x});
    const k=t.below(15);
    if(k<4&&te<MAXL-4){const ms=msgs(w,t),x=S.put(e,ms);return {name:'put',lbl:LB.Put(h.mk(te,ms)),m2:up(x)};}
    if(k===4)return {name:'query_end_lsn',lbl:LB.QueryEndLsn(te),m2:m};
    if(k===5){const c=S.chain(e);if(c.length){const d=t.below(c.length),r=c[c.length-1-d],from=Math.max(e.b,r.s);return {name:'read_for_recovery',lbl:LB.ReadForRecovery(h.mk(from,r.ms.slice(from-r.s))),m2:m};}}
    if(k===6)return {name:'query_lsn_persistence',lbl:LB.QueryLsnPersistence(t.below(S.end(m.p)+1)),m2:m};
    if(k<9&&!m.f){for(let i=0;i<4;i++){const z=R.freeze(t,e);if(S.end(z.m)<S.end(m.p))continue;return {name:'commit_start',lbl:LB.CommitStart(z.m.b,z.m.b+t.below(3)),m2:{p:m.p,f:z.m,e},depth:z.depth};}}
    if(k<10&&m.f){const z=R.discard(e,m.f.b);return {name:'commit_complete',lbl:LB.CommitComplete(te,R.set(z.dead)),m2:{p:m.f,f:null,e:z.m},dead:z.dead};}
    const avoid=new Set([...imgAus(m.p),...(m.f?imgAus(m.f):[])]);const z=R.internal(t,e,avoid);return {name:'internal',lbl:LB.Internal(z.allocs,z.deallocs),m2:up(z.m2),allocs:z.allocs};
  }
  return {op(t,m){const x=op(t,m);x.args=[x.lbl,...o.extra(x,m)];
      if(x.name==='internal')x.alt=tt=>{let z;for(let i=0;i<4;i++){z=R.internal(tt,m.e);if(z.name==='internal_mini_allocator_fill')break;}return [LB.Internal(z.allocs,z.deallocs),...o.extra({name:'internal',m2:{p:m.p,f:m.f,e:z.m2}},m)];};
      return x;},
    rel(l,a,b,pre,post,name){ // a,b: {p,f,e}
      const same=(x,y)=>x===y||x!==NOTHING&&y!==NOTHING&&eq(x,y);const kn=x=>x!==NOTHING;const f=n=>l['_'+n];
      const P=()=>same(a.p,b.p),F=()=>same(a.f,b.f),Eq=()=>same(a.e,b.e);
      const res=()=>{switch(l.$cn){
        case 'LoadEphemeralFromPersistent':return !kn(a.e)&&kn(b.e)&&eq(b.e,a.p)&&P()&&F();
        case 'ReadForRecovery':return kn(a.e)&&h.wf(f('records'))&&h.sub(a.e,f('records'))&&P()&&F()&&Eq();
        case 'QueryEndLsn':return kn(a.e)&&f('end_lsn')===a.e._seq_end&&P()&&F()&&Eq();
        case 'Put':return kn(a.e)&&kn(b.e)&&h.wf(f('records'))&&f('records')._seq_start===a.e._seq_end&&eq(b.e,h.cat(a.e,f('records')))&&P()&&F();
        case 'Internal':return kn(a.e)&&P()&&F()&&Eq();
        case 'QueryLsnPersistence':return f('sync_lsn')<=a.p._seq_end&&P()&&F()&&Eq();
        case 'CommitStart':return kn(a.e)&&!kn(a.f)&&kn(b.f)&&h.sub(a.e,b.f)&&b.f._seq_start===f('new_boundary_lsn')&&b.f._seq_start<=f('max_lsn')&&a.p._seq_end<=b.f._seq_end&&P()&&Eq();
        case 'CommitComplete':return kn(a.e)&&kn(a.f)&&!kn(b.f)&&same(b.p,a.f)&&kn(b.e)&&f('require_end')===a.e._seq_end&&eq(b.e,h.slice(a.e,a.f._seq_start,a.e._seq_end));
        case 'Crash':return !kn(b.e)&&!kn(b.f)&&same(b.p,f('keep_in_flight')&&kn(a.f)?a.f:a.p);
      }return null;};
      const r=res();if(r===false)return false;
      // units released may not hold records of any version that can still be read; units taken must be new to all of them
      const rel=l.$cn==='CommitComplete'?l._discarded:l.$cn==='Internal'?l._deallocs:null;if(rel){const z=o.units(post);for(const u of rel)if(z.has(u))return false;}
      if(l.$cn==='CommitComplete'){const z=o.units(pre,true),y=o.units(post,true);for(const u of z)if(!y.has(u)&&!l._discarded.has(u))return false;}
      if(l.$cn==='Internal'){const z=o.units(pre);for(const u of l._allocs)if(z.has(u))return false;}
      return true;},
  };
}
function chainUnits(w,root,entries,b,z){for(const [a] of w.chain(entries,root,b))z.add(a._au);}
function crashAware({REPO}){
  const w=world(REPO),S=mod(w),R=alloc(w,S);const Q='allocation_layer::AllocationCrashAwareJournal_v::',LB=w.lab('AllocationCrashAwareJournal','allocation_layer::AllocationCrashAwareJournal_v'),EP=ty(w.P,Q+'Ephemeral'),St=w.st('AllocationCrashAwareJournal');setLinkedParams(w);
  const rd=im=>w.tryR(im._tj);
  const C=crashing(w,S,R,{name:'AllocationCrashAwareJournal',LB,crash:m=>m,load:m=>m,extra:(x)=>({load_ephemeral_from_persistent:()=>[R.build(x.m2.e)],put:()=>[R.build(x.m2.e)],internal:()=>[R.build(x.m2.e)],commit_start:()=>[R.image(x.m2.f)],commit_complete:()=>[R.build(x.m2.e)]}[x.name]||(()=>[]))(),
    units:(s,live)=>{const z=new Set();const im=i=>{if(live)chainUnits(w,i._tj._freshest_rec,i._tj._disk_view._entries,i._tj._disk_view._boundary_lsn,z);else for(const a of i._tj._disk_view._entries)z.add(a._au);};im(s._persistent);if(!isN(s._inflight))im(s._inflight._0);if(s._ephemeral.$cn==='Known'){const v=s._ephemeral._v;for(const u of R.live(v))z.add(u);if(!live)for(const u of v._mini_allocator._allocs)z.add(u);}return z;}});
  const I0=w.M('AllocationCrashAwareJournal');
  return drive(w,{name:'AllocationCrashAwareJournal',len:40,init:()=>({p:Object.assign(R.empty(0)),f:null,e:null}),build:m=>St(R.image(m.p),m.e?EP.Known(R.build(m.e)):EP.Unknown,m.f?Some(R.image(m.f)):None),
    H:s=>{const p=rd(s._persistent),f=isN(s._inflight)?NOTHING:rd(s._inflight._0),e=s._ephemeral.$cn==='Known'?w.tryH(s._ephemeral._v._journal):NOTHING;return p===null||f===null||e===null?null:{p,f,e};},
    ok:s=>s._ephemeral.$cn==='Known'?R.ok(s._ephemeral._v):null,rel:C.rel,op:C.op,
    interp(t,s,m){const i=soft(()=>s.m_i());if(i)check(eq(i._persistent,h0(w,S,m.p))&&(m.e?i._ephemeral.$cn==='Known'&&eq(i._ephemeral._v._journal,h0(w,S,m.e)):i._ephemeral.$cn==='Unknown')&&(m.f?!isN(i._in_flight)&&eq(i._in_flight._0,h0(w,S,m.f)):isN(i._in_flight)),()=>`the view of ${show(s)} as a crash-tolerant journal is ${show(i)}`);
      if(t.below(6)===0){const z=init(I0,'initialize');check(z!==null&&eq(z,St(R.image(R.empty(0)),EP.Unknown,None)),'the initial crash-tolerant journal');}},
  });
}
const h0=(w,S,m)=>w.h.mk(m.b,S.hist(m));
function unified({REPO}){
  const w=world(REPO),S=mod(w),R=alloc(w,S);const Q='allocation_layer::UnifiedCrashAwareJournal_v::',LB=w.lab('UnifiedCrashAwareJournal','allocation_layer::UnifiedCrashAwareJournal_v'),EP=ty(w.P,Q+'Ephemeral'),ES=ty(w.P,Q+'EphemeralState'),IS=ty(w.P,Q+'ImageState'),DV=ty(w.P,Q+'DiskView'),St=w.st('UnifiedCrashAwareJournal');setLinkedParams(w);
  const im=m=>IS(S.ptr(m.root),m.b,m.first),es=m=>ES(im(m),S.tail(m),R.index(m),R.ma(m));
  // the shared disk is the ephemeral disk while there is one
  const disk=m=>m.e?m.e.disk:m.d;const dvv=d=>DV(S.entries({disk:d}));
  const C=crashing(w,S,R,{name:'UnifiedCrashAwareJournal',LB,crash:(m2,m)=>Object.assign(m2,{d:disk(m)}),load:(m2,m)=>{const z=R.trim(Object.assign({},m.p,{disk:m.d}),m.p.b,m.p.root,true);m2.e.disk=z.disk;return m2;},
    extra:(x)=>({load_ephemeral_from_persistent:()=>[es(x.m2.e)],put:()=>[es(x.m2.e)],internal:()=>[es(x.m2.e),dvv(x.m2.e.disk)],commit_start:()=>[im(x.m2.f),x.depth],commit_complete:()=>[es(x.m2.e),dvv(x.m2.e.disk)]}[x.name]||(()=>[]))(),
    units:(s,live)=>{const z=new Set(),d=s._dv._entries;const go=i=>chainUnits(w,i._freshest_rec,d,i._boundary_lsn,z);go(s._persistent);if(!isN(s._inflight))go(s._inflight._0);if(s._ephemeral.$cn==='Known'){const v=s._ephemeral._v;go(v._image);if(!live)for(const u of v._mini_allocator._allocs)z.add(u);}return z;}});
  const tjOf=(s,i)=>w.LTJ(i._freshest_rec,w.DV(i._boundary_lsn,s._dv._entries));const sl=w.st('LinkedJournal');
  const i0=w.M('UnifiedCrashAwareJournal');
  // several boundaries over one disk: rankings come from the same entries
  return drive(w,{name:'UnifiedCrashAwareJournal',len:40,init:()=>({p:R.empty(0),f:null,e:null,d:new Map()}),build:m=>St(m.e?EP.Known(es(m.e)):EP.Unknown,m.f?Some(im(m.f)):None,im(m.p),dvv(disk(m))),
    H:s=>{const p=w.tryR(tjOf(s,s._persistent)),f=isN(s._inflight)?NOTHING:w.tryR(tjOf(s,s._inflight._0)),e=s._ephemeral.$cn==='Known'?w.tryH(sl(tjOf(s,s._ephemeral._v._image),s._ephemeral._v._unmarshalled_tail)):NOTHING;return p===null||f===null||e===null?null:{p,f,e};},
    ok:s=>{if(s._ephemeral.$cn!=='Known')return null;const v=s._ephemeral._v;return R.ok({_journal:sl(tjOf(s,v._image),v._unmarshalled_tail),_lsn_au_index:v._lsn_au_index,_first:v._image._first,_mini_allocator:v._mini_allocator});},rel:C.rel,op:C.op,
    interp(t,s,m){const i=soft(()=>s.m_i());if(i){const q=x=>w.tryR(x._tj);check(eq(q(i._persistent),h0(w,S,m.p))&&(m.e?i._ephemeral.$cn==='Known'&&eq(w.tryH(i._ephemeral._v._journal),h0(w,S,m.e)):i._ephemeral.$cn==='Unknown')&&(m.f?!isN(i._inflight)&&eq(q(i._inflight._0),h0(w,S,m.f)):isN(i._inflight)),()=>`the view of ${show(s)} as a crash-tolerant journal with allocation is ${show(i)}`);}
      if(t.below(6)===0){const z=init(i0,'initialize');check(z!==null&&eq(z,St(EP.Unknown,None,IS(None,0,0),DV(new DMap()))),'the initial shared-disk journal');}},
  });
}
exports.world=world;exports.mod=mod;
exports.props={V03:{rule:'at least three legal steps',parts:{paged:{make:paged,weight:1},linked:{make:linked,weight:2},likes:{make:likes,weight:2},allocation:{make:allocation,weight:4},crashAware:{make:crashAware,weight:3},unified:{make:unified,weight:4}},quick:30,thorough:600,assumptions:['disks of 27 pages and histories of up to 26 messages']}};
