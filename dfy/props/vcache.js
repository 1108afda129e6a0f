'use strict';
// V07: the page cache (Cache), the journal kept in it (CachedJournal) and the two over the asynchronous disk (JournalCoordinationSystem).
const L=require('../vlib.js');const {V,$,check,DMap,DSet,ty,fn,eq,Some,None}=L;const {perturb,Pool}=require('../sm.js');
const {world,mod}=require('./vjournal.js');
const DIRS=['spec','abstract_system','disk','journal','implementation'];const I='implementation::';
const isN=o=>o.$cn==='None';const show=x=>$.show(x).slice(0,360);
const nonneg=v=>{let ok=true;const go=(x,d,k)=>{if(!ok||d>14)return;if(typeof x==='number'){if(x<0&&k!=='s')ok=false;return;}if(!x||typeof x!=='object')return;if(x instanceof DMap||x instanceof DSet){for(const k of x){go(k,d+1,'s');if(x.get)go(x.get(k),d+1,'s');}return;}if(Array.isArray(x)){for(const k of x)go(k,d+1);return;}for(const f of x.$f||Object.keys(x))if(f[0]==='_')go(x[f],d+1);};go(v,0);return ok;};
const vals=m=>[...m].map(k=>m.get(k));const pairs=m=>[...m].map(k=>[k,m.get(k)]);
const inject=m=>new Set(vals(m).map(x=>$.key(x))).size===m.size;const dm=l=>DMap.of(l);
const over=(m,l)=>l.reduce((z,[k,v])=>z.set(k,v),m);const drop=(m,ks)=>{const s=new Set([...ks].map(k=>$.key(k)));return dm(pairs(m).filter(x=>!s.has($.key(x[0]))));};
const NS=4;
function setup(REPO){
  const pages=[],ids=new Map();let ws=null;
  const raw=r=>{const k=$.key(r);let i=ids.get(k);if(i===undefined){i=pages.length;pages.push(r);ids.set(k,i);}return [i%251,Math.floor(i/251),9];};
  const rec=p=>{const i=p&&p.length===3&&p[2]===9?p[0]+251*p[1]:-1;return i>=0&&i<pages.length?pages[i]:ws.oddRec;};
  const q=I+'JournalCoordinationSystem_v::';
  const w=world(REPO,DIRS,{[q+'record_to_raw_page']:raw,[q+'raw_page_to_record']:rec});ws=w;const P=w.P,h=w.h;
  w.oddRec=w.LRec(h.mk(50,[h.KM(w.KEYS[0],w.def(1))]),None);
  const C=I+'Cache_v::',A='spec::AsyncDisk_t::',J=I+'CachedJournal_v::';
  Object.assign(w,{raw,rec,En:ty(P,C+'Entry'),Sa:ty(P,C+'Status'),CL:ty(P,C+'Cache::Label'),Rq:ty(P,A+'GenericDiskRequest'),Rs:ty(P,A+'GenericDiskResponse'),DL:ty(P,A+'AsyncDisk::Label'),
    Snap:ty(P,J+'JournalSnapShot'),JL:ty(P,J+'CachedJournal::Label'),CC:w.st('Cache'),CJ:w.st('CachedJournal'),DK:w.st('AsyncDisk'),SS:w.st('JournalCoordinationSystem'),
    SL:ty(P,q+'JournalCoordinationSystem::Label'),Cache:w.M('Cache'),Jour:w.M('CachedJournal'),Disk:w.M('AsyncDisk'),Sys:w.M('JournalCoordinationSystem'),Likes:w.M('LikesJournal')});
  V.negNat=999;w.ctx={reqs:[],pages:[]};w.slots=[];for(let i=-2;i<=NS+1;i++)w.slots.push(i);w.pool=w.ADDRS.slice(0,7);
  const allReads=w.ADDRS.map(a=>w.Rq.ReadReq(a));
  w.more=(u,n,m)=>{
    if(n==='Slot'||n==='i32'||/^s(lot)?[12]?$/.test(m)||m==='i'&&/initialize/.test(u.fn||''))return w.slots;
    if(n==='ID'||/^id[12]?$/.test(m))return [0,1,2,3,4,5,6,7,8,9];
    if(m==='req')return [...allReads,...(/load/.test(u.fn||'')?w.ctx.reqs.filter(x=>x.$cn==='ReadReq'):w.ctx.reqs)];
    if((n==='Address'||m==='addr'||m==='a')&&/Cache|Coordination|access|evict|reserve|load|writeback|journal_reads|cache_writes|dirty|persistent/.test(u.fn||''))return w.ADDRS;
    return null;};
  w.look=(...x)=>{w.ctx.reqs=[];const go=v=>{if(!v||typeof v!=='object')return;if(v instanceof DMap)for(const k of v){const y=v.get(k);if(y&&(y.$cn==='ReadReq'||y.$cn==='WriteReq'))w.ctx.reqs.push(y);else if(y&&y.$cn==='Address')w.ctx.reqs.push(w.Rq.ReadReq(y));}else if(v instanceof V.DT)for(const f of v.$f||Object.keys(v))if(f[0]==='_')go(v[f]);};x.forEach(go);};
  return w;
}
// ---------------------------------------------------------------- the cache: what each step may do, in its own words
function cacheModel(w){
  const {En,Sa,CC,Rq,Rs}=w;const X={};const filled=e=>e&&e.$cn==='Filled';
  X.init=n=>CC(dm([...Array(n).keys()].map(i=>[i,En.Empty])),dm([...Array(n).keys()].map(i=>[i,Sa.NotFilled])),dm([]),dm([]));
  X.at=(s,a)=>s._lookup_map.has(a)?s._lookup_map.get(a):undefined;
  X.inv=s=>{
    const E=s._entries,used=[...E].filter(i=>E.get(i).$cn!=='Empty');const seen=new Map();for(const i of used){const k=$.key(E.get(i)._addr);if(seen.has(k))return false;seen.set(k,i);}
    if(!eq(DSet.from([...E]),DSet.from([...s._status_map])))return false;for(const i of E)if((s._status_map.get(i).$cn==='NotFilled')!==(E.get(i).$cn!=='Filled'))return false;
    if(!eq(s._lookup_map,dm(used.map(i=>[E.get(i)._addr,i]))))return false;
    if(!inject(s._outstanding_reqs))return false;return vals(s._outstanding_reqs).every(i=>used.includes(i));};
  // a page is being moved exactly while one request for it is out
  X.busy=s=>{const l=[...s._entries].filter(i=>s._entries.get(i).$cn==='Loading'||s._status_map.get(i).$cn==='Writeback');return eq(DSet.from(l),DSet.from(vals(s._outstanding_reqs)))&&l.length===s._outstanding_reqs.size;};
  const fresh=(s,mp)=>inject(mp)&&vals(mp).every(a=>!s._lookup_map.has(a))&&[...mp].every(i=>s._entries.has(i)&&s._entries.get(i).$cn==='Empty');
  const hold=(s,mp,f)=>[over(s._entries,pairs(mp).map(([i,a])=>[i,f(a)])),over(s._lookup_map,pairs(mp).map(([i,a])=>[a,i]))];
  const none=o=>o.size===0;
  X.do={
    reserve:(s,l,mp)=>{if(l.$cn!=='Internal'||!fresh(s,mp))return null;const [e,k]=hold(s,mp,a=>En.Reserved(a));return CC(e,s._status_map,k,s._outstanding_reqs);},
    load_initiate:(s,l,mp)=>{if(l.$cn!=='DiskOps'||none(l._requests)||!none(l._responses)||!fresh(s,mp)||!inject(l._requests)||[...l._requests].some(i=>s._outstanding_reqs.has(i)))return null;
      const r=vals(l._requests);if(r.some(x=>x.$cn!=='ReadReq'))return null;const froms=DSet.from(r.map(x=>x._from));if(!eq(froms,DSet.from(vals(mp))))return null;
      const [e,k]=hold(s,mp,a=>En.Loading(a));return CC(e,s._status_map,k,over(s._outstanding_reqs,pairs(l._requests).map(([i,x])=>[i,k.get(x._from)])));},
    load_complete:(s,l)=>{if(l.$cn!=='DiskOps'||!none(l._requests)||none(l._responses))return null;const r=pairs(l._responses);
      if(r.some(([i])=>!s._outstanding_reqs.has(i))||r.some(([i,x])=>x.$cn!=='ReadResp'||s._entries.get(s._outstanding_reqs.get(i)).$cn!=='Loading'))return null;
      return CC(over(s._entries,r.map(([i,x])=>{const z=s._outstanding_reqs.get(i);return [z,En.Filled(s._entries.get(z)._addr,x._data)];})),over(s._status_map,r.map(([i])=>[s._outstanding_reqs.get(i),Sa.Clean])),s._lookup_map,drop(s._outstanding_reqs,[...l._responses]));},
    access:(s,l)=>{if(l.$cn!=='Access')return null;for(const [a,d] of pairs(l._reads)){const i=X.at(s,a);if(i===undefined||!filled(s._entries.get(i))||!eq(s._entries.get(i)._data,d))return null;}
      for(const a of l._writes){const i=X.at(s,a);if(i===undefined)return null;const e=s._entries.get(i);if(!(e.$cn==='Reserved'||filled(e)&&s._status_map.get(i).$cn!=='Writeback'))return null;}
      const ws=pairs(l._writes).map(([a,d])=>[X.at(s,a),En.Filled(a,d)]);return CC(over(s._entries,ws),over(s._status_map,ws.map(x=>[x[0],Sa.Dirty])),s._lookup_map,s._outstanding_reqs);},
    writeback_initiate:(s,l)=>{if(l.$cn!=='DiskOps'||none(l._requests)||!none(l._responses)||[...l._requests].some(i=>s._outstanding_reqs.has(i)))return null;
      const r=pairs(l._requests);for(const [,x] of r){if(x.$cn!=='WriteReq')return null;const i=X.at(s,x._to);if(i===undefined||!eq(s._entries.get(i),En.Filled(x._to,x._data))||s._status_map.get(i).$cn!=='Dirty')return null;}
      if(!inject(l._requests))return null; // one request for a page at a time
      return CC(s._entries,over(s._status_map,r.map(([,x])=>[X.at(s,x._to),Sa.Writeback])),s._lookup_map,over(s._outstanding_reqs,r.map(([i,x])=>[i,X.at(s,x._to)])));},
    writeback_complete:(s,l)=>{if(l.$cn!=='DiskOps'||!none(l._requests)||none(l._responses))return null;const r=pairs(l._responses);
      if(r.some(([i])=>!s._outstanding_reqs.has(i))||r.some(([i,x])=>{const z=s._outstanding_reqs.get(i);return x.$cn!=='WriteResp'||!filled(s._entries.get(z))||s._status_map.get(z).$cn!=='Writeback';}))return null;
      return CC(s._entries,over(s._status_map,r.map(([i])=>[s._outstanding_reqs.get(i),Sa.Clean])),s._lookup_map,drop(s._outstanding_reqs,[...l._responses]));},
    evict:(s,l,z)=>{if(l.$cn!=='Internal')return null;const e=[...z];if(e.some(i=>!s._entries.has(i)||!filled(s._entries.get(i))||s._status_map.get(i).$cn!=='Clean'))return null;
      return CC(over(s._entries,e.map(i=>[i,En.Empty])),over(s._status_map,e.map(i=>[i,Sa.NotFilled])),drop(s._lookup_map,e.map(i=>s._entries.get(i)._addr)),s._outstanding_reqs);},
    evictable:(s,l)=>{if(l.$cn!=='EvictableCheck')return null;for(const a of l._addrs){const i=X.at(s,a);if(i!==undefined&&!(filled(s._entries.get(i))&&s._status_map.get(i).$cn==='Clean'))return null;}return s;},
    noop:(s,l)=>l.$cn==='Internal'?s:null,
  };
  const sub=(t,l,n)=>{const r=[];for(const x of l)if(r.length<n&&t.below(2)===0)r.push(x);return r;};X.sub=sub;
  X.ids=s=>[0,1,2,3,4,5,6,7].filter(i=>!s._outstanding_reqs.has(i));
  // a step from s (o: which addresses may be loaded, what they hold, what may be written)
  X.op=(t,s,o)=>{
    const E=s._entries,free=[...E].filter(i=>E.get(i).$cn==='Empty'),un=w.pool.filter(a=>!s._lookup_map.has(a)),k=t.below(11);const {CL}=w;
    const clean=[...E].filter(i=>s._status_map.get(i).$cn==='Clean'),dirty=[...E].filter(i=>s._status_map.get(i).$cn==='Dirty');const e=dm([]);
    const pick=(as)=>{const p=[],fs=free.slice(),us=as.slice();const n=t.size(1,3);while(p.length<n&&fs.length&&us.length)p.push([fs.splice(t.below(fs.length),1)[0],us.splice(t.below(us.length),1)[0]]);return p;};
    if(k<=1){const p=pick(un);return p.length||t.below(6)===0?['reserve',CL.Internal,dm(p)]:null;}
    if(k<=3){const p=pick(o.loadable?un.filter(o.loadable):un);if(!p.length)return null;const ids=X.ids(s),z=t.below(4);return ['load_initiate',CL.DiskOps(dm(p.map(([,a],i)=>[ids[(i+z)%ids.length],Rq.ReadReq(a)])),e),dm(p)];}
    if(k===4){const l=pairs(s._outstanding_reqs).filter(([,i])=>E.get(i).$cn==='Loading');let c=sub(t,l,4);if(!c.length)c=l.slice(0,1);return c.length?['load_complete',CL.DiskOps(e,dm(c.map(([i,z])=>[i,Rs.ReadResp(o.data(t,E.get(z)._addr))])))]:null;}
    if(k===5){const l=dirty.filter(i=>true);let c=sub(t,l,3);if(!c.length)c=l.slice(0,1);if(!c.length)return null;const ids=X.ids(s);return ['writeback_initiate',CL.DiskOps(dm(c.map((i,j)=>[ids[j],Rq.WriteReq(E.get(i)._addr,E.get(i)._data)])),e)];}
    if(k===6){const l=pairs(s._outstanding_reqs).filter(([,i])=>s._status_map.get(i).$cn==='Writeback');let c=sub(t,l,4);if(!c.length)c=l.slice(0,1);return c.length?['writeback_complete',CL.DiskOps(e,dm(c.map(([i])=>[i,Rs.WriteResp])))]:null;}
    if(k===7){const c=sub(t,clean,3);return ['evict',CL.Internal,DSet.from(c)];}
    if(k===8){const c=sub(t,w.pool.filter(a=>{const i=X.at(s,a);return i===undefined||s._status_map.get(i).$cn==='Clean';}),4);return ['evictable',CL.EvictableCheck(DSet.from(c))];}
    const rd=[...E].filter(i=>filled(E.get(i))),wr=[...E].filter(i=>E.get(i).$cn==='Reserved'||filled(E.get(i))&&s._status_map.get(i).$cn!=='Writeback');
    return ['access',CL.Access(dm(sub(t,rd,3).map(i=>[E.get(i)._addr,E.get(i)._data])),dm(sub(t,wr,2).map(i=>[E.get(i)._addr,o.data(t,null)])))];};
  return X;
}
// run the code's transition as a function; null when refused
const applier=w=>(M,name,s,...a)=>{w.only(s,...a);w.look(...a);try{return M.apply(name,s,...a);}catch(e){if(e instanceof V.DafnyFail)return null;throw e;}};
// every step, and near misses of it, have the effect the model gives them
function agree(w,X,M,valid){
  const app=applier(w);const past=[];
  return {past,step(t,pool,s,op){
    const [name,...a]=op;const want=X.do[name](s,...a);if(want===null)throw new Error('harness: own step '+name+' refused');
    const got=app(M,name,s,...a);check(got!==null,()=>`${name} from ${show(s)} with ${show(a)} is refused`);check(eq(got,want),()=>`${name} from ${show(s)} with ${show(a)} leads to ${show(got)}, not ${show(want)}`);
    a.forEach((x,i)=>pool.walk(x,i?'P'+i:'L'));pool.walk(want,'S');
    for(let j=0;j<5;j++){
      let n2=name,a2=a.slice(),s2=s;const z=t.below(8);
      if(z===0&&past.length){const p=t.pick(past);n2=p[0];a2=p.slice(1);}else if(z===1){s2=perturb(t,s,'S',pool);if(!nonneg(s2)||!valid(s2))continue;}
      else{const i=t.below(a2.length);a2[i]=perturb(t,a2[i],i?'P'+i:'L',pool);if(t.below(3)===0){const y=t.below(a2.length);a2[y]=perturb(t,a2[y],y?'P'+y:'L',pool);}}
      if(!nonneg(a2))continue;let r;try{r=X.do[n2](s2,...a2);}catch(e){if(e instanceof TypeError||e instanceof V.DafnyFail)continue;throw e;}if(r===undefined)continue;
      let g;try{g=app(M,n2,s2,...a2);}catch(e){if(e instanceof V.Unsup)continue;throw e;}
      check((g===null)===(r===null),()=>`${n2} from ${show(s2)} with ${show(a2)} is ${g===null?'refused':'accepted'}`);if(r!==null)check(eq(g,r),()=>`${n2} from ${show(s2)} with ${show(a2)} leads to ${show(g)}, not ${show(r)}`);
    }
    past.push(op);return want;}};
}
function cache({REPO}){
  const w=setup(REPO),X=cacheModel(w);const {En}=w;const lu=s=>s.m_build_lookup_map();
  const vd=s=>({valid_clean_slot:i=>s._status_map.has(i)&&s._status_map.get(i).$cn==='Clean'});
  return (t,c)=>{
    w.ready();w.only();const pool=new Pool();const A=agree(w,X,w.Cache,X.inv);for(const a of w.pool)for(const p of ['P1v','ReadReq_from','WriteReq_to','EvictableCheck_addrsk','Access_readsk','Access_writesk'])pool.add(p,a);for(let i=-1;i<=NS;i++)for(const p of ['P1k','State_entriesk'])pool.add(p,i);for(let i=0;i<8;i++)for(const p of ['DiskOps_requestsk','DiskOps_responsesk'])pool.add(p,i);pool.add('L',w.CL.Internal);
    const n=t.below(9)===0?t.below(2):t.size(2,NS);let s=X.init(n);{const M=w.Cache;const g=L.init(M,'initialize',n);check(g!==null&&eq(g,s),()=>`a new cache of ${n} slots is ${g&&show(g)}`);}
    const data=(tt)=>[tt.below(3)];let k=0;const len=t.size(2,24);
    const inv=(s,why)=>{w.only(s);w.look();check(s.m_inv()===true,()=>`the invariant fails ${why}: ${show(s)}`);if(!X.inv(s)||!X.busy(s))throw new Error('harness: cache '+show(s));};
    inv(s,'initially');
    for(let i=0;i<len;i++){
      const op=X.op(t,s,{data});if(!op)continue;k++;c.label(op[0]);c.log(()=>op[0]+' '+show(op.slice(1)));s=A.step(t,pool,s,op);inv(s,'after '+op[0]);
      check(eq(lu(s),s._lookup_map),()=>`build_lookup_map of ${show(s)}`);
      if(t.below(3)===0){const z=perturb(t,s,'S',pool);if(nonneg(z)){let r;try{r=z.m_inv();}catch(e){if(e instanceof V.Unsup||e instanceof V.DafnyFail)r=null;else throw e;}if(r!==null)check(r===X.inv(z),()=>`the invariant ${r?'accepts':'rejects'} ${show(z)}`);}}
      const a=t.pick(w.pool),j=X.at(s,a),e=j===undefined?null:s._entries.get(j),d=[t.below(3)];
      check(s.m_valid_read(a,d)===(!!e&&e.$cn==='Filled'&&eq(e._data,d)),()=>`valid_read of ${show(a)}`);check(s.m_valid_write(a)===(!!e&&(e.$cn==='Reserved'||e.$cn==='Filled'&&s._status_map.get(j).$cn!=='Writeback')),()=>`valid_write of ${show(a)} in ${show(s)}`);
    }
    c.nontrivial(k>=2);c.sample(k+' steps to '+show(s).slice(0,120));
  };
}

// ---------------------------------------------------------------- the journal kept in the cache
function journalModel(w){
  const {h,CJ,JL,LRec,Snap}=w;const Y={};
  const end=s=>s._unmarshalled_tail._seq_start;Y.end=end;
  Y.lsns=(s,a)=>[...s._lsn_addr_index].filter(k=>k>=s._boundary_lsn&&eq(s._lsn_addr_index.get(k),a)).sort((x,y)=>x-y);
  Y.valid=s=>{const b=s._boundary_lsn,T=s._unmarshalled_tail,X=s._lsn_addr_index;if(!h.wf(T)||b>end(s)||X.size!==end(s)-b)return false;const done=new Set();let cur=null;
    for(let k=b;k<end(s);k++){if(!X.has(k))return false;const a=$.key(X.get(k));if(a!==cur){if(done.has(a))return false;done.add(a);cur=a;}}
    return b===end(s)?isN(s._freshest_rec):!isN(s._freshest_rec)&&eq(s._freshest_rec._0,X.get(end(s)-1));};
  Y.next=(s,p)=>{const l=Y.lsns(s,p._0);if(!l.length||l[0]<=s._boundary_lsn)return None;return s._lsn_addr_index.has(l[0]-1)?Some(s._lsn_addr_index.get(l[0]-1)):None;};
  Y.crop=(s,d)=>{let p=s._freshest_rec;for(let i=0;i<d;i++){if(isN(p))return null;p=Y.next(s,p);}return p;};
  const from=(m,b)=>b<=m._seq_start?m:h.slice(m,b,m._seq_end);
  Y.do={
    read_for_recovery:(s,l,d)=>{if(l.$cn!=='ReadForRecovery')return null;const p=Y.crop(s,d);if(p===null||isN(p)||!l._reads.has(p._0))return null;const m=l._reads.get(p._0)._message_seq;if(!h.wf(m)||m._seq_end<s._boundary_lsn)return undefined;return eq(l._messages,from(m,s._boundary_lsn))?s:null;},
    freeze_for_commit:(s,l,d)=>{if(l.$cn!=='FreezeForCommit')return null;const f=l._frozen,p=Y.crop(s,d);if(p===null||f._boundary_lsn<s._boundary_lsn||!eq(p,f._freshest_rec)||!isN(p)&&!l._reads.has(p._0))return null;
      const e=isN(p)?s._boundary_lsn:l._reads.get(p._0)._message_seq._seq_end;if(f._boundary_lsn>e||!isN(p)&&f._boundary_lsn===e)return null;
      return eq(l._frozen_domain,DSet.from([...s._lsn_addr_index].filter(k=>k>=f._boundary_lsn&&k<e).map(k=>s._lsn_addr_index.get(k))))?s:null;},
    query_end_lsn:(s,l)=>l.$cn==='QueryEndLsn'&&l._end_lsn===s._unmarshalled_tail._seq_end?s:null,
    put:(s,l)=>l.$cn==='Put'&&h.wf(l._messages)&&l._messages._seq_start===s._unmarshalled_tail._seq_end?CJ(s._boundary_lsn,s._freshest_rec,h.cat(s._unmarshalled_tail,l._messages),s._lsn_addr_index):null,
    discard_old:(s,l)=>{if(l.$cn!=='DiscardOld'||l._require_end!==end(s)||l._start_lsn<s._boundary_lsn||l._start_lsn>end(s))return null;const X=s._lsn_addr_index,keep=dm(pairs(X).filter(x=>x[0]>=l._start_lsn));
      const kept=DSet.from(vals(keep));if(!eq(l._discard_addrs,DSet.from(vals(X).filter(a=>!kept.has(a)))))return null;return CJ(l._start_lsn,l._start_lsn===end(s)?None:s._freshest_rec,s._unmarshalled_tail,keep);},
    internal_journal_marshal:(s,l,cut,a)=>{const T=s._unmarshalled_tail;if(l.$cn!=='JournalMarshal'||vals(s._lsn_addr_index).some(x=>eq(x,a))||cut<=end(s)||cut>T._seq_end)return null;const m=h.slice(T,end(s),cut);
      if(!eq(l._writes,dm([[a,LRec(m,s._freshest_rec)]])))return null;return CJ(s._boundary_lsn,Some(a),h.slice(T,cut,T._seq_end),over(s._lsn_addr_index,h.arr(m).map((_,i)=>[end(s)+i,a])));},
  };
  // does some step lead from s to n under this label
  Y.any=(s,n,l)=>{const q=r=>r&&eq(r,n);switch(l.$cn){case 'ReadForRecovery':case 'FreezeForCommit':for(let d=0;d<9;d++){const r=Y.do[l.$cn==='ReadForRecovery'?'read_for_recovery':'freeze_for_commit'](s,l,d);if(r===undefined)return null;if(q(r))return true;}return false;
    case 'QueryEndLsn':return !!q(Y.do.query_end_lsn(s,l));case 'Put':return !!q(Y.do.put(s,l));case 'DiscardOld':return !!q(Y.do.discard_old(s,l));
    case 'JournalMarshal':return !isN(n._freshest_rec)&&!!q(Y.do.internal_journal_marshal(s,l,n._unmarshalled_tail._seq_start,n._freshest_rec._0));}return false;};
  return Y;
}
// the truth: a list of messages, cut into records
function truth(w,S){
  const {h}=w;const Z={};
  Z.chain=m=>S.chain(m).filter(r=>r.s+r.ms.length>m.b);
  Z.index=m=>dm(S.chain(m).flatMap(r=>r.ms.map((_,i)=>[r.s+i,r.a])).filter(x=>x[0]>=m.b));
  Z.build=m=>w.CJ(m.b,S.ptr(m.root),S.tail(m),Z.index(m));
  Z.rec=r=>w.LRec(h.mk(r.s,r.ms),r.prior===null?None:Some(S.key2a(r.prior)));
  Z.reads=rs=>dm(rs.map(r=>[r.a,Z.rec(r)]));
  Z.discard=(m,x)=>{const n=S.upd(m,{b:x,root:x===S.end(m)?null:m.root});const k=new Set(S.chain(n).map(r=>w.ak(r.a)));return S.upd(n,{disk:new Map([...m.disk].filter(y=>k.has(y[0])))});};
  // a frozen prefix: the chain without its d newest records, from lsn b on
  Z.frozen=(t,m)=>{const c=S.chain(m);const d=t.below(c.length+1),k=c.slice(0,c.length-d);if(!k.length)return {d,k,b:m.b,root:null,end:m.b,snap:w.Snap(m.b,None)};
    const r=k[k.length-1],end=r.s+r.ms.length;if(end<=m.b)return null;const b=m.b+t.below(end-m.b);return {d,k:k.filter(x=>x.s+x.ms.length>b),b,root:r,end,snap:w.Snap(b,Some(r.a))};};
  return Z;
}
function journal({REPO}){
  const w=setup(REPO),S=mod(w),Y=journalModel(w),Z=truth(w,S);const {h,JL}=w;
  return (t,c)=>{
    w.ready();w.only();const pool=new Pool();const A=agree(w,Y,w.Jour,Y.valid);let m={b:t.below(3),disk:new Map(),root:null,tail:[]},s=Z.build(m);let k=0;const len=t.size(2,18);
    for(const a of w.pool){pool.add('P2',a);pool.add('JournalMarshal_writesk',a);pool.add('Some_0',a);}for(let i=0;i<8;i++)for(const p of ['P1','DiscardOld_start_lsn','JournalSnapShot_boundary_lsn','QueryEndLsn_end_lsn'])pool.add(p,i);
    const start=(m,why,extra)=>{const reads=Z.reads([...S.chain(m),...(extra||[])]),sn=w.Snap(m.b,S.ptr(m.root));w.only(reads);const g=L.init(w.Jour,'initialize',reads,sn);const m0=S.upd(m,{tail:[]});check(g!==null&&eq(g,Z.build(m0)),()=>`initialize(${show(reads)}, ${show(sn)}) ${why} gives ${g&&show(g)}, not ${show(Z.build(m0))}`);};
    start(m,'');
    for(let i=0;i<len;i++){
      const z=t.below(14);let op=null,m2=m;const ch=S.chain(m);
      if(z<4){const ms=t.list(0,3,()=>h.put(t));if(S.tend(m)+ms.length>22)continue;m2=S.put(m,ms);op=['put',JL.Put(h.mk(S.tend(m),ms))];}
      else if(z<8){if(!m.tail.length)continue;const used=new Set(ch.map(r=>w.ak(r.a)));const fr=w.pool.filter(a=>!used.has(w.ak(a)));if(!fr.length)continue;const a=t.pick(fr),cut=S.end(m)+1+t.below(m.tail.length);m2=S.marshal(m,cut,a);op=['internal_journal_marshal',JL.JournalMarshal(Z.reads([m2.disk.get(w.ak(a))])),cut,a];}
      else if(z===8){const x=m.b+t.below(S.end(m)-m.b+1);m2=Z.discard(m,x);const gone=DSet.from([...m.disk.values()].filter(r=>!m2.disk.has(w.ak(r.a))).map(r=>r.a));op=['discard_old',JL.DiscardOld(x,S.end(m),gone)];}
      else if(z<11){const f=Z.frozen(t,m);if(!f)continue;const rd=Z.reads(f.root?[f.root,...ch.filter(()=>t.below(3)===0)]:[]);op=['freeze_for_commit',JL.FreezeForCommit(f.snap,DSet.from(f.k.map(r=>r.a)),rd),f.d];}
      else if(z<13){if(!ch.length)continue;const d=t.below(ch.length),r=ch[ch.length-1-d];const mm=h.mk(r.s,r.ms);const want=r.s>=m.b?mm:h.slice(mm,m.b,mm._seq_end);op=['read_for_recovery',JL.ReadForRecovery(want,Z.reads([r,...ch.filter(()=>t.below(3)===0)])),d];}
      else op=['query_end_lsn',JL.QueryEndLsn(S.tend(m))];
      k++;c.label(op[0]);c.log(()=>op[0]+' '+show(op.slice(1)));
      const got=A.step(t,pool,s,op);check(eq(got,Z.build(m2)),()=>`${op[0]} leads to ${show(got)}, not ${show(Z.build(m2))}`);m=m2;s=got;
      w.only(s);check(s.m_wf()===true,'wf');check(s.m_seq_start()===m.b&&s.m_seq_end()===S.tend(m)&&s.m_marshalled_seq_end()===S.end(m),()=>'bounds of '+show(s));
      const c2=S.chain(m);c2.forEach((r,i)=>{const n=s.m_next_index(Some(r.a));check(eq(n,i?Some(c2[i-1].a):None),()=>`next_index of ${show(r.a)} in ${show(s)} is ${show(n)}`);});
      for(let d=0;d<=c2.length+1;d++)check(s.m_can_crop_index(s._freshest_rec,d)===(d<=c2.length),()=>`can_crop_index ${d} of ${show(s)}`);
      if(t.below(5)===0){start(m,'of the journal');}
      if(t.below(8)===0){const f=Z.frozen(t,m);if(f){const k2=new Map(f.k.map(r=>[w.ak(r.a),r]));const rest=c2.filter(r=>!k2.has(w.ak(r.a))&&t.bool());m={b:f.b,disk:k2,root:f.root?w.ak(f.root.a):null,tail:[]};start(m,'of a frozen journal',rest);s=Z.build(m);c.label('restart');}}
    }
    c.nontrivial(k>=2);c.sample(k+' steps to '+show(s).slice(0,120));
  };
}
// ---------------------------------------------------------------- journal, cache and disk together
function system({REPO},only){
  const w=setup(REPO),S=mod(w),X=cacheModel(w),Y=journalModel(w),Z=truth(w,S);const {h,JL,CL,SL,DL,Rq,Rs,En,Sa,DK,SS,CC}=w;
  const moved=(a,b)=>{const r=[],e=[];for(const i of a._entries)if(b._entries.has(i)){const x=a._entries.get(i),y=b._entries.get(i);if(x.$cn==='Empty'&&y.$cn!=='Empty')r.push([i,y._addr]);if(x.$cn!=='Empty'&&y.$cn==='Empty')e.push(i);}return {fresh:dm(r),gone:DSet.from(e)};};
  const anyC=(a,b,l)=>{const q=r=>!!r&&eq(r,b);const mv=moved(a,b);switch(l.$cn){case 'Access':return q(X.do.access(a,l));case 'EvictableCheck':return q(X.do.evictable(a,l));case 'Internal':return q(a)||q(X.do.reserve(a,l,mv.fresh))||q(X.do.evict(a,l,mv.gone));
    default:return q(X.do.load_initiate(a,l,mv.fresh))||q(X.do.load_complete(a,l))||q(X.do.writeback_initiate(a,l))||q(X.do.writeback_complete(a,l));}};
  const diskOps=(d,rq,rs)=>{if([...rq].some(i=>d._requests.has(i)||d._responses.has(i))||[...rs].some(i=>!d._responses.has(i)||!eq(d._responses.get(i),rs.get(i))))return null;return DK(over(d._requests,pairs(rq)),drop(d._responses,[...rs]),d._content);};
  const wfA=a=>a._au>=0&&a._au<9&&a._page>=0&&a._page<3;
  const process=(d,i)=>{const r=d._requests.get(i);if(r.$cn==='ReadReq')return wfA(r._from)&&d._content.has(r._from)?DK(drop(d._requests,[i]),d._responses.set(i,Rs.ReadResp(d._content.get(r._from))),d._content):null;return wfA(r._to)?DK(drop(d._requests,[i]),d._responses.set(i,Rs.WriteResp),d._content.set(r._to,r._data)):null;};
  const recs=r=>dm(pairs(r).map(([a,p])=>[a,w.rec(p)])),raws=r=>dm(pairs(r).map(([a,x])=>[a,w.raw(x)]));const e=dm([]);
  const D={do:{}};
  const jr=(s,l,ok,n)=>{const y=Y.any(s._journal,n||s._journal,l);return y===null?undefined:y&&ok?true:null;};
  D.do.read_for_recovery=(s,l,reads)=>l.$cn!=='ReadForRecovery'||!anyC(s._cache,s._cache,CL.Access(reads,e))?null:(r=>r===true?s:r)(jr(s,JL.ReadForRecovery(l._messages,recs(reads)),true));
  D.do.freeze_for_commit=(s,l,dom,reads)=>l.$cn!=='FreezeForCommit'||!anyC(s._cache,s._cache,CL.Access(reads,e))||!anyC(s._cache,s._cache,CL.EvictableCheck(dom))?null:(r=>r===true?s:r)(jr(s,JL.FreezeForCommit(l._frozen,dom,recs(reads)),true));
  D.do.query_end_lsn=(s,l)=>l.$cn==='QueryEndLsn'&&l._end_lsn===s._journal._unmarshalled_tail._seq_end?s:null;
  D.do.discard_old=(s,l,nj,dom)=>l.$cn==='DiscardOld'&&Y.any(s._journal,nj,JL.DiscardOld(l._start_lsn,l._require_end,dom))&&anyC(s._cache,s._cache,CL.EvictableCheck(dom))?SS(nj,s._cache,s._disk):null;
  D.do.journal_marshal=(s,l,nj,nc,a,rec)=>{const wr=dm([[a,rec]]);return l.$cn==='Internal'&&Y.any(s._journal,nj,JL.JournalMarshal(wr))&&anyC(s._cache,nc,CL.Access(e,raws(wr)))?SS(nj,nc,s._disk):null;};
  D.do.cache_disk_ops=(s,l,nc,nd,rq,rs)=>{if(l.$cn!=='Internal'||!anyC(s._cache,nc,CL.DiskOps(rq,rs)))return null;const d=diskOps(s._disk,rq,rs);return d&&eq(d,nd)?SS(s._journal,nc,nd):null;};
  D.do.cache_internal=(s,l,nc)=>l.$cn==='Internal'&&anyC(s._cache,nc,CL.Internal)?SS(s._journal,nc,s._disk):null;
  D.do.disk_internal=(s,l,nd)=>l.$cn==='Internal'&&[...s._disk._requests].some(i=>{const d=process(s._disk,i);return d&&eq(d,nd);})?SS(s._journal,s._cache,nd):null;
  const params=()=>w.setParams((M,tr,p,pre,post,lbl)=>{
    if(p==='depth')return [0,1,2,3,4,5,6,7,8];
    if(M==='Cache'&&post){const mv=moved(pre,post);if(p==='new_slots_mapping')return [mv.fresh];if(p==='evicted_slots')return [mv.gone];}
    if(M==='AsyncDisk'&&p==='id')return [0,1,2,3,4,5,6,7,8,9];
    if(M==='CachedJournal'&&post){if(p==='cut')return [post._unmarshalled_tail._seq_start];if(p==='addr')return isN(post._freshest_rec)?[]:[post._freshest_rec._0];}
    if(M==='LikesJournal'&&post){if(p==='new_journal')return [post._journal];if(p==='cut')return [post._journal._unmarshalled_tail._seq_start];if(p==='addr')return isN(post._journal._truncated_journal._freshest_rec)?[]:[post._journal._truncated_journal._freshest_rec._0];}
    if(M==='LinkedJournal'&&post){if(p==='new_tj')return [post._truncated_journal];if(p==='cut')return [post._unmarshalled_tail._seq_start];if(p==='addr')return isN(post._truncated_journal._freshest_rec)?[]:[post._truncated_journal._freshest_rec._0];}
    return null;});
  D.do.put=(s,l,nj)=>l.$cn==='Put'&&Y.any(s._journal,nj,JL.Put(l._messages))?SS(nj,s._cache,s._disk):null;
  return (t,c)=>{
    w.ready();w.only();params();const pool=new Pool();const A=agree(w,D,w.Sys,()=>false);
    let m={b:t.below(3),disk:new Map(),root:null,tail:[]},fz=null;let s=SS(Z.build(m),X.init(t.size(2,NS)),DK(e,e,e));let k=0;const len=t.size(4,60);
    for(const a of w.pool)for(const p of ['P1k','P2k','P3','Some_0'])pool.add(p,a);for(const l of [SL.Internal])pool.add('L',typeof l==='function'?l():l);const INT=typeof SL.Internal==='function'?SL.Internal():SL.Internal;
    const begin=(m,reads,why)=>{see();params();const j=Z.build(m),sn=w.Snap(m.b,S.ptr(m.root));const st=w.P.C[w.Sys.state.members.get('initialize').i];const g=(()=>{try{return st(s,s._disk,s._cache,j,sn,reads);}catch(x){if(x instanceof V.DafnyFail)return x.message;throw x;}})();check(g===true,()=>`initialize ${why} refuses ${show(s)}: ${g}`);};
    const ents=s=>{const r=pairs(s._disk._content).map(([a,p])=>[a,w.rec(p)]);const o=new Map(r.map(x=>[$.key(x[0]),x]));for(const i of s._cache._entries)if(['Dirty','Writeback'].includes(s._cache._status_map.get(i).$cn)){const x=s._cache._entries.get(i);o.set($.key(x._addr),[x._addr,w.rec(x._data)]);}return dm([...o.values()]);};
    const note=(...x)=>{w.only(...x);for(const y of x)if(y&&y._cache)w.play.push(ents(y));w.look(s._disk._requests);};const see=()=>note(s);
    const inv=why=>{see();check(s.m_inv()===true,()=>`the invariant fails ${why}: ${show(s)} :: ${show(s._cache)} :: ${show(s._disk)}`);};
    const stand=()=>w.P.C&&s.m_i();
    begin(m,e,'on an empty disk');inv('initially');
    for(let i=0;i<len;i++){
      const C=s._cache,J=s._journal,d=s._disk;let op=null,m2=m,crash=false;const ch=S.chain(m),z=t.below(26);const at=a=>X.at(C,a),st=a=>{const i=at(a);return i===undefined?null:C._entries.get(i);};
      const clean=a=>at(a)===undefined||C._status_map.get(at(a)).$cn==='Clean';const held=a=>st(a)&&st(a).$cn==='Filled';const pages=as=>dm(as.map(a=>[a,st(a)._data]));
      const cop=(o,D)=>X.do[o[0]](C,...o.slice(1));
      if(z<3){const ms=t.list(1,3,()=>h.put(t));if(S.tend(m)+ms.length>22)continue;m2=S.put(m,ms);op=['put',SL.Put(h.mk(S.tend(m),ms)),Z.build(m2)];}
      else if(z<7){const used=new Set(ch.map(r=>w.ak(r.a)));const as=w.pool.filter(a=>{const x=st(a);return x&&!used.has(w.ak(a))&&!(fz&&fz.k.some(r=>eq(r.a,a)))&&(x.$cn==='Reserved'||x.$cn==='Filled'&&C._status_map.get(at(a)).$cn!=='Writeback');});
        if(!as.length||!m.tail.length){const us=w.pool.filter(a=>at(a)===undefined&&!(fz&&fz.k.some(r=>eq(r.a,a)))),fs=[...C._entries].filter(i=>C._entries.get(i).$cn==='Empty');if(!us.length||!fs.length||as.length)continue;const nc=X.do.reserve(C,CL.Internal,dm([[t.pick(fs),t.pick(us)]]));op=['cache_internal',INT,nc];}
        else{const a=t.pick(as),cut=S.end(m)+1+t.below(m.tail.length);m2=S.marshal(m,cut,a);const r=Z.rec(m2.disk.get(w.ak(a)));op=['journal_marshal',INT,Z.build(m2),X.do.access(C,CL.Access(e,dm([[a,w.raw(r)]]))),a,r];}}
      else if(z<14){ // the cache talks to the disk
        let o=null;const rs=pairs(d._responses);if(rs.length&&t.below(4)){const kind=t.pick(rs)[1].$cn;let l=rs.filter(x=>x[1].$cn===kind);l=X.sub(t,l,4).length?X.sub(t,l,4):l;if(!l.length)continue;o=[kind==='ReadResp'?'load_complete':'writeback_complete',CL.DiskOps(e,dm(l))];}
        else for(let j=0;j<8&&!o;j++){const y=X.op(t,C,{loadable:a=>d._content.has(a),data:()=>[0]});if(y&&/initiate/.test(y[0])&&![...y[1]._requests].some(i=>d._requests.has(i)||d._responses.has(i)))o=y;}
        if(!o)continue;const nc=cop(o);const nd=diskOps(d,o[1]._requests,o[1]._responses);op=['cache_disk_ops',INT,nc,nd,o[1]._requests,o[1]._responses];}
      else if(z<18){const ids=[...d._requests];if(!ids.length)continue;const nd=process(d,t.pick(ids));op=['disk_internal',INT,nd];}
      else if(z<20){let o=null;for(let j=0;j<8&&!o;j++){const y=X.op(t,C,{data:()=>[0]});if(y&&(y[0]==='evict'||y[0]==='reserve'))o=y;}if(!o)continue;op=['cache_internal',INT,cop(o)];}
      else if(z===20){const x=m.b+t.below(S.end(m)-m.b+1);const n=Z.discard(m,x);const gone=[...m.disk.values()].filter(r=>!n.disk.has(w.ak(r.a))).map(r=>r.a);if(!gone.every(clean))continue;m2=n;op=['discard_old',SL.DiscardOld(x,S.end(m)),Z.build(n),DSet.from(gone)];}
      else if(z<23){const f=Z.frozen(t,m);if(!f||f.root&&!held(f.root.a)||!f.k.every(r=>clean(r.a)))continue;op=['freeze_for_commit',SL.FreezeForCommit(f.snap),DSet.from(f.k.map(r=>r.a)),pages(f.root?[f.root.a,...ch.map(r=>r.a).filter(a=>held(a)&&t.below(3)===0)]:[])];fz=f;f.hist=h.mk(f.b,f.root?f.k.flatMap(r=>r.ms.map((x,i)=>[r.s+i,x])).filter(x=>x[0]>=f.b).map(x=>x[1]):[]);}
      else if(z===23){const rs=ch.filter(r=>held(r.a));if(!rs.length)continue;const r=t.pick(rs),mm=h.mk(r.s,r.ms);op=['read_for_recovery',SL.ReadForRecovery(r.s>=m.b?mm:h.slice(mm,m.b,mm._seq_end)),pages([r.a,...ch.map(x=>x.a).filter(a=>held(a)&&t.below(3)===0)])];}
      else if(z===24)op=['query_end_lsn',SL.QueryEndLsn(S.tend(m))];
      else{ // crash: the cache and everything outstanding are lost; start over from the last frozen journal
        if(!fz||t.below(2)||fz.k.length>C._entries.size)continue;crash=true;const k2=new Map(fz.k.map(r=>[w.ak(r.a),r]));m={b:fz.b,disk:k2,root:fz.root?w.ak(fz.root.a):null,tail:[]};
        const n=C._entries.size;let nc=X.init(n);fz.k.forEach((r,i)=>{nc=CC(nc._entries.set(i,En.Filled(r.a,d._content.get(r.a))),nc._status_map.set(i,Sa.Clean),nc._lookup_map.set(r.a,i),nc._outstanding_reqs);});
        s=SS(Z.build(m),nc,DK(e,e,d._content));c.label('crash');c.log(()=>'crash to '+show(fz.snap));begin(m,dm(fz.k.map(r=>[r.a,d._content.get(r.a)])),'after a crash');}
      const pre=s;
      if(!crash){
        k++;c.label(op[0]);c.log(()=>op[0]+' '+show(op.slice(1)));
        s=A.step(t,pool,s,op);
        check(eq(s._journal,Z.build(m2)),()=>`${op[0]} leads to the journal ${show(s._journal)}, not ${show(Z.build(m2))}`);m=m2;}
      inv('after '+(crash?'a crash':op[0]));if(!X.busy(s._cache))throw new Error('harness: busy '+show(s._cache));
      // what the system stands for
      see();const im=s.m_i(),want=h.mk(m.b,S.hist(m));check(eq(w.tryH(im._journal),want),()=>`the system stands for ${show(im)}, but holds ${show(want)}`);check(eq(im._journal._truncated_journal,S.ltj(Object.assign({},m,{disk:new Map(S.chain(m).map(r=>[w.ak(r.a),r]))}))),()=>`ephemeral_tj is ${show(im._journal._truncated_journal)}`);
      if(!crash&&(only||op[0]!=='discard_old'||!pre._journal._unmarshalled_tail._msgs.size)){const sl=op[1],ip=(note(pre),pre.m_i()),il=sl.m_i(pre);note(pre,s,sl,ip,im,il);params();const r=(()=>{try{return w.Likes.next(ip,im,il);}catch(x){if(x instanceof V.DafnyFail)return x.message;throw x;}})();if(op[0]==='discard_old'&&pre._journal._unmarshalled_tail._msgs.size)check(r===true,'discarding old records while messages are unmarshalled is no step of the journal it implements');check(r===true,()=>`${op[0]} of ${show(sl)} is no step of the journal it implements: ${show(ip)} to ${show(im)}: ${r}`);
        if(op[0]==='freeze_for_commit'){see();const tj=pre.m_tj_at(fz.snap);check(eq(w.tryR(tj),fz.hist),()=>`the frozen journal holds ${show(w.tryR(tj))}, not ${show(fz.hist)}`);}}
      // a frozen journal is on disk, and stays there
      if(fz){const ent=dm(pairs(s._disk._content).map(([a,p])=>[a,w.rec(p)]));const tj=w.LTJ(fz.snap._freshest_rec,w.DV(fz.b,ent));const g=w.tryR(tj);check(g!==null&&eq(g,fz.hist),()=>`the disk holds ${g?show(g):'no'} messages for the frozen journal ${show(fz.snap)}, not ${show(fz.hist)}`);}
    }
    c.nontrivial(k>=3);c.sample(k+' steps to '+show(s._journal).slice(0,120));
  };
}
const discardTail=o=>system(o,true);
module.exports={setup,cacheModel,agree,applier,props:{V07:{rule:'a case counts when at least two transitions were taken',quick:30,thorough:600,parts:{cache:{make:cache,weight:2},journal:{make:journal,weight:2},system:{make:system,weight:4},discardTail:{make:discardTail,weight:0.3}},assumptions:['up to four cache slots, seven addresses and 22 messages; the record marshalling, which the specification leaves unspecified, is stood in for by an interning table','an address used by the last frozen journal is not reused before the next freeze (the allocator above this layer sees to that)','discarding with messages in the unmarshalled tail is compared with the layer below only in part discardTail (known finding)']}}};
