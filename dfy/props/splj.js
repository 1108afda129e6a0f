'use strict';
// D02: the journal layers of the Dafny Splinter model: paged records, records linked on disk, and the layers that track which pages are in use.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES}=require('../externs.js');const {check,discard}=require('../pbt.js');
const {DMap,DSet,DMs}=$;const {machine,upd,perturb,Pool}=require('../sm.js');const N=Number,eq=$.eq;const show=x=>$.show?$.show(x).slice(0,500):String(x);
const KEYS=[[0],[1],[2,2]],VALS=[[],[7],[9]],TOP=23;
const some=x=>x.$cn==='Some';
const pr=r=>r.__priorRec;
const prior=(b,r)=>b<N(r._messageSeq._seqStart)?pr(r):null;
// heights over the links that are still followed, or null when they form a cycle
function ranks(dv){const b=N(dv._boundaryLSN),es=dv._entries,out=new Map(),busy=new Set();let bad=false;
  const go=a=>{const k=$.key(a);if(out.has(k))return out.get(k)[1];if(busy.has(k)){bad=true;return 0;}busy.add(k);let h=0;if(es.has(a)){const p=prior(b,es.get(a));if(p&&some(p))h=1+go(p._value);}busy.delete(k);out.set(k,[a,h]);return h;};
  for(const a of es)go(a);return bad?null:DMap.of([...out.values()]);}
const flatRanks=dv=>DMap.of([...dv._entries].map(a=>[a,0]));
const OV={'LinkedJournal.DiskView.Acyclic':function(){const r=ranks(this);return r?this._ValidRanking(r)===true:this._ValidRanking(flatRanks(this))===true;},'LinkedJournal.DiskView.TheRanking':function(){return ranks(this);},
  'GenericDisk.PageCount':()=>4};
const cache=new Map();
function world(REPO){
  if(cache.has(REPO))return cache.get(REPO);
  const d=REPO+'/Splinter/Journal/';const P=new Program({externs:EX,types:TYPES,guess:true,overrides:OV}).load(d+'PagedJournalRefinement.i.dfy',d+'LinkedJournalRefinement.i.dfy',d+'LikesJournalRefinement.i.dfy',d+'ReprJournalRefinement.i.dfy');
  const m=n=>P.m(n);const W={P,H:m('MsgHistoryMod'),V:m('ValueMessage'),O:m('Options'),A:m('AbstractJournal'),PJ:m('PagedJournal'),LJ:m('LinkedJournal'),KJ:m('LikesJournal'),RJ:m('ReprJournal'),PR:m('PagedJournalRefinement'),LR:m('LinkedJournalRefinement'),KR:m('LikesJournalRefinement'),RR:m('ReprJournalRefinement'),G:m('GenericDisk')};
  W.hist=(a,ms)=>W.H.MsgHistory(DMap.of(ms.map((x,i)=>[a+i,x])),a,a+ms.length);
  W.hok=h=>{const a=N(h._seqStart),b=N(h._seqEnd);if(a>b||h._msgs.size!==b-a)return false;for(let i=a;i<b;i++)if(!h._msgs.has(i))return false;return true;};
  W.msgs=h=>{const r=[];for(let i=N(h._seqStart);i<N(h._seqEnd);i++)r.push(h._msgs.get(i));return r;};
  W.cut=(h,a,b)=>W.hist(a,W.msgs(h).slice(a-N(h._seqStart),b-N(h._seqStart)));
  W.cat=(h,x)=>W.hist(N(h._seqStart),[...W.msgs(h),...W.msgs(x)]);
  W.from=(h,b)=>N(h._seqStart)<=b?W.cut(h,b,N(h._seqEnd)):h;
  W.some=x=>W.O.Some(x);W.none=W.O.None;W.a=(i,j)=>W.G.Address(i,j||0);
  W.kmsg=t=>W.H.KeyedMessage(t.pick(KEYS),W.V.Define(t.pick(VALS)));W.ms=(t,n)=>[...Array(n)].map(()=>W.kmsg(t));
  W.step=null;W.setup=()=>{$.universes.length=0;$.universes.push(u=>{if(u&&(u.k==='int'||u.k==='nat'))return [...Array(TOP+6).keys()];if(u&&u.k==='dt'&&/\.Step$/.test(u.cell.qname||''))return W.step?[W.step]:[];return null;});};
  cache.set(REPO,W);return W;}
// one layer: how its states are read, and what its steps should do, independently of its code
function layer(W,kind){
  const {hist,hok,msgs,cut,cat,from,PJ,LJ,KJ,RJ}=W;const M={paged:PJ,linked:LJ,likes:KJ,repr:RJ}[kind];const paged=kind==='paged',idx=kind==='likes'||kind==='repr',repr=kind==='repr';
  const J=s=>idx?s._journal:s,tail=s=>J(s)._unmarshalledTail,tj=s=>J(s)._truncatedJournal,index=s=>repr?s._reprIndex:s._lsnAddrIndex;
  const bdy=x=>N(paged?x._boundaryLSN:x._diskView._boundaryLSN);
  const L={M,kind,paged,idx,repr,J,tail,tj,index,bdy};
  // chains
  const precs=x=>{const r=[];for(let o=x._freshestRec;some(o);o=o._value._priorRec)r.push(o._value);return r;};
  L.acyclic=x=>paged||ranks(x._diskView)!==null;
  const okDV=dv=>{const b=N(dv._boundaryLSN);for(const a of dv._entries){const r=dv._entries.get(a),h=r._messageSeq;if(!hok(h)||N(h._seqStart)===N(h._seqEnd))return false;const p=prior(b,r);if(p===null)continue;if(!some(p)||!dv._entries.has(p._value))return false;if(N(dv._entries.get(p._value)._messageSeq._seqEnd)!==N(h._seqStart))return false;}return true;};
  L.okTJ=x=>{if(paged){const c=precs(x),b=bdy(x);if(!c.length)return true;if(!c.every(r=>hok(r._messageSeq)))return false;for(let i=0;i+1<c.length;i++)if(N(c[i+1]._messageSeq._seqEnd)!==N(c[i]._messageSeq._seqStart))return false;
      for(let i=0;i<c.length;i++){const h=c[i]._messageSeq;if(!(b<N(h._seqEnd)))return false;if(N(h._seqStart)<=b)return true;}return false;}
    const dv=x._diskView,f=x._freshestRec;return okDV(dv)&&(!some(f)||dv._entries.has(f._value)&&bdy(x)<N(dv._entries.get(f._value)._messageSeq._seqEnd));};
  // records from the newest on, down to the one that holds the boundary: [address, history]
  L.chain=x=>{const r=[],b=bdy(x);if(paged){for(const y of precs(x)){r.push([null,y._messageSeq,y]);if(N(y._messageSeq._seqStart)<=b)break;}return r;}
    let f=x._freshestRec;const dv=x._diskView;while(f&&some(f)&&r.length<40){const e=dv._entries.get(f._value);r.push([f._value,e._messageSeq,e]);f=prior(b,e);}return r;};
  L.end=x=>{const f=x._freshestRec;return !some(f)?bdy(x):N((paged?f._value:x._diskView._entries.get(f._value))._messageSeq._seqEnd);};
  L.dec=x=>L.okTJ(x)&&L.acyclic(x);
  L.wf=s=>L.okTJ(tj(s))&&hok(tail(s))&&L.end(tj(s))===N(tail(s)._seqStart)&&(!idx||bdy(tj(s))<=L.end(tj(s)));
  L.mkTJ=(b,root,es)=>paged?PJ.TruncatedJournal(b,root):LJ.TruncatedJournal(root,LJ.DiskView(b,es));
  // the part of a journal from record number d (newest first), without what lies below b, and without unreachable pages
  L.sub=(x,d,b)=>{const c=L.chain(x).slice(d);const e=c.length?N(c[0][1]._seqEnd):bdy(x);if(e===b)return L.mkTJ(b,W.none,DMap.of([]));
    const keep=[];for(const y of c){keep.push(y);if(N(y[1]._seqStart)<=b)break;}
    if(paged){let o=W.none;for(let i=keep.length-1;i>=0;i--)o=W.some(PJ.JournalRecord(keep[i][1],o));return L.mkTJ(b,o);}
    return L.mkTJ(b,W.some(keep[0][0]),DMap.of(keep.map(y=>[y[0],y[2]])));};
  L.flatTJ=x=>{const c=L.chain(x).map(y=>y[1]).reverse();let r=hist(bdy(x),[]);for(const h of c)r=cat(r,from(h,N(r._seqEnd)));return r;};
  L.flat=s=>cat(L.flatTJ(tj(s)),tail(s));
  L.mkJ=(x,h)=>(paged?PJ:LJ).Variables(x,h);
  L.withJ=(s,x,h)=>idx?upd(s,{journal:L.mkJ(x,h)}):L.mkJ(x,h);
  L.build=x=>{const o=[];for(const [a,h] of L.chain(x))for(let i=Math.max(bdy(x),N(h._seqStart));i<N(h._seqEnd);i++)o.push([i,a]);return DMap.of(o);};
  const vals=mp=>DSet.from([...mp].map(k=>mp.get(k)));L.vals=vals;
  L.append=(x,a,h)=>paged?PJ.TruncatedJournal(x._boundaryLSN,W.some(PJ.JournalRecord(h,x._freshestRec))):LJ.TruncatedJournal(W.some(a),upd(x._diskView,{entries:x._diskView._entries.set?x._diskView._entries.set(a,LJ.JournalRecord(h,x._freshestRec)):DMap.of([...[...x._diskView._entries].filter(k=>!eq(k,a)).map(k=>[k,x._diskView._entries.get(k)]),[a,LJ.JournalRecord(h,x._freshestRec)]])}));
  const minus=(a,b)=>DSet.from([...a].filter(k=>!b.has(k)));const plus=(a,b)=>DSet.from([...a,...b]);const subset=(a,b)=>[...a].every(k=>b.has(k));
  const withIdx=(s,mp)=>upd(s,repr?{reprIndex:mp}:{lsnAddrIndex:mp});
  L.frozen=l=>repr?l._frozenJournal._journal:l._frozenJournal;
  L.posts=(s,l,st)=>{if(!L.wf(s))return [];const x=tj(s),h=tail(s),b=bdy(x),e=N(h._seqStart),top=N(h._seqEnd);
    switch(st.$cn){
      case 'ReadForRecoveryStep':{if(l.$cn!=='ReadForRecoveryLabel'||!hok(l._messages)||!L.acyclic(x))return [];const c=L.chain(x),d=N(st._depth);return d<c.length&&eq(from(c[d][1],b),l._messages)?[s]:[];}
      case 'FreezeForCommitStep':{if(l.$cn!=='FreezeForCommitLabel'||!L.acyclic(x))return [];const f=L.frozen(l);if(!L.dec(f))return [];const c=L.chain(x),d=N(st._depth);if(d>c.length)return [];const nb=bdy(f),ce=d<c.length?N(c[d][1]._seqEnd):b;if(!(b<=nb&&nb<=ce))return [];if(!eq(f,L.sub(x,d,nb)))return [];
        if(repr&&!(subset(l._frozenJournal._reserved,s._reserved)&&subset(l._frozenJournal._stranded,s._stranded)))return [];return [s];}
      case 'ObserveFreshJournalStep':return l.$cn==='QueryEndLsnLabel'&&N(l._endLsn)===top?[s]:[];
      case 'PutStep':return l.$cn==='PutLabel'&&hok(l._messages)&&N(l._messages._seqStart)===top?[L.withJ(s,x,cat(h,l._messages))]:[];
      case 'DiscardOldStep':{if(l.$cn!=='DiscardOldLabel')return [];const z=N(l._startLsn);if(!(b<=z&&z<=top&&N(l._requireEnd)===top))return [];if(!paged&&z>e)return [];if(!L.acyclic(x))return idx?[]:null;
        const h2=e<=z?cut(h,z,top):h;if(paged)return [L.withJ(s,z>=e?L.mkTJ(z,W.none):L.sub(x,0,z),h2)];if(!idx)return [L.withJ(s,L.sub(x,0,z),h2)];
        const i2=DMap.of([...index(s)].filter(k=>N(k)>=z).map(k=>[k,index(s).get(k)])),keep=vals(i2),es=DMap.of([...x._diskView._entries].filter(k=>keep.has(k)).map(k=>[k,x._diskView._entries.get(k)]));
        let n=withIdx(L.withJ(s,L.mkTJ(z,L.end(x)===z?W.none:x._freshestRec,es),h2),i2);if(repr)n=upd(n,{stranded:plus(s._stranded,minus(vals(index(s)),keep))});return [n];}
      case 'InternalJournalMarshalStep':{const z=N(st._cut);if(l.$cn!=='InternalLabel'||!(e<z&&z<=top))return [];const a=st._addr;if(!paged){if(kind==='likes'?vals(index(s)).has(a):x._diskView._entries.has(a))return [];if(repr&&!s._reserved.has(a))return [];}
        let n=L.withJ(s,L.append(x,a,cut(h,e,z)),cut(h,z,top));if(idx){for(let i=e;i<z;i++)if(index(s).has(i))throw new TypeError('index ahead of the journal');const o=[...index(s)].map(k=>[k,index(s).get(k)]);for(let i=e;i<z;i++)o.push([i,a]);n=withIdx(n,DMap.of(o));}
        if(repr)n=upd(n,{reserved:minus(s._reserved,DSet.from([a]))});return [n];}
      case 'InternalJournalReserveStep':return l.$cn==='InternalJournalGCLabel'&&l._allocations.size>0&&l._freed.size===0?[upd(s,{reserved:plus(s._reserved,l._allocations)})]:[];
      case 'InternalJournalFreeStep':return l.$cn==='InternalJournalGCLabel'&&l._allocations.size===0&&l._freed.size>0&&subset(l._freed,s._stranded)?[upd(s,{stranded:minus(s._stranded,l._freed)})]:[];
      case 'InternalNoOpStep':return l.$cn==='InternalLabel'?[s]:[];}
    return [];};
  L.ref=(s,n,l,st)=>{const p=L.posts(s,l,st);if(p===null)throw new TypeError('cyclic');return p.some(y=>eq(y,n));};
  L.mkFrozen=(f,s,t)=>repr?RJ.GCTruncatedJournal(DSet.from([...s._reserved].filter(()=>!t||t.bool())),DSet.from([...s._stranded].filter(()=>!t||t.bool())),f):f;
  // a journal as found on disk after a restart
  L.start=t=>{const k=t.below(4),x0=t.below(4);let at=x0;const hs=[];for(let i=0;i<k;i++){const n=1+t.below(3);hs.push(hist(at,W.ms(t,n)));at+=n;}
    const b=k?N(hs[0]._seqStart)+t.below(N(hs[0]._seqEnd)-N(hs[0]._seqStart)):x0;
    if(paged){let o=W.none;if(k&&t.below(4)===3&&x0)o=W.some(PJ.JournalRecord(hist(x0-1,W.ms(t,1)),o));for(const h of hs)o=W.some(PJ.JournalRecord(h,o));const v=PJ.TruncatedJournal(b,o);return v;}
    let o=t.below(3)===2?W.some(W.a(9,1)):W.none;const es=[];for(const h of hs){const a=W.a(es.length%3,es.length);es.push([a,LJ.JournalRecord(h,o)]);o=W.some(a);}if(!k)o=W.none;
    if(kind==='linked'&&t.below(3)===2)es.push([W.a(7,0),LJ.JournalRecord(hist(b,W.ms(t,1)),o)]);
    return LJ.TruncatedJournal(o,LJ.DiskView(b,DMap.of(es)));};
  L.fresh=(x,t,g)=>{const h=hist(L.end(x),[]);const j=L.mkJ(x,h);return kind==='likes'?KJ.Variables(j,L.build(x)):repr?RJ.Variables(j,L.build(x),g._reserved,g._stranded):j;};
  L.tight=x=>paged||(()=>{const c=DSet.from(L.chain(x).map(y=>y[0]));return c.size===x._diskView._entries.size&&[...x._diskView._entries].every(a=>c.has(a));})();
  L.inv=s=>{if(paged)return true;if(!L.wf(s)||!L.acyclic(tj(s)))return false;return !idx||eq(index(s),L.build(tj(s)))&&L.tight(tj(s));};
  const S=M;
  L.next=(t,s)=>{const go=(l,st)=>{const p=L.posts(s,l,st);return p&&p.length?{n:p[0],l,step:st}:null;};const x=tj(s),h=tail(s),b=bdy(x),e=N(h._seqStart),top=N(h._seqEnd),c=L.chain(x);
    for(let i=0;i<20;i++){let r=null;switch(t.weighted([[5,'put'],[5,'mar'],[3,'dis'],[3,'fre'],[2.5,'read'],[1,'obs'],[.5,'no'],...(repr?[[3,'res'],[2,'free']]:[])])){
      case 'put':{const n=t.below(4);if(top+n<TOP)r=go(S.PutLabel(hist(top,W.ms(t,n))),S.PutStep);break;}
      case 'mar':{if(top>e){const z=e+1+t.below(top-e);const un=repr?[...s._reserved]:[...Array(4).keys()].flatMap(i=>[0,1,2].map(j=>W.a(i,j)));const a=un.length?t.pick(un):W.a(0);r=go(S.InternalLabel,paged?S.InternalJournalMarshalStep(z):S.InternalJournalMarshalStep(z,a));}break;}
      case 'dis':{const hi=paged?top:e;const z=b+t.below(Math.min(hi-b,t.below(3)?4:99)+1);r=go(S.DiscardOldLabel(z,top),S.DiscardOldStep);break;}
      case 'fre':{const d=t.below(Math.min(3,c.length)+1),ce=d<c.length?N(c[d][1]._seqEnd):b;const nb=b+t.below(ce-b+1);if(L.acyclic(x))r=go(S.FreezeForCommitLabel(L.mkFrozen(L.sub(x,d,nb),s,t)),S.FreezeForCommitStep(d));break;}
      case 'read':{if(c.length){const d=t.below(c.length);r=go(S.ReadForRecoveryLabel(from(c[d][1],b)),S.ReadForRecoveryStep(d));}break;}
      case 'obs':r=go(S.QueryEndLsnLabel(top),S.ObserveFreshJournalStep);break;
      case 'no':r=go(S.InternalLabel,S.InternalNoOpStep);break;
      case 'res':{const u=[];for(let i=0;i<5;i++)for(let j=0;j<3;j++){const a=W.a(i,j);if(!x._diskView._entries.has(a)&&!s._reserved.has(a)&&!s._stranded.has(a)&&t.below(4)===0)u.push(a);}if(s._reserved.size<5)r=go(S.InternalJournalGCLabel(DSet.from(u),DSet.from([])),S.InternalJournalReserveStep);break;}
      case 'free':{const u=[...s._stranded].filter(()=>t.bool());r=go(S.InternalJournalGCLabel(DSet.from([]),DSet.from(u)),S.InternalJournalFreeStep);break;}}
      if(r)return r;}
    return go(S.InternalLabel,S.InternalNoOpStep);};
  // steps that are nearly right
  L.tricks=(t,s)=>{if(!L.wf(s)||!L.acyclic(tj(s)))return [];const out=[];const put=(n,l,step,q)=>out.push({n,l,step,s:q});const x=tj(s),h=tail(s),b=bdy(x),e=N(h._seqStart),top=N(h._seqEnd),c=L.chain(x);
    const mar=(z,a)=>paged?S.InternalJournalMarshalStep(z):S.InternalJournalMarshalStep(z,a);
    for(const z of [e,top]){const a=paged?null:t.below(2)&&x._diskView._entries.size?t.pick([...x._diskView._entries]):W.a(4,t.below(3));let n=L.withJ(s,L.append(x,a,cut(h,e,z)),cut(h,z,top));if(idx){const o=[...index(s)].map(k=>[k,index(s).get(k)]);for(let i=e;i<z;i++)o.push([i,a]);n=withIdx(n,DMap.of(o));if(repr)n=upd(n,{reserved:minus(s._reserved,DSet.from([a]))});}put(n,S.InternalLabel,mar(z,a));}
    for(let i=0;i<3;i++){const d=t.below(c.length+1),ce=d<c.length?N(c[d][1]._seqEnd):b,nb=b+t.below(ce-b+1);const f=L.sub(x,d,nb);put(s,S.FreezeForCommitLabel(L.mkFrozen(f,s)),S.FreezeForCommitStep(Math.max(0,d+t.below(3)-1)));
      if(!paged){const g=L.mkTJ(nb,f._freshestRec,x._diskView._entries);put(s,S.FreezeForCommitLabel(L.mkFrozen(g,s)),S.FreezeForCommitStep(d));const q=upd(f,{diskView:upd(f._diskView,{entries:DMap.of([...f._diskView._entries].slice(1).map(k=>[k,f._diskView._entries.get(k)]))})});put(s,S.FreezeForCommitLabel(L.mkFrozen(q,s)),S.FreezeForCommitStep(d));}
      if(repr){put(s,S.FreezeForCommitLabel(RJ.GCTruncatedJournal(plus(s._reserved,DSet.from([W.a(8)])),s._stranded,f)),S.FreezeForCommitStep(d));put(s,S.FreezeForCommitLabel(RJ.GCTruncatedJournal(s._reserved,plus(s._stranded,DSet.from([W.a(8)])),f)),S.FreezeForCommitStep(d));}}
    for(let d=0;d<=c.length;d++){const y=c[Math.min(d,c.length-1)];if(y)for(const w of [y[1],from(y[1],b)])put(s,S.ReadForRecoveryLabel(w),S.ReadForRecoveryStep(d));}
    const nh=hist(top+t.below(2),W.ms(t,1));put(L.withJ(s,x,W.H.MsgHistory(DMap.of([...[...h._msgs].map(k=>[k,h._msgs.get(k)]),...[...nh._msgs].map(k=>[k,nh._msgs.get(k)])]),h._seqStart,nh._seqEnd)),S.PutLabel(nh),S.PutStep);
    for(const [z,q] of [[e+1,top],[b,top-1],[b,top+1],[b-1,top],[top,top],[e,top]]){if(z<0||q<0)continue;const cl=Math.max(Math.min(z,paged?top:e),b);for(const p of [L.posts(s,S.DiscardOldLabel(cl,top),S.DiscardOldStep)])if(p&&p.length)put(p[0],S.DiscardOldLabel(z,q),S.DiscardOldStep);}
    put(s,S.QueryEndLsnLabel(t.pick([b,e,top,top+1])),S.ObserveFreshJournalStep);put(s,S.InternalLabel,S.ObserveFreshJournalStep);for(const z of [hist(top,W.ms(t,1)),hist(top,W.ms(t,2))])for(const l of [S.InternalLabel,S.QueryEndLsnLabel(top)])put(L.withJ(s,x,cat(h,z)),l,l.$cn==='InternalLabel'?S.InternalNoOpStep:S.ObserveFreshJournalStep);if(idx)put(withIdx(s,DMap.of([...index(s)].slice(1).map(k=>[k,index(s).get(k)]))),S.InternalLabel,S.InternalNoOpStep);put(s,S.QueryEndLsnLabel(top),S.InternalNoOpStep);put(s,S.InternalLabel,S.PutStep);
    if(repr){const a=DSet.from([W.a(6)]);for(const [al,fr] of [[a,a],[a,DSet.from([])],[DSet.from([]),a],[DSet.from([]),DSet.from([])],[a,s._stranded]]){const l=S.InternalJournalGCLabel(al,fr);put(upd(s,{reserved:plus(s._reserved,al)}),l,S.InternalJournalReserveStep);put(upd(s,{stranded:minus(s._stranded,fr)}),l,S.InternalJournalFreeStep);}}
    return out;};
  return L;}
function make(kind){return ({REPO})=>{
  const W=world(REPO),L=layer(W,kind),UP=kind==='paged'?null:layer(W,{linked:'paged',likes:'linked',repr:'linked'}[kind]);const {M}=L;const R={paged:W.PR,linked:W.LR,likes:W.KR,repr:W.RR}[kind];
  const run=(s,n,l,st)=>M.NextStep(s,n,l,st)===true;
  const addr=a=>N(a._au)>=0&&N(a._page)>=0;const hn=h=>N(h._seqStart)>=0&&N(h._seqEnd)>=0&&N(h._seqEnd)<TOP+5&&[...h._msgs].every(k=>N(k)>=0&&N(k)<TOP+5);
  const dvok=x=>L.paged?(()=>{for(let o=x._freshestRec;some(o);o=o._value._priorRec)if(!hn(o._value._messageSeq))return false;return N(x._boundaryLSN)>=0;})():N(x._diskView._boundaryLSN)>=0&&[...x._diskView._entries].every(a=>addr(a)&&hn(x._diskView._entries.get(a)._messageSeq));
  const typed=s=>{try{return hn(L.tail(s))&&dvok(L.tj(s))&&(!L.idx||[...L.index(s)].every(k=>N(k)>=0&&N(k)<TOP+5));}catch(e){if(e instanceof TypeError)return false;throw e;}};
  const init=t=>{W.setup();const x=L.start(t);const g=L.repr?W.RJ.GCTruncatedJournal(DSet.from([W.a(4,0),W.a(4,1)].slice(0,t.below(3))),DSet.from([W.a(5,0)].slice(0,t.below(2))),x):x;const s=L.fresh(x,t,g);
    check(L.wf(s)&&L.inv(s),'harness: bad start');check(M.Init(s,g)===true,()=>`Init rejects ${show(s)} for ${show(g)}`);
    // starting states that do not match their journal
    if(kind==='linked'){const o=W.a(8,0),q=W.a(8,1),z=L.bdy(x),h=W.hist(z+1,W.ms(t,1));
      // a ring of pages, and a page that lies on nothing
      for(const es of [[[o,W.LJ.JournalRecord(h,W.some(o))]],[[o,W.LJ.JournalRecord(h,W.some(q))]]]){const y=W.LJ.TruncatedJournal(W.some(o),W.LJ.DiskView(z,DMap.of(es)));let r=false;try{r=M.Init(L.mkJ(y,W.hist(z+2,[])),y);}catch(e){if(!(e instanceof $.DafnyFail))throw e;}check(r!==true,()=>`Init accepts ${show(y)}`);}}
    const pool=new Pool();pool.walk(s,'S');for(let i=0;i<3;i++){const y=perturb(t,s,'S',pool);if(typed(y)&&!eq(y,s))check(M.Init(y,g)!==true,()=>`Init accepts ${show(y)} for ${show(g)}`);}
    if(L.idx&&!L.paged){const es=L.tj(s)._diskView._entries;const x2=upd(x,{diskView:upd(x._diskView,{entries:DMap.of([...[...es].map(k=>[k,es.get(k)]),[W.a(7,2),W.LJ.JournalRecord(W.hist(L.bdy(x),W.ms(t,1)),W.none)]])})});const s2=upd(s,{journal:L.mkJ(x2,L.tail(s))});check(M.Init(s2,L.repr?upd(g,{journal:x2}):x2)!==true,()=>`Init accepts a disk with an unreachable page ${show(s2)}`);}
    return s;};
  const rinv=s=>{try{return R.Inv(s)===true;}catch(e){if(e instanceof $.DafnyFail)return false;throw e;}};
  const upS=s=>kind==='linked'?UP.mkJ(upTJ(L.tj(s)),L.tail(s)):s._journal;
  const upTJ=x=>{if(kind!=='linked')return x;const c=L.chain(x);let o=W.none;for(let i=c.length-1;i>=0;i--)o=W.some(W.PJ.JournalRecord(c[i][1],o));return W.PJ.TruncatedJournal(L.bdy(x),o);};
  const after=(s,n,l,st,t,c)=>{
    W.step=st;check(M.Next(s,n,l)===true,()=>`Next does not contain ${st.$cn}`);
    check(L.inv(n),'harness: own invariant');check(rinv(n),()=>`Inv fails after ${st.$cn}: ${show(n)}`);
    // what the journal holds
    const a=L.flat(s),b=L.flat(n);const want=l.$cn==='PutLabel'?W.cat(a,l._messages):l.$cn==='DiscardOldLabel'?W.cut(a,N(l._startLsn),N(a._seqEnd)):a;check(eq(b,want),()=>`${st.$cn} turns ${show(a)} into ${show(b)}`);
    // refinement, one layer up
    if(UP){const us=upS(s),un=upS(n);for(const [x,y] of [[s,us],[n,un]]){const g=R.I(x);check(eq(g,y),()=>`I of ${show(x)} is ${show(g)}, not ${show(y)}`);}
      const ul=kind==='linked'?W.LR.ILbl(l):l._I();let want=l;const U=UP.M;
      if(l.$cn==='FreezeForCommitLabel'){want=U.FreezeForCommitLabel(kind==='linked'?upTJ(l._frozenJournal):L.frozen(l));}else if(l.$cn==='InternalLabel'||l.$cn==='InternalJournalGCLabel')want=U.InternalLabel;
      else if(l.$cn==='PutLabel')want=U.PutLabel(l._messages);else if(l.$cn==='ReadForRecoveryLabel')want=U.ReadForRecoveryLabel(l._messages);else if(l.$cn==='QueryEndLsnLabel')want=U.QueryEndLsnLabel(l._endLsn);else want=U.DiscardOldLabel(l._startLsn,l._requireEnd);
      check(eq(ul,want),()=>`label ${show(l)} becomes ${show(ul)}`);
      let ust;switch(st.$cn){case 'ReadForRecoveryStep':ust=U.ReadForRecoveryStep(st._depth);break;case 'FreezeForCommitStep':ust=U.FreezeForCommitStep(st._depth);break;case 'InternalJournalMarshalStep':ust=kind==='linked'?U.InternalJournalMarshalStep(st._cut):U.InternalJournalMarshalStep(st._cut,st._addr);break;case 'InternalJournalReserveStep':case 'InternalJournalFreeStep':ust=U.InternalNoOpStep;break;default:ust=U[st.$cn];}
      if(L.idx)check(eq(R.IStep(st),ust),()=>`step ${show(st)} is mapped to ${show(R.IStep(st))}`);
      W.step=ust;check(U.NextStep(us,un,ul,ust)===true,()=>`${st.$cn} of the ${kind} journal is no step of the layer above`);}
    else {const I=R.I(s),J=R.I(n);check(eq(I._journal,a)&&eq(J._journal,b),()=>`I of ${show(n)} is ${show(J)}`);const al=R.ILbl(l),A=W.A;
      if(l.$cn==='FreezeForCommitLabel')check(eq(al,A.FreezeForCommitLabel(L.flatTJ(l._frozenJournal))),()=>`frozen journal read as ${show(al)}`);
      check(al.$cn===l.$cn,'label');check(A.Next(I,J,al)===true,()=>`${st.$cn} is no step of the abstract journal`);}
    // pages in use
    if(kind==='linked'){const x=L.tj(n),c0=L.chain(x),bd=L.bdy(x);const d=t.below(c0.length+1),ce=d<c0.length?N(c0[d][1]._seqEnd):bd;let f=L.sub(x,d,bd+t.below(ce-bd+1));
      if(t.below(2)){const pool=new Pool();pool.walk(x,'S');pool.walk(L.tj(s),'S');f=perturb(t,f,'S',pool);}
      if(dvok(f)&&L.acyclic(f)&&L.dec(x)&&L.dec(f)){const fb=L.bdy(f),es=f._diskView._entries;let w=bd<=fb&&fb<=L.end(x);if(w){const g=L.sub(x,0,fb)._diskView._entries;w=[...es].every(k=>g.has(k)&&eq(g.get(k),es.get(k)));}
        check(R.InFlightSubDiskProperty(n,f)===w,()=>`InFlightSubDiskProperty of ${show(n)} and ${show(f)}`);}}
    if(!L.paged){const x=L.tj(n);const reach=DSet.from(L.chain(x).map(y=>y[0]));check(eq(x._Representation(),reach),()=>`Representation of ${show(x)} is ${show(x._Representation())}`);
      const bt=x._BuildTight();check(eq(bt,L.sub(x,0,L.bdy(x))),()=>`BuildTight of ${show(x)} is ${show(bt)}`);
      check(x._DiskIsTightWrtRepresentation()===L.tight(x),'DiskIsTightWrtRepresentation');
      if(kind==='likes'){const ml=DMs.from([...L.vals(L.index(n))]);check(eq(n._TransitiveLikes(),ml)&&eq(n._ImperativeLikes(),ml),()=>`likes of ${show(n)}`);}
      if(kind==='repr'){const d=L.vals(L.index(s)),e=L.vals(L.index(n));const lost=[...d].filter(k=>!e.has(k));check(lost.every(k=>n._stranded.has(k)),()=>`a page is leaked by ${st.$cn} from ${show(s)}`);check([...e].every(k=>d.has(k)||s._reserved.has(k)),'a page is used that was not reserved');}
      if(L.idx&&t.below(2)){const pool=new Pool();for(const y of [s,n])pool.walk(y,'S');const y=perturb(t,n,'S',pool);
        if(typed(y)&&L.wf(y)&&L.acyclic(L.tj(y))){const ix=L.index(y),z=L.tj(y),es=z._diskView._entries;c.label('invariant on a perturbed state');
          const has=(k)=>es.has(ix.get(k))&&(()=>{const h=es.get(ix.get(k))._messageSeq;return N(h._seqStart)<=N(k)&&N(k)<N(h._seqEnd);})();const e1=[...ix].every(has);check(R.IndexKeysMapToValidEntries(ix,z)===e1,()=>`IndexKeysMapToValidEntries on ${show(y)}`);
          let e2=ix.size===L.end(z)-L.bdy(z);for(let i=L.bdy(z);i<L.end(z);i++)e2=e2&&ix.has(i);check(R.IndexDomainValid(ix,z)===e2,()=>`IndexDomainValid on ${show(y)}`);
          if(e1&&e2){const e3=[...L.vals(ix)].every(a=>{const h=es.get(a)._messageSeq;for(let i=Math.max(L.bdy(z),N(h._seqStart));i<N(h._seqEnd);i++)if(!ix.has(i)||!eq(ix.get(i),a))return false;return true;});check(R.IndexRangeValid(ix,z)===e3,()=>`IndexRangeValid on ${show(y)}`);}
          const w=L.inv(y);check(rinv(y)===w,()=>`Inv ${w?'rejects':'accepts'} ${show(y)}`);}}}
  };
  return machine({setup:W.setup,init,valid:typed,next:L.next,ref:L.ref,run,perturbs:5,len:20,partial:true,tricks:L.tricks,seedPool:p=>{for(const v of VALS)p.add('Define_value',v);for(const k of KEYS)p.add('KeyedMessage_key',k);for(const l of [M.InternalLabel,M.QueryEndLsnLabel(3)])p.add('L',l);for(const k of [M.PutStep,M.InternalNoOpStep,M.ObserveFreshJournalStep])p.add('P',k);if(!L.paged)for(let i=0;i<3;i++){p.add('DiskView_entriesk',W.a(i,i));p.add('Options',W.a(i,1));}},after});
};}
exports.props={D02:{rule:'a history of at least two steps',parts:{paged:{make:make('paged'),weight:1},linked:{make:make('linked'),weight:1.2},likes:{make:make('likes'),weight:1},repr:{make:make('repr'),weight:1}},quick:30,thorough:400,
  assumptions:['log sequence numbers below 29, three keys, records of up to three messages on restart; acyclicity of a disk is decided by a depth-first search whose ranking the code checks']}};
