'use strict';
// P05: the journal cache over its ring of blocks and two superblocks: what is durable, what a replay will see, what syncs promise.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES}=require('../externs.js');const {check}=require('../pbt.js');
const {DMap,DSet}=$;const {machine,upd,perturb,Pool}=require('../sm.js');const {contractsPart}=require('../contract.js');const N=Number,eq=$.eq;const show=x=>$.show?$.show(x).slice(0,700):String(x);
const cache=new Map();const MAXC=0xffffffffffffffffn;
function world(REPO,B){
  const ck=REPO+'|'+B;if(cache.has(ck))return cache.get(ck);
  const P=new Program({externs:EX,types:TYPES,guess:true,overrides:{'Bounds.DiskNumJournalBlocksUint64':()=>B}}).load(REPO+'/BlockCacheSystem/JournalSystem_Refines_JournalView.i.dfy');
  const m=n=>P.m(n);
  const W={P,B,C:m('JournalCache'),D:m('JournalDisk'),S:m('JournalSystem'),I:m('JournalIntervals'),J:m('Journal'),JR:m('JournalRanges'),T:m('SectorType'),L:m('DiskLayout'),V:m('ViewOp'),U:m('UI'),O:m('Options'),A:m('AsyncSectorDiskModelTypes'),TS:m('ThreeStateTypes'),R:m('JournalSystem_Refines_JournalView')};
  const {L,O,T,J}=W;W.some=x=>O.Some(x);W.none=O.None;W.un=x=>x.$cn==='None'?null:x._value;W.isS=x=>x.$cn==='Some';
  const it1=2*4096+B*4096,itl=24*1024*1024;W.it=[it1,it1+itl];
  W.itLocs=[L.Location(it1,8),L.Location(it1,4096),L.Location(it1+itl,8),L.Location(it1+itl,itl)];
  W.badLocs=[L.Location(it1,0),L.Location(it1+4096,8),L.Location(it1,itl+1),L.Location(0,4096)];
  W.okIT=l=>W.it.includes(N(l._addr))&&N(l._len)>0&&N(l._len)<=itl;
  W.wf=s=>N(s._journalStart)<B&&N(s._journalLen)<=B&&W.okIT(s._indirectionTableLoc);
  W.inc=c=>BigInt(c)===MAXC?0n:BigInt(c)+1n;W.u64=x=>{x=BigInt(x);return x<=9007199254740991n?N(x):x;};
  W.sel=(a,b)=>BigInt(b._counter)===W.inc(a._counter)?1:0;
  W.add=(p,n)=>(p+n)%B;
  W.ring=(start,len)=>[...Array(len)].map((_,i)=>(start+i)%B);
  W.inR=(i,start,len)=>(i-start+B)%B<len;
  const u32=x=>[x&255,(x>>8)&255,(x>>16)&255,(x>>>24)&255];
  W.KEYS=[[],[1],[2,3],[1,0,0]];W.VALS=[[],[7],[8,9]];
  W.bytesOf=es=>es.flatMap(e=>e.$cn==='JournalInsert'?[...u32(e._key.length),...e._key,...u32(e._value.length),...e._value]:[...u32(4096+e._from.length),...e._from,...u32(e._to.length),...e._to]);
  // blocks that hold the given entries: groups, each over one or more blocks
  W.range=(t,es,max)=>{
    let i=0;const out=[];if(!es.length&&t.bool())return out.length>=max?null:[[...u32(0),...u32(1)]];
    while(i<es.length||!out.length){const k=i<es.length?1+t.below(es.length-i):0;const g=es.slice(i,i+k);i+=k;const nb=1+t.below(t.bool()?1:2);const b=[...u32(g.length),...u32(nb),...W.bytesOf(g)];
      if(nb===1)out.push(t.bool()?b:[...b,0,0]);else{const c=8+t.below(b.length-8+1);out.push(b.slice(0,c),b.slice(c));}
      if(out.length>max)return null;}
    return out;};
  W.parse=bs=>{const r=[];let i=0;const g4=(b,o)=>b[o]+b[o+1]*256+b[o+2]*65536+b[o+3]*16777216;
    while(i<bs.length){const h=Array.from(bs[i]).map(N);if(h.length<8)return null;const ne=g4(h,0),nb=g4(h,4);if(nb<1||nb>bs.length-i)return null;const s=bs.slice(i,i+nb).flatMap(x=>Array.from(x).map(N));i+=nb;let o=8;
      for(let k=0;k<ne;k++){if(o+4>s.length)return null;let kl=g4(s,o);const cl=kl>=4096;if(cl)kl-=4096;o+=4;if(kl>W.MAXK||o+kl+4>s.length)return null;const a=s.slice(o,o+kl);o+=kl;const vl=g4(s,o);o+=4;if(o+vl>s.length||vl>(cl?W.MAXK:W.MAXV))return null;const b=s.slice(o,o+vl);o+=vl;r.push(cl?J.JournalClone(a,b):J.JournalInsert(a,b));}}
    return r;};
  W.MAXK=N(m('KeyType').MaxLen());W.MAXV=N(m('ValueType').MaxLen());
  W.slice=(j,start,len)=>{const a=W.ring(start,len).map(i=>j[i]);return a.every(W.isS)?a.map(x=>x._value):null;};
  W.read=(j,start,len)=>{if(!(start>=0&&start<B&&len>=0&&len<=B))return null;const b=W.slice(Array.from(j),start,len);return b&&W.parse(b);};
  W.disk=s=>{const d=s._disk||s;const a=W.un(d._superblock1),b=W.un(d._superblock2);if(!a||!b||!W.wf(a)||!W.wf(b))return null;return W.sel(a,b)?b:a;};
  W.view=s=>{const m=s._machine,d=s._disk,sb=W.disk(s);const v={};const R=m.$cn==='Ready';const st=N(sb._journalStart),ln=N(sb._journalLen),j=d._journal;
    v.per=W.read(j,st,ln);v.perLoc=sb._indirectionTableLoc;
    const w=R&&N(m._writtenJournalLen),f=R&&N(m._frozenJournalPosition);
    v.occ=R&&W.isS(m._newSuperblock)&&eq(N(m._whichSuperblock)===1?d._superblock1:d._superblock2,m._newSuperblock);
    v.fr=R?(m._isFrozen?W.read(j,W.add(N(m._superblock._journalStart),f),w-f):W.read(j,N(m._superblock._journalStart),w)):v.per;
    v.eph=R?Array.from(m._replayJournal):v.per;
    const g=W.read(j,st,R?(v.occ&&m._commitStatus.$cn==='CommitAdvanceLocation'?w-f:w):ln);v.gamma=g&&(R?[...g,...Array.from(m._inMemoryJournalFrozen)]:g);
    v.delta=R?Array.from(m._inMemoryJournal):[];v.frl=R?W.un(m._frozenLoc):null;
    v.sync=new Map([...m._syncReqs].map(i=>[N(i),m._syncReqs.get(i).$cn==='State2'&&v.occ?'State1':m._syncReqs.get(i).$cn]));
    return v;};
  W.setup=()=>{$.bigRange=[0,1,2,3,4,5,6,7];$.universes.length=0;$.universes.push(u=>{if(!u)return null;if(u.k==='dt'&&/Location$/.test(u.cell.qname||''))return W.itLocs;if(u.name==='uint64')return [0,1,2,3,4,5];return null;});};
  cache.set(ck,W);return W;
}
function make(W){
  const {B,C,D,S,V,U,T,A,some,none,un,isS}=W;
  const rem=(m,k)=>DMap.of([...m].filter(x=>!eq(x,k)).map(x=>[x,m.get(x)]));const drop=(s,k)=>DSet.from([...s].filter(x=>!eq(x,k)));
  const mapS=(m,f)=>DMap.of([...m].map(k=>[k,f(m.get(k))]));
  const s3to2=m=>mapS(m,x=>x.$cn==='State3'?C.State2:x),s2to1=m=>mapS(m,x=>x.$cn==='State2'?C.State1:x);
  const entries=u=>u.$cn==='PutOp'?[W.J.JournalInsert(u._key,u._value)]:u.$cn==='CloneOp'?[W.J.JournalClone(u._from,u._to)]:[];
  const front=s=>N(s._journalLen)===0?null:D_int(N(s._journalStart),Math.min(N(s._journalLen),B-N(s._journalStart)));
  const back=s=>N(s._journalStart)+N(s._journalLen)<=B?null:D_int(0,N(s._journalStart)+N(s._journalLen)-B);
  const D_int=(a,l)=>W.I.JournalInterval(a,l);
  const fullRange=s=>{const f=front(s._superblock),b=back(s._superblock);if(f&&!isS(s._journalFront)||b&&!isS(s._journalBack))return null;return b?[...s._journalFront._value,...s._journalBack._value]:f?[...s._journalFront._value]:[];};
  // the successor of the cache, given the operations; null when the step is not possible
  const post=(s,dop,vop,step)=>{
    const k=step.$cn,R=s.$cn==='Ready',LS=s.$cn==='LoadingSuperblock',LO=s.$cn==='LoadingOther',JI=vop.$cn==='JournalInternalOp',nd=dop.$cn==='NoDiskOp';
    switch(k){
      case 'WriteBackJournalReqStep':{if(!JI||!R||dop.$cn!=='ReqWriteJournalOp')return null;const fz=s._inMemoryJournalFrozen.length>0;const es=fz?s._inMemoryJournalFrozen:s._inMemoryJournal;const jr=step._jr,w=N(s._writtenJournalLen);const p=W.parse(Array.from(jr));
        if(!p||!eq(p,Array.from(es))||!jr.length||jr.length+w>B||isS(s._superblockWrite)||!eq(dop._reqWriteJournal._journal,jr)||N(dop._reqWriteJournal._start)!==W.add(N(s._superblock._journalStart),w))return null;
        return upd(s,{outstandingJournalWrites:DSet.from([...s._outstandingJournalWrites,dop._id1,...(isS(dop._id2)?[dop._id2._value]:[])]),writtenJournalLen:w+jr.length,frozenJournalPosition:fz?w+jr.length:s._frozenJournalPosition,inMemoryJournal:fz?s._inMemoryJournal:[],inMemoryJournalFrozen:[],syncReqs:fz?s._syncReqs:s3to2(s._syncReqs)});}
      case 'WriteBackJournalRespStep':if(!JI||!R||dop.$cn!=='RespWriteJournalOp'||!s._outstandingJournalWrites.has(dop._id))return null;return upd(s,{outstandingJournalWrites:drop(s._outstandingJournalWrites,dop._id)});
      case 'WriteBackSuperblockReq_AdvanceLog_Step':case 'WriteBackSuperblockReq_AdvanceLocation_Step':{
        const loc=k.includes('Location');if(!JI||!R||dop.$cn!=='ReqWriteSuperblockOp'||s._commitStatus.$cn!=='CommitNone'||s._outstandingJournalWrites.size||s._inMemoryJournalFrozen.length||N(dop._which)!==(N(s._whichSuperblock)===0?1:0)||loc&&!isS(s._frozenLoc))return null;
        const w=N(s._writtenJournalLen),f=N(s._frozenJournalPosition);if(w<0||w>B||loc&&(f<0||f>w))return null;const c=W.u64(W.inc(s._superblock._counter));
        const nsb=loc?T.Superblock(c,W.add(N(s._superblock._journalStart),f),w-f,s._frozenLoc._value):T.Superblock(c,s._superblock._journalStart,w,s._superblock._indirectionTableLoc);
        if(!eq(dop._reqWriteSuperblock._superblock,nsb))return null;return upd(s,{newSuperblock:some(nsb),superblockWrite:some(dop._id),commitStatus:loc?C.CommitAdvanceLocation:C.CommitAdvanceLog});}
      case 'WriteBackSuperblockRespStep':{if(!R||dop.$cn!=='RespWriteSuperblockOp'||!eq(some(dop._id),s._superblockWrite)||!isS(s._newSuperblock))return null;const loc=s._commitStatus.$cn==='CommitAdvanceLocation';if(vop.$cn!==(loc?'CleanUpOp':'JournalInternalOp'))return null;
        return upd(s,Object.assign({superblockWrite:none,superblock:s._newSuperblock._value,newSuperblock:none,whichSuperblock:N(s._whichSuperblock)===0?1:0,syncReqs:s2to1(s._syncReqs),commitStatus:C.CommitNone},loc?{writtenJournalLen:N(s._writtenJournalLen)-N(s._frozenJournalPosition),frozenJournalPosition:0,frozenLoc:none,isFrozen:false}:{}));}
      case 'PageInJournalReqStep':{if(!JI||!LO||dop.$cn!=='ReqReadJournalOp')return null;const i=N(step._which);if(i!==0&&i!==1)return null;const iv=(i?back:front)(s._superblock);const [a,b]=i?['journalBack','journalFront']:['journalFront','journalBack'];
        if(!iv||!eq(iv,dop._interval)||isS(s['_'+a+'Read'])||isS(s['_'+a]))return null;return upd(s,{[a+'Read']:some(dop._id),[b+'Read']:eq(s['_'+b+'Read'],some(dop._id))?none:s['_'+b+'Read']});}
      case 'PageInJournalRespStep':{if(!JI||!LO||dop.$cn!=='RespReadJournalOp'||!isS(dop._journal))return null;const i=N(step._which);if(i!==0&&i!==1)return null;const a=i?'journalBack':'journalFront';if(!eq(s['_'+a+'Read'],some(dop._id)))return null;return upd(s,{[a+'Read']:none,[a]:dop._journal});}
      case 'PageInSuperblockReqStep':case 'PageInSuperblockRespStep':{const i=N(step._which);if(!JI||!LS||dop.$cn!==(k.includes('Req')?'ReqReadSuperblockOp':'RespReadSuperblockOp')||N(dop._which)!==i||i!==0&&i!==1)return null;const o='outstandingSuperblock'+(i+1)+'Read',f='superblock'+(i+1);
        if(k.includes('Req')){if(isS(s['_'+o])||s['_'+f].$cn!=='SuperblockUnfinished')return null;return upd(s,{[o]:some(dop._id)});}
        if(!eq(s['_'+o],some(dop._id)))return null;return upd(s,{[o]:none,[f]:isS(dop._superblock)&&W.wf(dop._superblock._value)?C.SuperblockSuccess(dop._superblock._value):C.SuperblockCorruption});}
      case 'FinishLoadingSuperblockPhaseStep':{if(vop.$cn!=='SendPersistentLocOp'||!nd||!LS||s._superblock1.$cn!=='SuperblockSuccess'||s._superblock2.$cn!=='SuperblockSuccess')return null;const i=W.sel(s._superblock1._value,s._superblock2._value);const sb=(i?s._superblock2:s._superblock1)._value;if(!eq(vop._loc,sb._indirectionTableLoc))return null;return C.LoadingOther(sb,i,none,none,none,none,s._syncReqs);}
      case 'FinishLoadingOtherPhaseStep':{if(!JI||!nd||!LO)return null;const r=fullRange(s);if(!r)return null;const p=W.parse(r);if(!p)return null;return C.Ready(none,false,0,none,[],[],DSet.from([]),s._superblock._journalLen,p,s._superblock,s._whichSuperblock,C.CommitNone,none,s._syncReqs);}
      case 'FreezeStep':if(vop.$cn!=='FreezeOp'||!R||!nd||isS(s._superblockWrite)||eq(s._frozenLoc,some(s._superblock._indirectionTableLoc))||s._replayJournal.length)return null;return upd(s,{frozenLoc:none,inMemoryJournalFrozen:[...s._inMemoryJournalFrozen,...s._inMemoryJournal],inMemoryJournal:[],frozenJournalPosition:s._writtenJournalLen,syncReqs:s3to2(s._syncReqs),isFrozen:true});
      case 'ReceiveFrozenLocStep':if(vop.$cn!=='SendFrozenLocOp'||!nd||!R||!s._isFrozen||isS(s._frozenLoc)||!W.okIT(vop._loc))return null;return upd(s,{frozenLoc:some(vop._loc)});
      case 'AdvanceStep':if(vop.$cn!=='AdvanceOp'||vop._replay||!nd||!R||s._replayJournal.length)return null;return upd(s,{inMemoryJournal:[...s._inMemoryJournal,...entries(vop._uiop)]});
      case 'ReplayStep':{if(vop.$cn!=='AdvanceOp'||!vop._replay||!nd||!R)return null;const e=entries(vop._uiop);if(!eq(Array.from(s._replayJournal).slice(0,e.length),e))return null;return upd(s,{replayJournal:Array.from(s._replayJournal).slice(e.length)});}
      case 'PushSyncReqStep':if(vop.$cn!=='PushSyncOp'||!eq(vop._id,step._id)||!nd||s._syncReqs.has(step._id))return null;return upd(s,{syncReqs:s._syncReqs.set(step._id,C.State3)});
      case 'PopSyncReqStep':if(vop.$cn!=='PopSyncOp'||!eq(vop._id,step._id)||!nd||!s._syncReqs.has(step._id)||s._syncReqs.get(step._id).$cn!=='State1')return null;return upd(s,{syncReqs:rem(s._syncReqs,step._id)});
      case 'NoOpStep':{if(!JI&&vop.$cn!=='StatesInternalOp')return null;const d=dop.$cn;return nd||d==='RespReadSuperblockOp'||d==='RespReadJournalOp'||d==='RespWriteSuperblockOp'&&!(R&&eq(s._superblockWrite,some(dop._id)))||d==='RespWriteJournalOp'&&!(R&&s._outstandingJournalWrites.has(dop._id))?s:null;}
    }
    return null;};
  // the disk
  const postD=(d,dop)=>{
    const id=dop._id;const w=n=>N(n)===0||N(n)===1?N(n)+1:0;
    switch(dop.$cn){
      case 'NoDiskOp':return d;
      case 'ReqReadSuperblockOp':{const i=w(dop._which);if(!i||d._reqReadSuperblock1.has(id)||d._reqReadSuperblock2.has(id))return null;const f='reqReadSuperblock'+i;return upd(d,{[f]:DSet.from([...d['_'+f],id])});}
      case 'ReqReadJournalOp':{const v=dop._interval,a=N(v._start),l=N(v._len);if(d._reqReadJournals.has(id)||a<0||a>=B||l<0||a+l>B)return null;return upd(d,{reqReadJournals:d._reqReadJournals.set(id,v)});}
      case 'ReqWriteSuperblockOp':{const i=w(dop._which);if(!i)return null;for(const f of ['_reqWriteSuperblock1','_reqWriteSuperblock2'])if(isS(d[f])&&eq(d[f]._value._id,id))return null;return upd(d,{['reqWriteSuperblock'+i]:some(D.ReqWriteSuperblockId(id,dop._reqWriteSuperblock))});}
      case 'ReqWriteJournalOp':{const a=N(dop._reqWriteJournal._start),bl=dop._reqWriteJournal._journal,l=bl.length;if(d._reqWriteJournals.has(dop._id1)||isS(dop._id2)&&d._reqWriteJournals.has(dop._id2._value)||a<0||a>=B||l>B)return null;
        const two=a+l>B;if(two!==isS(dop._id2)||two&&eq(dop._id1,dop._id2._value))return null;const j=Array.from(d._journal);W.ring(a,l).forEach((p,i)=>{j[p]=some(bl[i]);});
        let q=d._reqWriteJournals.set(dop._id1,D_int(a,two?B-a:l));if(two)q=q.set(dop._id2._value,D_int(0,a+l-B));return upd(d,{reqWriteJournals:q,journal:j});}
      case 'RespReadSuperblockOp':{const i=w(dop._which);if(!i||!d['_reqReadSuperblock'+i].has(id)||isS(dop._superblock)&&!eq(dop._superblock,d['_superblock'+i]))return null;return upd(d,{['reqReadSuperblock'+i]:drop(d['_reqReadSuperblock'+i],id)});}
      case 'RespReadJournalOp':{if(!d._reqReadJournals.has(id))return null;const v=d._reqReadJournals.get(id);if(isS(dop._journal)){const b=W.slice(Array.from(d._journal),N(v._start),N(v._len));if(!b||!eq(b,Array.from(dop._journal._value)))return null;}return upd(d,{reqReadJournals:rem(d._reqReadJournals,id)});}
      case 'RespWriteSuperblockOp':{const i=w(dop._which);if(!i)return null;const r=d['_reqWriteSuperblock'+i];if(!isS(r)||!eq(r._value._id,id)||!eq(some(r._value._req._superblock),d['_superblock'+i]))return null;return upd(d,{['reqWriteSuperblock'+i]:none});}
      case 'RespWriteJournalOp':if(!d._reqWriteJournals.has(id))return null;return upd(d,{reqWriteJournals:rem(d._reqWriteJournals,id)});
    }
    return null;};
  const hit=(d,i)=>[...d._reqWriteJournals].some(k=>{const v=d._reqWriteJournals.get(k);return W.inR(i,N(v._start),N(v._len));});
  const empty=C.LoadingSuperblock(none,none,C.SuperblockUnfinished,C.SuperblockUnfinished,DMap.of([]));
  const crashed=(d,j)=>D.Variables(DSet.from([]),DSet.from([]),DMap.of([]),none,none,DMap.of([]),d._superblock1,d._superblock2,j);
  const ref=(s,n,l,step)=>{
    const d=s._disk;
    if(step.$cn==='CrashStep')return l.$cn==='CrashOp'&&eq(n._machine,empty)&&eq(n._disk,crashed(d,n._disk._journal))&&n._disk._journal.length===d._journal.length&&Array.from(d._journal).every((x,i)=>hit(d,i)||eq(x,n._disk._journal[i]));
    if(step.$cn==='DiskInternalStep'){const i=N(step._step._which);if(i!==0&&i!==1||l.$cn!=='JournalInternalOp')return false;const r=d['_reqWriteSuperblock'+(i+1)];return isS(r)&&eq(n,upd(s,{disk:upd(d,{['superblock'+(i+1)]:some(r._value._req._superblock)})}));}
    const dn=postD(d,step._dop),mn=post(s._machine,step._dop,l,step._machineStep);if(!dn||!mn||!eq(dn,n._disk))return false;
    if(step._machineStep.$cn==='FinishLoadingOtherPhaseStep')return n._machine.$cn==='Ready'&&eq(upd(n._machine,{frozenJournalPosition:0}),mn);
    return eq(mn,n._machine);};
  const sys=(m,d)=>A.AsyncSectorDiskModelVariables(m,d);
  const mk=(s,dop,vop,ms)=>{const m=post(s._machine,dop,vop,ms),d=postD(s._disk,dop);return m&&d?{n:sys(m,d),l:vop,step:S.MachineStep(dop,ms),name:ms.$cn}:null;};
  const blk=(t)=>t.bool()?none:some(t.pick([[],[1,2,3],[0,0,0,0,1,0,0,0],[1,0,0,0,1,0,0,0,0,0,0,0,0,0,0,0]]));
  const init=t=>{const c=t.pick([0n,1n,5n,MAXC,MAXC-1n]);const two=t.bool();const L=t.pick(W.itLocs);W.start=L;const a=T.Superblock(W.u64(c),0,0,L);
    const o=T.Superblock(W.u64(t.pick([c,c>0n?c-1n:MAXC,0n,3n])),t.below(B),t.below(B+1),t.pick(W.itLocs));let x=[a,o];if(two)x=[T.Superblock(W.u64(c===0n?MAXC:c-1n),t.below(B),t.below(B+1),t.pick(W.itLocs)),a];
    if(W.sel(x[0],x[1])===1&&!two)x[1]=T.Superblock(W.u64(c),0,0,t.pick(W.itLocs));
    return sys(empty,D.Variables(DSet.from([]),DSet.from([]),DMap.of([]),none,none,DMap.of([]),some(x[0]),some(x[1]),[...Array(B)].map(()=>blk(t))));};
  const JI=V.JournalInternalOp,nd=D.NoDiskOp;
  const crash=(t,s)=>({n:sys(empty,crashed(s._disk,Array.from(s._disk._journal).map((x,i)=>hit(s._disk,i)&&t.bool()?blk(t):x))),l:V.CrashOp,step:S.CrashStep,name:'CrashStep'});
  const uiop=t=>t.pick([U.NoOp,U.GetOp([1],[2]),U.PutOp(t.pick(W.KEYS),t.pick(W.VALS)),U.PutOp(t.pick(W.KEYS),t.pick(W.VALS)),U.PutOp([2,3],[8,9]),U.CloneOp(t.pick(W.KEYS),t.pick(W.KEYS))]);
  const ids=[0,1,2,3,4,5];
  const noop=(t,s)=>{const d=s._disk,m=s._machine,a=[nd];for(const i of d._reqReadJournals)a.push(D.RespReadJournalOp(i,none));for(const i of d._reqReadSuperblock1)a.push(D.RespReadSuperblockOp(i,0,t.bool()?none:d._superblock1));for(const i of d._reqReadSuperblock2)a.push(D.RespReadSuperblockOp(i,1,none));return mk(s,t.pick(a),t.pick([JI,V.StatesInternalOp]),C.NoOpStep);};
  const nexts=(t,s)=>{
    const m=s._machine,d=s._disk,R=m.$cn==='Ready';
    const k=R?t.weighted([[6,'adv'],[4,'replay'],[5,'wj'],[6,'ack'],[4,'sb'],[5,'proc'],[2,'freeze'],[4,'loc'],[2,'push'],[2,'pop'],[1,'noop'],[isS(m._superblockWrite)||d._reqWriteJournals.size?0.9:0.15,'crash']]):t.weighted([[14,'load'],[0.7,'push'],[0.3,'noop'],[0.2,'crash']]);
    switch(k){
      case 'crash':return crash(t,s);
      case 'noop':return noop(t,s);
      case 'push':{const i=t.below(4);return mk(s,nd,V.PushSyncOp(i),C.PushSyncReqStep(i));}
      case 'pop':{const a=[...m._syncReqs].filter(i=>m._syncReqs.get(i).$cn==='State1');return a.length?(i=>mk(s,nd,V.PopSyncOp(i),C.PopSyncReqStep(i)))(t.pick(a)):null;}
      case 'load':
        if(m.$cn==='LoadingSuperblock'){const i=t.below(2);const o=m['_outstandingSuperblock'+(i+1)+'Read'],f=m['_superblock'+(i+1)];
          if(f.$cn==='SuperblockUnfinished'){if(isS(o)){if(!d['_reqReadSuperblock'+(i+1)].has(o._value))return null;return mk(s,D.RespReadSuperblockOp(o._value,i,t.below(24)===23?none:d['_superblock'+(i+1)]),JI,C.PageInSuperblockRespStep(i));}
            return mk(s,D.ReqReadSuperblockOp(t.pick(ids),i),JI,C.PageInSuperblockReqStep(i));}
          if(m._superblock1.$cn!=='SuperblockSuccess'||m._superblock2.$cn!=='SuperblockSuccess')return t.below(4)===3?crash(t,s):null;
          const sb=W.sel(m._superblock1._value,m._superblock2._value)?m._superblock2._value:m._superblock1._value;return mk(s,nd,V.SendPersistentLocOp(sb._indirectionTableLoc),C.FinishLoadingSuperblockPhaseStep);}
        {const f=front(m._superblock),b=back(m._superblock);const todo=[];if(f&&!isS(m._journalFront))todo.push(0);if(b&&!isS(m._journalBack))todo.push(1);if(!todo.length)return mk(s,nd,JI,C.FinishLoadingOtherPhaseStep);
          const i=t.pick(todo);const o=i?m._journalBackRead:m._journalFrontRead,iv=i?b:f;if(isS(o)){if(!d._reqReadJournals.has(o._value))return null;const v=d._reqReadJournals.get(o._value);const bl=W.slice(Array.from(d._journal),N(v._start),N(v._len));return bl?mk(s,D.RespReadJournalOp(o._value,some(bl)),JI,C.PageInJournalRespStep(i)):null;}
          const id=t.pick(ids);return d._reqReadJournals.has(id)?null:mk(s,D.ReqReadJournalOp(id,iv),JI,C.PageInJournalReqStep(i));}
      case 'adv':if(m._replayJournal.length)return null;return mk(s,nd,V.AdvanceOp(uiop(t),false),C.AdvanceStep);
      case 'replay':{const e=m._replayJournal[0];if(!e)return t.below(6)?null:mk(s,nd,V.AdvanceOp(t.pick([U.NoOp,U.GetOp([1],[2])]),true),C.ReplayStep);return mk(s,nd,V.AdvanceOp(e.$cn==='JournalInsert'?U.PutOp(e._key,e._value):U.CloneOp(e._from,e._to),true),C.ReplayStep);}
      case 'wj':{const es=Array.from(m._inMemoryJournalFrozen.length?m._inMemoryJournalFrozen:m._inMemoryJournal);const room=B-N(m._writtenJournalLen);if(!es.length&&t.below(5))return null;const jr=W.range(t,es,room);if(!jr||!jr.length||jr.length>room||!W.parse(jr))return null;const free=ids.filter(i=>!d._reqWriteJournals.has(i));if(free.length<2)return null;
        const st=W.add(N(m._superblock._journalStart),N(m._writtenJournalLen));const two=st+jr.length>B;const a=t.pick(free),b=t.pick(free.filter(x=>x!==a));return mk(s,D.ReqWriteJournalOp(a,two?some(b):none,D.ReqWriteJournal(st,jr)),JI,C.WriteBackJournalReqStep(jr));}
      case 'ack':{const a=[...m._outstandingJournalWrites].filter(i=>d._reqWriteJournals.has(i));if(a.length&&t.below(3))return mk(s,D.RespWriteJournalOp(t.pick(a)),JI,C.WriteBackJournalRespStep);
        if(isS(m._superblockWrite))return mk(s,D.RespWriteSuperblockOp(m._superblockWrite._value,1-N(m._whichSuperblock)),m._commitStatus.$cn==='CommitAdvanceLocation'?V.CleanUpOp:JI,C.WriteBackSuperblockRespStep);return null;}
      case 'sb':{const loc=isS(m._frozenLoc)&&t.below(4)>0;const w=N(m._writtenJournalLen),f=N(m._frozenJournalPosition),c=W.u64(W.inc(m._superblock._counter));const nsb=loc?T.Superblock(c,W.add(N(m._superblock._journalStart),f),w-f,m._frozenLoc._value):T.Superblock(c,m._superblock._journalStart,w,m._superblock._indirectionTableLoc);if(loc&&f>w)return null;
        return mk(s,D.ReqWriteSuperblockOp(t.pick(ids),1-N(m._whichSuperblock),D.ReqWriteSuperblock(nsb)),JI,loc?C.WriteBackSuperblockReq_AdvanceLocation_Step:C.WriteBackSuperblockReq_AdvanceLog_Step);}
      case 'proc':{const a=[0,1].filter(i=>isS(d['_reqWriteSuperblock'+(i+1)]));if(!a.length)return null;const i=t.pick(a);return {n:sys(m,upd(d,{['superblock'+(i+1)]:some(d['_reqWriteSuperblock'+(i+1)]._value._req._superblock)})),l:JI,step:S.DiskInternalStep(D.ProcessWriteSuperblockStep(i)),name:'ProcessWriteSuperblock'};}
      case 'freeze':return mk(s,nd,V.FreezeOp,C.FreezeStep);
      case 'loc':return mk(s,nd,V.SendFrozenLocOp(t.pick(W.itLocs)),C.ReceiveFrozenLocStep);
    }
    return null;};
  const next=(t,s)=>{for(let i=0;i<16;i++){const r=nexts(t,s);if(r)return r;}return null;};
  return {post,postD,ref,init,next,crash,sys,mk,empty,crashed,front,back,entries,uiop,hit,blk};
}
const pre=(a,b)=>a.length<=b.length&&a.every((x,i)=>eq(x,b[i]));
const es=a=>a===null?'unreadable':'['+a.map(e=>e.$cn==='JournalInsert'?`${Array.from(e._key)}=${Array.from(e._value)}`:`${Array.from(e._from)}>${Array.from(e._to)}`).join(' ')+']';
// what each step may do to the promises
function semantics(W,M,v,w,s,l,step,how){
  const k=step.$cn==='MachineStep'?step._machineStep.$cn:step.$cn;const same=(a,b,what)=>check(a===b||a!==null&&b!==null&&eq(a,b),()=>`${how}: the ${what} was ${es(a)} and is ${es(b)}`);
  for(const f of ['per','fr','eph','gamma'])check(w[f]!==null,()=>`${how}: the ${f==='per'?'durable':f} journal cannot be read`);
  const m=s._machine;const isS=W.isS;
  if(k==='CrashStep'){same(v.per,w.per,'durable journal');check(eq(v.perLoc,w.perLoc),how+': another table location is durable');for(const f of ['eph','gamma','fr'])same(v.per,w[f],f);check(!w.delta.length&&w.frl===null&&!w.sync.size,how+': something in memory survives');return;}
  const commit=step.$cn==='DiskInternalStep'&&!v.occ&&w.occ;
  if(commit){
    const loc=m._commitStatus.$cn==='CommitAdvanceLocation';
    if(loc){same(v.fr,w.per,'durable journal');same(v.fr,w.gamma,'journal');check(eq(w.perLoc,v.frl),how+': the durable table is not the frozen one');check(pre(v.fr.slice().reverse(),v.gamma.slice().reverse()),how+': the frozen journal is not the end of the journal');}
    else{same(v.gamma,w.per,'durable journal');same(v.gamma,w.gamma,'journal');check(eq(w.perLoc,v.perLoc),how+': the durable table location changes');check(pre(v.per,w.per),how+': durable entries are lost');}
  }else{same(v.per,w.per,'durable journal');check(eq(v.perLoc,w.perLoc),how+': the durable table location changes');
    const add=k==='AdvanceStep'?M.entries(l._uiop):[];same([...v.gamma,...v.delta,...add],[...w.gamma,...w.delta],'whole journal');if(!(k==='FreezeStep'||k==='WriteBackJournalReqStep'))same(v.gamma,w.gamma,'journal to be written');}
  if(k==='ReplayStep')same(v.eph,[...M.entries(l._uiop),...w.eph],'journal to replay');else same(v.eph,w.eph,'journal to replay');
  if(k==='FreezeStep'){same([],w.fr,'frozen journal');check(w.frl===null,how+': a frozen location');check(!w.delta.length,how+': entries stay out of the frozen journal');}
  else if(k==='WriteBackJournalReqStep'){if(m._isFrozen&&m._inMemoryJournalFrozen.length)same(v.fr,w.fr,'frozen journal');else same([...v.fr,...v.delta],w.fr,'frozen journal');}
  else same(v.fr,w.fr,'frozen journal');
  if(k==='ReceiveFrozenLocStep')check(w.frl!==null&&eq(w.frl,l._loc),how+': another frozen location');else if(k==='WriteBackSuperblockRespStep'){if(l.$cn==='CleanUpOp')check(w.frl===null,how+': still frozen');else check(eq(v.frl,w.frl)||v.frl===w.frl,how+': the frozen location changes');}
  else if(k!=='FreezeStep')check(v.frl===null?w.frl===null:w.frl!==null&&eq(v.frl,w.frl),how+': the frozen location changes');
}
// promises of syncs, counted in entries since the beginning
function promises(W,M,h,v,w,s,l,step,how){
  const k=step.$cn==='MachineStep'?step._machineStep.$cn:step.$cn;const g={base:h.base,at:new Map(h.at)};
  const commit=step.$cn==='DiskInternalStep'&&!v.occ&&w.occ&&s._machine._commitStatus.$cn==='CommitAdvanceLocation';
  if(commit)g.base+=v.gamma.length-v.fr.length;
  if(k==='CrashStep')g.at.clear();
  if(k==='PushSyncReqStep'){const R=s._machine.$cn==='Ready';g.at.set(N(l._id),R?g.base+w.gamma.length+w.delta.length:g.base+w.per.length);}
  if(k==='PopSyncReqStep'){const at=h.at.get(N(l._id));check(at!==undefined,how+': an unknown sync completes');check(g.base+w.per.length>=at,()=>`${how}: the sync completes with ${g.base+w.per.length} entries durable, ${at} were promised`);g.at.delete(N(l._id));}
  const dur=g.base+w.per.length;for(const [i,st] of w.sync){check(g.at.has(i),how+': an unknown sync');if(st==='State1')check(dur>=g.at.get(i),()=>`${how}: sync ${i} counts as done with ${dur} entries durable of ${g.at.get(i)}`);}
  for(const i of g.at.keys())check(w.sync.has(i),()=>`${how}: sync ${i} is forgotten`);
  return g;
}
function codeView(W,s){const {R,un}=W;const I=R.I(s);const g=n=>Array.from(I['_'+n]);return {per:g('j1'),fr:g('j2'),eph:g('j3'),gamma:g('j_gamma'),delta:g('j_delta'),perLoc:I._persistentLoc,frl:un(I._frozenLoc),sync:new Map([...I._syncReqs].map(i=>[N(i),I._syncReqs.get(i).$cn]))};}
function sameView(W,a,b,how){
  for(const f of ['per','fr','eph','gamma','delta'])check(a[f]!==null&&eq(a[f],b[f]),()=>`${how}: the code reads the ${f} journal as ${es(b[f])}, should be ${es(a[f])}`);
  check(eq(a.perLoc,b.perLoc)&&(a.frl===null?b.frl===null:b.frl!==null&&eq(a.frl,b.frl)),()=>how+': the code reads other locations');
  check(a.sync.size===b.sync.size&&[...a.sync].every(([i,x])=>b.sync.get(i)===x),()=>`${how}: the code reads the syncs as ${[...b.sync]}, should be ${[...a.sync]}`);
}
function steps({REPO}){
  const Ws=[6,4].map(b=>world(REPO,b)),Ms=Ws.map(make);
  const go=Ws.map((W,i)=>{const M=Ms[i],{S}=W;const hist=new WeakMap();
    const inv=s=>{try{return S.Inv(s)===true;}catch(e){if(e instanceof $.DafnyFail)return false;throw e;}};
    const run=(s,n,l,step)=>S.NextStep(s,n,l,step);
    const viewOK=s=>{if(!W.disk(s))return null;return W.view(s);};
    return machine({setup:W.setup,init:t=>{W.setup();const s=M.init(t);hist.set(s,{base:0,at:new Map()});
        // states that are nearly initial
        const d=s._disk;const isI=x=>{const dd=x._disk;const sb=W.disk(x);return !!sb&&eq(x._machine,M.empty)&&eq(dd,M.crashed(dd,dd._journal))&&dd._journal.length===W.B&&N(sb._journalStart)===0&&N(sb._journalLen)===0&&eq(sb._indirectionTableLoc,W.start);};
        const swap=f=>upd(s,{disk:upd(d,{[f]:f==='journal'?Array.from(d._journal).slice(1):f.includes('uperblock')&&!f.startsWith('req')?t.pick([W.none,W.some(upd(d['_'+f]._value,t.pick([{journalStart:1},{journalLen:1},{indirectionTableLoc:t.pick(W.badLocs)},{journalStart:W.B},{journalLen:W.B+1},{counter:7}])))]):f==='reqReadJournals'?DMap.of([[1,W.I.JournalInterval(0,1)]]):f==='reqWriteJournals'?DMap.of([[1,W.I.JournalInterval(0,1)]]):f.startsWith('reqRead')?DSet.from([1]):W.some(W.D.ReqWriteSuperblockId(0,W.D.ReqWriteSuperblock(d._superblock1._value)))})});
        const x=swap(t.pick(['reqReadSuperblock1','reqReadSuperblock2','reqReadJournals','reqWriteSuperblock1','reqWriteSuperblock2','reqWriteJournals','superblock1','superblock2','journal']));let got;try{got=S.Init(x,W.start)===true;}catch(e){if(!(e instanceof $.DafnyFail))throw e;got=false;}
        check(got===isI(x),()=>`Init ${isI(x)?'rejects':'accepts'} ${show(x)} for ${show(W.start)}`);return s;},
      next:M.next,ref:M.ref,run,perturbs:6,perturbPre:false,len:120,partial:true,
      runInit:s=>{const ok=S.Init(s,W.start)===true;check(inv(s),()=>'the invariant rejects the initial state '+show(s));sameView(W,W.view(s),codeView(W,s),'at first');return ok;},
      seedPool:(pool,t)=>{for(const o of [W.V.StatesInternalOp,W.V.JournalInternalOp,W.V.FreezeOp,W.V.CleanUpOp,W.V.CrashOp,W.V.AdvanceOp(W.U.NoOp,false),W.V.AdvanceOp(W.U.NoOp,true),W.V.AdvanceOp(W.U.PutOp([1],[7]),false),W.V.SendFrozenLocOp(W.itLocs[0]),W.V.PushSyncOp(1),W.V.PopSyncOp(1),W.V.PopSyncOp(0)])pool.add('L',o);
        for(const o of [W.D.NoDiskOp,W.D.RespWriteJournalOp(0),W.D.RespWriteJournalOp(1),W.D.RespWriteSuperblockOp(0,0),W.D.RespWriteSuperblockOp(0,1)])pool.add('MachineStep_dop',o);
        for(const o of [W.C.FreezeStep,W.C.NoOpStep,W.C.AdvanceStep,W.C.ReplayStep,W.C.WriteBackJournalRespStep,W.C.PushSyncReqStep(0),W.C.PopSyncReqStep(0),W.C.PopSyncReqStep(1)])pool.add('MachineStep_machineStep',o);
        for(const l of W.badLocs)pool.add('SendFrozenLocOp_loc',l);},
      tricks:(t,s)=>tricks(W,M,t,s),
      after:(s,n,l,step,t,c)=>{
        const k=step.$cn==='MachineStep'?step._machineStep.$cn:step.$cn;c.label(k);const v=W.view(s),w=W.view(n);sameView(W,w,codeView(W,n),'after '+k);semantics(W,M,v,w,s,l,step,k);hist.set(n,promises(W,M,hist.get(s)||{base:0,at:new Map()},v,w,s,l,step,k));
        check(inv(n),()=>`the invariant fails after ${k}: ${show(n)}`);
        if(t.below(2)){const pool=new Pool();for(const x of [s,n])pool.walk(x,'S');let x=perturb(t,n,'S',pool);if(t.bool())x=perturb(t,x,'S',pool);
          if(inv(x)){c.label('perturbed state satisfies the invariant');const vx=viewOK(x);check(vx!==null&&['per','fr','eph','gamma'].every(f=>vx[f]!==null),()=>`the invariant admits a state whose journals cannot be read: ${show(x)}`);sameView(W,vx,codeView(W,x),'in '+show(x));
            const tr=M.next(t,x);if(tr){const kk=tr.name||'';check(run(x,tr.n,tr.l,tr.step)===true,()=>`${kk} from ${show(x)} is rejected`);check(inv(tr.n),()=>`${kk} from ${show(x)} breaks the invariant: ${show(tr.n)}`);semantics(W,M,vx,W.view(tr.n),x,tr.l,tr.step,kk+' from a possible state');}}}
      }});});
  return (t,c)=>go[t.below(3)===2?1:0](t,c);
}
function tricks(W,M,t,s){
  const {C,D,S,V,U,T,some,none,isS,B}=W;const m=s._machine,d=s._disk,out=[];const JI=V.JournalInternalOp;
  const force=dop=>{const x=M.postD(d,dop);return x||d;};const put=(mp,dop,vop,ms)=>out.push({n:M.sys(mp,force(dop)),l:vop,step:S.MachineStep(dop,ms)});
  if(m.$cn==='Ready'){
    const w=N(m._writtenJournalLen),f=N(m._frozenJournalPosition),st=N(m._superblock._journalStart),id=t.below(6),c=W.u64(W.inc(m._superblock._counter));
    // superblocks written too early, to the wrong place, or with wrong contents
    for(const loc of [false,true]){if(loc&&!isS(m._frozenLoc))continue;const good=loc?T.Superblock(c,W.add(st,Math.max(0,f)),Math.max(0,w-f),m._frozenLoc._value):T.Superblock(c,m._superblock._journalStart,w,m._superblock._indirectionTableLoc);
      const sb=t.below(3)?good:upd(good,t.pick([{counter:m._superblock._counter},{journalStart:W.add(st,t.below(B))},{journalLen:Math.min(B,w+1)},{journalLen:Math.max(0,w-1)},{indirectionTableLoc:t.pick(W.itLocs)}]));const which=t.below(3)?1-N(m._whichSuperblock):N(m._whichSuperblock);
      put(upd(m,{newSuperblock:some(sb),superblockWrite:some(id),commitStatus:loc?C.CommitAdvanceLocation:C.CommitAdvanceLog}),D.ReqWriteSuperblockOp(id,which,D.ReqWriteSuperblock(sb)),JI,loc?C.WriteBackSuperblockReq_AdvanceLocation_Step:C.WriteBackSuperblockReq_AdvanceLog_Step);}
    // freezing in the middle of a commit or replay
    put(upd(m,{frozenLoc:none,inMemoryJournalFrozen:[...m._inMemoryJournalFrozen,...m._inMemoryJournal],inMemoryJournal:[],frozenJournalPosition:m._writtenJournalLen,syncReqs:DMap.of([...m._syncReqs].map(i=>[i,m._syncReqs.get(i).$cn==='State3'?C.State2:m._syncReqs.get(i)])),isFrozen:true}),D.NoDiskOp,V.FreezeOp,C.FreezeStep);
    const loc=t.pick(W.itLocs.concat(W.badLocs));put(upd(m,{frozenLoc:some(loc)}),D.NoDiskOp,V.SendFrozenLocOp(loc),C.ReceiveFrozenLocStep);
    const u=M.uiop(t);put(upd(m,{inMemoryJournal:[...m._inMemoryJournal,...M.entries(u)]}),D.NoDiskOp,V.AdvanceOp(u,t.below(4)===3),C.AdvanceStep);
    put(upd(m,{replayJournal:Array.from(m._replayJournal).slice(1)}),D.NoDiskOp,V.AdvanceOp(t.bool()&&m._replayJournal.length?U.PutOp([1],[7]):U.NoOp,true),C.ReplayStep);
    // journal writes that collide, overflow or carry other entries
    const src=Array.from(t.bool()?m._inMemoryJournal:m._inMemoryJournalFrozen);const jr=W.range(t,src,B+2)||[];const start=t.below(3)?W.add(st,w):t.below(B);const two=start+jr.length>B;const fz=m._inMemoryJournalFrozen.length>0;
    const dop=D.ReqWriteJournalOp(id,two===(t.below(5)<4)?some(t.below(6)):none,D.ReqWriteJournal(start,jr));put(upd(m,{outstandingJournalWrites:DSet.from([...m._outstandingJournalWrites,id,...(isS(dop._id2)?[dop._id2._value]:[])]),writtenJournalLen:w+jr.length,frozenJournalPosition:fz?w+jr.length:f,inMemoryJournal:fz?m._inMemoryJournal:[],inMemoryJournalFrozen:[],syncReqs:fz?m._syncReqs:DMap.of([...m._syncReqs].map(i=>[i,m._syncReqs.get(i).$cn==='State3'?C.State2:m._syncReqs.get(i)]))}),dop,JI,C.WriteBackJournalReqStep(jr));
    if(isS(m._superblockWrite)&&isS(m._newSuperblock)){const good=M.post(m,D.RespWriteSuperblockOp(m._superblockWrite._value,0),m._commitStatus.$cn==='CommitAdvanceLocation'?V.CleanUpOp:JI,C.WriteBackSuperblockRespStep);if(good)put(good,D.RespWriteSuperblockOp(t.below(3)?m._superblockWrite._value:id,t.below(2)),t.pick([V.CleanUpOp,JI]),C.WriteBackSuperblockRespStep);}
    for(const i of m._syncReqs)put(upd(m,{syncReqs:DMap.of([...m._syncReqs].filter(x=>!eq(x,i)).map(x=>[x,m._syncReqs.get(x)]))}),D.NoDiskOp,V.PopSyncOp(i),C.PopSyncReqStep(i));
  }
  if(m.$cn==='LoadingOther'){const f=t.below(2);const a=f?'journalBack':'journalFront';const o=m['_'+a+'Read'];const iv=W.I.JournalInterval(t.below(B),t.below(B));const id=t.below(6);put(upd(m,{[a+'Read']:some(id)}),D.ReqReadJournalOp(id,t.bool()?iv:(f?M.back:M.front)(m._superblock)||iv),JI,C.PageInJournalReqStep(f));
    const bl=[[0,0,0,0,1,0,0,0]];put(upd(m,{[a+'Read']:none,[a]:some(bl)}),D.RespReadJournalOp(isS(o)?o._value:id,some(bl)),JI,C.PageInJournalRespStep(f));
    const e=[W.J.JournalInsert([1],[7])];put(C.Ready(none,false,0,none,[],[],DSet.from([]),m._superblock._journalLen,t.bool()?[]:e,m._superblock,m._whichSuperblock,C.CommitNone,none,m._syncReqs),D.NoDiskOp,JI,C.FinishLoadingOtherPhaseStep);}
  if(m.$cn==='LoadingSuperblock'){const i=t.below(2),o=m['_outstandingSuperblock'+(i+1)+'Read'];const sb=t.pick([d._superblock1,d._superblock2]);const id=isS(o)?o._value:t.below(6);put(upd(m,{['outstandingSuperblock'+(i+1)+'Read']:none,['superblock'+(i+1)]:isS(sb)&&t.below(4)?C.SuperblockSuccess(sb._value):C.SuperblockCorruption}),D.RespReadSuperblockOp(id,i,sb),JI,C.PageInSuperblockRespStep(i));
    put(upd(m,{['outstandingSuperblock'+(i+1)+'Read']:some(id)}),D.ReqReadSuperblockOp(id,t.below(4)?i:1-i),JI,C.PageInSuperblockReqStep(i));
    if(m._superblock1.$cn==='SuperblockSuccess'&&m._superblock2.$cn==='SuperblockSuccess'){const j=t.below(2),x=(j?m._superblock2:m._superblock1)._value;put(C.LoadingOther(x,j,none,none,none,none,m._syncReqs),D.NoDiskOp,V.SendPersistentLocOp(x._indirectionTableLoc),C.FinishLoadingSuperblockPhaseStep);}
    else{const x=d._superblock1._value;put(C.LoadingOther(x,0,none,none,none,none,m._syncReqs),D.NoDiskOp,V.SendPersistentLocOp(x._indirectionTableLoc),C.FinishLoadingSuperblockPhaseStep);}}
  // answers nobody ignores, and operations nobody performs
  for(const i of [...d._reqWriteJournals].slice(0,2))put(m,D.RespWriteJournalOp(i),JI,C.NoOpStep);
  for(const i of [0,1])if(isS(d['_reqWriteSuperblock'+(i+1)]))put(m,D.RespWriteSuperblockOp(d['_reqWriteSuperblock'+(i+1)]._value._id,i),JI,C.NoOpStep);
  for(const vop of [V.FreezeOp,V.CleanUpOp,V.AdvanceOp(U.NoOp,false),V.CrashOp])if(t.below(4)===0)put(m,D.NoDiskOp,vop,C.NoOpStep);
  {const i=t.below(2);out.push({n:M.sys(m,upd(d,{['superblock'+(i+1)]:t.bool()&&isS(d['_reqWriteSuperblock'+(i+1)])?some(d['_reqWriteSuperblock'+(i+1)]._value._req._superblock):d['_superblock'+(2-i)]})),l:JI,step:S.DiskInternalStep(D.ProcessWriteSuperblockStep(i))});}
  // a crash that keeps or loses too much
  const j=Array.from(d._journal),p=t.below(B);const j2=j.slice();j2[p]=M.blk(t);const cr=M.crashed(d,j2);const x=t.below(4);
  out.push({n:M.sys(x===0?m:M.empty,x===1?upd(cr,t.pick([{reqWriteSuperblock1:d._reqWriteSuperblock1},{reqWriteSuperblock2:d._reqWriteSuperblock2},{reqWriteJournals:d._reqWriteJournals},{reqReadJournals:d._reqReadJournals},{superblock1:d._superblock2},{superblock2:none},{reqReadSuperblock1:d._reqReadSuperblock1},{reqReadSuperblock2:d._reqReadSuperblock2}])):x===2?upd(cr,{journal:j.slice(1)}):cr),l:V.CrashOp,step:S.CrashStep});
  return out;
}
// arithmetic of the ring
function ring({REPO}){
  const Ws=[6,4,7].map(b=>world(REPO,b));
  return (t,c)=>{
    const W=t.pick(Ws),{B,I}=W;W.setup();const j=[...Array(B)].map((_,i)=>t.below(6)?W.some([i,t.below(3)]):W.none);
    const iv=()=>{const a=t.below(B),l=t.below(B+1);return [a,l,I.JournalInterval(a,l)];};const ct=()=>{const a=t.below(B),l=t.below(B-a+1);return [a,l,I.JournalInterval(a,l)];};
    const [a,l,x]=iv(),[b,k,y]=iv(),[ca,cl,cx]=ct(),[cb,ck,cy]=ct();const set=(s,n)=>new Set(W.ring(s,n));const meet=(p,q)=>[...p].some(e=>q.has(e));
    c.log(()=>`B=${B} ${a}+${l} ${b}+${k} ${ca}+${cl} ${cb}+${ck}`);c.nontrivial(l>0&&k>0);c.sample(`ring of ${B}: ${a}+${l}, ${b}+${k}`);
    const is=(got,want,what)=>check(eq(got,want),()=>`${what} is ${show(got)}, should be ${show(want)}`);
    is(Array.from(I.CyclicSlice(j,x)),W.ring(a,l).map(i=>j[i]),`CyclicSlice(${a},${l})`);
    for(let i=0;i<B;i++)is(I.InCyclicRange(i,x),set(a,l).has(i),`InCyclicRange(${i},${a}+${l})`);
    is(I.ValidJournalInterval(x),true,'ValidJournalInterval');is(I.ContiguousJournalInterval(x),a+l<=B,'ContiguousJournalInterval');
    const odd=I.JournalInterval(t.below(B+3)-1,t.below(B+3)-1);is(I.ValidJournalInterval(odd),N(odd._start)>=0&&N(odd._start)<B&&N(odd._len)>=0&&N(odd._len)<=B,'ValidJournalInterval '+show(odd));
    const blocks=[...Array(l)].map((_,i)=>[9,i]);const nj=j.slice();W.ring(a,l).forEach((p,i)=>{nj[p]=W.some(blocks[i]);});
    for(let i=0;i<B;i++)is(I.CyclicSpliceValue(j,x,blocks,i),nj[i],`CyclicSpliceValue at ${i}`);
    is(I.JournalUpdate(j,nj,x,blocks),true,'JournalUpdate');const bad=nj.slice();const p=t.below(B);bad[p]=t.bool()?W.none:W.some([7,7]);is(I.JournalUpdate(j,bad,x,blocks),eq(bad,nj),'JournalUpdate of something else');
    is(I.JournalUpdate(j,nj.slice(1),x,blocks),false,'JournalUpdate to a shorter journal');
    const f=I.JournalFrontInterval(a,l),bk=I.JournalBackInterval(a,l);const fs=f.$cn==='Some'?W.ring(N(f._value._start),N(f._value._len)):[],bs=bk.$cn==='Some'?W.ring(N(bk._value._start),N(bk._value._len)):[];
    is([...fs,...bs],W.ring(a,l),'front and back intervals');is(f.$cn==='Some',l>0,'a front interval');is(bk.$cn==='Some',a+l>B,'a back interval');for(const q of [f,bk])if(q.$cn==='Some')is(I.ContiguousJournalInterval(q._value),true,'contiguous');
    // only for intervals that wrap at most once does subinterval mean containment
    if(I.subinterval(x,y)===true)check([...set(a,l)].every(e=>set(b,k).has(e)),()=>`subinterval accepts ${a}+${l} in ${b}+${k}`);
    const inside=k>0?[W.ring(b,k)[t.below(k)]]:[];if(inside.length){const off=(inside[0]-b+B)%B,len=t.below(k-off+1);is(I.subinterval(I.JournalInterval(inside[0],len),y),true,`subinterval(${inside[0]}+${len}, ${b}+${k})`);}
    if(cl&&ck){is(I.journalIntervalOverlap(cx,cy),meet(set(ca,cl),set(cb,ck)),`journalIntervalOverlap(${ca}+${cl}, ${cb}+${ck})`);}
    if(l&&k)is(I.journalCyclicIntervalOverlap(x,y),meet(set(a,l),set(b,k)),`journalCyclicIntervalOverlap(${a}+${l}, ${b}+${k})`);
    const fr=W.ring(a,l).every(i=>W.isS(j[i]));is(I.Disk_HasJournalRange(j,x),fr,'Disk_HasJournalRange');if(fr)is(Array.from(I.Disk_JournalRange(j,x)),W.ring(a,l).map(i=>j[i]._value),'Disk_JournalRange');
    // entries written as blocks read back
    const ents=[...Array(t.below(5))].map(()=>t.bool()?W.J.JournalInsert(t.pick(W.KEYS),t.pick(W.VALS)):W.J.JournalClone(t.pick(W.KEYS),t.pick(W.KEYS)));const jr=W.range(t,ents,20);
    if(jr){const w=W.parse(jr);is(W.JR.JournalRangeParses(jr,ents),w!==null&&eq(w,ents),'JournalRangeParses');if(ents.length)is(W.JR.JournalRangeParses(jr,ents.slice(1)),false,'JournalRangeParses of fewer entries');
      const mut=jr.map(q=>q.slice());const q=mut[t.below(mut.length)];if(q&&q.length){if(t.bool())q[t.below(q.length)]^=1<<t.below(8);else q.length=t.below(q.length);}const pm=W.parse(mut),pc=W.JR.parseJournalRange(mut);is(pc.$cn==='None'?null:Array.from(pc._value),pm,'parseJournalRange of damaged blocks');
      if(w&&jr.length<=B){const jj=[...Array(B)].map(()=>W.none);W.ring(a,jr.length).forEach((p,i)=>{jj[p]=W.some(jr[i]);});const z=I.JournalInterval(a,jr.length);is(I.Disk_HasJournal(jj,z),true,'Disk_HasJournal');is(Array.from(I.Disk_Journal(jj,z)),ents,'Disk_Journal');}}
  };
}
exports.world=world;exports.makeMachine=make;
exports.props={P05:{rule:'a history of at least two steps; two non-empty intervals of the ring; a satisfied precondition',parts:{steps:{make:steps,weight:4},ring:{make:ring,weight:1},contracts:{make:contractsPart(['JournalInterval','JournalDisk','JournalCache','JournalSystem','JournalRange'].map(f=>'BlockCacheSystem/'+f+'.i.dfy'),{overrides:{'Bounds.DiskNumJournalBlocksUint64':()=>6}}),weight:1}},quick:25,thorough:600,assumptions:['rings of four, six and seven blocks (the bound of the journal area is lowered)','blocks of any length; keys and values of up to three bytes']}};
