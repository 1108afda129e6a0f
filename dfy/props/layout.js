'use strict';
// B01: the disk layout. P04: paths.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES}=require('../externs.js');const {check,discard}=require('../pbt.js');
const {contractsPart}=require('../contract.js');const {DMap,IMap,DSet}=$;
const load=(REPO,...f)=>new Program({externs:EX,types:TYPES}).load(...f.map(x=>REPO+'/'+x));
const N=Number,B=4096;
function layout({REPO}){
  const P=load(REPO,'BlockCacheSystem/DiskLayout.i.dfy');const L=P.m('DiskLayout'),C=P.m('Bounds');
  const nb=N(C.DiskNumJournalBlocksUint64()),it=N(C.IndirectionTableBlockSizeUint64()),node=N(C.NodeBlockSizeUint64()),nblk=N(C.NumBlocksUint64());
  const jEnd=2*B+nb*B,it1=jEnd,it2=it1+it,itEnd=it2+it,minIdx=N(C.MinNodeBlockIndexUint64());
  const U=(1n<<64n)-1n;
  const kinds={ // independent definitions over BigInt
    sb1:(a,l)=>a===0n&&l===4096n,sb2:(a,l)=>a===4096n&&l===4096n,
    journal:(a,l)=>a%4096n===0n&&l%4096n===0n&&a>=8192n&&a<BigInt(jEnd)&&a+l<=BigInt(jEnd),
    table:(a,l)=>(a===BigInt(it1)||a===BigInt(it2))&&l>0n&&l<=BigInt(it),
    node:(a,l)=>a%BigInt(node)===0n&&a>=BigInt(node)*BigInt(minIdx)&&l<=BigInt(node)};
  const preds={sb1:'ValidSuperblock1Location',sb2:'ValidSuperblock2Location',journal:'ValidJournalLocation',table:'ValidIndirectionTableLocation',node:'ValidNodeLocation'};
  const genLoc=t=>{
    const kind=t.below(7);let a,l;
    const blk=()=>t.below(3)===0?t.below(4):t.below(3)===0?nb-1-t.below(4):t.below(nb);
    if(kind<=1){a=t.below(3)*B;l=t.pick([B,B,0,1,2*B]);}
    else if(kind<=3){const s=blk();a=2*B+s*B;l=t.pick([1,1,2,nb-s,nb-s+1,t.below(nb)])*B;}
    else if(kind===4){a=t.pick([it1,it2,itEnd]);l=t.pick([it,it,1,0,it+1,it-1,t.below(it)]);}
    else{const i=t.below(2)?minIdx+t.below(nblk):minIdx-1+t.below(4);a=i*node;l=t.pick([node,node,B,0,1,node+1,t.below(node)]);}
    a=BigInt(a);l=BigInt(l);
    const m=t.below(6);if(m===4)a+=BigInt(t.pick([1,-1,512,B,-B,node]));if(m===5&&t.below(4)===3)l=BigInt(t.u64());if(m===5&&t.below(4)===3)a=BigInt(t.u64());
    if(a<0n)a=0n;if(l<0n)l=0n;if(a>U)a=U;if(l>U)l=U;return [a,l];};
  const mk=([a,l])=>L.Location($.norm(a),$.norm(l));
  const kindOf=([a,l])=>Object.keys(kinds).filter(k=>kinds[k](a,l));
  return (t,c)=>{
    const p=genLoc(t),q=t.below(3)===2?[p[0]+BigInt(t.pick([0,1,B,node]))&U,p[1]]:genLoc(t);
    const lp=mk(p),lq=mk(q);c.log(()=>`${p} and ${q}`);c.sample(`${p} / ${q}`);
    for(const [x,lx] of [[p,lp],[q,lq]]){
      const ks=kindOf(x);
      for(const k in preds){let r;r=L[preds[k]](lx);check(r===ks.includes(k),()=>`${preds[k]}(${x}) is ${r}`);}
      check(ks.length<=1,'a location of two kinds');
      check(L.ValidLocation(lx)===(ks.length>0),()=>`ValidLocation(${x})`);
      check(L.ValidSuperblockLocation(lx)===(ks[0]==='sb1'||ks[0]==='sb2'),()=>`ValidSuperblockLocation(${x})`);
      check(L.ValidNodeAddr($.norm(x[0]))===kinds.node(x[0],0n),()=>`ValidNodeAddr(${x[0]})`);
      check(L.ValidIndirectionTableAddr($.norm(x[0]))===kinds.table(x[0],1n),()=>`ValidIndirectionTableAddr(${x[0]})`);
      if(ks.length){c.nontrivial();c.label(ks[0]);}
      if(ks[0]==='journal'){const i=N((x[0]-8192n)/4096n);check(N(L.JournalBlockIdx(lx))===i,()=>`JournalBlockIdx(${x})`);}
    }
    const kp=kindOf(p)[0],kq=kindOf(q)[0];
    const ov=p[0]+p[1]>q[0]&&q[0]+q[1]>p[0];
    check(L.overlap(lp,lq)===ov,()=>`overlap(${p}, ${q})`);
    check(L.LocationSub(lp,lq)===(p[0]>=q[0]&&p[0]+p[1]<=q[0]+q[1]),()=>`LocationSub(${p}, ${q})`);
    if(ov&&kp&&kq&&L.ValidLocation(lp)&&L.ValidLocation(lq)){
      check(kp===kq,()=>`a ${kp} location overlaps a ${kq} location`);
      if(kp!=='journal')check(p[0]===q[0],()=>`two ${kp} locations overlap at different addresses`);c.label('overlap '+kp);}
    // the fixed places
    check(N(L.IndirectionTable1Addr())===it1&&N(L.IndirectionTable2Addr())===it2,'indirection table addresses');
    check(N(L.otherIndirectionTableAddr(it1))===it2&&N(L.otherIndirectionTableAddr(it2))===it1,'otherIndirectionTableAddr');
    check(N(L.JournalStartAddr())===2*B&&N(L.JournalEndAddr())===jEnd,'journal bounds');
    for(const [i,a] of [[1,0],[2,4096]]){const s=L[`Superblock${i}Location`]();check(N(s._addr)===a&&N(s._len)===4096,`Superblock${i}Location`);}
    check(minIdx*node>=itEnd,'the node area overlaps the indirection tables');
  };
}
// circular journal ranges against sets of blocks
function journal({REPO}){
  const big=load(REPO,'BlockCacheSystem/DiskLayout.i.dfy');
  // a small journal so that ranges can be enumerated, and the real one
  const mkP=n=>n?new Program({externs:EX,types:TYPES,overrides:{'Bounds.DiskNumJournalBlocksUint64':()=>n}}).load(REPO+'/BlockCacheSystem/DiskLayout.i.dfy'):big;
  const Ps=[5,8,0].map(mkP).map(P=>[P.m('DiskLayout'),N(P.m('Bounds').DiskNumJournalBlocksUint64())]);
  return (t,c)=>{
    const [L,n]=Ps[t.below(3)];
    const near=m=>t.below(2)?t.below(Math.min(m,6)):m-1-t.below(Math.min(m,6));
    const start=near(n),len=t.below(6)===0?n:near(n+1);
    check(N(L.NumJournalBlocks())===n,'NumJournalBlocks');
    c.log(()=>`n=${n} start=${start} len=${len}`);c.sample(`start ${start} len ${len} of ${n}`);c.nontrivial(len>0);if(start+len>n)c.label('wraps');
    const segs=len===0?[]:start+len<=n?[[start,start+len]]:[[start,n],[0,start+len-n]];
    const f=L.JournalFrontLocation(start,len),b=L.JournalBackLocation(start,len);
    const got=[f,b].filter(x=>x.$cn==='Some').map(x=>x._value).map(l=>[N(l._addr)/B-2,(N(l._addr)+N(l._len))/B-2]);
    check(JSON.stringify(got)===JSON.stringify(segs),()=>`front/back of (${start},${len}) are ${JSON.stringify(got)}, not ${JSON.stringify(segs)}`);
    check(f.$cn==='Some'===(segs.length>0)&&(b.$cn==='Some')===(segs.length>1),'front/back presence');
    const s2=near(n),span=near(n+1);if(s2+span<2*n){const r=N(L.JournalPosAdd(s2,span));check(r===(s2+span)%n,()=>`JournalPosAdd(${s2},${span}) = ${r}`);}
    // a location of whole blocks, in or out of the range
    const ls=near(n),ll=1+t.below(Math.max(1,Math.min(n-ls,4)));if(ls+ll>n)discard();
    const loc=L.JournalRangeLocation(ls,ll);check(N(loc._addr)===2*B+ls*B&&N(loc._len)===ll*B,()=>`JournalRangeLocation(${ls},${ll})`);
    check(N(L.JournalPoint(ls))===2*B+ls*B,'JournalPoint');
    const inR=segs.some(([a,b])=>ls>=a&&ls+ll<=b),dis=segs.every(([a,b])=>ls+ll<=a||ls>=b);
    check(L.locContainedInCircularJournalRange(loc,start,len)===inR,()=>`containment of blocks [${ls},${ls+ll}) in (${start},${len}) of ${n}`);
    // an empty range is reported as a point; only ranges with blocks matter
    if(len>0)check(L.locDisjointFromCircularJournalRange(loc,start,len)===dis,()=>`disjointness of blocks [${ls},${ls+ll}) from (${start},${len}) of ${n}`);
    if(inR)c.label('contained');if(dis)c.label('disjoint');
  };
}
function bounds({REPO}){
  const P=load(REPO,'PivotBetree/Bounds.i.dfy');const C=P.m('Bounds'),K=P.m('KeyType'),V=P.m('ValueType');
  return (t,c)=>{
    const v=k=>N(C[k+'Uint64']());c.nontrivial();c.sample('constants');
    for(const k of ['NodeBlockSize','MinNodeBlockIndex','SuperblockSize','JournalBlockSize','DiskNumJournalBlocks','IndirectionTableBlockSize','MaxTotalBucketWeight','MaxCacheSize','MaxNumChildren','FlushTriggerWeight','NumBlocks','IndirectionTableMaxSize'])if(C[k])check(N(C[k]())===v(k),k+' and its uint64 form differ');
    const nc=v('MaxNumChildren'),kl=N(K.MaxLen());
    // the largest node that may be built still fits in its block with checksum and headers
    const kids=1+t.below(nc),lens=[...Array(kids-1)].map(()=>t.below(2)?kl:t.below(kl+1));
    const size=32+8+4+lens.reduce((a,b)=>a+4+b,0)+8+8*kids+8+8*kids+v('MaxTotalBucketWeight');
    check(size<=v('NodeBlockSize'),()=>`a node of ${kids} children needs ${size} bytes`);
    check(v('SuperblockSize')===4096&&v('JournalBlockSize')===4096,'4096-byte blocks');
    check(v('NodeBlockSize')%4096===0&&v('IndirectionTableBlockSize')%4096===0,'block sizes are whole sectors');
    check(v('MinNodeBlockIndex')*v('NodeBlockSize')>=2*v('SuperblockSize')+v('DiskNumJournalBlocks')*v('JournalBlockSize')+2*v('IndirectionTableBlockSize'),'node area');
    check(v('MinNodeBlockIndex')<=v('NumBlocks')&&v('FlushTriggerWeight')<v('MaxTotalBucketWeight')&&v('MaxNumChildren')>=2&&v('NumBlocks')%64===0,'sanity of bounds');
    check(v('NumBlocks')*v('NodeBlockSize')<2**63,'addresses fit');
    check(N(C.LargestBlockSizeOfAnyTypeUint64())>=Math.max(v('NodeBlockSize'),v('IndirectionTableBlockSize'),v('JournalBlockSize')),'largest block size');
    check(nc*v('FlushTriggerWeight')>=v('MaxTotalBucketWeight'),'a full node has a bucket worth flushing');
  };
}
function paths({REPO}){
  const P=load(REPO,'Filesys/FSTypes.s.dfy');const S=P.m('PathSpec'),F=P.m('FSTypes');
  const el=t=>t.bytes(0,3,[0,1,97,255]);
  const path=t=>t.list(0,4,el);
  const J=JSON.stringify;const beneath=(d,p)=>d.length<p.length&&J(p.slice(0,d.length))===J(d);
  const lex=(a,b)=>{for(let i=0;i<Math.min(a.length,b.length);i++)if(a[i]!==b[i])return a[i]<b[i];return a.length<=b.length;};
  return (t,c)=>{
    const p=path(t);let q=t.below(2)?path(t):t.below(2)?[...p,...t.list(0,2,el)]:p.slice(0,t.below(p.length+1));
    if(t.below(6)===5&&q.length){q=q.slice();q[q.length-1]=el(t);}
    c.log(()=>J(p)+' '+J(q));c.sample(J(p)+' '+J(q));
    check(S.BeneathDir(p,q)===beneath(p,q),()=>`BeneathDir(${J(p)}, ${J(q)})`);
    check(S.IsDirEntry(p,q)===(beneath(p,q)&&q.length===p.length+1),()=>`IsDirEntry(${J(p)}, ${J(q)})`);
    if(beneath(p,q))c.nontrivial();
    check(J(S.GetParentDir(q))===J(q.length?q.slice(0,-1):[]),()=>`GetParentDir(${J(q)})`);
    if(q.length&&S.IsDirEntry(S.GetParentDir(q),q)!==true)check(false,()=>`${J(q)} is not an entry of its parent`);
    const e=el(t),f=t.below(3)===0?e:t.below(2)?[...e,...el(t)]:el(t);
    check(S.DirEntryLte([...p,e],[...p,f])===lex(e,f),()=>`DirEntryLte on ${J(e)}, ${J(f)}`);
    check(J(S.RootDir)==='[]'&&S.RootID.$cn==='ID'&&S.RootID._id===0,'root');
    const init=S.InitPathMap();for(const x of [p,q,[]]){const v=init.get(x);check(x.length===0?v.$cn==='ID'&&v._id===0:v.$cn==='Nonexistent',()=>`InitPathMap()[${J(x)}]`);}
    // emptiness of a directory over a finite universe of paths
    const all=[[],p,q,...t.list(0,5,path)];const ent=DMap.of(all.map(x=>[x,t.below(2)?S.Nonexistent:S.ID(t.below(9))]));
    $.universes.length=0;$.universes.push(u=>[...ent.keys()]);
    const pm=new IMap(x=>true,x=>ent.has(x)?ent.get(x):S.Nonexistent,null);
    check(S.IsEmptyDir(pm,p)===![...ent.keys()].some(k=>beneath(p,k)&&ent.get(k).$cn!=='Nonexistent'),()=>`IsEmptyDir(${J(p)})`);
    const tm=()=>F.Time(t.below(2));const ft=t.pick([F.File,F.Directory,F.FIFOFile]);const md=t.below(5)===0?F.EmptyMetaData:F.MetaData(ft,t.below(777),0,0,tm(),tm(),tm());
    const times=md.$cn==='MetaData'?[md._atime,md._mtime,md._ctime].map(x=>x._nanoseconds):null;
    check(F.ValidNewMetaData(md,p)===(!!times&&times[0]===times[1]&&times[1]===times[2]),()=>'ValidNewMetaData '+$.show(md));
    const r=F.InitRootMetaData();check(r._ftype.$cn==='Directory'&&r._perm===755&&r._uid===0&&r._gid===0&&[r._atime,r._mtime,r._ctime].every(x=>x._nanoseconds===0),'InitRootMetaData');
    check(F.EmptyData().length===0,'EmptyData');
  };
}
exports.props={
  B01:{rule:'a pair of locations at least one of which is valid; a non-empty journal range; a satisfied lemma precondition',
    parts:{layout:{make:layout,weight:3},journal:{make:journal,weight:2},bounds,contracts:contractsPart(['BlockCacheSystem/DiskLayout.i.dfy','BlockCacheSystem/JournalRange.i.dfy','PivotBetree/Bounds.i.dfy'])},quick:20,thorough:240,assumptions:['journal ranges are also enumerated with journals of 5 and 8 blocks']},
  P04:{rule:'one path lies beneath the other',parts:{paths,contracts:contractsPart(['Filesys/PathSpec.s.dfy','Filesys/FSTypes.s.dfy'])},quick:15,thorough:120},
};
