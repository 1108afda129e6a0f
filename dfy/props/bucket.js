'use strict';
// K02: pivot tables, buckets and flushing.  K03: packed string arrays and packed key-value arrays.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES}=require('../externs.js');const {check,discard}=require('../pbt.js');
const {contractsPart}=require('../contract.js');const {table,J,mem,Lin,stat}=require('../tab.js');const {LSeq}=$;
const N=Number,D='lib/Buckets/';
const cache=new Map();
const load=(REPO,ov,...f)=>{const k=REPO+f+Object.keys(ov||{})+Object.values(ov||{}).map(x=>x());if(!cache.has(k))cache.set(k,new Program({externs:EX,types:TYPES,overrides:ov||{}}).load(...f.map(x=>REPO+'/'+D+x+'.i.dfy')));return cache.get(k);};
const ob=o=>new Proxy(o,{get:(_,n)=>typeof o['_'+String(n)]==='function'?(...a)=>o['_'+n](...a):n==='$o'?o:o['_'+String(n)]!==undefined?o['_'+String(n)]:o[n]});
const cmp=(a,b)=>{for(let i=0;i<a.length&&i<b.length;i++)if(a[i]!==b[i])return a[i]<b[i]?-1:1;return a.length-b.length;};
const eq=(a,b)=>cmp(a,b)===0;const ks=k=>Array.from(k).join(',');
const isPre=(p,k)=>p.length<=k.length&&p.every((x,i)=>x===k[i]);
const AL=[0,1,2,127,128,254,255];
const key=t=>t.below(9)===8?t.bytes(0,24):t.bytes(0,3,t.below(3)?[0,1,255]:AL);
const uniqSorted=l=>{const m=new Map();for(const k of l)m.set(ks(k),k);return [...m.values()].sort(cmp);};
const keys=(t,lo,hi)=>uniqSorted(t.list(lo,hi,()=>key(t)));
// a key near one of the given ones
const near=(t,l)=>{if(!l.length||t.below(3)===0)return key(t);const k=t.pick(l);const w=t.below(4);return w===0?k:w===1?k.concat([0]):w===2?k.slice(0,-1):k.length?k.slice(0,-1).concat([(k[k.length-1]+t.pick([1,255]))%256]):[];};
const bytes=b=>Array.from(b);
function world(REPO,ov){
  const P=load(REPO,ov,'BucketImpl','TranslationImpl','PackedKVMarshalling');const M=n=>P.m(n);const W={P,M,U:M('Upperbounded_Lexicographic_Byte_Order'),VM:M('ValueMessage'),BL:M('BucketsLib'),BP:M('BoundedPivotsLib'),PKV:M('PackedKV'),PSA:M('PackedStringArray'),BW:M('BucketWeights'),BM:M('BucketMaps'),BF:M('BucketFlushModel'),BI:M('BucketImpl'),DP:M('DynamicPkv'),MS:M('MapSeqs')};
  W.E=k=>k===null?W.U.Max_Element:W.U.Element(k);W.unE=e=>e.$cn==='Max_Element'?null:bytes(e._e);
  W.def=v=>W.VM.Define(v);W.id=W.VM.Update(W.VM.NopDelta());
  W.msg=(t,id)=>id&&t.below(8)===7?W.id:W.def(t.below(10)===9?t.bytes(0,12):t.bytes(0,2,[0,1,2,3]));
  W.pairs=b=>{const k=Array.from(b._keys),m=Array.from(b._msgs);check(k.length===m.length,()=>`${k.length} keys and ${m.length} messages`);return k.map((x,i)=>[bytes(x),m[i]]);};
  W.bucket=ps=>W.BL.Bucket(ps.map(p=>p[0]),ps.map(p=>p[1]));
  W.gen=(t,lo,hi,id)=>keys(t,lo,hi).map(k=>[k,W.msg(t,id)]);
  W.inRange=(t,l,pt,lo,hi)=>l.filter(p=>(pt[lo]===null||cmp(pt[lo],p[0])<=0)&&(pt[hi]===null||cmp(p[0],pt[hi])<0));
  // pivots as key arrays, the last may be null for the upper end of the key space
  W.pivots=t=>{let l=keys(t,2,6);if(l.length<2)l=[[],[1]];if(t.below(2)&&l[0].length)l.unshift([]);if(t.below(2))l.push(null);return l.slice(0,8);};
  W.pt=l=>l.map(W.E);
  W.pkv=ps=>W.PKV.Pkv(W.psa(ps.map(p=>p[0])),W.psa(ps.map(p=>bytes(p[1]._value))));
  W.psa=l=>{let o=0;return W.PSA.Psa(l.map(x=>o+=x.length),l.flat());};
  W.unpsa=p=>{const o=Array.from(p._offsets).map(N),d=bytes(p._data);const l=o.map((e,i)=>d.slice(i?o[i-1]:0,e));check((o.length?o[o.length-1]:0)===d.length,()=>`packed array: offsets end at ${o[o.length-1]}, data is ${d.length} long`);return l;};
  W.unpkv=p=>{const k=W.unpsa(p._keys),m=W.unpsa(p._messages);check(k.length===m.length,()=>`${k.length} keys and ${m.length} messages`);return k.map((x,i)=>[x,W.def(m[i])]);};
  W.weight=ps=>ps.reduce((a,[k,m])=>a+4+k.length+(m.$cn==='Define'?4+m._value.length:0),0);
  W.merge=(a,b)=>a===undefined?b:a.$cn==='Define'?a:b===undefined?a:b;
  W.same=(a,b)=>a.length===b.length&&a.every((p,i)=>eq(p[0],b[i][0])&&$.eq(p[1],b[i][1]));
  W.show=ps=>ps.map(([k,m])=>`${ks(k)}:${m.$cn==='Define'?ks(m._value):'nop'}`).join(' ');
  W.map=ps=>new $.DMap(new Map(ps.map(([k,m])=>[$.key(k),[k,m]])));
  return W;
}
const dmap=(W,ps)=>{let m=W.BL.EmptyBucket().$cn?W.MS.map_of_seqs(ps.map(p=>p[0]),ps.map(p=>p[1])):null;return m;};
const unmap=m=>[...$.elems(m)].map(k=>[bytes(k),m.get(k)]).sort((a,b)=>cmp(a[0],b[0]));
const lastOf=ps=>{const m=new Map();for(const p of ps)m.set(ks(p[0]),p);return [...m.values()].sort((a,b)=>cmp(a[0],b[0]));};
const route=(l,k)=>{let r=-1;for(let i=0;i<l.length-1;i++)if(cmp(l[i],k)<=0)r=i;return r;};
const bounded=(l,k)=>cmp(l[0],k)<=0&&(l[l.length-1]===null||cmp(k,l[l.length-1])<0);
const ecmp=(a,b)=>a===null?(b===null?0:1):b===null?-1:cmp(a,b);
function pivots({REPO}){
  const W=world(REPO),B=W.BP;const un=r=>Array.from(r).map(W.unE);
  const sameP=(a,b)=>a.length===b.length&&a.every((x,i)=>ecmp(x,b[i])===0);
  const E={
    wf:t=>{let l=W.pivots(t);const w=t.below(6);if(w===1&&l.length>1){const i=t.below(l.length-1);l[i+1]=l[i];}else if(w===2)l=l.slice().reverse();else if(w===3)l=l.slice(0,1);else if(w===4)l=[l[0],null,null];else if(w===5&&l.length>2)l=[l[0],null,l[1]];const ok=l.length>=2&&l.every((k,i)=>i===0||ecmp(l[i-1],k)<0)&&l.slice(0,-1).every(k=>k!==null);return {args:[W.pt(l)],want:ok,f:p=>B.WFPivots(p)};},
    all:t=>{const l=W.pivots(t);return {args:[W.pt(l)],want:l[0].length===0&&l[l.length-1]===null,f:p=>{const a=B.ContainsAllKeys(p),b=B.ComputeContainsAllKeys(p);check(a===b,'ComputeContainsAllKeys');return a;}};},
    bounded:t=>{const l=W.pivots(t);const k=near(t,l.filter(x=>x));return {args:[W.pt(l),k],want:bounded(l,k),f:(p,k)=>{const a=B.BoundedKey(p,k),b=B.ComputeBoundedKey(p,k);check(a===b,'ComputeBoundedKey disagrees with BoundedKey');return a;}};},
    containsRange:t=>{const l=W.pivots(t);const f=l.filter(x=>x);let a=near(t,f),b=t.below(4)===3?null:near(t,f);if(ecmp(a,b)>=0)return null;return {args:[W.pt(l),W.E(a),W.E(b)],want:cmp(l[0],a)<=0&&ecmp(b,l[l.length-1])<=0,f:(p,a,b)=>{const x=B.ContainsRange(p,a,b),y=B.ComputeContainsRange(p,a,b);check(x===y,'ComputeContainsRange disagrees');return x;}};},
    leftcut:t=>{const l=W.pivots(t);const k=near(t,l.filter(x=>x));return {args:[W.pt(l),k],want:cmp(l[0],k)<0&&ecmp(k,l[l.length-1])<=0,f:(p,k)=>{const a=B.ValidLeftCutOffKey(p,k),b=B.ComputeValidLeftCutOffKey(p,k);check(a===b,'ComputeValidLeftCutOffKey disagrees');return a;}};},
    route:t=>{const l=W.pivots(t);const k=near(t,l.filter(x=>x));if(!bounded(l,k))return null;return {args:[W.pt(l),k],want:route(l,k),f:(p,k)=>{const a=N(B.Route(p,k)),b=N(B.ComputeRoute(p,k));check(a===b,()=>`ComputeRoute is ${b}, Route is ${a}`);return a;}};},
    getKey:t=>{const l=W.pivots(t);const i=t.below(l.length-1);return {args:[W.pt(l),i],want:l[i],f:(p,i)=>{check($.eq(B.ComputeGetKey(p,i),B.GetKey(p,i)),'ComputeGetKey');return B.GetKey(p,i);}};},
    init:t=>({args:[],ok:r=>sameP(un(r),[[],null]),f:()=>B.InitPivotTable()}),
    insertable:t=>{const l=W.pivots(t);const k=near(t,l.filter(x=>x)),i=t.below(l.length+2);const ok=i<=l.length&&(i===0||ecmp(l[i-1],k)<0)&&(i===l.length||ecmp(k,l[i])<0);return {args:[W.pt(l),i,k],want:ok,f:(p,i,k)=>{const a=B.PivotInsertable(p,i,k),b=B.ComputePivotInsertable(p,i,k);check(a===b,()=>`ComputePivotInsertable is ${b}`);if(a){const r=un(B.InsertPivot(p,i,k));const e=l.slice();e.splice(i,0,k);check(sameP(r,e),()=>`InsertPivot gives ${J(r)}`);}return a;}};},
    splitLeft:t=>{const l=W.pivots(t);const k=near(t,l.filter(x=>x));if(!(cmp(l[0],k)<0&&ecmp(k,l[l.length-1])<=0))return null;const e=l.filter(x=>ecmp(x,k)<0).concat([k]);return {args:[W.pt(l),k],ok:r=>sameP(un(r),e)||'not the pivots below the key',f:(p,k)=>{const c=N(B.ComputeCutoffForLeft(p,k));check(c===e.length-2&&N(B.CutoffForLeft(p,k))===c,()=>`cut-off is ${c}, not ${e.length-2}`);const a=B.SplitLeft(p,k);check($.eq(a,B.ComputeSplitLeft(p,k,c)),'ComputeSplitLeft disagrees');return a;}};},
    splitRight:t=>{const l=W.pivots(t);const k=near(t,l.filter(x=>x));if(!bounded(l,k))return null;const e=[k].concat(l.filter(x=>ecmp(x,k)>0));return {args:[W.pt(l),k],ok:r=>sameP(un(r),e)||'not the pivots above the key',f:(p,k)=>{const c=N(B.ComputeCutoffForRight(p,k));check(c===route(l,k)&&N(B.CutoffForRight(p,k))===c,()=>`cut-off is ${c}`);const a=B.SplitRight(p,k);check($.eq(a,B.ComputeSplitRight(p,k,c)),'ComputeSplitRight disagrees');return a;}};},
  };
  return table(E);
}
// the bucket library on key and message sequences
function model({REPO}){
  const W=world(REPO),B=W.BL;const UI=W.M('UI');
  const unb=b=>W.pairs(b);const ok=(r,e,w)=>W.same(unb(r),e)||`${w||'not'} ${W.show(e)}`;
  const blist=t=>{const l=W.pivots(t);const n=l.length-1;const all=W.gen(t,0,10);return {l,bs:[...Array(n).keys()].map(i=>all.filter(p=>bounded(l,p[0])&&route(l,p[0])===i))};};
  const range=t=>{const k=key(t),k2=key(t);return {s:t.pick([[UI.SInclusive(k),x=>cmp(k,x)<=0],[UI.SExclusive(k),x=>cmp(k,x)<0],[UI.NegativeInf,()=>true]]),e:t.pick([[UI.EInclusive(k2),x=>cmp(x,k2)<=0],[UI.EExclusive(k2),x=>cmp(x,k2)<0],[UI.PositiveInf,()=>true]])};};
  const E={
    as_map:t=>{const ps=t.list(0,7,()=>[key(t),W.msg(t,true)]);return {args:[W.bucket(ps)],ok:r=>W.same(unmap(r),lastOf(ps))||'not the last message of each key',f:b=>mem(B.Bucket).as_map(b)};},
    B:t=>{const ps=W.gen(t,0,8,true);return {args:[dmap(W,t.shuffle(ps))],ok:r=>ok(r,ps),f:m=>B.B(m)};},
    seqs_of_map:t=>{const ps=W.gen(t,0,8,true);return {args:[dmap(W,t.shuffle(ps))],ok:r=>ok(r,ps),f:m=>W.MS.seqs_of_map(m)};},
    wf:t=>{const ps=t.list(0,5,()=>[key(t),W.msg(t,true)]);return {args:[W.bucket(ps)],want:ps.every(p=>p[1].$cn==='Define'),f:b=>B.WFBucket(b)};},
    sortedList:t=>{const bs=t.list(0,3,()=>t.below(3)?W.gen(t,0,4):t.list(0,3,()=>[key(t),W.msg(t)]));return {args:[bs.map(W.bucket)],want:bs.every(ps=>ps.every((p,i)=>i===0||cmp(ps[i-1][0],p[0])<0)),f:b=>B.BucketListWellMarshalled(b)};},
    sorted:t=>{const ps=t.below(2)?W.gen(t,0,6):t.list(0,4,()=>[key(t),W.msg(t)]);return {args:[W.bucket(ps)],want:ps.every((p,i)=>i===0||cmp(ps[i-1][0],p[0])<0),f:b=>B.BucketWellMarshalled(b)};},
    empty:t=>({args:[],ok:r=>ok(r,[]),f:()=>B.EmptyBucket()}),
    emptyList:t=>{const n=t.below(6);return {args:[n],ok:r=>r.length===n&&Array.from(r).every(b=>unb(b).length===0),f:n=>B.EmptyBucketList(n)};},
    singleton:t=>{const p=[key(t),W.msg(t)];return {args:p,ok:r=>ok(r,[p]),f:(k,m)=>B.SingletonBucket(k,m)};},
    dropLast:t=>{const ps=W.gen(t,1,6);if(!ps.length)return null;return {args:[W.bucket(ps)],ok:r=>ok(r,ps.slice(0,-1)),f:b=>B.BucketDropLast(b)};},
    insert:t=>{const ps=W.gen(t,0,7),k=near(t,ps.map(p=>p[0])),m=W.msg(t,true);const e=lastOf(m.$cn==='Define'?ps.concat([[k,m]]):ps);return {args:[W.bucket(ps),k,m],ok:r=>ok(r,e),f:(b,k,m)=>B.BucketInsert(b,k,m)};},
    wfAt:t=>{const {l,bs}=blist(t);const i=t.below(bs.length);const ps=t.below(2)?bs[i]:W.gen(t,0,2);return {args:[W.bucket(ps),W.pt(l),i],want:ps.every(p=>bounded(l,p[0])&&route(l,p[0])===i),f:(b,p,i)=>B.WFBucketAt(b,p,i)};},
    wfList:t=>{const {l,bs}=blist(t);const w=t.below(4);let x=bs.map(b=>b.slice());let e=true;if(w===1){x.pop();e=false;}else if(w===2){x.push([]);e=false;}return {args:[x.map(W.bucket),W.pt(l)],want:e,f:(b,p)=>B.WFBucketList(b,p)};},
    wfProper:t=>{const {l,bs}=blist(t);const i=t.below(bs.length);const x=bs.map(b=>b.slice());let e=true;if(t.below(2)){const p=[near(t,l.filter(k=>k)),W.msg(t)];x[i].push(p);e=bounded(l,p[0])&&route(l,p[0])===i;}return {args:[x.map(W.bucket),W.pt(l)],want:e,f:(b,p)=>B.WFBucketListProper(b,p)};},
    boundedBucket:t=>{const l=W.pivots(t),ps=W.gen(t,0,4).concat(t.below(2)?[]:[[near(t,l.filter(x=>x)),W.msg(t)]]);return {args:[W.bucket(ps),W.pt(l)],want:ps.every(p=>bounded(l,p[0])),f:(b,p)=>B.BoundedBucket(b,p)};},
    listInsert:t=>{const {l,bs}=blist(t);const k=near(t,l.filter(x=>x)),m=W.msg(t,true);if(!bounded(l,k))return null;const i=route(l,k);return {args:[bs.map(W.bucket),W.pt(l),k,m],ok:r=>Array.from(r).every((b,j)=>W.same(unb(b),j===i&&m.$cn==='Define'?lastOf(bs[j].concat([[k,m]])):bs[j]))&&r.length===bs.length||'wrong bucket changed',f:(b,p,k,m)=>B.BucketListInsert(b,p,k,m)};},
    listGet:t=>{const {l,bs}=blist(t);const k=near(t,bs.flat().map(p=>p[0]).concat(l.filter(x=>x)));if(!bounded(l,k))return null;const f=bs[route(l,k)].find(p=>eq(p[0],k));return {args:[bs.map(W.bucket),W.pt(l),k],want:f?f[1]:W.id,f:(b,p,k)=>B.BucketListGet(b,p,k)};},
    split:t=>{const ps=W.gen(t,0,8),k=near(t,ps.map(p=>p[0]));return {args:[W.bucket(ps),k],ok:r=>W.same(unb(r[0]),ps.filter(p=>cmp(p[0],k)<0))&&W.same(unb(r[1]),ps.filter(p=>cmp(p[0],k)>=0))||'not cut at the key',f:(b,k)=>[B.SplitBucketLeft(b,k),B.SplitBucketRight(b,k)]};},
    splitListLeft:t=>{const {l,bs}=blist(t);const k=near(t,l.filter(x=>x));if(!(cmp(l[0],k)<0&&ecmp(k,l[l.length-1])<=0))return null;const c=l.filter(x=>ecmp(x,k)<0).length-1;const e=bs.slice(0,c).concat([bs[c].filter(p=>cmp(p[0],k)<0)]);return {args:[bs.map(W.bucket),W.pt(l),c,k],ok:r=>r.length===e.length&&Array.from(r).every((b,i)=>W.same(unb(b),e[i]))||'wrong buckets',f:(b,p,c,k)=>B.SplitBucketListLeft(b,p,c,k)};},
    splitListRight:t=>{const {l,bs}=blist(t);const k=near(t,l.filter(x=>x));if(!bounded(l,k))return null;const c=route(l,k);const e=[bs[c].filter(p=>cmp(p[0],k)>=0)].concat(bs.slice(c+1));return {args:[bs.map(W.bucket),W.pt(l),c,k],ok:r=>r.length===e.length&&Array.from(r).every((b,i)=>W.same(unb(b),e[i]))||'wrong buckets',f:(b,p,c,k)=>B.SplitBucketListRight(b,p,c,k)};},
    splitIn:t=>{const bs=t.list(1,4,()=>W.gen(t,0,5));const i=t.below(bs.length),k=near(t,bs[i].map(p=>p[0]));const e=bs.slice();e.splice(i,1,bs[i].filter(p=>cmp(p[0],k)<0),bs[i].filter(p=>cmp(p[0],k)>=0));return {args:[bs.map(W.bucket),i,k],ok:r=>r.length===e.length&&Array.from(r).every((b,j)=>W.same(unb(b),e[j]))||'wrong buckets',f:(b,i,k)=>B.SplitBucketInList(b,i,k)};},
    mergeIn:t=>{const bs=t.list(2,5,()=>W.gen(t,0,4));const i=t.below(bs.length-1);const e=bs.slice();e.splice(i,2,bs[i].concat(bs[i+1]));return {args:[bs.map(W.bucket),i],ok:r=>r.length===e.length&&Array.from(r).every((b,j)=>W.same(unb(b),e[j]))||'wrong buckets',f:(b,i)=>B.MergeBucketsInList(b,i)};},
    noPrefix:t=>{const bs=t.list(0,3,()=>W.gen(t,0,4)),p=near(t,bs.flat().map(x=>x[0])).slice(0,2);return {args:[bs.map(W.bucket),p],want:!bs.flat().some(x=>isPre(p,x[0])),f:(b,p)=>B.BucketListNoKeyWithPrefix(b,p)};},
    lookup:t=>{const ps=W.gen(t,0,9),k=near(t,ps.map(p=>p[0]));const f=ps.find(p=>eq(p[0],k));return {args:[W.bucket(ps),k],ok:r=>f?r.$cn==='Some'&&$.eq(r._value,f[1]):r.$cn==='None',f:(b,k)=>B.bucketBinarySearchLookup(b,k)};},
    middle:t=>{const ps=W.gen(t,0,9);return {args:[W.bucket(ps)],ok:r=>r.length>0&&(!ps.length||ps[ps.length>>1][0].length===0||eq(ps[ps.length>>1][0],bytes(r))),f:b=>B.getMiddleKey(b)};},
    maps:t=>{const bs=t.list(0,3,()=>W.gen(t,0,4));return {args:[bs.map(W.bucket)],ok:r=>r.length===bs.length&&Array.from(r).every((m,i)=>W.same(unmap(m),bs[i])),f:b=>B.MapsOfBucketList(b)};},
    mget:t=>{const ps=W.gen(t,0,5,true),k=near(t,ps.map(p=>p[0]));const f=ps.find(p=>eq(p[0],k));return {args:[dmap(W,ps),k],want:f?f[1]:W.id,f:(m,k)=>W.BM.BucketGet(m,k)};},
    itemFlush:t=>{const {l,bs}=blist(t);const par=W.gen(t,0,6,true),i=t.below(bs.length);const c=t.below(2)?bs[i]:W.gen(t,0,4,true);const e=lastOf(c.concat(par.filter(p=>p[1].$cn==='Define'))).filter(p=>p[1].$cn==='Define'&&bounded(l,p[0])&&route(l,p[0])===i);return {args:[dmap(W,par),dmap(W,c),W.pt(l),i],ok:r=>W.same(unmap(r),e)||'not '+W.show(e),f:(a,b,p,i)=>W.BM.BucketListItemFlush(a,b,p,i)};},
    listFlush:t=>{const {l,bs}=blist(t);const par=W.gen(t,0,6);const e=bs.map((c,i)=>lastOf(c.concat(par)).filter(p=>bounded(l,p[0])&&route(l,p[0])===i));return {args:[dmap(W,par),bs.map(b=>dmap(W,b)),W.pt(l)],ok:r=>r.length===e.length&&Array.from(r).every((m,i)=>W.same(unmap(m),e[i]))||'wrong children',f:(a,b,p)=>W.BM.BucketListFlush(a,b,p)};},
    meet:t=>{const ps=W.gen(t,0,6,true);const s=t.list(0,4,()=>near(t,ps.map(p=>p[0])));const set=$.DSet.from(s);const has=k=>s.some(x=>eq(x,k));return {args:[dmap(W,ps),set],ok:r=>W.same(unmap(r[0]),ps.filter(p=>has(p[0])))&&W.same(unmap(r[1]),ps.filter(p=>!has(p[0]))),f:(m,s)=>[W.BM.BucketIntersect(m,s),W.BM.BucketComplement(m,s)]};},
    clamp:t=>{const ps=W.gen(t,0,8,true),{s,e}=range(t);return {args:[dmap(W,ps),s[0],e[0]],ok:r=>W.same(unmap(r[0]),ps.filter(p=>s[1](p[0])&&e[1](p[0])))&&W.same(unmap(r[1]),ps.filter(p=>s[1](p[0])))&&W.same(unmap(r[2]),ps.filter(p=>e[1](p[0])))||'wrong keys kept',f:(m,s,e)=>[W.BM.ClampRange(m,s,e),W.BM.ClampStart(m,s),W.BM.ClampEnd(m,e)]};},
    compose:t=>{const a=W.gen(t,0,5,true),b=W.gen(t,0,5,true);const m=new Map();for(const p of b.concat(a)){const o=m.get(ks(p[0]));m.set(ks(p[0]),[p[0],W.merge(p[1],o&&o[1])]);}const e=[...m.values()].sort((x,y)=>cmp(x[0],y[0]));return {args:[dmap(W,a),dmap(W,b)],ok:r=>W.same(unmap(r),e)||'not '+W.show(e),f:(a,b)=>W.BM.Compose(a,b)};},
    composeSeq:t=>{const bs=t.list(0,4,()=>W.gen(t,0,4,true));const m=new Map();for(const b of bs.slice().reverse())for(const p of b){const o=m.get(ks(p[0]));m.set(ks(p[0]),[p[0],W.merge(p[1],o&&o[1])]);}const e=[...m.values()].sort((x,y)=>cmp(x[0],y[0]));return {args:[bs.map(b=>dmap(W,b))],ok:r=>W.same(unmap(r),e)||'not '+W.show(e),f:b=>W.BM.ComposeSeq(b)};},
    kvmap:t=>{const ps=W.gen(t,0,7,true);const e=ps.filter(p=>p[1].$cn==='Define'&&p[1]._value.length>0);return {args:[dmap(W,ps)],ok:r=>{const got=[...$.elems(r)].map(k=>[bytes(k),W.def(r.get(k))]).sort((a,b)=>cmp(a[0],b[0]));if(!W.same(got,e))return 'not '+W.show(e);const s=Array.from(W.BM.SortedSeqOfKeyValueMap(r)).map(x=>[bytes(x._key),W.def(x._value)]);return W.same(s,e)||'in order: '+W.show(s);},f:m=>W.BM.KeyValueMapOfBucket(m)};},
    weights:t=>{const bs=t.list(0,4,()=>W.gen(t,0,5,true));const l=bs.map(W.bucket);return {args:[l],want:bs.reduce((a,b)=>a+W.weight(b),0),f:l=>{bs.forEach((b,i)=>{check(N(W.BW.WeightBucket(l[i]))===W.weight(b),()=>`WeightBucket is ${W.BW.WeightBucket(l[i])}, not ${W.weight(b)}`);check(N(W.BW.WeightBucketMap(dmap(W,b)))===W.weight(b),'WeightBucketMap');for(const [k,m] of b)check(N(W.BW.WeightKeyUint64(k))===4+k.length&&N(W.BW.WeightMessageUint64(m))===(m.$cn==='Define'?4+m._value.length:0),'weight of a key or message');});return W.BW.WeightBucketList(l);}};},
    biggest:t=>{const bs=t.list(1,6,()=>W.gen(t,0,4));const w=bs.map(b=>W.weight(b)),m=Math.max(...w);return {args:[bs.map(W.bucket)],ok:r=>N(r._1)===m&&w[N(r._0)]===m||`weights are ${w}`,f:b=>W.BW.biggestSlot(b)};},
  };
  return table(E);
}
// what a flush may do: the top loses some messages, all of them arrive at the right child, nothing else changes
function judgeFlush(W,top,pt,bots,bound,nt,nb,sortedIn){
  check(nb.length===bots.length,()=>`${nb.length} children after the flush, not ${bots.length}`);
  check(nt.every(p=>top.some(q=>eq(p[0],q[0])&&$.eq(p[1],q[1]))),()=>`the top holds ${W.show(nt)} afterwards`);
  const gone=top.filter(p=>!nt.some(q=>eq(p[0],q[0])));
  bots.forEach((b,i)=>{const e=lastOf(b.concat(gone.filter(p=>route(pt,p[0])===i)));check(W.same(nb[i],e),()=>`child ${i} holds ${W.show(nb[i])}; flushing ${W.show(gone)} into ${W.show(b)} gives ${W.show(e)}`);});
  const w=nb.reduce((a,b)=>a+W.weight(b),0);check(w<=bound,()=>`the children weigh ${w} after the flush; the bound is ${bound}`);
  const all=bots.reduce((a,b)=>a+W.weight(b),0);if(all+W.weight(top)<=bound)check(nt.length===0,()=>`everything fits in ${bound}, but ${W.show(nt)} stays behind`);
  if(top.length&&nt.length){const slack=bound-w;const k=nt[0];const i=route(pt,k[0]);const o=nb[i].find(p=>eq(p[0],k[0]));const d=o?k[1]._value.length-o[1]._value.length:W.weight([k]);check(d>slack,()=>`${W.show([k])} stays although ${slack} bytes are left for it`);}
  return gone;
}
function flush({REPO}){
  const Ws=[60,130,100000].map(n=>({n,W:world(REPO,{'Bounds.MaxTotalBucketWeightUint64':()=>n})}));
  return (t,c)=>{
    const {n,W}=t.pick(Ws);const pt=W.pivots(t);const bots=[...Array(pt.length-1).keys()].map(()=>[]);
    for(const p of W.gen(t,0,9))if(bounded(pt,p[0]))bots[route(pt,p[0])].push(p);
    while(bots.reduce((a,b)=>a+W.weight(b),0)>n){const i=bots.findIndex(b=>b.length);bots[i].pop();}
    let top=W.gen(t,0,9).filter(p=>bounded(pt,p[0]));for(const b of bots)for(const p of b)if(t.below(3)===2&&!top.some(q=>eq(q[0],p[0])))top.push([p[0],W.msg(t)]);top.sort((a,b)=>cmp(a[0],b[0]));while(W.weight(top)>n)top.pop();
    if(t.below(5)===4){ // out of order: the implementations agree with the model, and only ordered buckets are recorded as sorted
      const sh=b=>t.below(2)?t.shuffle(b):b;const ub=bots.map(sh),ut=sh(top);const ord=ps=>ps.every((p,i)=>i===0||cmp(ps[i-1][0],p[0])<0);const P=W.pt(pt);c.log(()=>`unordered: bound ${n}, pivots ${J(pt)}, top ${W.show(ut)}, children ${ub.map(W.show).join(' | ')}`);
      const e=W.BF.partialFlush(W.bucket(ut),P,ub.map(W.bucket));const et=W.pairs(e._top),eb=Array.from(e._bots).map(W.pairs);
      const A=stat(W.BI.MutBucket,'AllocPkv');const fl=b=>ord(b)&&t.below(3)!==2;const r=W.BI.PartialFlush(LSeq.from(ub.map(b=>A(W.pkv(b),fl(b)))),A(W.pkv(ut),fl(ut)),P);
      for(const [b,w] of [[r[1],et],...Array.from(r[0]).map((b,i)=>[b,eb[i]])]){const g=W.unpkv(mem(W.BI.MutBucket).GetPkv(b));check(W.same(g,w),()=>`flushing leaves ${W.show(g)}, the model ${W.show(w)}`);check(!b._sorted||ord(g),()=>`${W.show(g)} is recorded as sorted`);check(N(b._weight)===W.weight(g),'recorded weight');}
      c.label('unordered');c.nontrivial(!ord(ut)||!ub.every(ord));c.sample('unordered '+W.show(ut));return;}
    const how=t.below(3);c.log(()=>`bound ${n}, pivots ${J(pt)}, top ${W.show(top)}, children ${bots.map(W.show).join(' | ')}`);
    let nt,nb;const P=W.pt(pt);
    if(how===0){const r=W.BF.partialFlush(W.bucket(top),P,bots.map(W.bucket));nt=W.pairs(r._top);nb=Array.from(r._bots).map(W.pairs);}
    else if(how===1){const r=W.DP.PartialFlush(W.pkv(top),P,bots.map(W.pkv));nt=W.unpkv(r._top);nb=Array.from(r._bots).map(W.unpkv);}
    else{const A=stat(W.BI.MutBucket,'AllocPkv');const tb=A(W.pkv(top),true);let l=LSeq.from(bots.map(b=>A(W.pkv(b),true)));const r=W.BI.PartialFlush(l,tb,P);const g=b=>W.unpkv(mem(W.BI.MutBucket).GetPkv(b));l=r[0];nt=g(r[1]);nb=Array.from(l).map(g);for(const b of [r[1],...l]){check(N(b._weight)===W.weight(g(b)),()=>`a bucket records weight ${b._weight}, not ${W.weight(g(b))}`);}}
    const gone=judgeFlush(W,top,pt,bots,n,nt,nb);c.label(['model','packed','buckets'][how]);if(nt.length&&gone.length)c.label('partial');
    c.nontrivial(top.length>0);c.sample(`top ${W.show(top)} into ${bots.map(W.show).join(' | ')} with bound ${n}`);
  };
}
// mutable buckets in both formats
function mut({REPO}){
  const Ws=[[3,4],[4,4],[64,64]].map(([k,c])=>world(REPO,{'LKMBtree.MaxKeysPerLeaf':()=>k,'LKMBtree.MaxChildren':()=>c}));
  return (t,c)=>{
    const W=t.pick(Ws),C=W.BI.MutBucket,m=mem(C);
    const get=b=>W.unpkv(m.GetPkv(b));
    const full=(b,ps,w)=>{const g=get(b.v);check(W.same(g,ps),()=>`${w} holds ${W.show(g)}, not ${W.show(ps)}`);check(N(b.v._weight)===W.weight(ps),()=>`${w} records weight ${b.v._weight}, not ${W.weight(ps)}`);
      const so=ps.every((p,i)=>i===0||cmp(ps[i-1][0],p[0])<0);check(m.WellMarshalled(b.v)===so,()=>`${w}: WellMarshalled is ${m.WellMarshalled(b.v)}`);check(!b.v._sorted||so,'recorded as sorted');check(m.Empty(b.v)===(ps.length===0),'Empty');
      check(W.same(W.unpkv(m.GetPkvSorted(b.v,true)),lastOf(ps)),()=>`${w} sorted is ${W.show(W.unpkv(m.GetPkvSorted(b.v,true)))}`);
      if(so&&ps.length){check(eq(bytes(m.GetFirstKey(b.v)),ps[0][0]),'GetFirstKey');check(eq(bytes(m.GetLastKey(b.v)),ps[ps.length-1][0]),'GetLastKey');}
      const k=bytes(m.GetMiddleKey(b.v));check(k.length>0&&(!ps.length||ps[ps.length>>1][0].length===0||eq(k,ps[ps.length>>1][0])),()=>`GetMiddleKey is ${k}`);
      if(so)for(let i=0;i<4;i++){const k=near(t,ps.map(p=>p[0]));const f=ps.find(p=>eq(p[0],k)),q=m.Query(b.v,k);check(f?q.$cn==='Some'&&$.eq(q._value,f[1]):q.$cn==='None',()=>`${w}: Query [${k}] is ${J(q)}, not ${f?W.show([f]):'nothing'}`);}
      const pre=near(t,ps.map(p=>p[0])).slice(0,2);check(m.NoKeyWithPrefix(b.v,pre)===!ps.some(p=>isPre(pre,p[0])),()=>`${w}: NoKeyWithPrefix [${pre}]`);
      const pt=W.pivots(t),i=t.below(pt.length-1);if(so&&ps.every(p=>bounded(pt,p[0])))check(m.WFBucketAt(b.v,W.pt(pt),i)===ps.every(p=>bounded(pt,p[0])&&route(pt,p[0])===i),()=>`${w}: WFBucketAt ${i}`);};
    let ps,b;const st=t.below(3);
    if(st===0){ps=[];b=new Lin(C,stat(C,'Alloc')());}else{ps=st===1?W.gen(t,0,9):t.list(0,7,()=>[key(t),W.msg(t)]);const so=ps.every((p,i)=>i===0||cmp(ps[i-1][0],p[0])<0);b=new Lin(C,stat(C,'AllocPkv')(W.pkv(ps),so&&t.below(2)===1));c.log(()=>`packed bucket ${W.show(ps)}`);}
    full(b,ps,'the bucket');let n=0;
    t.list(1,14,()=>{n++;const w=t.below(8);
      if(w<4){const k=near(t,ps.map(p=>p[0])),v=W.msg(t,true);c.log(()=>`insert ${W.show([[k,v]])}`);b.call('Insert',k,v);ps=lastOf(v.$cn==='Define'?ps.concat([[k,v]]):ps);full(b,ps,'the bucket');}
      else if(w===4){if(!ps.every((p,i)=>i===0||cmp(ps[i-1][0],p[0])<0))return;const k=near(t,ps.map(p=>p[0]));c.log(()=>`split at [${k}]`);const l=new Lin(C,m.SplitLeft(b.v,k)),r=new Lin(C,m.SplitRight(b.v,k));const a=ps.filter(p=>cmp(p[0],k)<0),z=ps.filter(p=>cmp(p[0],k)>=0);full(l,a,'the left part');full(r,z,'the right part');full(b,ps,'the bucket');if(t.below(2)){b=t.below(2)?(ps=a,l):(ps=z,r);}}
      else if(w===5){c.log('clone');const d=new Lin(C,m.Clone(b.v));full(d,ps,'the clone');d.call('Insert',[9],W.def([9]));full(b,ps,'the bucket');}
      else if(w===6){ // a list of buckets
        const bs=t.list(1,4,()=>W.gen(t,0,4));const A=q=>stat(C,'AllocPkv')(W.pkv(q),true);let l=LSeq.from(bs.map(A));const S=n=>stat(C,n);const cmpL=(l,e,w)=>{check(l.length===e.length&&Array.from(l).every((x,i)=>W.same(get(x),e[i])&&N(x._weight)===W.weight(e[i])),()=>`${w} gives ${Array.from(l).map(x=>W.show(get(x))).join(' | ')}`);};
        const tot=bs.reduce((a,q)=>a+W.weight(q),0);check(N(S('computeWeightOfSeq')(l))===tot,()=>`computeWeightOfSeq is ${S('computeWeightOfSeq')(l)}, not ${tot}`);
        const i=t.below(bs.length),j=i+t.below(bs.length-i+1);const tw=S('tryComputeWeightOfSeq')(l,i,j),e=bs.slice(i,j).reduce((a,q)=>a+W.weight(q),0);check(tw[0]&&N(tw[1])===e,()=>`weight of ${i}..${j} is ${J(tw)}, not ${e}`);
        cmpL(S('CloneSeq')(l,i,j),bs.slice(i,j),'CloneSeq');const pre=near(t,bs.flat().map(p=>p[0])).slice(0,2);check(S('SeqNoKeyWithPrefix')(l,pre,i,j)===!bs.slice(i,j).flat().some(p=>isPre(pre,p[0])),'SeqNoKeyWithPrefix');
        const k=near(t,bs[i].map(p=>p[0]));let r=S('SplitOneInList')(l,i,k);const e2=bs.slice();e2.splice(i,1,bs[i].filter(p=>cmp(p[0],k)<0),bs[i].filter(p=>cmp(p[0],k)>=0));l=Array.isArray(r)&&!(r instanceof LSeq)?r[0]:r;cmpL(l,e2,'SplitOneInList');
        const h=t.below(e2.length+1);const [x,y]=S('SplitSeq')(l,h);cmpL(x,e2.slice(0,h),'SplitSeq left');cmpL(y,e2.slice(h),'SplitSeq right');
        const q1=W.gen(t,0,3),q2=W.gen(t,0,3);if(t.below(2))cmpL(S('BucketListConcat')(x,A(q1),y),[...e2.slice(0,h),q1,...e2.slice(h)],'BucketListConcat');else{const mid=LSeq.from(bs.map(A));cmpL(S('BucketListConcat3')(x,A(q1),mid,A(q2),y),[...e2.slice(0,h),q1,...bs,q2,...e2.slice(h)],'BucketListConcat3');}
        const z=t.below(4);cmpL(S('EmptySeq')(z),[...Array(z)].map(()=>[]),'EmptySeq');}
      else full(b,ps,'the bucket');
    });
    c.nontrivial(n>=2);c.sample(`${n} operations, ends with ${W.show(ps)}`);
  };
}
// packed string arrays
function strings({REPO}){
  const W=world(REPO),S=W.PSA;
  const sl=t=>t.below(2)?keys(t,0,8):t.list(0,7,()=>t.bytes(0,t.pick([2,5]),[0,1,255]));
  const un=r=>W.unpsa(r);const same=(r,e)=>{const g=un(r);return g.length===e.length&&g.every((x,i)=>eq(x,e[i]))||`holds ${J(g)}, not ${J(e)}`;};
  const E={
    wf:t=>{const l=sl(t);const p=W.psa(l);const w=t.below(4);let o=Array.from(p._offsets),d=Array.from(p._data);if(w===1&&o.length){const i=t.below(o.length);o[i]=Math.max(0,o[i]+t.pick([-1,1,3]));}else if(w===2)d.push(0);else if(w===3)d.pop();const ok=o.every((x,i)=>(i?o[i-1]:0)<=x)&&(o.length?o[o.length-1]:0)===d.length;return {args:[S.Psa(o,d)],want:ok,f:p=>{check(W.M('PackedStringArrayMarshalling').ComputeWF(p)===ok,'ComputeWF disagrees');return S.WF(p);}};},
    elements:t=>{const l=sl(t);return {args:[W.psa(l)],ok:r=>r.length===l.length&&l.every((x,i)=>eq(x,bytes(r[i])))||'not '+J(l),f:p=>{check(N(S.psaNumStrings(p))===l.length,'psaNumStrings');check(N(S.psaTotalLength(p))===l.flat().length,'psaTotalLength');check(N(S.SizeOfPsaUint64(p))===8+4*l.length+l.flat().length-0||N(S.SizeOfPsaUint64(p))===N(S.SizeOfPsa(p)),'SizeOfPsaUint64');l.forEach((x,i)=>{check(eq(bytes(S.psaElement(p,i)),x),()=>`element ${i} is ${J(S.psaElement(p,i))}`);const o=l.slice(0,i).flat().length;check(N(S.psaStart(p,i))===o&&N(S.psaEnd(p,i))===o+x.length,()=>`element ${i} lies at ${S.psaStart(p,i)}..${S.psaEnd(p,i)}`);});if(l.length){check(eq(bytes(S.FirstElement(p)),l[0]),'FirstElement');check(eq(bytes(S.LastElement(p)),l[l.length-1]),'LastElement');}const ts=S.ToSeq(p);check(ts.length===l.length&&l.every((x,i)=>eq(x,bytes(ts[i]))),'ToSeq');return S.I(p);}};},
    from:t=>{const l=sl(t);return {args:[l],ok:r=>same(r,l),f:l=>{check(N(S.psaSeqTotalLength(l))===l.flat().length,'psaSeqTotalLength');const a=S.psaFromSeq(l),b=S.FromSeq(l);check($.eq(a,b),()=>`FromSeq gives ${J(b)}`);return a;}};},
    empty:t=>({args:[],ok:r=>same(r,[]),f:()=>S.EmptyPsa()}),
    checkSorted:t=>{const o=t.list(0,7,()=>t.below(5));if(t.below(2))o.sort((a,b)=>a-b);return {args:[o],want:o.every((x,i)=>!i||o[i-1]<=x),f:o=>S.CheckIsSorted(o)};},
    sub:t=>{const l=sl(t);const a=t.below(l.length+1),b=a+t.below(l.length-a+1);return {args:[W.psa(l),a,b],ok:r=>same(r,l.slice(a,b)),f:(p,a,b)=>{const x=S.psaSubSeq(p,a,b),y=S.PsaSubSeq(p,a,b);check($.eq(x,y),()=>`PsaSubSeq gives ${J(y)}`);const q=same(S.PsaPrefix(p,b),l.slice(0,b));check(q===true,()=>'PsaPrefix '+q);const s=same(S.PsaSuffix(p,a),l.slice(a));check(s===true,()=>'PsaSuffix '+s);return x;}};},
    dropLast:t=>{const l=sl(t);if(!l.length)return null;return {args:[W.psa(l)],ok:r=>same(r,l.slice(0,-1)),f:p=>S.psaDropLast(p)};},
    append:t=>{const l=sl(t),k=key(t);return {args:[W.psa(l),k],ok:r=>same(r,l.concat([k])),f:(p,k)=>{check(S.psaCanAppend(p,k)===true&&S.PsaCanAppend(p,k)===true,'cannot append to a small array');return S.psaAppend(p,k);}};},
    appendSeq:t=>{const l=sl(t),m=sl(t);return {args:[W.psa(l),m],ok:r=>same(r,l.concat(m)),f:(p,m)=>S.psaAppendSeq(p,m)};},
    search:t=>{const l=uniqSorted(sl(t)),k=near(t,l);const p=W.psa(l);const gte=l.filter(x=>cmp(x,k)<0).length,gt=l.filter(x=>cmp(x,k)<=0).length;return {args:[p,k],want:gte,f:(p,k)=>{
      check(N(S.LargestLte(p,k))===gt-1,()=>`LargestLte is ${S.LargestLte(p,k)}, not ${gt-1}`);check(N(S.BinarySearchIndexOfFirstKeyGt(p,k))===gt,()=>`BinarySearchIndexOfFirstKeyGt is ${S.BinarySearchIndexOfFirstKeyGt(p,k)}, not ${gt}`);
      check(N(S.BinarySearchIndexOfFirstKeyGtePivot(p,W.E(k)))===gte,'BinarySearchIndexOfFirstKeyGtePivot');check(N(S.BinarySearchIndexOfFirstKeyGtePivot(p,W.E(null)))===l.length,'BinarySearchIndexOfFirstKeyGtePivot of the upper end');
      const lo=t.below(gte+1);check(N(S.BinarySearchIndexOfFirstKeyGteWithLowerBound(p,k,lo))===gte,()=>`from ${lo}, BinarySearchIndexOfFirstKeyGteWithLowerBound is ${S.BinarySearchIndexOfFirstKeyGteWithLowerBound(p,k,lo)}, not ${gte}`);return S.BinarySearchIndexOfFirstKeyGte(p,k);}};},
    marshal:t=>{const l=sl(t);const M=W.M('PackedStringArrayMarshalling');return {args:[W.psa(l)],ok:r=>r.$cn==='Some'&&same(r._value,l)===true||'comes back as '+J(r),f:p=>M.FromVal(M.ToVal(p))};},
  };
  const tab=table(E);
  const dyn=(t,c)=>{
    let d,e=[];const pre=t.below(3);if(pre===0)e=sl(t);
    const Cl=S.DynamicPsa;d=ob(newClass(Cl,pre===0?'FromSeq':'PreSized',pre===0?[e.slice()]:[t.below(4),t.below(9)]));let n=0;
    const full=()=>{const g=un(d.toPsa());check(g.length===e.length&&g.every((x,i)=>eq(x,e[i])),()=>`holds ${J(g)}, not ${J(e)}`);check(N(d.weight())===4*e.length+e.flat().length,()=>`weight is ${d.weight()}`);check(N(d.TotalLength())===e.flat().length,'TotalLength');};full();
    t.list(1,12,()=>{n++;const w=t.below(6);
      if(w<3){const k=key(t);c.log(()=>`Append [${k}]`);d.Append(k);e.push(k);}
      else if(w<5){const l=sl(t);c.log(()=>`AppendSeq ${J(l)}`);d.AppendSeq(l);e.push(...l);}
      else{const i=t.below(e.length+1);c.log(()=>`Prefix ${i}`);d.Prefix(i);e=e.slice(0,i);}
      full();});
    c.nontrivial(n>=2);c.sample(`dynamic array of ${e.length} strings after ${n} operations`);
  };
  return (t,c)=>t.below(3)?tab(t,c):dyn(t,c);
}
const newClass=(C,ctor,args)=>require('../compile.js').newClass(C.$cell,ctor,args);
function kvs({REPO}){
  const W=world(REPO),K=W.PKV,D=W.DP;const same=(r,e)=>{const g=W.unpkv(r);return W.same(g,e)||`holds ${W.show(g)}, not ${W.show(e)}`;};
  const raw=t=>t.below(2)?W.gen(t,0,9):t.list(0,7,()=>[key(t),W.msg(t)]);
  const E={
    I:t=>{const ps=raw(t);return {args:[W.pkv(ps)],ok:r=>W.same(W.pairs(r),ps)||'not '+W.show(ps),f:p=>{check(N(K.NumKVPairs(p))===ps.length,'NumKVPairs');check(N(K.WeightPkv(p))===W.weight(ps),()=>`WeightPkv is ${K.WeightPkv(p)}, not ${W.weight(ps)}`);check(N(D.WeightBucketPkv(p))===W.weight(ps),'WeightBucketPkv');check(N(K.SizeOfPkvUint64(p))===N(K.SizeOfPkv(p)),'SizeOfPkvUint64');ps.forEach((x,i)=>check(eq(bytes(K.GetKey(p,i)),x[0])&&$.eq(K.GetMessage(p,i),x[1]),()=>`pair ${i} is ${J(K.GetKey(p,i))}:${J(K.GetMessage(p,i))}`));if(ps.length){check(eq(bytes(K.FirstKey(p)),ps[0][0]),'FirstKey');check(eq(bytes(K.LastKey(p)),ps[ps.length-1][0]),'LastKey');}return K.I(p);}};},
    sorted:t=>{const ps=raw(t);return {args:[W.pkv(ps)],want:ps.every((p,i)=>!i||cmp(ps[i-1][0],p[0])<0),f:p=>{const a=K.SortedKeys(p),b=K.ComputeIsSorted(p);check(a===b,()=>`ComputeIsSorted is ${b}`);return a;}};},
    empty:t=>({args:[],ok:r=>same(r,[]),f:()=>K.EmptyPkv()}),
    lens:t=>{const l=t.list(0,5,()=>t.bytes(0,6)),m=t.below(7);return {args:[W.psa(l),m],want:l.every(x=>x.length<=m),f:(p,m)=>K.ComputeValidStringLens(p,m)};},
    query:t=>{const ps=W.gen(t,0,10),k=near(t,ps.map(p=>p[0]));const f=ps.find(p=>eq(p[0],k));return {args:[W.pkv(ps),k],ok:r=>f?r.$cn==='Some'&&$.eq(r._value,f[1]):r.$cn==='None',f:(p,k)=>K.BinarySearchQuery(p,k)};},
    append:t=>{const ps=raw(t),k=key(t),m=W.msg(t);return {args:[W.pkv(ps),k,m],ok:r=>same(r,ps.concat([[k,m]])),f:(p,k,m)=>{check(K.canAppend(p,k,m._value)===true,'cannot append to a small array');return K.Append(p,k,m);}};},
    sub:t=>{const ps=raw(t);const a=t.below(ps.length+1),b=a+t.below(ps.length-a+1);return {args:[W.pkv(ps),a,b],ok:r=>same(r,ps.slice(a,b)),f:(p,a,b)=>{const x=K.subPkv(p,a,b),y=K.SubPkv(p,a,b);check($.eq(x,y),'SubPkv');return x;}};},
    dropLast:t=>{const ps=raw(t);if(!ps.length)return null;return {args:[W.pkv(ps)],ok:r=>same(r,ps.slice(0,-1)),f:p=>K.DropLast(p)};},
    split:t=>{const ps=W.gen(t,0,9),k=near(t,ps.map(p=>p[0]));return {args:[W.pkv(ps),k],ok:r=>{const a=same(r[0],ps.filter(p=>cmp(p[0],k)<0)),b=same(r[1],ps.filter(p=>cmp(p[0],k)>=0));return a!==true?'left '+a:b!==true?'right '+b:true;},f:(p,k)=>[K.SplitLeft(p,k),K.SplitRight(p,k)]};},
    indexes:t=>{const ps=W.gen(t,0,8),pt=W.pivots(t);return {args:[W.psa(ps.map(p=>p[0])),W.pt(pt)],ok:r=>r.length===pt.length&&pt.every((x,i)=>N(r[i])===ps.filter(p=>ecmp(p[0],x)<0).length)||'not the first keys at or above the pivots',f:(p,pt)=>{const a=D.computePivotIndexes(p,pt);check($.eq(Array.from(a).map(N),Array.from(W.BF.pivotIndexes(ps.map(x=>x[0]),pt)).map(N)),'pivotIndexes disagrees');return a;}};},
    marshal:t=>{const ps=W.gen(t,0,8);const M=W.M('PackedKVMarshalling');return {args:[W.pkv(ps)],ok:r=>r.$cn==='Some'&&same(r._value,ps)===true||'comes back as '+J(r),f:p=>M.FromVal(M.ToVal(p))};},
    marshalBad:t=>{const k=sl(t),m=t.list(0,6,()=>t.bytes(0,3));const M=W.M('PackedKVMarshalling');const p=K.Pkv(W.psa(k),W.psa(m));return {args:[p],want:k.length===m.length,f:p=>M.FromVal(M.ToVal(p)).$cn==='Some'};},
    tree:t=>{const ps=raw(t);const L=W.M('LKMBPKVOps');return {args:[W.pkv(ps)],ok:r=>same(r,lastOf(ps)),f:p=>{const [n,w]=L.FromPkv(p);check(N(w)===W.weight(lastOf(ps)),()=>`FromPkv reports weight ${w}, not ${W.weight(lastOf(ps))}`);return L.ToPkv(n);}};},
  };
  const sl=t=>keys(t,0,6);
  const tab=table(E);
  const dyn=(t,c)=>{
    const pre=t.below(2);const d=ob(newClass(D.DynamicPkv,'PreSized',[pre?D.EmptyCapacity():D.Capacity(t.below(4),t.below(9),t.below(9))].flat()));let e=[],n=0;
    const full=()=>{const s=same(d.toPkv(),e);check(s===true,()=>s);check(N(d.weight())===W.weight(e),()=>`weight is ${d.weight()}, not ${W.weight(e)}`);};full();
    t.list(1,10,()=>{n++;const w=t.below(5);
      if(w<2){const k=key(t),m=W.msg(t);c.log(()=>`Append ${W.show([[k,m]])}`);d.Append(k,m);e.push([k,m]);}
      else if(w<3){const k=key(t),m=W.msg(t);d.AppendEncodedMessage(k,m._value);e.push([k,m]);}
      else{const q=raw(t);const a=t.below(q.length+1),b=a+t.below(q.length-a+1);c.log(()=>`AppendPkv ${a}..${b} of ${W.show(q)}`);d.AppendPkv(W.pkv(q),a,b);e.push(...q.slice(a,b));}
      full();});
    c.nontrivial(n>=2);c.sample(`dynamic array of ${e.length} pairs after ${n} operations`);
  };
  return (t,c)=>t.below(4)?tab(t,c):dyn(t,c);
}
// K04: key translation through edges
const nextOf=p=>{let i=p.length;while(i>0&&p[i-1]===255)i--;return i===0?null:p.slice(0,i-1).concat([p[i-1]+1]);};
const lcpOf=(l,r)=>{for(let i=l.length;i>0;i--)if(ecmp(r,nextOf(l.slice(0,i)))<=0)return l.slice(0,i);return [];};
function translation({REPO}){
  const W=world(REPO),L=W.M('TranslationLib'),I=W.M('TranslationImpl'),O=W.M('Options');
  const some=x=>x===null?O.None:O.Some(x);const ps=x=>x===null?O.None:O.Some(L.PrefixSet(x[0],x[1]));
  const un=r=>Array.from(r).map(x=>x.$cn==='None'?null:bytes(x._value));const unP=r=>Array.from(r).map(W.unE);
  const sameE=(a,b)=>a.length===b.length&&a.every((x,i)=>ecmp(x,b[i])===0);
  const pivots=t=>{const base=t.bytes(0,2,[0,1,254,255]);let l=uniqSorted(t.list(2,6,()=>base.concat(t.bytes(0,3,[0,1,2,254,255]))));if(l.length<2)l=[base,base.concat([0])];if(t.below(3)===2){const e=nextOf(base);if(e!==null)l.push(e);else l.push(null);}if(l[l.length-1]!==null&&t.below(4)===3)l.push(null);return l;};
  const edges=(t,l)=>l.slice(1).map((r,i)=>lcpOf(l[i],r).length&&t.below(3)?t.bytes(0,3,[0,1,7,255]):null);
  const keyIn=(t,l,lo,hi)=>{const k=t.below(2)?near(t,l.filter(x=>x)):t.pick(l.filter(x=>x)).concat(t.bytes(0,2,[0,1,255]));return k;};
  const trans=(l,et,k)=>{const i=route(l,k);return et[i]===null?k:et[i].concat(k.slice(lcpOf(l[i],l[i+1]).length));};
  const samples=(t,l)=>[...Array(6)].map(()=>keyIn(t,l)).concat(l.filter(x=>x)).filter(k=>bounded(l,k));
  const E={
    lcp:t=>{const k=uniqSorted([near(t,[]),near(t,[])]).concat(t.below(4)===3?[null]:[]);const q=pivots(t);const [a,b]=t.below(2)&&k.length>1?k.slice(-2):q.slice(0,2);return {args:[W.E(a),W.E(b)],want:lcpOf(a,b),f:(x,y)=>{const r=bytes(L.PivotLcp(x,y)),c=bytes(I.ComputePivotLcp(x,y)),n=N(I.ComputePivotLcpLen(x,y));check(eq(r,c)&&n===r.length,()=>`ComputePivotLcp is ${c}, length ${n}; PivotLcp is ${r}`);return r;}};},
    uncommon:t=>{const p=t.bytes(0,4,[0,1,254,255]);return {args:[p],ok:r=>ecmp(W.unE(r),nextOf(p))===0||'not '+nextOf(p),f:p=>{const c=I.ComputeShortestUncommonPrefix(p);check($.eq(c,L.ShortestUncommonPrefix(p,p.length)),()=>`ComputeShortestUncommonPrefix is ${J(c)}`);return c;}};},
    wfEdges:t=>{const l=pivots(t);const et=l.slice(1).map(()=>t.below(3)===0?null:t.bytes(0,2));const w=t.below(5);if(w===4)et.pop();const ok=et.length===l.length-1&&et.every((e,i)=>e===null||lcpOf(l[i],l[i+1]).length>0);return {args:[et.map(some),W.pt(l)],want:ok,f:(e,p)=>L.WFEdges(e,p)};},
    key:t=>{const l=pivots(t),et=edges(t,l),k=keyIn(t,l);if(!bounded(l,k))return null;const i=route(l,k);return {args:[W.pt(l),et.map(some),k],want:trans(l,et,k),nt:et[i]!==null,f:(p,e,k)=>{const r=L.TranslateKey(p,e,k);check($.eq(r,I.ComputeTranslateKey(p,e,k,i)),()=>`ComputeTranslateKey is ${J(I.ComputeTranslateKey(p,e,k,i))}`);const s=L.Translate(p,e,k);check($.eq(s,I.ComputeTranslatePrefixSet(p,e,k,i)),'ComputeTranslatePrefixSet');check(et[i]===null?s.$cn==='None':eq(bytes(s._value._prefix),lcpOf(l[i],l[i+1]))&&eq(bytes(s._value._newPrefix),et[i]),()=>`Translate is ${J(s)}`);return r;}};},
    splitLeft:t=>{const l=pivots(t),et=edges(t,l),k=keyIn(t,l);if(!(cmp(l[0],k)<0&&ecmp(k,l[l.length-1])<=0))return null;const l2=l.filter(x=>ecmp(x,k)<0).concat([k]),c=l2.length-2;const q=samples(t,l2);return {args:[et.map(some),W.pt(l),k],nt:et[c]!==null,ok:r=>{const e=un(r);if(e.length!==c+1||e.some((x,i)=>(x===null)!==(et[i]===null)))return 'not one edge per remaining bucket';if(!L.WFEdges(r,W.pt(l2)))return 'not well formed';for(const x of q)if(!eq(trans(l2,e,x),trans(l,et,x)))return `[${x}] now translates to ${trans(l2,e,x)}, not ${trans(l,et,x)}`;return true;},f:(e,p,k)=>{const r=L.SplitLeftEdges(e,p,k);check($.eq(r,I.ComputeSplitLeftEdges(e,p,W.pt(l2),k,c)),'ComputeSplitLeftEdges disagrees');return r;}};},
    splitRight:t=>{const l=pivots(t),et=edges(t,l),k=keyIn(t,l);if(!bounded(l,k))return null;const c=route(l,k),l2=[k].concat(l.slice(c+1));const q=samples(t,l2);return {args:[et.map(some),W.pt(l),k],nt:et[c]!==null,ok:r=>{const e=un(r);if(e.length!==l2.length-1||e.some((x,i)=>(x===null)!==(et[i+c]===null)))return 'not one edge per remaining bucket';if(!L.WFEdges(r,W.pt(l2)))return 'not well formed';for(const x of q)if(!eq(trans(l2,e,x),trans(l,et,x)))return `[${x}] now translates to ${trans(l2,e,x)}, not ${trans(l,et,x)}`;return true;},f:(e,p,k)=>{const r=L.SplitRightEdges(e,p,k);check($.eq(r,I.ComputeSplitRightEdges(e,p,W.pt(l2),k,c)),'ComputeSplitRightEdges disagrees');return r;}};},
    compose:t=>{const p=t.bytes(0,3,[0,1]),n=t.bytes(0,2),s=t.bytes(0,2,[0,1]),n2=t.bytes(0,2);let a=t.below(5)===0?null:[p,n],b=t.below(5)===0?null:[p.concat(s),n2];if(t.below(2))[a,b]=[b,a];const ap=(x,k)=>x===null?k:x[1].concat(k.slice(x[0].length));const ks2=[...Array(4)].map(()=>p.concat(s,t.bytes(0,3,[0,1])));return {args:[ps(a),ps(b)],nt:a!==null&&b!==null,ok:r=>{const c=r.$cn==='None'?null:[bytes(r._value._prefix),bytes(r._value._newPrefix)];for(const k of ks2){const ck=ap(b,k);if(c!==null&&!isPre(c[0],ck))return `[${ck}] does not begin with ${c[0]}`;if(!eq(ap(c,ck),ap(a,k)))return `[${ck}] goes to ${ap(c,ck)}, not ${ap(a,k)}`;}return true;},f:(a,b)=>{const r=L.ComposePrefixSet(a,b);check($.eq(r,I.ComputeComposePrefixSet(a,b)),'ComputeComposePrefixSet disagrees');return r;}};},
    pair:t=>{const l=pivots(t).slice(0,2),p=lcpOf(l[0],l[1]),n=t.bytes(0,3,[0,1,255]);const e=[n.concat(l[0].slice(p.length)),l[1]===null||!isPre(p,l[1])?nextOf(n):n.concat(l[1].slice(p.length))];return {args:[W.E(l[0]),W.E(l[1]),p,n],ok:r=>sameE([W.unE(r._0),W.unE(r._1)],e)||'not '+J(e),f:(a,b,p,n)=>{const r=L.TranslatePivotPairInternal(a,b,p,n);const c=I.ComputeTranslatePivotPair(l[0],b,p,n);check(eq(bytes(c[0]),e[0])&&ecmp(W.unE(c[1]),e[1])===0,()=>`ComputeTranslatePivotPair gives ${J(c)}`);return r;}};},
    pivots:t=>{const p=t.bytes(0,2,[0,1,255]),n=t.bytes(0,3,[0,1,255]);const l=uniqSorted(t.list(1,5,()=>p.concat(t.bytes(0,3,[0,1,255]))));const last=t.below(2)?null:nextOf(l[l.length-1])||null;const end=t.below(2)?null:n.concat(l[l.length-1].slice(p.length),[0]);const e=l.map(x=>n.concat(x.slice(p.length))).concat([end]);return {args:[W.pt(l.concat([last])),p,n,W.E(end)],ok:r=>sameE(unP(r),e)||'not '+J(e),f:(q,p,n,end)=>{const i=t.below(l.length);const s=L.TranslatePivots(q,p,n,end,i);check(sameE(unP(s),e.slice(i)),()=>`TranslatePivots from ${i} is ${J(s)}`);return I.ComputeTranslatePivots(q,p,n,end);}};},
    edges:t=>{const l=pivots(t),et=edges(t,l);const e=et.map((x,i)=>x===null?lcpOf(l[i],l[i+1]):x);return {args:[et.map(some),W.pt(l)],ok:r=>{const g=un(r);return g.length===e.length&&g.every((x,i)=>x!==null&&eq(x,e[i]))||'not '+J(e);},f:(x,p)=>{const i=t.below(et.length);const s=un(L.TranslateEdges(x,p,i));check(s.length===e.length-i&&s.every((y,j)=>eq(y,e[i+j])),'TranslateEdges from an index');return I.ComputeTranslateEdges(x,p);}};},
    bucket:t=>{const p=t.bytes(0,2,[0,1]),n=t.bytes(0,3,[0,1,255]);const b=W.gen(t,0,8).concat(t.list(0,4,()=>[p.concat(t.bytes(0,2,[0,1])),W.msg(t)]));const bs=t.below(3)?lastOf(b):b;const e=bs.filter(x=>isPre(p,x[0])).map(x=>[n.concat(x[0].slice(p.length)),x[1]]);const so=bs.every((x,i)=>!i||cmp(bs[i-1][0],x[0])<0);return {args:[W.bucket(bs),p,n],nt:e.length>0,ok:r=>W.same(W.pairs(r),e)||'not '+W.show(e),f:(b,p,n)=>{const mb=stat(W.BI.MutBucket,'AllocPkv')(W.pkv(bs),so);check(I.ComputeTranslateBucketWillFit(mb,p,n)===true,'a small bucket does not fit');const c=I.ComputeTranslateBucket(mb,p,n);const g=W.unpkv(mem(W.BI.MutBucket).GetPkv(c));check(W.same(g,e),()=>`ComputeTranslateBucket holds ${W.show(g)}`);check(N(c._weight)===W.weight(e),()=>`the translated bucket records weight ${c._weight}, not ${W.weight(e)}`);check(!c._sorted||e.every((x,i)=>!i||cmp(e[i-1][0],x[0])<0),'recorded as sorted');return L.TranslateBucket(b,p,n);}};},
    tree:t=>{const p=t.bytes(0,2,[0,1]),n=t.bytes(0,3,[0,1,255]);const bs=lastOf(W.gen(t,0,6).concat(t.list(0,4,()=>[p.concat(t.bytes(0,2,[0,1])),W.msg(t)])));const e=bs.filter(x=>isPre(p,x[0])).map(x=>[n.concat(x[0].slice(p.length)),x[1]]);return {args:[W.bucket(bs),p,n],nt:e.length>0,ok:r=>W.same(r,e)||'not '+W.show(e),f:()=>{const b=new Lin(W.BI.MutBucket,stat(W.BI.MutBucket,'Alloc')());for(const [k,m] of bs)b.call('Insert',k,m);return W.unpkv(mem(W.BI.MutBucket).GetPkv(I.ComputeTranslateBucket(b.v,p,n)));}};},
    lists:t=>{const p=t.bytes(0,2,[0,1]),n=t.bytes(0,3,[0,1,255]);const A=b=>stat(W.BI.MutBucket,'AllocPkv')(W.pkv(b),true);const g=l=>Array.from(l).map(b=>W.unpkv(mem(W.BI.MutBucket).GetPkv(b)));const tr=b=>b.filter(x=>isPre(p,x[0])).map(x=>[n.concat(x[0].slice(p.length)),x[1]]);const gb=()=>lastOf(W.gen(t,0,3).concat(t.list(0,3,()=>[p.concat(t.bytes(0,2,[0,1])),W.msg(t)])));
      const bs=t.list(2,5,gb),x=gb(),y=gb();const how=t.below(3),cr=t.below(bs.length-1),cl=cr+1+t.below(bs.length-cr-1);const src=how===0?[x]:how===1?[x,...bs.slice(cr+1)]:[x,...bs.slice(cr+1,cl),y];const e=src.map(tr);
      return {args:[bs.map(W.bucket),cr,cl,p,n],ok:r=>r.length===e.length&&r.every((b,i)=>W.same(b,e[i]))||'not '+e.map(W.show).join(' | '),f:()=>{const l=LSeq.from(bs.map(A));const s=Array.from(L.TranslateBuckets(src.map(W.bucket),p,n)).map(W.pairs);check(s.length===e.length&&s.every((b,i)=>W.same(b,e[i])),'TranslateBuckets');return g(how===0?I.ComputeTranslateSingleBucketList(A(x),p,n):how===1?I.ComputeTranslateCutOffKeepRightBuckets(l,A(x),p,n,cr):I.ComputeTranslateCutOffNodeBuckets(l,A(x),A(y),p,n,cl,cr));}};},
    inChild:t=>{const l=pivots(t),et=edges(t,l),i=t.below(l.length-1);let lo=l[i],hi=l[i+1];if(et[i]!==null){const p=lcpOf(lo,hi),n=et[i];hi=hi===null||!isPre(p,hi)?nextOf(n):n.concat(hi.slice(p.length));lo=n.concat(lo.slice(p.length));}let c=uniqSorted([t.below(2)?lo:near(t,[lo]),...keys(t,0,2)]);const end=t.below(2)?hi:hi===null?near(t,[lo]):near(t,[hi]);c=c.filter(x=>ecmp(x,end)<0).concat([end]);if(c.length<2)return null;return {args:[W.pt(l),et.map(some),W.pt(c),i],want:cmp(c[0],lo)<=0&&ecmp(hi,c[c.length-1])<=0,f:(p,e,c,i)=>{const r=L.ParentKeysInChildRange(p,e,c,i);check(r===I.ComputeParentKeysInChildRange(p,e,c,i),'ComputeParentKeysInChildRange disagrees');return r;}};},
  };
  return table(E);
}
Object.assign(exports,{world,cmp,ecmp,ks,isPre,uniqSorted,near,route,bounded,nextOf,lcpOf,lastOf,same:null});
const C=f=>f.map(x=>D+x+'.i.dfy');
exports.props={
  K02:{rule:'a function applied to a generated argument, a flush with messages at the top, or a history of at least two bucket operations (contracts: a satisfied precondition)',quick:30,thorough:420,
    parts:{pivots:{make:pivots,weight:2},model:{make:model,weight:4},flush:{make:flush,weight:4},mut:{make:mut,weight:4},contracts:{make:contractsPart(C(['BoundedPivotsLib','BucketsLib','BucketMap','BucketWeights','BucketFlushModel','MapSeqs'])),weight:3}},
    assumptions:['keys up to 24 bytes and values up to 12','the weight bound of a node is also set to 60 and 130 bytes so that flushes run out of room','tree leaves are also run with 3 and 4 keys']},
  K03:{rule:'a function applied to a generated argument, or a history of at least two operations on a dynamic array (contracts: a satisfied precondition)',quick:25,thorough:360,
    parts:{strings:{make:strings,weight:3},kvs:{make:kvs,weight:3},contracts:{make:contractsPart(C(['PackedStringArray','PackedKV','PackedKVMarshalling','PackedStringArrayMarshalling','LKMBPKVOps'])),weight:2}},
    assumptions:['strings of up to 24 bytes; offsets near 2^32 are only reached through the contracts of the size predicates']},
  K04:{rule:'a function applied to a generated argument whose edge carries a translation (contracts: a satisfied precondition)',quick:20,thorough:300,
    parts:{translation:{make:translation,weight:4},contracts:{make:contractsPart(C(['TranslationLib','TranslationImpl']).concat([D+'TranslationApply.s.dfy'])),weight:2}},
    assumptions:['keys stay below the key length limit, as TranslationApply assumes']},
};
