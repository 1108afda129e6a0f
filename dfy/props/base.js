'use strict';
// U01 sequences, U02 maps/sets/multisets, U03 bit sets and arithmetic, O01 key orders.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES}=require('../externs.js');const {check,discard}=require('../pbt.js');
const {contractsPart,uni}=require('../contract.js');const {DMap,DSet,DMs,Tup,DArr,IMap,ISet}=$;const {table,J,mem}=require('../tab.js');
const load=(REPO,...f)=>new Program({externs:EX,types:TYPES}).load(...f.map(x=>REPO+'/'+x));
const N=Number,B='lib/Base/';
const opt=r=>r.$cn==='Some'?r._value:undefined;
const el=t=>t.below(5),seq=(t,lo=0,hi=7)=>t.list(lo,hi,el),seqs=t=>t.list(0,5,u=>seq(u,0,3));
const T2=(a,b)=>new Tup([a,b]);
// ------------------------------------------------------------------ sequences
function sequences({REPO}){
  const P=load(REPO,B+'Sequences.i.dfy',B+'SequencesLite.s.dfy');const S=P.m('Sequences'),SL=P.m('SequencesLite');
  const E={};
  const fns=[[x=>x*2,'x*2'],[x=>x%2,'x%2'],[x=>-x,'-x'],[x=>0,'0']],prs=[[x=>x%2===0],[x=>x>1],[x=>true],[x=>false]];
  const one=(name,gen)=>E[name]=gen;
  const ne=t=>seq(t,1,8);
  for(const [q,M] of [['',S],['Lite.',SL]]){
    one(q+'Last',t=>{const s=ne(t);return {args:[s],want:s[s.length-1],f:M.Last};});
    one(q+'DropLast',t=>{const s=ne(t);return {args:[s],want:s.slice(0,-1),f:M.DropLast};});
  }
  one('FirstOpt',t=>{const s=seq(t);return {args:[s],ok:r=>s.length?opt(r)===s[0]:r.$cn==='None'};});
  one('Set',t=>{const s=seq(t);return {args:[s],want:DSet.from(s),nt:s.length};});
  one('NoDupes',t=>{const s=seq(t,0,5);return {args:[s],want:new Set(s).size===s.length};});
  one('SeqHasUniqueElems',t=>{const s=seq(t,0,5);return {args:[s],want:new Set(s).size===s.length};});
  one('IndexOf',t=>{const s=ne(t),e=t.pick(s);return {args:[s,e],ok:r=>s[r]===e&&N.isInteger(r)};});
  one('Range',t=>{const n=t.below(12);return {args:[n],want:[...Array(n).keys()],nt:n};});
  for(const n of ['Apply','ApplyOpaque'])one(n,t=>{const s=seq(t),f=t.pick(fns)[0];return {args:[f,s],want:s.map(f),nt:s.length};});
  for(const n of ['Filter'])one(n,t=>{const s=seq(t),f=t.pick(prs)[0];return {args:[f,s],want:s.filter(f),nt:s.length};});
  const nc=(a,e)=>a*3+e; // neither commutative nor associative
  one('FoldLeft',t=>{const s=seq(t);return {args:[nc,1,s],want:s.reduce(nc,1)};});
  one('FoldRight',t=>{const s=seq(t);return {args:[nc,1,s],want:s.reduceRight(nc,1)};});
  one('FoldFromRight',t=>{const s=seq(t);return {args:[nc,1,s],want:s.reduce(nc,1)};});
  one('FoldSets',t=>{const s=seqs(t).map(x=>DSet.from(x));return {args:[s],want:DSet.from(s.flatMap(x=>[...x]))};});
  one('remove',t=>{const s=ne(t),i=t.below(s.length);return {args:[s,i],want:s.filter((_,j)=>j!==i)};});
  one('RemoveOneValue',t=>{const s=seq(t),v=el(t);return {args:[s,v],ok:r=>!s.includes(v)?$.eq(r,s):s.some((x,i)=>x===v&&$.eq(r,s.filter((_,j)=>j!==i)))};});
  for(const n of ['insert','Insert'])one(n,t=>{const s=seq(t),i=t.below(s.length+1),a=9;return {args:[s,a,i],want:[...s.slice(0,i),a,...s.slice(i)],frozen:true};});
  for(const n of ['replace1with2','Replace1with2'])one(n,t=>{const s=ne(t),i=t.below(s.length);return {args:[s,8,9,i],want:s.flatMap((x,j)=>j===i?[8,9]:[x])};});
  one('replace2with1',t=>{const s=seq(t,2,8),i=t.below(s.length-1);return {args:[s,9,i],want:[...s.slice(0,i),9,...s.slice(i+2)]};});
  one('concat',t=>{const a=seq(t),b=seq(t);return {args:[a,b],want:[...a,...b]};});
  one('concat3',t=>{const a=seq(t),b=seq(t);return {args:[a,9,b],want:[...a,9,...b]};});
  one('concatSeq',t=>{const a=seqs(t);return {args:[a],want:a.flat()};});
  one('Flatten',t=>{const a=seqs(t);return {args:[a],want:a.flat()};});
  one('FlattenShape',t=>{const a=seqs(t);return {args:[a],want:a.map(x=>x.length)};});
  one('FlattenLength',t=>{const a=seq(t);return {args:[a],want:a.reduce((x,y)=>x+y,0)};});
  one('FlattenIndex',t=>{const a=seq(t,1,6);const i=t.below(a.length);if(!a[i])return null;const j=t.below(a[i]);return {args:[a,i,j],want:a.slice(0,i).reduce((x,y)=>x+y,0)+j};});
  one('UnflattenIndex',t=>{const a=seq(t,1,6);const tot=a.reduce((x,y)=>x+y,0);if(!tot)return null;const k=t.below(tot);let i=0,s=0;while(s+a[i]<=k)s+=a[i++];return {args:[a,k],want:T2(i,k-s)};});
  const bs=t=>{const b=seq(t);const a=t.below(2)?b.slice(0,t.below(b.length+1)):t.below(2)?b.slice(t.below(b.length+1)):seq(t,0,3);return [a,b];};
  one('IsPrefix',t=>{const [a,b]=bs(t);return {args:[a,b],want:a.length<=b.length&&a.every((x,i)=>x===b[i]),nt:a.length};});
  one('IsSuffix',t=>{const [a,b]=bs(t);return {args:[a,b],want:a.length<=b.length&&a.every((x,i)=>x===b[b.length-a.length+i]),nt:a.length};});
  one('SeqIndex',t=>{const s=seq(t),v=el(t);return {args:[s,v],ok:r=>s.includes(v)?opt(r)===s.indexOf(v):r.$cn==='None'};});
  one('SeqOfLength',t=>{const n=t.below(9);return {args:[n,3],want:Array(n).fill(3)};});
  one('fill',t=>{const n=t.below(9);return {args:[n,3],want:Array(n).fill(3)};});
  one('SeqIndexUpdate',t=>{const s=ne(t),i=t.below(s.length);return {args:[s,i,9],want:s.map((x,j)=>j===i?9:x),frozen:true};});
  one('Zip',t=>{const a=seq(t),b=a.map(()=>el(t));return {args:[a,b],want:a.map((x,i)=>T2(x,b[i]))};});
  one('Unzip',t=>{const a=seq(t),b=a.map(()=>el(t));return {args:[a.map((x,i)=>T2(x,b[i]))],want:T2(a,b)};});
  one('seqMax',t=>{const s=t.list(1,7,u=>u.int(-3,9));return {args:[s],want:Math.max(...s)};});
  return table(E,{mod:S});
}
function floating({REPO}){
  const P=load(REPO,B+'FloatingSeq.s.dfy');const C=P.m('FloatingSeqMod').FloatingSeq;const F=mem(C);
  return (t,c)=>{
    // a floating sequence is modelled by a sparse array with holes at the front
    const a=t.below(4),xs=seq(t,0,5);let f=C(a,xs),m=[...Array(a).fill(null),...xs];
    const same=()=>{check(F.Len(f)===m.length,'length');for(let i=0;i<m.length+1;i++){const act=i<m.length&&m[i]!==null;check(F.IsActive(f,i)===act,()=>`IsActive(${i})`);if(act)check(F.Get(f,i)===m[i],()=>`Get(${i})`);}};
    same();
    t.list(1,5,()=>{const k=t.below(4);
      const lo=F.FirstActiveIndex(f);
      if(k===0){const e=seq(t,0,3);f=F.Append(f,e);m=[...m,...e];c.log('append');}
      else if(k===1){const n=t.below(m.length+1);f=F.GetPrefix(f,n);m=m.slice(0,n);c.log(()=>'prefix '+n);}
      else if(k===2){const n=lo+t.below(m.length-lo+1);f=F.GetSuffix(f,n);m=m.map((x,i)=>i<n?null:x);c.log(()=>'suffix '+n);}
      else if(m.length){if(m[m.length-1]!==null)check(F.Last(f)===m[m.length-1],'Last');f=F.DropLast(f);m=m.slice(0,-1);c.log('drop last');}
      c.nontrivial(m.some(x=>x!==null));same();});
    c.sample(J(f));
  };
}
// ------------------------------------------------------------------ maps, sets, multisets
function collections({REPO}){
  const P=load(REPO,...['Maps.i','Sets.i','Multisets.i','MapRemove.s','SequencesOfMaps.i'].map(f=>B+f+'.dfy'));
  const M=P.m('Maps'),Se=P.m('Sets'),Mu=P.m('Multisets'),MR=P.m('MapRemove_s'),SM=P.m('SequencesOfMaps');
  const map=t=>DMap.of(t.list(0,5,()=>[el(t),el(t)])),set=t=>DSet.from(seq(t,0,4)),ms=t=>DMs.from(seq(t,0,6));
  const ent=m=>[...m].map(k=>[k,m.get(k)]);const un=(a,b)=>DMap.of([...ent(a),...ent(b)]);const rm=(m,p)=>DMap.of(ent(m).filter(([k])=>!p(k)));
  const dis=(a,b)=>![...a].some(k=>b.has(k)),agree=(a,b)=>[...a].every(k=>!b.has(k)||a.get(k)===b.get(k));
  const E={};const add=(mod,name,g,as)=>E[as||name]=t=>{$.universes.length=0;$.universes.push(u=>u&&u.k?uni(u)||[0,1,2,3,4]:[0,1,2,3,4]);const r=g(t);if(r){r.f=mod[name];r.frozen=!(r.args||[]).some(a=>a instanceof $.IMap||a instanceof $.ISet);}return r;};
  add(M,'MapsTo',t=>{const m=map(t),k=el(t),v=el(t);return {args:[m,k,v],want:m.has(k)&&m.get(k)===v};});
  add(M,'MapsAgreeOnKey',t=>{const a=map(t),b=map(t),k=el(t);return {args:[a,b,k],want:a.has(k)===b.has(k)&&(!a.has(k)||a.get(k)===b.get(k))};});
  add(M,'IsSubMap',t=>{const a=map(t),b=t.below(2)?un(a,map(t)):map(t);return {args:[a,b],want:[...a].every(k=>b.has(k)&&b.get(k)===a.get(k))};});
  add(M,'MapsAgree',t=>{const a=map(t),b=t.below(2)?rm(a,()=>t.below(2)):map(t);return {args:[a,b],want:agree(a,b)};});
  for(const n of ['MapRemove','MapRemoveStrong'])add(M,n,t=>{const m=map(t),s=set(t);return {args:[m,s],want:rm(m,k=>s.has(k))};});
  for(const n of ['MapRemove1','MapRemove1Strong'])add(M,n,t=>{const m=map(t),k=el(t);return {args:[m,k],want:rm(m,x=>x===k)};});
  add(MR,'MapRemove1',t=>{const m=map(t),k=el(t);return {args:[m,k],want:rm(m,x=>x===k)};},'s.MapRemove1');
  for(const n of ['MapRestrict','MapIRestrict'])add(M,n,t=>{const m=map(t),s=set(t);return {args:[m,s],want:rm(m,k=>!s.has(k))};});
  add(M,'MapUnionPreferB',t=>{const a=map(t),b=map(t);return {args:[a,b],want:un(a,b)};});
  add(M,'MapUnionPreferA',t=>{const a=map(t),b=map(t);return {args:[a,b],want:un(b,a)};});
  add(M,'MapUnion',t=>{const a=map(t),b=map(t);if(!agree(a,b))return {args:[a,b],ok:r=>[...a,...b].every(k=>r.has(k)&&((a.has(k)&&a.get(k)===r.get(k))||(b.has(k)&&b.get(k)===r.get(k))))&&[...r].every(k=>a.has(k)||b.has(k))};return {args:[a,b],want:un(a,b)};});
  add(M,'MapDisjointUnion',t=>{const a=map(t),b=rm(map(t),k=>a.has(k));return {args:[a,b],want:un(a,b)};});
  const im=m=>ent(m).reduce((x,[k,v])=>x.set(k,v),new $.IMap(()=>false,()=>{throw Error('none');},null)),D5=[0,1,2,3,4,5,6];
  const is=want=>r=>D5.every(k=>r.has(k)===want.has(k)&&(!want.has(k)||r.get(k)===want.get(k)));const iset=xs=>$.ISet.of?$.ISet.of(xs):new $.ISet(x=>xs.includes(x),null);
  add(M,'IMapsTo',t=>{const m=map(t),k=el(t),v=el(t);return {args:[im(m),k,v],want:m.has(k)&&m.get(k)===v};});
  add(M,'IMapInjective',t=>{const m=map(t);const vs=ent(m).map(x=>x[1]);return {args:[im(m)],want:new Set(vs).size===vs.length};});
  add(M,'IMapsAgreeOnKey',t=>{const a=map(t),b=map(t),k=el(t);return {args:[im(a),im(b),k],want:a.has(k)===b.has(k)&&(!a.has(k)||a.get(k)===b.get(k))};});
  add(M,'IsSubIMap',t=>{const a=map(t),b=t.below(2)?un(a,map(t)):t.below(2)?a:map(t);return {args:[im(a),im(b)],want:[...a].every(k=>b.has(k)&&b.get(k)===a.get(k))};});
  add(M,'IMapInvert',t=>{const m=map(t),vs=ent(m).map(x=>x[1]);return {args:[im(m)],ok:r=>D5.every(v=>r.has(v)===vs.includes(v)&&(!r.has(v)||m.has(r.get(v))&&m.get(r.get(v))===v))};});
  add(M,'IMapRemove',t=>{const m=map(t),s=seq(t,0,4);return {args:[im(m),iset(s)],ok:is(rm(m,k=>s.includes(k)))};});
  add(M,'IMapRemove1',t=>{const m=map(t),k=el(t);return {args:[im(m),k],ok:is(rm(m,x=>x===k))};});
  add(M,'IMapRestrict',t=>{const m=map(t),s=seq(t,0,4);return {args:[im(m),iset(s)],ok:is(rm(m,k=>!s.includes(k)))};});
  add(M,'MapToImap',t=>{const m=map(t);return {args:[m],ok:is(m)};});
  add(M,'IMapUnionPreferA',t=>{const a=map(t),b=map(t);return {args:[im(a),im(b)],ok:is(un(b,a))};});
  add(M,'IMapUnionPreferB',t=>{const a=map(t),b=map(t);return {args:[im(a),im(b)],ok:is(un(a,b))};});
  add(M,'IMapUnion',t=>{const a=map(t),b=rm(map(t),k=>a.has(k));return {args:[im(a),im(b)],ok:is(un(a,b))};});
  add(M,'MapDisjointUnion3',t=>{const a=map(t),b=rm(map(t),k=>a.has(k)),c=rm(map(t),k=>a.has(k)||b.has(k));return {args:[a,b,c],want:un(un(a,b),c)};});
  const opt=(m,k)=>r=>m.has(k)?r.$cn==='Some'&&r._value===m.get(k):r.$cn==='None';
  add(M,'MapLookupOption',t=>{const m=map(t),k=el(t);return {args:[m,k],ok:opt(m,k)};});
  add(M,'ImapLookupOption',t=>{const m=map(t),k=el(t);return {args:[im(m),k],ok:opt(m,k)};});
  add(SM,'FoldMaps',t=>{let acc=DMap.of([]);const xs=t.list(0,4,()=>{const m=rm(map(t),k=>acc.has(k));acc=un(acc,m);return m;});return {args:[xs],want:acc};});
  add(Se,'SetRange',t=>{const n=t.int(-2,9);return {args:[n],want:DSet.from(Array(Math.max(n,0)).keys())};});
  add(Se,'SetMax',t=>{const s=DSet.from(t.list(1,6,u=>u.int(-4,9)));return {args:[s],want:Math.max(...s)};});
  add(Se,'UnionSeqOfSets',t=>{const s=t.list(0,4,set);return {args:[s],want:DSet.from(s.flatMap(x=>[...x]))};});
  add(Se,'UnionSetOfSets',t=>{const s=DSet.from(t.list(0,3,set));return {args:[s],want:DSet.from([...s].flatMap(x=>[...x]))};});
  add(Mu,'Multiply',t=>{const m=ms(t),n=t.below(4);return {args:[m,n],want:DMs.from(Array(n).fill([...m]).flat()),nt:n&&m.size};});
  add(Mu,'Choose',t=>{const m=DMs.from(seq(t,1,6));return {args:[m],ok:r=>m.has(r)};});
  add(Mu,'Apply',t=>{const m=ms(t),f=t.pick([x=>x%2,x=>x+1,x=>0]);return {args:[f,m],want:DMs.from([...m].map(f)),nt:m.size};});
  add(Mu,'FoldSimple',t=>{const m=ms(t);return {args:[0,(a,b)=>a+b,m],want:[...m].reduce((a,b)=>a+b,0),nt:m.size};});
  add(Mu,'ValueMultiset',t=>{const m=map(t);return {args:[m],want:DMs.from(ent(m).map(x=>x[1])),nt:m.size};});
  add(Mu,'Set',t=>{const m=ms(t);return {args:[m],want:DSet.from(m)};},'ms.Set');
  for(const k in E)if(!E[k]({below:()=>0,list:()=>[],int:()=>0,pick:a=>a[0]})?.f)delete E[k];
  return table(E,{mod:M});
}
// ------------------------------------------------------------------ bit sets and packed integers
const M64=(1n<<64n)-1n;
function bits({REPO}){
  const P=load(REPO,B+'BitsetLemmas.i.dfy','lib/Lang/System/Bits.s.dfy');const L=P.m('BitsetLemmas');
  const w=t=>$.big(t.u64()),ix=t=>t.below(3)===2?t.pick([0,31,32,63]):t.below(64);
  const n=$.norm;const E={
    bit:t=>{const i=ix(t);return {args:[i],want:n(1n<<BigInt(i))};},
    bit_and:t=>{const a=w(t),b=w(t);return {args:[n(a),n(b)],want:n(a&b)};},
    bit_or:t=>{const a=w(t),b=w(t);return {args:[n(a),n(b)],want:n(a|b)};},
    bit_or_uint64:t=>{const a=w(t),b=w(t);return {args:[n(a),n(b)],want:n(a|b)};},
    bit_comp:t=>{const a=w(t);return {args:[n(a)],want:n(a^M64)};},
  };
  for(const s of ['','_uint64']){
    E['in_set'+s]=t=>{const i=ix(t),a=w(t);return {args:[i,n(a)],want:!!(a>>BigInt(i)&1n)};};
    E['set_bit_to_1'+s]=t=>{const i=ix(t),a=w(t);return {args:[n(a),i],want:n(a|1n<<BigInt(i))};};
    E['set_bit_to_0'+s]=t=>{const i=ix(t),a=w(t);return {args:[n(a),i],want:n(a&~(1n<<BigInt(i))&M64)};};
  }
  E.round=t=>{const a=w(t);return {args:[n(a)],want:n(a),f:x=>L.b2u(L.u2b(x))};};
  return table(E,{mod:L});
}
// ------------------------------------------------------------------ orders
function orders({REPO}){
  const P=load(REPO,B+'total_order_impl.i.dfy',B+'KeyType.s.dfy');
  const lexc=(a,b)=>{for(let i=0;i<Math.min(a.length,b.length);i++)if(a[i]!==b[i])return a[i]-b[i];return a.length-b.length;};
  const num=(a,b)=>$.big(a)<$.big(b)?-1:$.big(a)>$.big(b)?1:0;
  const by=t=>t.below(2)?t.below(4):t.pick([0,1,127,128,254,255,t.below(256)]);
  const ks=t=>{const k=t.below(5);if(k===4)return t.list(0,20,by);const s=t.list(0,4,by);if(k===3)s.push(0);return s;};
  const U=P.m('Upperbounded_Lexicographic_Byte_Order');
  const ub={gen:t=>t.below(8)===7?U.Max_Element:U.Element(ks(t)),cmp:(a,b)=>a.$cn!==b.$cn?(a.$cn==='Max_Element'?1:-1):a.$cn==='Max_Element'?0:lexc(a._e,b._e)};
  const O={Uint32_Order:[t=>t.below(3)?t.below(5):4294967295-t.below(5),num],Uint64_Order:[t=>t.below(2)?t.below(5):t.u64(),num],Byte_Order:[t=>t.byte(),num],
    Lexicographic_Byte_Order:[ks,lexc],Upperbounded_Lexicographic_Byte_Order:[ub.gen,ub.cmp],Integer_Order:[t=>t.int(-5,6),num]};
  const names=Object.keys(O);
  const strict=(s,cmp)=>s.filter((x,i)=>i===0||cmp(s[i-1],x)!==0);
  const V=P.m('ValueType'),K=P.m('KeyType');
  return (t,c)=>{
    if(t.below(16)===15){ // the limits on keys and values
      const ls=t.list(0,4,u=>u.pick([0,1,5,1023,1024,1025,1030]));const ss=ls.map(n=>new Array(n).fill(7));c.log(()=>`value lengths ${ls}`);c.sample(`value lengths ${ls}`);c.nontrivial(ls.length>1);c.label('value limits');
      check(N(K.MaxLen())===1024&&N(V.MaxLen())===1024,'MaxLen');check(V.DefaultValue().length===0,'DefaultValue');
      for(const x of ss){check(V.ValidMessageBytestring(x)===x.length<=1024,()=>`ValidMessageBytestring of ${x.length} bytes`);check(N(V.Len(x))===x.length,'Len');}
      check(V.ValidMessageBytestrings(ss)===ls.every(n=>n<=1024),()=>`ValidMessageBytestrings of lengths ${ls}`);return;}
    const nm=names[t.below(names.length)];const [g,cmp]=O[nm];const M=P.m(nm),I=nm==='Integer_Order'?null:P.m(nm+'_Impl');
    c.label(nm);const a=g(t),b=t.below(4)===0?a:g(t),d=g(t);
    c.log(()=>`${nm}: ${J(a)} ${J(b)} ${J(d)}`);c.sample(`${nm} ${J(a)} ${J(b)}`.slice(0,150));
    const sg=x=>x<0?-1:x>0?1:0;
    if(I){const r=N(I.cmp(a,b));check(sg(r)===sg(cmp(a,b)),()=>`${nm}.cmp(${J(a)},${J(b)}) is ${r}`);}
    check(M.lt(a,b)===cmp(a,b)<0,()=>`${nm}.lt(${J(a)},${J(b)})`);check(M.lte(a,b)===cmp(a,b)<=0,()=>`${nm}.lte(${J(a)},${J(b)})`);
    check($.eq(M.Min(a,b),cmp(a,b)<=0?a:b)&&$.eq(M.Max(a,b),cmp(a,b)<=0?b:a),()=>`${nm} Min/Max of ${J(a)},${J(b)}`);
    let s=t.list(0,9,g);if(t.below(8))s.sort(cmp);const sorted=s.every((x,i)=>!i||cmp(s[i-1],x)<=0),sts=s.every((x,i)=>!i||cmp(s[i-1],x)<0);
    const nd=t.below(2)&&s.length?t.pick(s):d;c.log(()=>`run ${J(s)} needle ${J(nd)}`);c.nontrivial(s.length>1);
    check(M.IsSorted(s)===sorted,()=>`IsSorted(${J(s)})`);check(M.IsStrictlySorted(s)===sts,()=>`IsStrictlySorted(${J(s)})`);
    if(I){const a=I.ComputeIsSorted(s),b=I.ComputeIsStrictlySorted(s);check(a===sorted,()=>`ComputeIsSorted(${J(s)}) is ${a}`);check(b===sts,()=>`ComputeIsStrictlySorted(${J(s)}) is ${b}`);}
    const set=DSet.from(s),u=strict(s.slice().sort(cmp),cmp);
    check($.eq(M.SortSet(set),u),()=>`SortSet of ${J(s)}`);
    if(u.length){check($.eq(M.minimum(set),u[0]),'minimum');check($.eq(M.maximum(set),u[u.length-1]),'maximum');}
    check(M.minimumOpt(set).$cn===(u.length?'Some':'None')&&M.maximumOpt(set).$cn===(u.length?'Some':'None'),'minimumOpt/maximumOpt');
    const nxt=u.find(x=>cmp(x,nd)>0);{const r=M.SetSuccessor(set,nd);check(nxt===undefined?r.$cn==='None':r.$cn==='Some'&&$.eq(r._value,nxt),()=>`SetSuccessor(${J(u)}, ${J(nd)}) is ${J(r)}`);}
    if(sorted){
      const lte=s.filter(x=>cmp(x,nd)<=0).length-1,lt=s.filter(x=>cmp(x,nd)<0).length-1;
      check(N(M.LargestLte(s,nd))===lte,()=>`LargestLte(${J(s)},${J(nd)})`);check(N(M.LargestLt(s,nd))===lt,()=>`LargestLt(${J(s)},${J(nd)})`);
      check(N(M.IndexOfFirstGte(s,nd))===lt+1,()=>`IndexOfFirstGte(${J(s)},${J(nd)})`);check(N(M.IndexOfFirstGt(s,nd))===lte+1,()=>`IndexOfFirstGt(${J(s)},${J(nd)})`);
      check(N(M.binarySearchIndexOfFirstKeyGte(s,nd))===lt+1,()=>`binarySearchIndexOfFirstKeyGte(${J(s)},${J(nd)})`);
      check(N(M.binarySearchIndexOfFirstKeyGt(s,nd))===lte+1,()=>`binarySearchIndexOfFirstKeyGt(${J(s)},${J(nd)})`);
      if(I){
        for(const [f,w] of [['ComputeLargestLte',lte],['ComputeLargestLteShared',lte],['ComputeLargestLt',lt]]){const r=N(I[f](s,nd));check(r===w,()=>`${nm}_Impl.${f}(${J(s)}, ${J(nd)}) is ${r}, not ${w}`);}
        const st=t.below(s.length+1),en=st+t.below(s.length-st+1);const arr=new DArr(s.slice());const sub=s.slice(st,en);
        const wl=st+sub.filter(x=>cmp(x,nd)<=0).length,ws=st+sub.filter(x=>cmp(x,nd)<0).length;
        for(const [f,w] of [['ArrayLargestLtePlus1Linear',wl],['ArrayLargestLtePlus1',wl],['ArrayLargestLtPlus1',ws]]){const r=N(I[f](arr,st,en,nd));check(r===w,()=>`${nm}_Impl.${f}(${J(s)}, ${st}, ${en}, ${J(nd)}) is ${r}, not ${w}`);}
        const needles=t.list(0,4,g).sort(cmp);const r=I.BatchLargestLte(s,needles);check(r.length===needles.length&&needles.every((n,i)=>N(r[i])===s.filter(x=>cmp(x,n)<=0).length-1),()=>`BatchLargestLte(${J(s)}, ${J(needles)}) is ${J(r)}`);
      }
    }
    const m=DMap.of(u.map((k,i)=>[k,i]));{const lo=DMap.of(u.filter(x=>cmp(x,nd)<0).map((k,i)=>[k,1])),hi=DMap.of(u.filter(x=>cmp(x,nd)>=0).map(k=>[k,2]));
      const all1=DMap.of(u.map(k=>[k,1])),all2=DMap.of(u.map(k=>[k,2]));const r=M.MapPivotedUnion(all1,nd,all2);
      check($.eq(r,DMap.of([...lo.keys()].map(k=>[k,1]).concat([...hi.keys()].map(k=>[k,2])))),()=>`MapPivotedUnion at ${J(nd)} is ${J(r)}`);}
  };
}
const lb=fs=>fs.map(f=>B+f+'.dfy');
exports.props={
  U01:{rule:'a non-empty input; a satisfied precondition',parts:{sequences:{make:sequences,weight:3},floating,contracts:contractsPart(lb(['Sequences.i','SequencesLite.s','FloatingSeq.s','SequencesOfMaps.i','Option.s']),{maxInt:300})},quick:15,thorough:150},
  U02:{rule:'a non-empty input; a satisfied precondition',parts:{collections:{make:collections,weight:3},contracts:contractsPart(lb(['Maps.i','map.i','Sets.i','SetBijectivity.i','Multisets.i','MapRemove.s']))},quick:15,thorough:150},
  U03:{rule:'a generated word; a satisfied precondition',parts:{bits,contracts:{make:contractsPart(lb(['BitsetLemmas.i','mathematics.i','MathAxioms.s']).concat(['lib/Math/Math.i.dfy','lib/Math/ModLemmas.i.dfy','lib/Math/Nonlinear.i.dfy'])),weight:2}},quick:15,thorough:150},
  O01:{rule:'a run of at least two elements; a satisfied precondition',parts:{orders:{make:orders,weight:3},contracts:{make:contractsPart(lb(['total_order.i','total_order_impl.i','lexical.i','KeyType.s'])),weight:2}},quick:20,thorough:200},
};
