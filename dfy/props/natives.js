'use strict';
// N01: the contracts assumed of native operations: right results meet them, wrong results do not, and they may be called where they make sense.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES,crc32c}=require('../externs.js');const {check,discard}=require('../pbt.js');
const {specOf,declsOf}=require('../contract.js');const {DArr,DMap,Tup,EMPTY,LSeq}=$;const N=Number,B=BigInt,J=x=>$.show(x).slice(0,400);
const FILES=['lib/Lang/System/NativeArrays.s.dfy','lib/Marshalling/Native.s.dfy','lib/Lang/System/PackedInts.s.dfy','lib/Lang/System/Arithmetic.s.dfy','lib/Lang/System/Bits.s.dfy','lib/Lang/System/F2_X.s.dfy','lib/Lang/LinearSequence.s.dfy','lib/Lang/LinearMaybe.s.dfy','lib/Base/MapRemove.s.dfy','lib/Base/Option.s.dfy','lib/Lang/NativeTypes.s.dfy'];
const MODS=['NativeArrays','Native','NativePackedInts','NativeArithmetic','Bits_s','F2_X_s','LinearSequence_s','LinearMaybe','MapRemove_s','Options','NativeTypes'];
const M64=(1n<<64n)-1n,M128=(1n<<128n)-1n;
const leb=(v,n)=>{v=B(v);const r=[];for(let i=0;i<n;i++){r.push(N(v&255n));v>>=8n;}return r;};
function natives({REPO}){
  const P=new Program({externs:EX,types:TYPES,guess:true}).load(...FILES.map(f=>REPO+'/'+f));const cells=new Map();
  for(const m of MODS){const inst=P.mod(m);if(!inst)continue;for(const c of declsOf(inst))cells.set(m+'.'+c.plain,c);inst.build();
    for(const x of inst.members.values())if(x.kind==='class'&&x.decl.members)for(const d of x.decl.members){const c=require('../compile.js').memberCells(x).get(d.name);if(c)cells.set(m+'.'+d.name,c);}}
  const specs=new Map();const spec=n=>{if(!specs.has(n)){const c=cells.get(n)||[...cells.entries()].find(([k])=>k.split('.')[0]===n.split('.')[0]&&k.split('.').pop()===n.split('.').pop())?.[1];specs.set(n,c?specOf(c):null);}return specs.get(n);};
  const el=t=>t.below(6),seq=(t,a=0,b=8)=>t.list(a,b,el),u32=t=>N(B(t.u64())&0xffffffffn),u64=t=>$.norm(B(t.u64())),u128=t=>$.norm((B(t.u64())<<64n)|B(t.u64()));
  const bend=(t,a)=>{const r=Array.from(a);if(!r.length||t.below(6)===0)return [...r,0];if(t.below(6)===0)return r.slice(0,-1);const i=t.below(r.length);r[i]=typeof r[i]==='number'?(r[i]+1+t.below(4))%256:$.norm(B(r[i])^(1n<<B(t.below(64))));return r;};
  const flip=(t,v,n)=>$.norm(B(v)^(1n<<B(t.below(n))));
  // each entry: args, whether the call is allowed, the right results/arrays, and some wrong ones
  const copyCase=(name,srcArr)=>t=>{const src=seq(t,0,9),dst=seq(t,0,9),len=t.below(Math.min(src.length,dst.length)+2),si=t.below(src.length+2),di=t.below(dst.length+2);
    const ok=si+len<=src.length&&di+len<=dst.length;const S=srcArr?new DArr(src.slice()):src,D=new DArr(dst.slice());const after=dst.slice();if(ok)for(let i=0;i<len;i++)after[di+i]=src[si+i];
    return {name,args:[S,si,D,di,len],ok,arr:D,after,outs:[],copies:srcArr?[new DArr(src.slice()),new DArr(dst.slice())]:[new DArr(dst.slice())],nt:len>0,same:dst.length};};
  const packCase=(name,n,many)=>t=>{const ar=t.bytes(0,24),idx=t.below(ar.length+2);const vs=many?t.list(0,3,u=>n===4?u32(u):u64(u)):[n===4?u32(t):u64(t)];const w=n*vs.length,ok=idx+w<=ar.length;const after=ar.slice();if(ok)vs.flatMap(v=>leb(v,n)).forEach((b,i)=>after[idx+i]=b);const D=new DArr(ar.slice());
    return {name,args:[many?vs:vs[0],D,idx],ok,arr:D,after,outs:[],copies:[new DArr(ar.slice())],nt:w>0,same:ar.length};};
  const unpackCase=(name,n,many,isArr)=>t=>{const a=t.bytes(0,30),idx=t.below(a.length+2),k=many?t.below(4):1,ok=idx+n*k<=a.length;const rd=i=>{let v=0n;for(let j=n-1;j>=0;j--)v=v*256n+B(a[i+j]);return $.norm(v);};
    const r=ok?Array.from({length:k},(_,i)=>rd(idx+n*i)):[];const D=isArr?new DArr(a.slice()):a;
    return {name,args:many?[D,idx,k]:[D,idx],ok,outs:[many?r:r[0]],wrong:ok?(many?[bend(t,r)]:[flip(t,r[0],8*n)]):[],copies:isArr?[new DArr(a.slice())]:[],nt:k>0};};
  const val=(name,args,out,wrong,ok=true,nt=true)=>({name,args,ok,outs:[out],wrong,copies:[],nt});
  const bits=(name,ws,f,w)=>t=>{const a=ws.map(k=>$.norm(((B(t.u64())<<64n)|B(t.u64()))&((1n<<B(k))-1n)));const r=$.norm(f(...a.map(B)));return val(name,a,r,[flip(t,r,w)]);};
  const crcb=n=>(acc,v)=>{let c=acc&0xffffffffn;for(let i=0;i<n;i++){const o=(c^(v>>B(i)))&1n;c>>=1n;if(o)c^=0x82F63B78n;}return c;};const clm=(a,b)=>{let r=0n;for(let i=0n;i<64n;i++)if((b>>i)&1n)r^=a<<i;return r;};
  const lq=(t,a=0,b=6)=>{const l=new LSeq();for(const x of t.list(a,b,u=>u.below(3)?u.below(6):EMPTY))l.push(x);return l;};
  const LS=a=>{const l=new LSeq();for(const x of a)l.push(x);return l;};
  const cases=[
    copyCase('NativeArrays.CopySeqIntoArray',false),copyCase('NativeArrays.CopyArrayIntoDifferentArray',true),copyCase('Native.CopySeqIntoArray',false),copyCase('Native.CopyArrayIntoArray',true),
    t=>{const a=t.bytes(0,5),b=t.below(3)?bend(t,a):t.bytes(0,5);let c=0;for(let i=0;!c&&(i<a.length||i<b.length);i++)c=i>=a.length?-1:i>=b.length?1:a[i]-b[i];c=Math.sign(c)*(1+t.below(9));if(Object.is(c,-0))c=0;return val('NativeArrays.ByteSeqCmpByteSeq',[a,b],c,c===0?[1,-1]:[0,-c]);},
    t=>{const n=t.below(7),v=el(t),r=Array(n).fill(v);return {name:'NativeArrays.newArrayFill',args:[n,v],ok:true,outs:[new DArr(r)],wrong:[new DArr(bend(t,r))],copies:[],nt:n>0};},
    t=>{const a=seq(t);return {name:'NativeArrays.newArrayClone',args:[new DArr(a)],ok:true,outs:[new DArr(a.slice())],wrong:[new DArr(bend(t,a))],copies:[new DArr(a.slice())],nt:a.length>0};},
    packCase('NativePackedInts.Pack_LittleEndian_Uint32_into_Array',4,false),packCase('NativePackedInts.Pack_LittleEndian_Uint64_into_Array',8,false),packCase('NativePackedInts.Pack_LittleEndian_Uint32_Seq_into_Array',4,true),packCase('NativePackedInts.Pack_LittleEndian_Uint64_Seq_into_Array',8,true),
    unpackCase('NativePackedInts.Unpack_LittleEndian_Uint32',4,false),unpackCase('NativePackedInts.Unpack_LittleEndian_Uint64',8,false),unpackCase('NativePackedInts.Unpack_LittleEndian_Uint64_From_Array',8,false,true),unpackCase('NativePackedInts.Unpack_LittleEndian_Uint32_Seq',4,true),unpackCase('NativePackedInts.Unpack_LittleEndian_Uint64_Seq',8,true),
    t=>{let a=u64(t),b=u64(t);if(t.bool())b=$.norm(((1n<<64n)-B(a)+B(t.int(-2,2)))&M64);const c=$.norm((B(a)+B(b))&M64);return val('NativeArithmetic.u64add',[a,b],c,[flip(t,c,64),$.norm((B(c)+1n)&M64)]);},
    bits('Bits_s.intrinsic_mm_cvtepu32_epi64',[128],a=>(a&0xffffffffn)|(((a>>32n)&0xffffffffn)<<64n),128),bits('Bits_s.intrinsic_mm_cvtsi64_si128',[64],a=>a,128),bits('Bits_s.intrinsic_mm_cvtsi128_si64',[128],a=>a&M64,64),
    t=>{const s=t.list(0,5,u64),i=t.below(6),ok=i<s.length-1;const r=ok?$.norm(B(s[i])|(B(s[i+1])<<64n)):0;return val('Bits_s.intrinsic_mm_loadu_si128',[s,i],r,ok?[flip(t,r,128)]:[],ok);},
    ...[8,16,32].map(n=>bits('F2_X_s.intrinsic_mm_crc32_u'+n,[32,n],crcb(n),32)),
    t=>{const a=$.norm(B(t.u64())&(t.below(3)?0xffffffffn:M64)),b=u64(t),r=$.norm(crcb(64)(B(a),B(b)));return val('F2_X_s.intrinsic_mm_crc32_u64',[a,b],r,[flip(t,r,64)]);},
    bits('F2_X_s.intrinsic_mm_clmulepi64_si128_0',[128,128],(a,b)=>clm(a&M64,b&M64),128),bits('F2_X_s.intrinsic_mm_clmulepi64_si128_16',[128,128],(a,b)=>clm(a&M64,b>>64n),128),bits('F2_X_s.intrinsic_mm_xor_si128',[128,128],(a,b)=>a^b,128),bits('F2_X_s.bitxor32',[32,32],(a,b)=>a^b,32),bits('F2_X_s.bitxor64',[64,64],(a,b)=>a^b,64),
    t=>{const s=seq(t),i=t.below(s.length+2),ok=i<s.length;const v=ok?s[i]:0;return val('LinearSequence_s.seq_get',[s,i],v,ok?[v+1]:[],ok);},
    t=>{const s=seq(t),i=t.below(s.length+2),a=el(t),ok=i<s.length;const r=s.slice();if(ok)r[i]=a;return val('LinearSequence_s.seq_set',[s,i,a],r,ok?[bend(t,r)]:[],ok);},
    t=>{const s=seq(t);return val('LinearSequence_s.seq_length',[s],s.length,[s.length+1,...(s.length?[s.length-1]:[])]);},
    t=>val('LinearSequence_s.seq_empty',[],[],[[el(t)]]),
    t=>{const n=t.below(7),a=el(t),r=Array(n).fill(a);return val('LinearSequence_s.seq_alloc',[n,a],r,[bend(t,r)]);},
    t=>{const s=seq(t);return val('LinearSequence_s.seq_unleash',[s],s.slice(),[bend(t,s)]);},
    t=>{const l=lq(t);return val('LinearSequence_s.lseq_length_raw',[l],l.length,[l.length+1]);},
    t=>{const n=t.below(6),r=LS(Array(n).fill(EMPTY));return val('LinearSequence_s.lseq_alloc_raw',[n],r,[LS([...r,EMPTY]),...(n?[LS([...Array(n-1).fill(EMPTY),3])]:[])]);},
    t=>{const l=lq(t),ok=[...l].every(x=>x===EMPTY);return {...val('LinearSequence_s.lseq_free_raw',[l],new Tup([]),[],ok),noPost:true};},
    t=>{const l=lq(t),i=t.below(l.length+2),a=t.below(3)?el(t):EMPTY,ok=i<l.length;const r=LS(l);let o=EMPTY;if(ok){o=r[i];r[i]=a;}const bad=ok?[new Tup([r,o===EMPTY?1:o+1]),new Tup([LS([...r,EMPTY]),o]),...(r.length>1?[new Tup([LS([...r].map((x,j)=>j===(i+1)%r.length?(x===EMPTY?5:x+1):x)),o])]:[]),new Tup([LS([...r].map((x,j)=>j===i?(x===EMPTY?5:x+1):x)),o])]:[];return val('LinearSequence_s.lseq_swap_raw_fun',[l,i,a],new Tup([r,o]),bad,ok);},
    t=>{const l=lq(t),i=t.below(l.length+2),ok=i<l.length;const v=ok?l[i]:EMPTY;return val('LinearSequence_s.lseq_share_raw',[l,i],v,ok?[v===EMPTY?2:v+1]:[],ok);},
    t=>{const s=seq(t),n=t.below(9),r=Array.from({length:n},(_,i)=>i<s.length?s[i]:el(t));const k=Math.min(n,s.length);const bad=[[...r,1]];if(k){const q=r.slice();q[t.below(k)]+=1;bad.push(q);}return val('LinearSequence_s.TrustedRuntimeSeqResize',[s,n],r,bad);},
    t=>{const l=lq(t),n=t.below(8),r=Array.from({length:n},(_,i)=>i<l.length?l[i]:EMPTY);const bad=[LS([...r,EMPTY])];const k=Math.min(n,l.length);if(k){const q=r.slice(),i=t.below(k);q[i]=q[i]===EMPTY?4:t.bool()?EMPTY:q[i]+1;bad.push(LS(q));}if(n>l.length){const q=r.slice();q[l.length+t.below(n-l.length)]=2;bad.push(LS(q));}return val('LinearSequence_s.TrustedRuntimeLSeqResize',[l,n],LS(r),bad);},
    ...['peek','unwrap'].map(f=>t=>{const m=t.below(3)?el(t):EMPTY,ok=m!==EMPTY;return val('LinearMaybe.'+f,[m],ok?m:0,ok?[m+1]:[],ok);}),
    t=>{const a=el(t);return val('LinearMaybe.give',[a],a,[a+1,EMPTY]);},
    t=>val('LinearMaybe.empty',[],EMPTY,[el(t)]),
    t=>{const m=t.bool()?el(t):EMPTY;return {...val('LinearMaybe.discard',[m],new Tup([]),[],m===EMPTY),noPost:true};},
    t=>{const kv=new Map(t.list(0,5,u=>[u.below(5),u.below(5)])),k=t.below(6);const a=[...kv],r=a.filter(x=>x[0]!==k);const bad=[DMap.of([...r,[9,9]])];if(kv.has(k))bad.push(DMap.of(a));if(r.length)bad.push(DMap.of(r.slice(1)),DMap.of([[r[0][0],r[0][1]+1],...r.slice(1)]));return val(t.bool()?'MapRemove_s.MapRemove1':'MapRemove_s.ComputeMapRemove1',[DMap.of(a),k],DMap.of(r),bad);},
  ];
  const want={sbyte:[-(1n<<7n),1n<<7n],byte:[0n,1n<<8n],int16:[-(1n<<15n),1n<<15n],uint16:[0n,1n<<16n],int32:[-(1n<<31n),1n<<31n],uint32:[0n,1n<<32n],int64:[-(1n<<63n),1n<<63n],uint64:[0n,1n<<64n],nat8:[0n,1n<<7n],nat16:[0n,1n<<15n],nat32:[0n,1n<<31n],nat64:[0n,1n<<63n],uint128:[0n,1n<<128n]};
  const NT=P.mod('NativeTypes');NT.build();const {compileExprFn}=require('../compile.js');const guards=new Map();
  const T=P.m('NativeTypes');const sizes={Uint64Size:8,Uint32Size:4,Uint16Size:2,Uint64UpperBound:$.norm(1n<<64n),Uint32UpperBound:2**32,Uint8UpperBound:256};
  return (t,c)=>{$.universes.length=0;$.universes.push(u=>{const r=[0,1,2,3,4,5,6,7,8,9,10,11,12,EMPTY];return u&&u.k==='int'?r.slice(0,-1):r;});
    const pick=t.below(cases.length+4);
    if(pick>=cases.length+1){ // ranges of the native types
      const n=t.pick(Object.keys(want)),[lo,hi]=want[n],cell=NT.members.get(n);if(!cell||cell.decl.k!=='newtype'){discard();}
      if(!guards.has(n))guards.set(n,compileExprFn(cell,cell.decl.sub.c,[{name:cell.decl.sub.v,ty:cell.decl.sub.ty||cell.decl.base}],false));
      const v=t.pick([lo,hi,0n,lo+(hi-lo)/2n])+B(t.int(-2,2)),r=guards.get(n)($.norm(v)),in_=v>=lo&&v<hi;c.nontrivial();c.label('range '+n);c.log(()=>`${v} in ${n}`);c.sample(`${v} in ${n}`);check(r===in_,()=>`${v} ${r?'is':'is not'} in ${n}`);
      const at=cell.decl.attrs&&cell.decl.attrs.nativeType;if(at){const nm=JSON.stringify(at).match(/sbyte|byte|ushort|short|uint|int|ulong|long/);const cap={sbyte:want.sbyte,byte:want.byte,short:want.int16,ushort:want.uint16,int:want.int32,uint:want.uint32,long:want.int64,ulong:want.uint64}[nm&&nm[0]];check(!cap||cap[0]<=lo&&hi<=cap[1]||r===false||v>=cap[0]&&v<cap[1],()=>`${v} of ${n} does not fit its machine type`);}
      return;}
    if(pick===cases.length){const n=t.pick(Object.keys(sizes));c.nontrivial();c.label(n);c.log(()=>n);c.sample(n);check($.eq(T[n](),sizes[n]),()=>`${n} is ${T[n]()}`);return;}
    const k=cases[pick](t),s=spec(k.name);if(!s)discard();
    c.nontrivial(k.nt!==false);c.label(k.name+(k.ok?'':' refused'));c.log(()=>`${k.name}(${k.args.map(J).join(', ')})`);c.sample(`${k.name}(${k.args.map(J).join(', ')})`);
    const pre=s.pre(k.args);if(!k.ok){check(!pre,()=>`${k.name} may be called with (${k.args.map(J).join(', ')})`);return;}
    check(pre,()=>`${k.name} may not be called with (${k.args.map(J).join(', ')})`);if(k.noPost)return;
    if(k.arr){k.arr.a=k.after;check(s.post(k.args,[],k.copies),()=>`${k.name}(${k.args.map(J).join(', ')}): the right result ${J(k.after)} does not meet its contract`);
      if(k.same){const bad=k.after.slice(),i=t.below(bad.length);bad[i]=(bad[i]+1+t.below(4))%256;k.arr.a=bad;check(!s.post(k.args,[],k.copies),()=>`${k.name}: the wrong result ${J(bad)} meets its contract; right is ${J(k.after)}`);}return;}
    check(s.post(k.args,k.outs,k.copies),()=>`${k.name}(${k.args.map(J).join(', ')}): the right result ${k.outs.map(J)} does not meet its contract`);
    for(const w of k.wrong||[])if(!$.eq(w,k.outs[0]))check(!s.post(k.args,[w],k.copies),()=>`${k.name}(${k.args.map(J).join(', ')}): the wrong result ${J(w)} meets its contract; right is ${k.outs.map(J)}`);
  };
}
exports.props={N01:{rule:'a case judges one contract on generated arguments with the right result and wrong ones; non-trivial when the arguments are not empty',parts:{natives:{make:natives,weight:1}},quick:12,thorough:120,assumptions:['the right result of each native operation is computed here from what the operation is documented to do']}};
