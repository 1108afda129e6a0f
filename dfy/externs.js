'use strict';
// JavaScript stand-ins for the {:extern} declarations, written from their contracts.
const $=require('./rt.js');
const {DafnyFail,Unsup,DArr,Tup,LSeq,EMPTY,norm,big}=$;
const N=Number;
const big_alloc=(n,b)=>{if(!(n<=2**b)){if($.softAlloc)throw new Unsup('allocation');throw new DafnyFail('allocation of '+n+' elements');}};
const chk=(c,m)=>{if(!c)throw new DafnyFail(m);};
const arr=x=>x instanceof DArr?x.a:x;
function le(a,o,n){a=arr(a);o=N(o);chk(o>=0&&o+n<=a.length,'unpack out of range');if(n===8){let lo=0,hi=0;for(let i=3;i>=0;i--){lo=lo*256+a[o+i];hi=hi*256+a[o+4+i];}return hi<0x200000?hi*4294967296+lo:norm((BigInt(hi)<<32n)|BigInt(lo));}
  let v=0;for(let i=n-1;i>=0;i--)v=v*256+a[o+i];return v;}
function put(v,a,o,n){a=arr(a);o=N(o);chk(o>=0&&o+n<=a.length,'pack out of range');if(typeof v==='number'){for(let i=0;i<n;i++){a[o+i]=v%256;v=Math.floor(v/256);}}else for(let i=0;i<n;i++){a[o+i]=N(v&255n);v>>=8n;}}
function copy(src,si,dst,di,len){src=arr(src);dst=arr(dst);si=N(si);di=N(di);len=N(len);chk(si>=0&&si+len<=src.length,'copy source out of range');chk(di>=0&&di+len<=dst.length,'copy target out of range');
  if(src===dst&&si<di)for(let i=len-1;i>=0;i--)dst[di+i]=src[si+i];else for(let i=0;i<len;i++)dst[di+i]=src[si+i];}
// CRC-32C, bit reflected, one byte at a time
const CT=new Uint32Array(256);for(let i=0;i<256;i++){let c=i;for(let k=0;k<8;k++)c=c&1?(c>>>1)^0x82F63B78:c>>>1;CT[i]=c>>>0;}
function crcStep(acc,b){return ((acc>>>8)^CT[(acc^b)&255])>>>0;}
function crcBytes(acc,v,n){acc=N(acc);v=big(v);for(let i=0;i<n;i++){acc=crcStep(acc,N(v&255n));v>>=8n;}return acc;}
function crc32c(bytes,from=0,to=bytes.length){let c=0xffffffff;for(let i=from;i<to;i++)c=crcStep(c,bytes[i]);return (c^0xffffffff)>>>0;}
function clmul(a,b){let r=0n;for(let i=0n;i<64n;i++)if((b>>i)&1n)r^=a<<i;return norm(r);}
const M64=(1n<<64n)-1n;
const cmp=(a,b)=>{const n=Math.min(a.length,b.length);for(let i=0;i<n;i++)if(a[i]!==b[i])return a[i]<b[i]?-1:1;return a.length===b.length?0:a.length<b.length?-1:1;};
const EX={
  'LinearMaybe.has':m=>m!==EMPTY,
  'LinearMaybe.read':m=>{if(m===EMPTY)throw new Unsup('read of an empty maybe');return m;},
  'LinearMaybe.peek':m=>{chk(m!==EMPTY,'peek of an empty maybe');return m;},
  'LinearMaybe.unwrap':m=>{chk(m!==EMPTY,'unwrap of an empty maybe');return m;},
  'LinearMaybe.give':a=>a,'LinearMaybe.empty':()=>EMPTY,'LinearMaybe.discard':m=>{chk(m===EMPTY,'discard of a full maybe');return new Tup([]);},
  'LinearSequence_s.seq_get':(s,i)=>$.at(s,i),
  'LinearSequence_s.seq_set':(s,i,a)=>{if(!(i>=0&&i<s.length))throw new DafnyFail('seq_set index '+i+' out of range '+s.length);if(s instanceof Uint8Array||s.$lin){s[i]=a;return s;}const r=[...s];Object.defineProperty(r,'$lin',{value:true});r[i]=a;return r;},
  'LinearSequence_s.seq_length':s=>s.length,
  'LinearSequence_s.seq_empty':()=>[],
  'LinearSequence_s.seq_alloc':(n,a)=>{big_alloc(n,28);const r=new Array(N(n)).fill(a);Object.defineProperty(r,'$lin',{value:true});return r;},
  'LinearSequence_s.seq_free':()=>new Tup([]),
  'LinearSequence_s.seq_unleash':s=>s.$lin?Array.from(s):s,
  'LinearSequence_s.seq_length_bound':()=>{},'LinearSequence_s.shared_seq_length_bound':()=>{},'LinearSequence_s.lseq_length_bound':()=>{},
  'LinearSequence_s.lseqs_raw':l=>Array.from(l),
  'LinearSequence_s.imagine_lseq_raw':s=>LSeq.from(s),
  'LinearSequence_s.lseq_length_raw':l=>l.length,
  'LinearSequence_s.lseq_alloc_raw':n=>{big_alloc(n,26);const l=new LSeq();for(let i=0;i<n;i++)l.push(EMPTY);return l;},
  'LinearSequence_s.lseq_free_raw':l=>{for(const x of l)chk(x===EMPTY,'lseq freed while holding elements');return new Tup([]);},
  'LinearSequence_s.lseq_swap_raw_fun':(l,i,a)=>{if(!(i>=0&&i<l.length))throw new DafnyFail('lseq index '+i+' out of range '+l.length);const o=l[i];l[i]=a;return new Tup([l,o]);},
  'LinearSequence_s.lseq_share_raw':(l,i)=>{if(!(i>=0&&i<l.length))throw new DafnyFail('lseq index '+i+' out of range '+l.length);return l[i];},
  'LinearSequence_s.TrustedRuntimeSeqResize':(s,n)=>{const r=Array.from(s).slice(0,N(n));while(r.length<n)r.push(0);Object.defineProperty(r,'$lin',{value:true});return r;},
  'LinearSequence_s.TrustedRuntimeLSeqResize':(l,n)=>{for(let i=N(n);i<l.length;i++)chk(l[i]===EMPTY,'lseq shrunk over an element');const r=new LSeq();for(let i=0;i<n;i++)r.push(i<l.length?l[i]:EMPTY);return r;},
  'LinearBox_s.SwapAffine._ctor':function(a){this.x=a;},'LinearBox_s.SwapAffine.Read':function(){return this.x;},'LinearBox_s.SwapAffine.Borrow':function(){return this.x;},'LinearBox_s.SwapAffine.Swap':function(a){const o=this.x;this.x=a;return o;},
  'LinearBox_s.SwapLinear._ctor':function(a,d){this.x=a;this.d=d;},'LinearBox_s.SwapLinear.Read':function(){return this.x;},'LinearBox_s.SwapLinear.Borrow':function(){return this.x;},'LinearBox_s.SwapLinear.Swap':function(a){const o=this.x;this.x=a;return o;},
  'LinearBox_s.SwapLinear.Inv':function(){return ()=>true;},
  'LinearBox_s.OfDestructor':d=>d,'LinearBox_s.ToDestructor':f=>f,'LinearBox_s.ToDestructorEnv':(f,e)=>a=>f(a,e),'LinearBox_s.CallDestructor':(d,a)=>d(a),
  'NativeArithmetic.u64add':(a,b)=>norm((big(a)+big(b))&M64),
  'NativeArrays.ByteSeqCmpByteSeq':cmp,
  'NativeArrays.newArrayFill':(n,t)=>{big_alloc(n,28);return new DArr(new Array(N(n)).fill(t));},
  'NativeArrays.newArrayClone':a=>new DArr(a.a.slice()),
  'NativeArrays.CopySeqIntoArray':(s,si,d,di,l)=>copy(s,si,d,di,l),
  'NativeArrays.CopyArrayIntoDifferentArray':(s,si,d,di,l)=>{chk(s!==d,'copy into the same array');copy(s,si,d,di,l);},
  'MapRemove_s.ComputeMapRemove1':(m,k)=>{const r=new Map(m.m);r.delete($.key(k));return new $.DMap(r);},
  'MallocAccounting.set_amass_mode':()=>{},'NativeBenchmarking.start':()=>{},'NativeBenchmarking.end':()=>{},
  'AllocationReport.start':()=>{},'AllocationReport.sampleNode':()=>{},'AllocationReport.stop':()=>{},
  'Bits_s.intrinsic_mm_cvtepu32_epi64':a=>{a=big(a);return norm((a&0xffffffffn)|(((a>>32n)&0xffffffffn)<<64n));},
  'Bits_s.intrinsic_mm_loadu_si128':(a,i)=>norm(big($.at(a,i))|(big($.at(a,N(i)+1))<<64n)),
  'Bits_s.intrinsic_mm_cvtsi64_si128':a=>a,
  'Bits_s.intrinsic_mm_cvtsi128_si64':a=>norm(big(a)&M64),
  'F2_X_s.intrinsic_mm_crc32_u8':(c,v)=>crcBytes(c,v,1),'F2_X_s.intrinsic_mm_crc32_u16':(c,v)=>crcBytes(c,v,2),'F2_X_s.intrinsic_mm_crc32_u32':(c,v)=>crcBytes(c,v,4),'F2_X_s.intrinsic_mm_crc32_u64':(c,v)=>crcBytes(norm(big(c)&0xffffffffn),v,8),
  'F2_X_s.intrinsic_mm_clmulepi64_si128_0':(a,b)=>clmul(big(a)&M64,big(b)&M64),
  'F2_X_s.intrinsic_mm_clmulepi64_si128_16':(a,b)=>clmul(big(a)&M64,(big(b)>>64n)&M64),
  'F2_X_s.intrinsic_mm_xor_si128':(a,b)=>norm(big(a)^big(b)),'F2_X_s.bitxor32':(a,b)=>norm(big(a)^big(b)),'F2_X_s.bitxor64':(a,b)=>norm(big(a)^big(b)),
};
for(const M of ['NativePackedInts']){
  EX[M+'.Unpack_LittleEndian_Uint32']=(a,i)=>le(a,i,4);EX[M+'.Unpack_LittleEndian_Uint64']=(a,i)=>le(a,i,8);EX[M+'.Unpack_LittleEndian_Uint64_From_Array']=(a,i)=>le(a,i,8);
  EX[M+'.Pack_LittleEndian_Uint32_into_Array']=(v,a,i)=>put(v,a,i,4);EX[M+'.Pack_LittleEndian_Uint64_into_Array']=(v,a,i)=>put(v,a,i,8);
  for(const [w,n] of [['32',4],['64',8]]){
    EX[`${M}.Unpack_LittleEndian_Uint${w}_Seq`]=(a,i,l)=>{i=N(i);l=N(l);chk(i+n*l<=a.length,'unpack out of range');const r=new Array(l);for(let k=0;k<l;k++)r[k]=le(a,i+n*k,n);return r;};
    EX[`${M}.Pack_LittleEndian_Uint${w}_Seq_into_Array`]=(u,a,i)=>{i=N(i);chk(i+n*u.length<=arr(a).length,'pack out of range');u.forEach((v,k)=>put(v,a,i+n*k,n));};
  }
}
const TYPES={
  'LinearMaybe.maybe':args=>args[0]||null,
  'LinearSequence_s.lseq':args=>({k:'seq',a:args[0]||null,lin:true}),
};
module.exports={EX,TYPES,crc32c,le,put,cmp};
