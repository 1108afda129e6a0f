'use strict';
// G01 generic marshalling, G02 packing and marshalling utilities, H01 checksums.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES,crc32c}=require('../externs.js');const {check,discard}=require('../pbt.js');
const {contractsPart}=require('../contract.js');const {DMap,DSet,DArr}=$;const {table,J}=require('../tab.js');
const load=(REPO,...f)=>new Program({externs:EX,types:TYPES}).load(...f.map(x=>REPO+'/'+x));
const N=Number,Mk='lib/Marshalling/';
const leb=(v,n)=>{v=BigInt(v);const r=[];for(let i=0;i<n;i++){r.push(N(v&255n));v>>=8n;}return r;};
const lei=b=>$.norm(b.reduceRight((a,x)=>a*256n+BigInt(x),0n));
const u32=t=>{const k=t.below(4);return k===0?t.below(4):k===1?4294967295-t.below(4):k===2?(2**t.below(32)):t.below(4294967296);};
// ------------------------------------------------------------------ G01
// independent grammar, values, encoder and parser: g = [kind, arg]; v = [kind, payload]
const leafs=['C','4','8','B','W','L'];
function gram(t,d){const k=t.below(d>3?6:9);if(k<6)return [leafs[k]];if(k===6)return ['A',gram(t,d+1)];return [k===7?'T':'U',t.list(k===7?0:1,4,()=>gram(t,d+1))];}
const minSize=g=>({C:0,4:4,8:8,B:8,W:8,L:8,A:8,U:8})[g[0]]??g[1].reduce((a,x)=>a+minSize(x),0);
function value(t,g){
  switch(g[0]){
    case 'C':return ['C'];case '4':return ['4',u32(t)];case '8':return ['8',t.u64()];
    case 'A':return ['A',t.list(0,5,()=>value(t,g[1]))];
    case 'T':return ['T',g[1].map(x=>value(t,x))];
    case 'B':return ['B',t.bytes(0,t.below(12)===11?300:9)];case 'W':return ['W',t.list(0,6,u32)];case 'L':return ['L',t.list(0,5,x=>x.u64())];
    case 'U':{const i=t.below(g[1].length);return ['U',i,value(t,g[1][i])];}
  }
}
function encode(v){
  switch(v[0]){
    case 'C':return [];case '4':return leb(v[1],4);case '8':return leb(v[1],8);
    case 'A':return [...leb(v[1].length,8),...v[1].flatMap(encode)];case 'T':return v[1].flatMap(encode);
    case 'B':return [...leb(v[1].length,8),...v[1]];case 'W':return [...leb(v[1].length,8),...v[1].flatMap(x=>leb(x,4))];case 'L':return [...leb(v[1].length,8),...v[1].flatMap(x=>leb(x,8))];
    case 'U':return [...leb(v[1],8),...encode(v[2])];
  }
}
const HUGE=500;let deep=0; // longest stored array length met while parsing
function parse(d,p,g){ // [value, position] or null
  const fix=n=>p+n<=d.length?lei(d.slice(p,p+n)):null;
  switch(g[0]){
    case 'C':return [['C'],p];
    case '4':case '8':{const n=+g[0],v=fix(n);return v===null?null:[[g[0],v],p+n];}
    case 'A':{const n=fix(8);if(n===null)return null;deep=Math.max(deep,N(n));if(n>HUGE&&minSize(g[1])===0)throw 'huge';let q=p+8;const r=[];for(let i=0;i<n;i++){const x=parse(d,q,g[1]);if(!x)return null;r.push(x[0]);q=x[1];}return [['A',r],q];}
    case 'T':{let q=p;const r=[];for(const h of g[1]){const x=parse(d,q,h);if(!x)return null;r.push(x[0]);q=x[1];}return [['T',r],q];}
    case 'B':case 'W':case 'L':{const w=g[0]==='B'?1:g[0]==='W'?4:8,n=fix(8);if(n===null||!(n<=(d.length-p-8)/w))return null;const r=[];for(let i=0;i<n;i++)r.push(lei(d.slice(p+8+i*w,p+8+i*w+w)));return [[g[0],r],p+8+N(n)*w];}
    case 'U':{const i=fix(8);if(i===null||!(i<g[1].length))return null;const x=parse(d,p+8,g[1][i]);return x?[['U',i,x[0]],x[1]]:null;}
  }
}
function generic({REPO}){
  const P=load(REPO,Mk+'GenericMarshalling.i.dfy');const M=P.m('GenericMarshalling');
  const G=g=>({C:()=>M.GConstant,4:()=>M.GUint32,8:()=>M.GUint64,A:()=>M.GArray(G(g[1])),T:()=>M.GTuple(g[1].map(G)),B:()=>M.GByteArray,W:()=>M.GUint32Array,L:()=>M.GUint64Array,U:()=>M.GTaggedUnion(g[1].map(G))})[g[0]]();
  const V=v=>({C:()=>M.VConstant,4:()=>M.VUint32(v[1]),8:()=>M.VUint64(v[1]),A:()=>M.VArray(v[1].map(V)),T:()=>M.VTuple(v[1].map(V)),B:()=>M.VByteArray(v[1]),W:()=>M.VUint32Array(v[1]),L:()=>M.VUint64Array(v[1]),U:()=>M.VCase(v[1],V(v[2]))})[v[0]]();
  const inG=(v,g)=>v[0]===g[0]&&(g[0]==='A'?v[1].every(x=>inG(x,g[1])):g[0]==='T'?v[1].length===g[1].length&&v[1].every((x,i)=>inG(x,g[1][i])):g[0]==='U'?v[1]<g[1].length&&inG(v[2],g[1][v[1]]):true);
  
  return (t,c)=>{
    const g=gram(t,0),gg=G(g),v=value(t,g),vv=V(v),enc=encode(v);
    c.log(()=>'grammar '+JSON.stringify(g));c.log(()=>'value '+JSON.stringify(v,(k,x)=>typeof x==='bigint'?String(x):x));c.sample(JSON.stringify(g)+' '+enc.length+' bytes');
    c.nontrivial(enc.length>0);
    check(M.ValidGrammar(gg)===true&&M.ValidVal(vv)===true&&M.ValInGrammar(vv,gg)===true,'generated value is not in its grammar');
    const g2=gram(t,1);check(M.ValInGrammar(vv,G(g2))===inG(v,g2),()=>'ValInGrammar with '+JSON.stringify(g2));
    check(M.SizeOfV(vv)===enc.length,()=>`SizeOfV is ${M.SizeOfV(vv)}, encoding has ${enc.length} bytes`);
    check(N(M.ComputeSizeOf(vv))===enc.length,()=>`ComputeSizeOf is ${M.ComputeSizeOf(vv)}, encoding has ${enc.length} bytes`);
    const same=(a,b)=>a.length===b.length&&b.every((x,i)=>a[i]===x);
    const out=M.Marshall(vv,gg);check(same([...out.a],enc),()=>`Marshall gives [${[...out.a]}], not [${enc}]`);
    const pre=t.below(9),post=t.below(9),arr=new DArr(new Uint8Array(pre+enc.length+post).fill(0xA5)),sz=M.MarshallVal(vv,gg,arr,pre);
    check(N(sz)===enc.length,()=>'MarshallVal reports '+sz+' bytes');
    check(same([...arr.a],[...Array(pre).fill(0xA5),...enc,...Array(post).fill(0xA5)]),()=>`MarshallVal at ${pre} of ${arr.a.length} gives [${[...arr.a]}]`);
    // parse: exact, at an offset, truncated, with trailing bytes, mutated
    const tryParse=(d,i,what)=>{
      let want;deep=0;try{want=parse(d,i,g);}catch(e){if(e==='huge')return;throw e;}
      const s=deep>100?null:M.parse_Val(d.slice(i),gg);if(deep>4000)return;
      const [ok,x,rest]=M.ParseVal(d,i,gg);
      check(ok===!!want,()=>`${what}: ParseVal at ${i} of [${d}] ${ok?'succeeds':'fails'}`);
      check(N(rest)===(want?want[1]:d.length),()=>`${what}: ParseVal stops at ${rest}`);
      if(want)check($.eq(x,V(want[0])),()=>`${what}: ParseVal of [${d}] gives ${J(x)}`);
      if(s){const o=s._0;check(o.$cn===(want?'Some':'None')&&(!want||$.eq(o._value,V(want[0])))&&s._1.length===(want?d.length-want[1]:0),()=>`${what}: parse_Val gives ${J(s)}`);}
      if(i===0){const [ok2,y]=M.Demarshall(d,gg),w=!!want&&want[1]===d.length;check(ok2===w&&(!w||$.eq(y,V(want[0]))),()=>`${what}: Demarshall of [${d}] ${ok2?'succeeds':'fails'}`);
        check(M.Demarshallable(d,gg)===w,()=>what+': Demarshallable');}
    };
    tryParse(enc,0,'exact');const emb=[...Array(pre).fill(1),...enc,...Array(post).fill(0)];tryParse(emb,pre,'embedded');
    if(enc.length){
      const cut=t.below(enc.length);tryParse(enc.slice(0,cut),0,'cut to '+cut);tryParse([...enc,...t.bytes(1,9)],0,'longer');
      const d=enc.slice(),k=t.below(d.length);const small=t.below(3)>0;d[k]=small?Math.max(0,d[k]+t.pick([1,-1,2])):t.byte();d[k]&=255;
      tryParse(d,0,'changed at '+k);
    }
  };
}
// stored lengths and case numbers far beyond the data must be refused
function lengths({REPO}){
  const P=load(REPO,Mk+'GenericMarshalling.i.dfy');const M=P.m('GenericMarshalling');
  return (t,c)=>{
    const k=t.pick(['B','W','L','U','A']);const rest=t.bytes(0,24);
    const base=t.pick([2n**64n-1n,2n**64n-8n,2n**64n-9n,2n**63n,2n**61n,2n**62n,2n**60n,2n**32n,2n**61n+1n,2n**62n+2n])-BigInt(t.below(9));const n=BigInt.asUintN(64,base+(t.bool()?BigInt(rest.length>>(k==='W'?2:k==='L'?3:0)):0n));
    const g={B:M.GByteArray,W:M.GUint32Array,L:M.GUint64Array,U:M.GTaggedUnion([M.GConstant,M.GUint32]),A:M.GArray(M.GUint32)}[k];
    if(n<1000n)discard();
    const pre=t.below(2)?t.bytes(0,9):[],d=[...pre,...leb(n,8),...rest];
    c.log(()=>`${k} with length ${n} and ${rest.length} bytes at ${pre.length}`);c.nontrivial();c.sample(`${k} ${n}/${rest.length}`);
    let r;try{r=M.ParseVal(d,pre.length,g);}catch(e){if(k==='A'&&e instanceof $.DafnyFail&&/^allocation of/.test(e.message))check(false,'stored GArray length sizes an allocation before any element is parsed: '+e.message);throw e;}
    check(r[0]===false&&N(r[2])===d.length,()=>`length ${n} with ${rest.length} bytes left is accepted: ${J(r[1])} rest ${r[2]}`);
    if(k!=='A'){const s=M.parse_Val(d.slice(pre.length),g);check(s._0.$cn==='None'&&s._1.length===0,'parse_Val accepts it');}
  };
}
// ------------------------------------------------------------------ G02
function utils({REPO}){
  const P=load(REPO,Mk+'Util.i.dfy',Mk+'Seqs.i.dfy',Mk+'Maps.i.dfy',Mk+'Native.s.dfy','lib/Base/PackedIntsLib.i.dfy','lib/Lang/System/PackedInts.s.dfy');
  const U=P.m('Common__Util_i'),S=P.m('Collections__Seqs_i'),Mp=P.m('Collections__Maps_i'),L=P.m('PackedIntsLib'),Np=P.m('NativePackedInts');
  const beb=(v,n)=>leb(v,n).reverse();const el=t=>t.below(5),seq=(t,a=0,b=6)=>t.list(a,b,el);
  const mp=t=>t.list(0,5,()=>[el(t),el(t)]);
  const E={
    seqIntoArrayOpt:t=>{const s=t.list(0,20,el),a=new DArr(s.map(()=>7));return {args:[s,a],ok:()=>$.eq([...a.a],s)};},
    seqIntoArrayChar:t=>{const s=t.list(0,20,u=>u.pick('abc')).join(''),a=new DArr([...s].map(()=>'z'));return {args:[s,a],ok:()=>[...a.a].join('')===s};},
    BEByteSeqToInt:t=>{const b=t.bytes(0,12);return {args:[b],want:lei(b.slice().reverse()),nt:b.length};},
    BEUintToSeqByte:t=>{const w=t.below(12),v=t.below(3)?t.u64():BigInt(t.u64())*BigInt(t.u64());return {args:[$.norm(BigInt(v)),w],want:beb(v,w),nt:w};},
    Uint64ToSeqByte:t=>{const v=t.u64();return {args:[v],want:beb(v,8)};},
    SeqByteToUint16:t=>{const b=t.bytes(2,2);return {args:[b],want:b[0]*256+b[1]};},
    last:t=>{const s=seq(t,1,7);return {args:[s],want:s[s.length-1],f:S.last};},
    all_but_last:t=>{const s=seq(t,1,7);return {args:[s],want:s.slice(0,-1),f:S.all_but_last};},
    ItemAtPositionInSeq:t=>{const s=seq(t),v=el(t),i=t.int(-1,7);return {args:[s,v,i],want:i>=0&&i<s.length&&s[i]===v,f:S.ItemAtPositionInSeq};},
    FindIndexInSeq:t=>{const s=seq(t),v=el(t);return {args:[s,v],ok:r=>s.includes(v)?s[N(r)]===v:r===-1||r<0,f:S.FindIndexInSeq};},
    SeqCat:t=>{const s=t.list(0,5,u=>seq(u,0,3));return {args:[s],want:s.flat(),f:S.SeqCat};},
    SeqCatRev:t=>{const s=t.list(0,5,u=>seq(u,0,3));return {args:[s],want:s.flat(),f:S.SeqCatRev};},
    eq_map:t=>{$.universes.length=0;$.universes.push(u=>[0,1,2,3,4,5,6,7,8,9]);const a=mp(t),b=t.below(2)?a.slice().reverse():mp(t),A=DMap.of(a),B=DMap.of(b);return {args:[A,B],want:$.eq(A,B),f:Mp.eq_map};},
    domain:t=>{const a=mp(t);return {args:[DMap.of(a)],want:DSet.from(a.map(x=>x[0])),f:Mp.domain};},
    union:t=>{const a=mp(t),b=mp(t).map(([k,v])=>[k+5,v]);return {args:[DMap.of(a),DMap.of(b)],want:DMap.of([...a,...b]),f:Mp.union};},
    RemoveElt:t=>{const a=t.list(1,5,()=>[el(t),el(t)]),k=t.pick(a)[0];return {args:[DMap.of(a),k],want:DMap.of(a.filter(x=>x[0]!==k)),f:Mp.RemoveElt};},
    pack_LittleEndian_Uint32:t=>{const v=u32(t);return {args:[v],want:leb(v,4),f:L.pack_LittleEndian_Uint32};},
    unpack_LittleEndian_Uint32:t=>{const v=u32(t);return {args:[leb(v,4)],want:v,f:Np.unpack_LittleEndian_Uint32};},
    unpack_LittleEndian_Uint64:t=>{const v=t.u64();return {args:[leb(v,8)],want:v,f:Np.unpack_LittleEndian_Uint64};},
    unpack_LittleEndian_Uint32_Seq:t=>{const v=t.list(0,9,u32);return {args:[v.flatMap(x=>leb(x,4)),v.length],want:v,f:Np.unpack_LittleEndian_Uint32_Seq,nt:v.length};},
    unpack_LittleEndian_Uint64_Seq:t=>{const v=t.list(0,9,u=>u.u64());return {args:[v.flatMap(x=>leb(x,8)),v.length],want:v,f:Np.unpack_LittleEndian_Uint64_Seq,nt:v.length};},
  };
  return table(E,{mod:U});
}
// ------------------------------------------------------------------ H01
const bits=(v,n)=>{v=BigInt(v);const r=[];for(let i=0;i<n;i++){r.push((v&1n)===1n);v>>=1n;}return r;};
const ofBits=b=>b.reduceRight((a,x)=>a*2n+(x?1n:0n),0n);
const gmul=(a,b)=>{let r=0n;for(let i=0n;b>>i;i++)if((b>>i)&1n)r^=a<<i;return r;};
const blen=v=>v===0n?0:v.toString(2).length;
const gmod=(a,b)=>{const n=blen(b);if(n===0)return a;while(blen(a)>=n)a^=b<<BigInt(blen(a)-n);return a;};
const POLY=0x11EDC6F41n;const rev=(v,n)=>ofBits(bits(v,n).reverse());
const xpow=(()=>{const memo=new Map();return n=>{if(!memo.has(n)){let r=1n,b=2n,e=n;while(e){if(e&1)r=gmod(gmul(r,b),POLY);b=gmod(gmul(b,b),POLY);e>>=1;}memo.set(n,r);}return memo.get(n);};})();
function poly({REPO}){
  const P=load(REPO,'lib/Lang/System/F2_X.s.dfy','lib/Checksums/CRC32C.s.dfy','lib/Checksums/CRC32C_PowDef.i.dfy','lib/Checksums/BitLemmas.i.dfy');
  const B=P.m('Bits_s'),F=P.m('F2_X_s'),C=P.m('CRC32_C'),D=P.m('CRC32C_PowDef'),BL=P.m('BitLemmas');
  const bv=(t,a=0,b=20)=>{const n=t.int(a,b),k=t.below(4);return [...Array(n)].map(()=>k===0?false:k===1?t.below(6)===5:t.bool());};
  const reg=t=>bits((BigInt(t.u64())<<64n)|BigInt(t.u64()),128);
  const crcStep=(acc,b,n)=>{ // reflected, bit by bit
    let c=BigInt(acc),x=BigInt(b);for(let i=0;i<n;i++){const o=(c^x)&1n;c>>=1n;x>>=1n;if(o)c^=0x82F63B78n;}return c;};
  const E={
    bits_of_int:t=>{const v=t.u64(),n=t.below(70);return {args:[v,n],want:bits(v,n),f:B.bits_of_int};},
    zeroes:t=>{const n=t.below(40);return {args:[n],want:Array(n).fill(false),f:B.zeroes};},ones:t=>{const n=t.below(40);return {args:[n],want:Array(n).fill(true),f:B.ones};},
    mm_cvtepu32_epi64:t=>{const a=reg(t);return {args:[a],want:[...a.slice(0,32),...Array(32).fill(false),...a.slice(32,64),...Array(32).fill(false)],f:B.mm_cvtepu32_epi64};},
    reverse:t=>{const a=bv(t);return {args:[a],want:a.slice().reverse(),f:F.reverse};},
    bool_xor:t=>{const a=t.bool(),b=t.bool();return {args:[a,b],want:a!==b,f:F.bool_xor};},
    xor:t=>{const a=bv(t),b=a.map(()=>t.bool());return {args:[a,b],want:a.map((x,i)=>x!==b[i]),f:F.xor};},
    extend:t=>{const a=bv(t),k=t.below(9);return {args:[a,a.length+k],want:[...a,...Array(k).fill(false)],f:F.extend};},
    bits_get:t=>{const a=bv(t),i=t.below(24);return {args:[a,i],want:i<a.length&&a[i],f:F.bits_get};},
    mul_F2_X:t=>{const a=bv(t),b=bv(t);return {args:[a,b],want:bits(gmul(ofBits(a),ofBits(b)),a.length+b.length),f:F.mul_F2_X};},
    mul_F2_X_digit:t=>{const a=bv(t),b=bv(t),i=t.below(40);return {args:[a,b,i],want:((gmul(ofBits(a),ofBits(b))>>BigInt(i))&1n)===1n,f:F.mul_F2_X_digit};},
    shift:t=>{const a=bv(t),k=t.below(9);return {args:[a,k],want:[...Array(k).fill(false),...a],f:F.shift};},
    mod_F2_X:t=>{const q=[...bv(t,0,12),true],p=bv(t,0,40);return {args:[p,q],want:bits(gmod(ofBits(p),ofBits(q)),q.length-1),f:F.mod_F2_X};},
    mm_clmulepi64_si128_0:t=>{const a=reg(t),b=reg(t),m=(1n<<64n)-1n;return {args:[a,b],want:bits(gmul(ofBits(a)&m,ofBits(b)&m),128),f:F.mm_clmulepi64_si128_0};},
    mm_clmulepi64_si128_16:t=>{const a=reg(t),b=reg(t),m=(1n<<64n)-1n;return {args:[a,b],want:bits(gmul(ofBits(a)&m,ofBits(b)>>64n),128),f:F.mm_clmulepi64_si128_16};},
    bits_of_bytes:t=>{const s=t.bytes(0,6);return {args:[s],want:s.flatMap(x=>bits(x,8)),f:C.bits_of_bytes};},
    byte_of_bits:t=>{const x=t.byte();return {args:[bits(x,8)],want:x,f:C.byte_of_bits};},
    crc32_c:t=>{const s=t.bytes(0,24);return {args:[s],want:leb(crc32c(s),4),f:C.crc32_c};},
    crc32_c_padded:t=>{const s=t.bytes(0,12);return {args:[s],want:[...leb(crc32c(s),4),...Array(28).fill(0)],f:C.crc32_c_padded};},
    pow_mod_crc:t=>{const n=33+t.below(90);return {args:[n],want:bits(rev(xpow(n-33),32),32),f:D.pow_mod_crc};},
    int_of_bits:t=>{const b=bv(t,0,70);return {args:[b],want:$.norm(ofBits(b)),f:BL.int_of_bits};},
  };
  for(const n of [8,16,32,64])E['mm_crc32_u'+n]=t=>{const a=u32(t),b=BigInt.asUintN(n,BigInt(t.u64()));return {args:[bits(a,32),bits(b,n)],want:bits(crcStep(a,b,n),32),f:F['mm_crc32_u'+n]};};
  return table(E,{});
}
function crcImpl({REPO}){
  const P=load(REPO,'lib/Checksums/CRC32CImpl.i.dfy','lib/Checksums/CRC32CArrayImpl.i.dfy');const S=P.m('CRC32_C_Impl'),A=P.m('CRC32_C_Array_Impl'),L=P.m('CRC32C_Lut');let lut=null;
  return (t,c)=>{
    const k=t.below(8),n=k===0?t.below(20):k===1?t.below(160):k===2?144*t.below(6)+t.below(30):k===3?t.pick([0,1,7,8,9,143,144,145,152,167,168,191,192,193,215,216]):k===4?24*256+t.int(-30,200):k<7?t.below(2500):t.below(14000);
    const seed=t.below(1000000),mode=t.below(4);const off=t.below(17),data=new Uint8Array(n);let x=seed+1;for(let i=0;i<n;i++){x=(x*1103515245+12345)>>>0;data[i]=mode===0?0:mode===1?255:x>>>16;}
    for(let i=0;i<3&&n;i++)data[t.below(n)]=t.byte();
    c.nontrivial(n>0);c.log(`${n} bytes, content ${mode}/${seed}, array offset ${off}`);c.sample(`${n} bytes at ${off}`);
    const want=[...leb(crc32c(data),4),...Array(28).fill(0)];
    const r=S.compute_crc32c_padded(data);check($.eq([...r],want),()=>`checksum of ${n} bytes is [${[...r].slice(0,5)}..], not [${want.slice(0,4)}]`);
    const post=t.below(9),arr=new DArr(new Uint8Array(off+n+post));for(let i=0;i<arr.a.length;i++)arr.a[i]=(i*37+seed)&255;arr.a.set(data,off);const keep=arr.a.slice();
    const q=A.compute_crc32c_padded(arr,off,n);check($.eq([...q],want),()=>`checksum of an array slice of ${n} bytes at ${off} is [${[...q].slice(0,5)}..], not [${want.slice(0,4)}]`);
    check(keep.every((b,i)=>arr.a[i]===b),'the array was changed');
    if(t.below(20)===0){lut=lut||L.lut;const i=1+t.below(256);check(lut.length===257&&BigInt(lut[i-1])===(rev(xpow(64*i-33),32)<<32n|rev(xpow(128*i-33),32)),()=>`table entry ${i-1} is ${lut[i-1]}`);}
  };
}
const props={
  G01:{rule:'a case marshals and parses one generated value of a generated grammar; non-trivial when its encoding is not empty',quick:22,
    parts:{generic:{make:generic,weight:4},lengths:{make:lengths,weight:1},contracts:{make:contractsPart([Mk+'GenericMarshalling.i.dfy'],{deep:true}),weight:1}},assumptions:['the extern packing primitives are JavaScript stand-ins written from their contracts; their C++ code is checked by X04']},
  G02:{rule:'a case calls one packing, sequence or map utility on generated arguments; non-trivial when they are not empty',quick:16,
    parts:{utils:{make:utils,weight:2},contracts:{make:contractsPart([Mk+'Util.i.dfy',Mk+'Seqs.i.dfy',Mk+'Maps.i.dfy','lib/Base/PackedIntsLib.i.dfy'],{}),weight:1}}},
  H01:{rule:'a case checksums generated bytes or evaluates one polynomial function; non-trivial when the data is not empty',quick:24,
    parts:{poly:{make:poly,weight:2},impl:{make:crcImpl,weight:3},contracts:{make:contractsPart(['lib/Checksums/F2_X_Lemmas.i.dfy','lib/Checksums/BitLemmas.i.dfy'],{maxInt:200}),weight:1}},assumptions:['CPU intrinsics are JavaScript stand-ins written from their contracts']},
};
module.exports={props};
