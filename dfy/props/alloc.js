'use strict';
// A01: bitmaps and the block allocator.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES}=require('../externs.js');const {check,discard}=require('../pbt.js');
const {contractsPart}=require('../contract.js');const {table,J,mem,Lin,stat}=require('../tab.js');
const N=Number;
const load=(REPO,ov,...f)=>new Program({externs:EX,types:TYPES,overrides:ov||{}}).load(...f.map(x=>REPO+'/'+x));
const ov=n=>({'Bounds.NumBlocksUint64':()=>n});
const show=s=>'{'+[...s].sort((a,b)=>a-b).slice(0,40).join(',')+'}';
// positions near word boundaries, or anywhere
const pos=(t,n)=>{const k=t.below(3);if(k===0)return t.below(Math.min(n,8));if(k===1){const w=t.below(Math.ceil(n/64))*64+t.pick([0,1,31,32,62,63]);return Math.min(w,n-1);}return t.below(n);};
const firstFree=(s,n)=>{for(let i=0;i<n;i++)if(!s.has(i))return i;return -1;};
// fill whole words so that allocation has to skip them
function fillSome(t,n,f){if(t.below(2)){const e=t.pick([64,63,65,127,128,n,n-1]);for(let i=0;i<Math.min(e,n);i++)f(i);}}
function model({REPO}){
  const P=load(REPO,null,'lib/DataStructures/BitmapModel.i.dfy');const M=P.m('BitmapModel');
  return (t,c)=>{
    const n=t.pick([1,5,64,70,130]);let bm=M.EmptyBitmap(n),s=new Set();check(M.Len(bm)===n,'length');
    const cmp=()=>{for(let i=0;i<n;i++)check(M.IsSet(bm,i)===s.has(i),()=>`bit ${i} of ${n} is ${M.IsSet(bm,i)}; set ${show(s)}`);
      const r=M.BitAlloc(bm),f=firstFree(s,n);check(f<0?r.$cn==='None':r.$cn==='Some'&&N(r._value)===f,()=>`BitAlloc gives ${J(r)}, first free is ${f}`);};
    if(t.below(2)){const e=t.below(n+1);for(let i=0;i<e;i++){bm=M.BitSet(bm,i);s.add(i);}c.log('first '+e+' set');}
    cmp();
    t.list(1,8,()=>{const i=pos(t,n);c.nontrivial();if(t.below(3)<2){bm=M.BitSet(bm,i);s.add(i);c.log('set '+i);}else{bm=M.BitUnset(bm,i);s.delete(i);c.log('unset '+i);}cmp();});
    const o=new Set(t.list(0,8,()=>pos(t,n)));let ob=M.EmptyBitmap(n);for(const i of o)ob=M.BitSet(ob,i);
    const u=t.below(2)?M.BitUnion(bm,ob):M.BitUnion(ob,bm);check(M.Len(u)===n,'union length');for(let i=0;i<n;i++)check(M.IsSet(u,i)===(s.has(i)||o.has(i)),()=>`bit ${i} of the union of ${show(s)} and ${show(o)}`);
    c.sample(n+' '+show(s));
  };
}
function impl({REPO}){
  const P=load(REPO,null,'lib/DataStructures/BitmapImpl.i.dfy');const B=P.m('BitmapImpl').Bitmap;
  const mk=n=>new Lin(B,stat(B,'Constructor')(n));
  return (t,c)=>{
    const n=64*t.pick([1,2,3,5]);const b=mk(n),s=new Set();c.log('bitmap of '+n);
    const all=(x,m,w)=>{for(let i=0;i<n;i++){const g=x.call('GetIsSet',i);check(g===m.has(i),()=>`${w}: GetIsSet(${i}) is ${g}; set ${show(m)}`);}};
    all(b,s,'new');
    const spec=(x,m,w)=>{check(x.call('Inv')===true,w+': Inv() is false');const v=x.call('I');check(v.length===n,w+': length of I()');for(let i=0;i<n;i++)check(v[i]===m.has(i),()=>`${w}: I()[${i}] is ${v[i]}`);};
    fillSome(t,n,i=>{b.call('Set',i);s.add(i);});
    t.list(1,12,()=>{
      const k=t.below(6),i=pos(t,n);c.nontrivial();
      if(k<=1){c.log('Set '+i);b.call('Set',i);s.add(i);}
      else if(k===2){c.log('Unset '+i);b.call('Unset',i);s.delete(i);}
      else if(k<=4){const r=b.call('Alloc'),f=firstFree(s,n);c.log(()=>'Alloc '+J(r));check(f<0?r.$cn==='None':r.$cn==='Some'&&N(r._value)===f,()=>`Alloc gives ${J(r)}, first free is ${f}`);if(f<0)c.label('full');else if(t.below(2)){b.call('Set',f);s.add(f);}}
      else{
        const d=new Lin(B,stat(B,'CloneConstructor')(b.v)),ds=new Set(s);
        const es=new Set(t.list(0,6,()=>pos(t,n)));for(const j of es){if(t.below(2)){d.call('Set',j);ds.add(j);}else{d.call('Unset',j);ds.delete(j);}}
        c.log(()=>'clone changed at '+show(es));all(d,ds,'clone');all(b,s,'original of a clone');
        const u=new Lin(B,stat(B,'UnionConstructor')(...(t.below(2)?[b.v,d.v]:[d.v,b.v])));all(u,new Set([...s,...ds]),'union');
      }
      for(const j of [i,pos(t,n),i^1,i^63])if(j<n){const g=b.call('GetIsSet',j);check(g===s.has(j),()=>`GetIsSet(${j}) is ${g}`);}
    });
    all(b,s,'end');spec(b,s,'end');c.sample(n+' '+show(s));
  };
}
// the allocator: every block is free or used by the ephemeral, frozen or persistent tree or an outstanding write
const sets=['ephemeral','frozen','persistent','outstanding'];
function allocModel({REPO}){
  const n=70;const P=load(REPO,ov(n),'Impl/BlockAllocatorModel.i.dfy');const A=P.m('BlockAllocatorModel'),M=P.m('BitmapModel');
  const bitmap=s=>{let b=M.EmptyBitmap(n);for(const i of s)b=M.BitSet(b,i);return b;};
  return history(n,{
    init:s=>A.InitBlockAllocator(bitmap(s)),get:(v,f,i)=>{if(f==='frozen')return v._frozen.$cn==='Some'?M.IsSet(v._frozen._value,i):null;return M.IsSet(v['_'+f],i);},
    call:(v,m,...a)=>A[m](v,...a),alloc:v=>A.Alloc(v),light:false,inv:(v,t)=>{
    const st=(b,i,x)=>x?M.BitSet(b,i):M.BitUnset(b,i),i=t.below(n);
    const fl=(f)=>{const b=v['_'+f];return A.BlockAllocatorModel(...sets.concat('full').map(g=>g===f?st(b,i,!M.IsSet(b,i)):v['_'+g]));};
    if(A.Inv(fl('full')))return 'a state with block '+i+' wrongly '+(M.IsSet(v._full,i)?'free':'used')+' satisfies the invariant';
    const f=t.pick(['ephemeral','persistent','outstanding','full','frozen']);const cut=b=>t.below(2)?b.slice(0,-1):[...b,false];
    if(f!=='frozen'||v._frozen.$cn==='Some'){const w=A.BlockAllocatorModel(...sets.concat('full').map(g=>g!==f?v['_'+g]:g==='frozen'?P.m('Options').Some(cut(v._frozen._value)):cut(v['_'+g])));let r=false;try{r=A.Inv(w);}catch(e){if(!(e instanceof $.DafnyFail))throw e;}if(r)return 'a state whose '+f+' bitmap has the wrong length satisfies the invariant';}
    return A.Inv(v)||'invariant is false';}});
}
function allocImpl({REPO}){
  const n=192;const P=load(REPO,ov(n),'Impl/BlockAllocatorImpl.i.dfy');const C=P.m('BlockAllocatorImpl').BlockAllocator,B=P.m('BitmapImpl').Bitmap,A=P.m('BlockAllocatorModel');const bm=mem(B);
  return history(n,{
    init:s=>{const b=new Lin(B,stat(B,'Constructor')(n));for(const i of s)b.call('Set',i);return stat(C,'Constructor')(b.v);},
    get:(v,f,i)=>{if(f==='frozen')return v._frozen.$cn==='lSome'?bm.GetIsSet(v._frozen._value,i):null;return bm.GetIsSet(v['_'+f],i);},
    call:(v,m,...a)=>{const l=new Lin(C,v);l.call(m,...a);return l.v;},alloc:v=>mem(C).Alloc(v),light:true,inv:(v,t)=>{
    if(!mem(C).Inv(v))return 'Inv() is false';const m=mem(C).I(v);if(!A.Inv(m))return 'the interpretation violates the model invariant';
    const i=pos(t,n),M=P.m('BitmapModel');for(const f of sets.concat('full')){if(f==='frozen'){if((v._frozen.$cn==='lSome')!==(m._frozen.$cn==='Some'))return 'interpretation of frozen';if(m._frozen.$cn==='Some'&&M.IsSet(m._frozen._value,i)!==bm.GetIsSet(v._frozen._value,i))return 'interpretation of frozen block '+i;}else if(M.IsSet(m['_'+f],i)!==bm.GetIsSet(v['_'+f],i))return `interpretation of ${f} block ${i}`;}
    return true;}});
}
function history(n,o){
  return (t,c)=>{
    const s0=new Set(t.list(0,6,()=>pos(t,n)));fillSome(t,n,i=>s0.add(i));
    let v=o.init(s0);const m={ephemeral:new Set(s0),frozen:null,persistent:new Set(s0),outstanding:new Set()};
    const used=()=>new Set([...m.ephemeral,...(m.frozen||[]),...m.persistent,...m.outstanding]);
    const full=()=>{const u=used();for(let i=0;i<n;i++){for(const f of sets){const g=o.get(v,f,i),w=f==='frozen'&&!m.frozen?null:m[f].has(i);check(g===w,()=>`${f} bit ${i} is ${g}, should be ${w}`);}
      const g=o.get(v,'full',i);check(g===u.has(i),()=>`block ${i} counts as ${g?'used':'free'} but is ${u.has(i)?'used':'free'}`);}
      if(!o.light||t.below(4)===3){const r=o.inv(v,t);check(r===true,()=>r);}};
    full();const recent=[];
    const blk=()=>recent.length&&t.below(3)?t.pick(recent):pos(t,n);
    t.list(1,14,()=>{
      const k=t.below(10);let i;c.nontrivial();
      if(k<=2){const r=o.alloc(v),f=firstFree(used(),n);c.log(()=>'Alloc '+J(r));check(f<0?r.$cn==='None':r.$cn==='Some'&&N(r._value)===f,()=>`Alloc gives ${J(r)}, first block nobody uses is ${f}`);if(f<0)return;i=f;c.label('alloc');}
      else i=blk();
      if(!recent.includes(i)){recent.push(i);if(recent.length>4)recent.shift();}
      const st=(f,add)=>{add?m[f].add(i):m[f].delete(i);};
      if(k<=1||k===3){const both=k<=1;c.log('MarkUsedEphemeral '+i);v=o.call(v,'MarkUsedEphemeral',i);st('ephemeral',true);if(both){c.log('MarkUsedOutstanding '+i);v=o.call(v,'MarkUsedOutstanding',i);st('outstanding',true);}}
      else if(k===2){c.log('MarkUsedOutstanding '+i);v=o.call(v,'MarkUsedOutstanding',i);st('outstanding',true);}
      else if(k===4){if(!m.frozen)return;c.log('MarkUsedFrozen '+i);v=o.call(v,'MarkUsedFrozen',i);st('frozen',true);}
      else if(k===5){c.log('MarkFreeOutstanding '+i);v=o.call(v,'MarkFreeOutstanding',i);st('outstanding',false);}
      else if(k===6||k===7){c.log('MarkFreeEphemeral '+i);v=o.call(v,'MarkFreeEphemeral',i);st('ephemeral',false);}
      else if(k===8){if(m.frozen)return;c.log('CopyEphemeralToFrozen');v=o.call(v,'CopyEphemeralToFrozen');m.frozen=new Set(m.ephemeral);c.label('freeze');}
      else{if(!m.frozen)return;c.log('MoveFrozenToPersistent');v=o.call(v,'MoveFrozenToPersistent');m.persistent=m.frozen;m.frozen=null;c.label('persist');}
      if(o.light){const u=used();for(const j of [i,blk()]){const g=o.get(v,'full',j);check(g===u.has(j),()=>`block ${j} counts as ${g?'used':'free'} but is ${u.has(j)?'used':'free'}`);}}else full();
    });
    full();c.sample(`${n} blocks, ephemeral ${show(m.ephemeral)}`);
  };
}
exports.props={
  A01:{rule:'a history with at least one change',parts:{model,impl:{make:impl,weight:2},allocModel,allocImpl:{make:allocImpl,weight:2},
    contracts:contractsPart(['lib/DataStructures/BitmapModel.i.dfy','Impl/BlockAllocatorModel.i.dfy'],{overrides:ov(5)})},quick:20,thorough:240,assumptions:['allocator of 70 or 192 blocks instead of the disk\'s']},
};
