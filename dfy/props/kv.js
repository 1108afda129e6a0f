'use strict';
// Whole-store properties: VeriBetrKV's handlers over a simulated asynchronous disk.
const $=require('../rt.js');const K=require('../kv.js');const {check,Tape,Rng,Ctx,Violation}=require('../pbt.js');const {cmp}=require('../externs.js');
const show=b=>'<'+Array.from(b).slice(0,12).join(' ')+(b.length>12?` ..${b.length}`:'')+'>';
let prog=null;
function program(repo){if(!prog)prog=K.makeProgram(repo);return prog;}
// Scaled-down geometries that keep the layout constraints of Bounds.i.dfy (a full node fits its block, tables before nodes).
const GEOM=[
  {},
  {MaxCacheSizeUint64:8,MaxTotalBucketWeightUint64:2048,DiskNumJournalBlocksUint64:12},
  {MaxCacheSizeUint64:10,MaxTotalBucketWeightUint64:3000,NumBlocksUint64:300,DiskNumJournalBlocksUint64:20,IndirectionTableBlockSizeUint64:32768},
  {MaxCacheSizeUint64:24,MaxTotalBucketWeightUint64:20000,NodeBlockSizeUint64:32768,DiskNumJournalBlocksUint64:40},
];
// A message must weigh at most the flush trigger (an eighth of a node), as in the real geometry, or flushing cannot make room.
const room=P=>Math.floor(P.bounds.MaxTotalBucketWeightUint64/8)-16;
function setup(P,t,ctx,opt={}){
  const g=t.below(GEOM.length);Object.assign(P.bounds,K.DEFAULT_BOUNDS,GEOM[g]);
  const s=new K.Sim(P,t,ctx,opt);s.opt.diskLimit=P.bounds.NumBlocksUint64*P.bounds.NodeBlockSizeUint64;
  ctx.log(()=>'geometry '+g);s.mkfs();s.slow=t.pick([0,0,2,6]);s.boot();return s;
}
// Keys from a pool, so that they are written and read repeatedly; values of mixed sizes, sometimes empty.
function mkPool(t,n,big=true){
  const style=t.below(4);const out=[];
  for(let i=0;i<n;i++){
    if(style===0)out.push([t.below(256),t.below(256)]);
    else if(style===1)out.push(t.bytes(0,5,[0,1,255]));
    else if(style===2)out.push([...t.pick([[],[7],[7,7,7,7]]),...t.bytes(0,3)]);
    else out.push(big&&t.chance(1,12)?Array(t.pick([1000,1023,1024])).fill(t.below(4)).concat([]):t.bytes(1,20));
  }
  return out;
}
const mkVal=(t,mx)=>{const k=t.below(12);if(k===0)return [];if(k===11&&mx>=1024)return Array(t.pick([1024,1023,700])).fill(t.below(256));return Array.from({length:1+t.below(k<7?20:mx)},(_,i)=>i<3?t.below(256):(i*7)&255);};
const hex=k=>Array.from(k).map(b=>(b<16?'0':'')+b.toString(16)).join('');
const unhex=h=>{const r=[];for(let i=0;i<h.length;i+=2)r.push(parseInt(h.substr(i,2),16));return r;};
function bulk(s,model,pool,t,n,mx,each){ // many insertions from few tape draws
  let x=t.below(1<<30);const rnd=m=>{x=(Math.imul(x,1103515245)+12345)&0x7fffffff;return (x>>>8)%m;};
  for(let i=0;i<n;i++){const k=pool[rnd(pool.length)];const L=1+rnd(mx);const v=Array.from({length:L},(_,j)=>j<2?rnd(256):j&255);s.insert(k,v);model.put(k,v);if(each)each(i);}
}
// insertions while syncs go on in the background, polled now and then
function traffic(s,model,pool,t,n,mx,every,each){
  let x=t.below(1<<30);const rnd=m=>{x=(Math.imul(x,1103515245)+12345)&0x7fffffff;return (x>>>8)%m;};
  const graphOnly=rnd(2)===0,touch=[0,2,8][rnd(3)];
  for(let i=0;i<n;i++){const k=pool[rnd(pool.length)];const v=rnd(9)===0?[]:Array.from({length:1+rnd(mx)},(_,j)=>j<2?rnd(256):j&255);s.insert(k,v);model.put(k,v);if(each)each(i);
    if(rnd(every)===0){if(!s.syncs.size)s.pushSync();const ids=[...s.syncs.keys()];s.popSync(ids[rnd(ids.length)],graphOnly||rnd(3)>0);if(each)each(i);}
    if(rnd(every*4)===0&&s.syncs.size<4)s.pushSync();
    if(rnd(20)===0)s.churn();
    if(touch&&rnd(touch)===0)for(let j=rnd(4);j>=0;j--)s.call('handleQuery',null,pool[rnd(pool.length)]); // abandoned reads
    if(rnd(25)===0)checkQuery(s,model,pool[rnd(pool.length)]);
  }
}
class Model{ // history since the last start: base state, list of writes, how many are known durable
  constructor(){this.base=new Map();this.log=[];this.cur=new Map();this.durable=0;}
  put(k,v){const h=hex(k);this.log.push([h,v]);if(v.length)this.cur.set(h,v);else this.cur.delete(h);}
  get(k){return this.cur.get(hex(k))||[];}
  sorted(){return [...this.cur.keys()].sort((a,b)=>a<b?-1:a>b?1:0);}
  // the write count n (durable <= n) after which the state is `obs`
  match(obs){
    const st=new Map(this.base);let diff=0;const same=(h)=>{const a=st.get(h),b=obs.get(h);return a===undefined?b===undefined:b!==undefined&&a.length===b.length&&a.every((x,i)=>x===b[i]);};
    for(const h of new Set([...st.keys(),...obs.keys()]))if(!same(h))diff++;
    if(diff===0&&this.durable===0)return 0;
    for(let n=1;n<=this.log.length;n++){const [h,v]=this.log[n-1];const b=same(h);if(v.length)st.set(h,v);else st.delete(h);const a=same(h);if(b&&!a)diff++;if(!b&&a)diff--;if(diff===0&&n>=this.durable)return n;}
    return -1;
  }
  restart(obs){this.base=new Map(obs);this.cur=new Map(obs);this.log=[];this.durable=0;}
}
function checkQuery(s,model,k,why=''){const r=s.query(k);const w=model.get(k);check(r.length===w.length&&w.every((x,i)=>x===r[i]),()=>`query ${show(k)} returned ${show(r)}, last written ${show(w)}${why}`);}
const mkStart=(s,kind,k)=>{const U=s.P.m('UI');return kind===0?U.NegativeInf:kind===1?U.SInclusive(k):U.SExclusive(k);};
// one range read; returns [results, end key or null, end kind]
function checkSucc(s,model,kind,k,max){
  const r=s.succ(mkStart(s,kind,k),max);const res=r._results;const end=r._end;
  check(res.length<=max,()=>`range read returned ${res.length} results, at most ${max} asked`);
  const h=hex(k);const inLo=x=>kind===0||(kind===1?x>=h:x>h);
  const eh=end.$cn==='PositiveInf'?null:hex(end._key);const inHi=x=>end.$cn==='PositiveInf'||(end.$cn==='EInclusive'?x<=eh:x<eh);
  check(kind===0||eh===null||(kind===1&&end.$cn==='EInclusive'?eh>=h:eh>h),()=>`range read from ${show(k)} reports the empty range up to ${show(end._key)}`);
  const want=model.sorted().filter(x=>inLo(x)&&inHi(x));
  check(res.length===want.length,()=>`range read: ${res.length} results up to ${end.$cn}${eh===null?'':' '+eh}, ${want.length} keys there; got ${res.map(x=>hex(x._key)).slice(0,6)} want ${want.slice(0,6)}`);
  res.forEach((x,i)=>{check(hex(x._key)===want[i],()=>`range read result ${i} is ${show(x._key)}, expected ${want[i]}`);const v=model.cur.get(want[i]);check(v.length===x._value.length&&v.every((b,j)=>b===x._value[j]),()=>`range read gives ${show(x._value)} for ${show(x._key)}, last written ${show(v)}`);});
  return [res,end];
}
function readAll(s,step=16){ // the whole contents through range reads
  const obs=new Map();let kind=0,k=[];
  for(let i=0;i<5000;i++){
    const r=s.succ(mkStart(s,kind,k),step);
    for(const x of r._results){const h=hex(x._key);check(!obs.has(h),()=>'range reads return a key twice');obs.set(h,Array.from(x._value));}
    if(r._end.$cn==='PositiveInf')return obs;
    const nk=Array.from(r._end._key),nkind=r._end.$cn==='EInclusive'?2:1;
    check(kind===0||cmp(nk,k)>0||cmp(nk,k)===0&&nkind>kind,()=>'range reads make no progress');
    kind=nkind;k=nk;
  }
  throw new Violation('range reads do not reach the end');
}
// --- S01
function functional({REPO}){
  const P=program(REPO);
  return (t,ctx)=>{$.resetTicks(4e7);
    const s=setup(P,t,ctx),m=new Model();const big=room(P)>2100;const pool=mkPool(t,t.pick([6,30,120]),big);s.opt.pool=pool;const mx=Math.min(t.pick([30,200,1024]),room(P)-20,1024);
    const n=t.size(5,120);let writes=0;
    for(let i=0;i<n;i++){
      const k=t.pick(pool);
      switch(t.below(9)){
        case 0:case 1:case 2:{const v=mkVal(t,mx);ctx.log(()=>`insert ${show(k)} ${show(v)}`);s.insert(k,v);m.put(k,v);writes++;break;}
        case 3:case 4:ctx.log(()=>'query '+show(k));checkQuery(s,m,k);break;
        case 5:{const kind=t.below(3),max=t.pick([1,2,5,40]);ctx.log(()=>`succ ${kind} ${show(k)} max ${max}`);checkSucc(s,m,kind,k,max);break;}
        case 6:s.churn();break;
        case 7:if(t.chance(1,6)){ctx.log('sync');s.sync(t.bool());}else{const q=mkPool(t,1,big)[0];checkQuery(s,m,q);}break;
        case 8:if(t.chance(1,3)){const c=t.pick([20,60,150]);ctx.log('bulk '+c);bulk(s,m,pool,t,c,mx);writes+=c;}break;
      }
    }
    const obs=readAll(s,t.pick([1,7,50]));const n2=m.match(obs);
    const d=[...new Set([...obs.keys(),...m.cur.keys()])].filter(h=>String(obs.get(h))!==String(m.cur.get(h)));
    check(d.length===0,()=>`reading everything back disagrees on ${d.length} keys, e.g. ${d[0]}: got ${obs.get(d[0])&&show(obs.get(d[0]))} want ${m.cur.get(d[0])&&show(m.cur.get(d[0]))}`);
    for(const k of pool.slice(0,20))checkQuery(s,m,k);
    ctx.nontrivial(writes>=5&&obs.size>0);ctx.label(s.writes>40?'many node writes':s.writes>0?'some writes':'in memory');if(s.reads>10)ctx.label('reads back from disk');
    ctx.sample(`${writes} writes over ${pool.length} keys, ${s.writes} disk writes, ${s.reads} reads, ${obs.size} keys at end`);
  };
}
// recover a copy of the store from a disk image and read it all
function recoverImage(P,image,seed,work,pool){
  const t=new Tape(new Rng(seed));const s=new K.Sim(P,t,new Ctx(),{work,pool});s.disk=image;s.boot();return readAll(s,20);
}
function describe(m,obs){const d=[...new Set([...obs.keys(),...m.cur.keys()])].filter(h=>String(obs.get(h))!==String(m.cur.get(h)));return `${obs.size} keys recovered; ${m.log.length} writes in the history, first ${m.durable} synced; differs from the latest state at ${d.length} keys, e.g. ${d.slice(0,3).map(h=>h+':'+(obs.has(h)?show(obs.get(h)):'-')+'/'+(m.cur.has(h)?show(m.cur.get(h)):'-')).join(' ')}`;}
// --- S02/S03: crash at any moment
function crashes({REPO,tier}){
  const P=program(REPO);
  return (t,ctx)=>{$.resetTicks(4e7);
    const s=setup(P,t,ctx),m=new Model();const pool=mkPool(t,t.pick([5,25,80]),room(P)>2100);s.opt.pool=pool;const mx=Math.min(t.pick([20,150,1024]),room(P)-20);
    const at=new Map();s.onPush=id=>{at.set(id,m.log.length);ctx.log(()=>`pushSync -> ${id}`);};
    s.onSynced=id=>{completed++;m.durable=Math.max(m.durable,at.get(id));s.wantProbe=true;ctx.log(()=>`sync ${id} complete: ${m.durable} writes durable`);};
    let probes=0,crashed=0,completed=0,writes=0;
    const probeRate=t.pick([2,5,20]);
    const snap=why=>({why,disk:s.disk.slice(),q:[...s.reqs.values()].filter(q=>q.k==='w'),durable:m.durable,work:s.work});
    const probe=w=>{ // what a crash at that moment would leave: each unacknowledged write absent, done, or (outside the superblocks) torn
      if(probes>=(tier==='thorough'?60:25))return;probes++;
      const img=new K.Sim(P,t,new Ctx(),{});img.disk=w.disk;
      for(const q of w.q){const k=t.below(3);if(k===1)img.put(q.addr,q.bytes);else if(k===2&&q.addr>=2*4096){const cut=t.below(q.len);img.put(q.addr,q.bytes.subarray(0,cut));}}
      ctx.log(()=>`  [crash image ${w.why}: ${w.q.length} writes in flight, ${w.durable} insertions durable]`);
      const obs=recoverImage(P,img.disk,t.below(1000),w.work,pool);const d=m.durable;m.durable=w.durable;
      check(m.match(obs)>=0,()=>`after a crash ${w.why} the store holds no state the history passed through since the last completed sync: ${describe(m,obs)}`);m.durable=d;
    };
    s.onWrite=()=>{if(t.below(probeRate)===probeRate-1)s.wantProbe=snap('during an operation');};
    // probes of images taken inside a call run after it, when the history includes what it did
    const maybe=why=>{if(s.wantProbe){const w=s.wantProbe;s.wantProbe=null;probe(w===true?snap(why):w);}};
    const n=t.size(5,100);
    for(let i=0;i<n;i++){
      const k=t.pick(pool);
      switch(t.below(10)){
        case 0:case 1:case 2:{const v=mkVal(t,mx);ctx.log(()=>`insert ${show(k)} ${show(v)}`);s.insert(k,v);m.put(k,v);writes++;break;}
        case 3:if(t.chance(1,3)){const c=t.pick([10,40,100,200]);if(t.bool()){ctx.log('bulk '+c);bulk(s,m,pool,t,c,mx,()=>maybe('during insertions'));}else{ctx.log('traffic '+c);traffic(s,m,pool,t,c,mx,t.pick([2,5,15]),()=>maybe('during insertions'));}writes+=c;}break;
        case 4:if(s.syncs.size<6)s.pushSync();break;
        case 5:if(s.syncs.size)s.popSync(t.pick([...s.syncs.keys()]),t.bool());break;
        case 6:if(s.syncs.size)s.finishSync(t.pick([...s.syncs.keys()]),t.bool());else s.sync(t.bool());break;
        case 7:s.churn();break;
        case 8:checkQuery(s,m,k);break;
        case 9:if(t.chance(1,4)){crashed++;ctx.log('CRASH');s.crash();s.wantProbe=false;
          if(t.chance(1,5)){let j=t.below(6);while(j-->0){s.call('handleQuery',null,k);s.churn();}ctx.log('CRASH during recovery');s.crash();}
          const obs=readAll(s,20);check(m.match(obs)>=0,()=>`after a crash the store holds no state the history passed through since the last completed sync: ${describe(m,obs)}`);m.restart(obs);s.wantProbe=null;}break;
      }
      maybe('between calls');
    }
    if(t.bool()){s.wantProbe=true;maybe('at the end');}
    ctx.nontrivial(writes>0&&(crashed+probes)>0);
    if(completed)ctx.label('sync completed');if(crashed)ctx.label('crash and continue');if(probes)ctx.label('crash image probed');
    ctx.sample(`${writes} writes, ${completed} syncs completed, ${crashed} crashes, ${probes} crash images, ${s.writes} disk writes`);
  };
}

// long histories over a deep tree: nodes split, flushed, evicted and read back
function deep({REPO,tier}){
  const P=program(REPO);
  return (t,ctx)=>{$.resetTicks(4e7);
    const s=setup(P,t,ctx),m=new Model();const pool=mkPool(t,t.pick([60,200,500]),room(P)>2100);s.opt.pool=pool;const mx=Math.min(t.pick([40,150,500]),room(P)-20);
    let writes=0;const rounds=t.int(1,tier==='thorough'?8:4);
    for(let r=0;r<rounds;r++){
      const c=t.pick([150,400,900]);ctx.log('bulk '+c);bulk(s,m,pool,t,c,mx);writes+=c;
      if(t.chance(1,3)){ctx.log('sync');s.sync(t.bool());}
      if(t.bool()){const c=t.pick([60,200,500]);ctx.log('traffic '+c);traffic(s,m,pool,t,c,mx,t.pick([2,5,15]));writes+=c;}
      for(let j=t.below(12);j>0;j--){if(t.bool())checkQuery(s,m,t.pick(pool));else checkSucc(s,m,t.below(3),t.pick(pool),t.pick([1,3,30]));}
    }
    const obs=readAll(s,t.pick([3,25]));const d=[...new Set([...obs.keys(),...m.cur.keys()])].filter(h=>String(obs.get(h))!==String(m.cur.get(h)));
    check(d.length===0,()=>`reading everything back disagrees on ${d.length} keys, e.g. ${d[0]}`);
    for(const k of pool.slice(0,40))checkQuery(s,m,k);
    ctx.nontrivial(s.writes>3);ctx.label(s.reads>10?'reads back from disk':'cached');ctx.sample(`${writes} writes over ${pool.length} keys, ${s.writes} disk writes, ${s.reads} reads`);
  };
}
function deepCrashes({REPO,tier}){ // a deep tree with syncs in the background, then a crash
  const P=program(REPO);
  return (t,ctx)=>{$.resetTicks(4e7);
    const s=setup(P,t,ctx),m=new Model();const pool=mkPool(t,t.pick([60,200,400]),room(P)>2100);s.opt.pool=pool;const mx=Math.min(t.pick([40,150,500]),room(P)-20);
    const at=new Map();s.onPush=id=>at.set(id,m.log.length);let done=0;s.onSynced=id=>{done++;m.durable=Math.max(m.durable,at.get(id));};
    let writes=0;
    for(let r=t.int(1,4);r>0;r--){
      const c=t.pick([100,250,600]);ctx.log('traffic '+c);traffic(s,m,pool,t,c,mx,t.pick([2,5,15,40]));writes+=c;
      if(t.bool())s.sync(t.bool());
      ctx.log('CRASH');s.crash();const obs=readAll(s,20);check(m.match(obs)>=0,()=>'after a crash the store holds no state the history passed through since the last completed sync: '+describe(m,obs));m.restart(obs);at.clear();
    }
    ctx.nontrivial(done>0&&s.writes>4);ctx.label(s.reads>20?'reads back from disk':'cached');ctx.sample(`${writes} writes, ${done} syncs completed, ${s.writes} disk writes, ${s.reads} reads`);
  };
}
// --- S03: operations and syncs finish
function progress({REPO}){
  const P=program(REPO);
  return (t,ctx)=>{$.resetTicks(4e7);
    const s=setup(P,t,ctx),m=new Model();const pool=mkPool(t,t.pick([10,60,200]),room(P)>2100);s.opt.pool=pool;const mx=Math.min(t.pick([30,200,1024]),room(P)-20);
    let done=0;s.onPush=id=>{ctx.log('pushSync -> '+id);};s.onSynced=id=>{ctx.log(`sync ${id} complete`);done++;};
    const n=t.size(4,60);
    for(let i=0;i<n;i++){
      const k=t.pick(pool);
      switch(t.below(8)){
        case 0:{const v=mkVal(t,mx);s.insert(k,v);m.put(k,v);break;}
        case 1:{const c=t.pick([10,60,200]);ctx.log('bulk '+c);bulk(s,m,pool,t,c,mx);break;}
        case 2:if(s.syncs.size<20)s.pushSync();break;
        case 3:if(s.syncs.size)s.finishSync(t.pick([...s.syncs.keys()]),t.bool());break;
        case 4:s.sync(t.bool());break;
        case 5:checkQuery(s,m,k);break;
        case 6:s.churn();break;
        case 7:s.call(t.pick(['handleQuery','handleQuery']),null,k);break; // an abandoned operation
      }
    }
    for(const id of [...s.syncs.keys()])if(s.syncs.has(id))s.finishSync(id,t.bool());
    ctx.nontrivial(done>0);ctx.label(done>3?'several syncs':'few syncs');ctx.sample(`${done} syncs completed, ${m.log.length} writes, ${s.writes} disk writes`);
  };
}
function idleSync({REPO}){ // journal-only syncs at any moment, polled exactly as asked
  const P=program(REPO);
  return (t,ctx)=>{$.resetTicks(4e7);
    const s=setup(P,t,ctx),m=new Model();const pool=mkPool(t,6,false);let done=0;
    const n=t.size(1,12);
    for(let i=0;i<n;i++){
      if(t.bool()){const k=t.pick(pool),v=mkVal(t,30);s.insert(k,v);m.put(k,v);}
      else{const id=s.pushSync();const idle=!s.syncs.get(id).ok;let ok=false;
        for(let j=0;j<60+s.work&&!ok;j++){ok=s.popSync(id,false,true)[1];if(!ok)while(s.pending().length)s.deliverOne();}
        if(ok)done++;
        check(ok,()=>idle?'a journal-only sync requested with nothing new to journal never completes':'a journal-only sync never completes');}
    }
    ctx.nontrivial(done>0);ctx.sample(`${done} journal-only syncs, ${m.log.length} writes`);
  };
}
function fullCache({REPO}){ // range reads alone, over a store larger than the cache
  const P=program(REPO);
  return (t,ctx)=>{$.resetTicks(4e7);
    const s=setup(P,t,ctx,{}),m=new Model();const pool=mkPool(t,200,false);s.opt.pool=pool;
    bulk(s,m,pool,t,t.pick([30,300,900]),60);s.sync(true);s.crash();s.opt.rawSucc=true;
    let full=false;const n=P.bounds.MaxCacheSizeUint64;
    try{const obs=readAll(s,20);check(obs.size===m.cur.size,'range reads lose keys');}
    catch(e){if(e instanceof Violation&&/handleSucc makes no progress/.test(e.message)&&s.reads>=n)throw new Violation('range reads stop for good once the cache is full: '+e.message);throw e;}
    ctx.nontrivial(s.reads>4);ctx.sample(`${m.cur.size} keys read by ranges, ${s.reads} disk reads`);
  };
}
// --- S04: requests to the disk are safe
function discipline({REPO,tier}){
  const P=program(REPO);
  return (t,ctx)=>{$.resetTicks(4e7);
    const s=setup(P,t,ctx),m=new Model();const pool=mkPool(t,t.pick([10,60,200]),room(P)>2100);s.opt.pool=pool;const mx=Math.min(t.pick([30,200,800]),room(P)-20);
    const at=new Map();s.onPush=id=>at.set(id,m.log.length);s.onSynced=id=>{m.durable=Math.max(m.durable,at.get(id));};
    let probes=0,want=null,writes=0;const rate=t.pick([1,2,6]);
    s.onWrite=a=>{if(a>=8192&&t.below(rate)===rate-1)want={disk:s.disk.slice(),q:[...s.reqs.values()].filter(q=>q.k==='w'&&q.addr>=8192),durable:m.durable,work:s.work};
      if(a<8192){const o=[...s.reqs.values()].filter(q=>q.k==='w');check(!o.slice(0,-1).some(q=>q.addr<8192),'a superblock is written while the other superblock is still being written');
        check(o.length===1||o.slice(0,-1).every(q=>q.addr>=8192),'superblock write');}};
    const probe=()=>{ if(!want)return;const w=want;want=null;if(probes>=(tier==='thorough'?40:15))return;probes++;
      const img=new K.Sim(P,t,new Ctx(),{});img.disk=w.disk;
      for(const x of w.q){const g=x.bytes.slice();const k=t.below(3);for(let i=0;i<g.length;i++)g[i]=k===0?0xff:k===1?0:(i*37+11)&255;img.put(x.addr,g);}
      ctx.log(()=>`  [crash with ${w.q.length} writes in flight replaced by garbage]`);
      const obs=recoverImage(P,img.disk,t.below(1000),w.work,pool);const d=m.durable;m.durable=w.durable;
      check(m.match(obs)>=0,()=>'a write in flight lands on data the recoverable state needs: '+describe(m,obs));m.durable=d;};
    const n=t.size(4,60);
    for(let i=0;i<n;i++){
      const k=t.pick(pool);
      switch(t.below(8)){
        case 0:{const v=mkVal(t,mx);s.insert(k,v);m.put(k,v);writes++;break;}
        case 1:case 2:{const c=t.pick([10,60,200]);if(t.bool()){ctx.log('bulk '+c);bulk(s,m,pool,t,c,mx,probe);}else{ctx.log('traffic '+c);traffic(s,m,pool,t,c,mx,t.pick([2,5,15]),probe);}writes+=c;break;}
        case 3:s.pushSync();break;
        case 4:if(s.syncs.size)s.popSync(t.pick([...s.syncs.keys()]),t.bool());break;
        case 5:if(s.syncs.size)s.finishSync(t.pick([...s.syncs.keys()]),t.bool());else s.sync(t.bool());break;
        case 6:checkQuery(s,m,k);break;
        case 7:if(t.chance(1,5)){ctx.log('CRASH');s.crash();want=null;const obs=readAll(s,20);check(m.match(obs)>=0,()=>'after a crash: '+describe(m,obs));m.restart(obs);want=null;}else s.churn();break;
      }
      probe();
    }
    ctx.nontrivial(s.writes>2);if(probes)ctx.label('garbage in flight probed');ctx.sample(`${s.writes} disk writes, ${s.reads} reads, ${probes} garbage probes, ${writes} insertions`);
  };
}
// --- S05: damaged reads
function damage({REPO}){
  const P=program(REPO);
  return (t,ctx)=>{$.resetTicks(4e7);
    const s=setup(P,t,ctx),m=new Model();const pool=mkPool(t,t.pick([10,40,150]),room(P)>2100);s.opt.pool=pool;const mx=Math.min(t.pick([30,200,500]),room(P)-20);
    const at=new Map();s.onPush=id=>at.set(id,m.log.length);s.onSynced=id=>{m.durable=Math.max(m.durable,at.get(id));};
    for(let r=t.below(3);r>=0;r--){bulk(s,m,pool,t,t.pick([40,150,500]),mx);if(t.bool())s.sync(t.bool());}
    let hits=0,nodeHits=0,answers=0,rate=t.pick([2,3,6]);const b=P.bounds,nodesFrom=8192+b.DiskNumJournalBlocksUint64*4096+2*b.IndirectionTableBlockSizeUint64;
    s.onReadData=q=>{
      if(!q.len||t.below(q.addr<8192?30:q.addr<nodesFrom?8:rate)!==0)return q.data;if(q.addr>=nodesFrom)nodeHits++;hits++;const d=q.data.slice();
      switch(t.below(5)){
        case 0:d[t.below(d.length)]^=1<<t.below(8);break;
        case 1:{const n=1+t.below(3);for(let i=0;i<n;i++)d[t.below(d.length)]^=1<<t.below(8);break;}
        case 2:{const a=t.below(d.length),n=1+t.below(4);for(let i=a;i<Math.min(a+n,d.length);i++)d[i]^=1+t.below(255);break;}
        case 3:d.fill(0);break;
        case 4:d[t.below(Math.min(40,d.length))]^=1+t.below(255);break;
      }
      ctx.log(()=>`  [damaged read #${q.id}]`);return d;};
    const tries=60+s.work;
    const n=t.size(2,25);
    for(let i=0;i<n;i++){
      const k=t.pick(pool);
      switch(t.below(6)){
        case 0:{const v=mkVal(t,mx);const r=s.attempt('handleInsert',[k,v],r=>r[0],tries);if(r){m.put(k,v);s.dirty=true;for(const x of s.syncs.values())x.ok=true;s.work++;}break;}
        case 1:case 2:{const r=s.attempt('handleQuery',[k],r=>r[0].$cn==='Some',tries);if(r){answers++;const g=r[0]._value,w=m.get(k);check(g.length===w.length&&w.every((x,i)=>x===g[i]),()=>`with damaged reads, query ${show(k)} returned ${show(g)}, last written ${show(w)}`);}break;}
        case 3:{const id=s.pushSync();s.attempt('handlePopSync',[id,t.bool()],r=>r[1],tries);break;}
        case 4:s.churn();break;
        case 5:{ctx.log('CRASH');s.crash();
          const b=s.succ;s.succ=(start,max)=>{const r=s.attempt('handleSucc',[start,max],r=>r[0].$cn==='Some',tries);if(!r)throw STALL;return r[0]._value;};
          let obs;try{obs=readAll(s,20);}catch(e){if(e!==STALL)throw e;}finally{s.succ=b;}
          if(obs){answers++;check(m.match(obs)>=0,()=>'recovery with damaged reads gives a state the history never had: '+describe(m,obs));m.restart(obs);}
          else{ctx.label('refused to recover');const h=s.onReadData;s.onReadData=null;s.crash();const o=readAll(s,20);answers++;check(m.match(o)>=0,()=>'recovery after a refused one gives a state the history never had: '+describe(m,o));m.restart(o);s.crash();s.onReadData=h;}
          break;}
      }
    }
    ctx.nontrivial(hits>0&&answers>0);ctx.label(nodeHits?'damaged node reads':hits?'damaged recovery reads':'no damage');ctx.sample(`${hits} damaged reads, ${answers} answers checked, ${m.log.length} writes`);
  };
}
const STALL={stall:1};
module.exports.props={
  S01:{rule:'at least five writes and a non-empty final contents (store), or more than three disk writes (deep)',parts:{store:functional,deep}},
  S02:{rule:'at least one write and one crash (continued from or probed as a disk image); in deep trees, a sync completed and more than four disk writes',parts:{crash:crashes,deepCrashes}},
  S03:{rule:'at least one sync completed, or reads beyond the recovery reads',parts:{mixed:{weight:3,make:progress},idleSync,fullCache}},
  S04:{rule:'more than two disk writes',parts:{io:discipline}},
  S05:{rule:'at least one damaged read and one answer checked afterwards',parts:{damage}},
};
Object.assign(module.exports,{program,setup,mkPool,mkVal,bulk,Model,checkQuery,checkSucc,readAll,show,hex});
