'use strict';
// VeriBetrKV compiled to JavaScript, running against a simulated asynchronous disk.
const $=require('./rt.js');const {Program}=require('./compile.js');const {EX,TYPES,crc32c}=require('./externs.js');
class DiskError extends Error{}
class DiskIOHandler extends $.DObj{
  constructor(sim){super();this.sim=sim;}
  _write(a,b){return this.sim.reqWrite(a,b);}
  _write2(a,b,c,d){const i=this.sim.reqWrite(a,b,true),j=this.sim.reqWrite(c,d,true);this.sim.op('write2');return [i,j];}
  _read(a,l){return this.sim.reqRead(a,l);}
  _getWriteResult(){const r=this.sim.cur;if(!r||r.k!=='w')throw new $.DafnyFail('getWriteResult without a write response');return [r.id,r.addr,r.bytes.length];}
  _getReadResult(){const r=this.sim.cur;if(!r||r.k!=='r')throw new $.DafnyFail('getReadResult without a read response');return [r.id,r.addr,r.data];}
}
const DEFAULT_BOUNDS={NodeBlockSizeUint64:16384,MaxTotalBucketWeightUint64:4096,MaxCacheSizeUint64:16,DiskNumJournalBlocksUint64:64,IndirectionTableBlockSizeUint64:65536,NumBlocksUint64:4096};
function crcPadded(bytes){const c=crc32c(bytes);const r=new Uint8Array(32);for(let i=0;i<4;i++)r[i]=c>>>(8*i)&255;return r;}
function makeProgram(repo,bounds,over){
  const b=Object.assign({},DEFAULT_BOUNDS,bounds);
  const overrides=Object.assign({},over);
  for(const k in b)overrides['Bounds.'+k]=()=>b[k];
  overrides['CRC32_C_Impl.compute_crc32c_padded']=d=>crcPadded(d);
  overrides['CRC32_C_Array_Impl.compute_crc32c_padded']=(d,i,l)=>crcPadded((d.a||d).slice(Number(i),Number(i)+Number(l)));
  const ex=Object.assign({},EX,{'class MainDiskIOHandler.DiskIOHandler':DiskIOHandler,'print':()=>{}});
  const P=new Program({externs:ex,types:TYPES,overrides}).load(repo+'/Impl/Bundle.i.dfy');
  P.bounds=b;return P;
}

const bad=(m)=>{const {Violation}=require('./pbt.js');throw new Violation(m);};
const overlap=(a,la,b,lb)=>a<b+lb&&b<a+la;
// The disk: pending requests, pending responses, contents. All nondeterminism comes from `t` (a choice tape).
class Sim{
  constructor(P,t,ctx,opt={}){
    this.P=P;this.M=P.m('MainHandlers');this.t=t;this.ctx=ctx;this.opt=opt;this.size=0;
    this.disk=new Uint8Array(0);this.reqs=new Map();this.resps=new Map();this.nid=1;this.cur=null;this.ops=0;this.writes=0;this.reads=0;
    this.io=new DiskIOHandler(this);this.epoch=0;this.work=opt.work||0;this.hist=[];
  }
  mkfs(){const d=this.M.Mkfs();const list=[...d].map(a=>[a,d.get(a)]);
    for(let i=0;i<list.length;i++)for(let j=0;j<i;j++)if(overlap(list[i][0],list[i][1].length,list[j][0],list[j][1].length))bad('Mkfs writes overlap');
    for(const [a,b] of list)this.put(a,b);}
  put(a,b){a=Number(a);const need=a+b.length;if(need>this.disk.length){const d=new Uint8Array(Math.max(need,this.disk.length*2,1<<20));d.set(this.disk);this.disk=d;}this.disk.set(b,a);}
  get(a,l){a=Number(a);l=Number(l);const r=new Uint8Array(l);if(a<this.disk.length)r.set(this.disk.subarray(a,Math.min(a+l,this.disk.length)));return r;}
  boot(){this.reqs.clear();this.resps.clear();this.cur=null;this.epoch++;this.syncs=new Map();this.dirty=false;this.fs=this.M.InitState();}
  op(k){this.ops++;if(this.ops>1)bad('more than one disk operation in one handler call ('+k+')');if(this.cur)bad('disk request while taking a response');}
  reqWrite(a,b,two){if(!two)this.op('write');
    for(const q of this.reqs.values())if(overlap(Number(a),b.length,q.addr,q.len))bad(`overlapping I/O: write of [${a},+${b.length}) while a ${q.k==='w'?'write':'read'} of [${q.addr},+${q.len}) is outstanding`);
    const lim=this.opt.diskLimit;if(lim&&Number(a)+b.length>lim)bad('write outside the disk at '+a);
    const id=this.nid++;this.writes++;const bytes=Uint8Array.from(b);this.reqs.set(id,{k:'w',id,addr:Number(a),len:b.length,bytes,started:this.clock});
    this.ctx.log(()=>`    write #${id} [${a},+${b.length})`);if(this.onWrite)this.onWrite(Number(a),bytes,id);return id;}
  reqRead(a,l){this.op('read');a=Number(a);l=Number(l);
    for(const q of this.reqs.values())if(q.k==='w'&&overlap(a,l,q.addr,q.len))bad(`overlapping I/O: read of [${a},+${l}) while a write of [${q.addr},+${q.len}) is outstanding`);
    const id=this.nid++;this.reads++;this.reqs.set(id,{k:'r',id,addr:a,len:l});this.ctx.log(()=>`    read #${id} [${a},+${l})`);return id;}
  // the disk carries out one pending request
  process(id){const q=this.reqs.get(id);this.reqs.delete(id);if(q.k==='w'){this.put(q.addr,q.bytes);}else{q.data=this.get(q.addr,q.len);if(this.onReadData)q.data=this.onReadData(q);}this.resps.set(id,q);}
  deliver(id){if(!this.resps.has(id))this.process(id);const q=this.resps.get(id);this.resps.delete(id);this.call(q.k==='r'?'handleReadResponse':'handleWriteResponse',q);}
  pending(){return [...this.reqs.keys(),...this.resps.keys()];}
  // one handler call; returns its outputs (array)
  call(name,resp,...args){
    this.ops=0;this.cur=resp;this.ctx.log(()=>'  '+name+(resp?' #'+resp.id:''));
    const r=name==='handlePushSync'?this.M[name](this.fs,this.io):this.M[name](this.fs,this.io,...args);
    this.cur=null;
    if(r instanceof $.DT){this.fs=r;return [];}this.fs=r[0];return r.slice(1);
  }
  // let the disk do some of what it may do
  churn(){const t=this.t;if(this.slow&&!t.chance(1,this.slow))return;let n=t.below(4);while(n-->0){const p=this.pending();if(!p.length)return;const id=t.pick(p);if(t.bool()||!this.reqs.has(id))this.deliver(id);else this.process(id);}}
  deliverOne(force=true){let p=this.pending();if(!p.length)return false;
    // a disk slow to write: writes stay outstanding until nothing else can go on
    if(this.slow){const w=id=>(this.reqs.get(id)||this.resps.get(id)).k==='w';const r=p.filter(id=>!w(id));if(r.length)p=r;else if(!force)return false;}this.deliver(this.t.pick(p));return true;}
  // repeat a handler until it succeeds, as the applications do
  retry(name,args,done){
    // recovery replays the journal one entry per call
    let idle=0;const lim=400+3*this.work,max=4000+20*this.work;
    for(let i=0;i<max;i++){
      const before=this.pending().length;const r=name==='handlePopSync'?this.popSync(...args):this.call(name,null,...args);if(done(r))return r;
      if(name==='handleInsert')this.dirty=false;
      const did=this.pending().length!==before;
      if(this.pending().length){if(!did||this.t.chance(1,2)){this.deliverOne(!did);idle=0;}}
      // a requested sync is polled too: insertions may have to wait for it
      else if(!did&&name!=='handlePopSync'&&this.syncs.size&&idle>4){const id=this.syncs.keys().next().value;this.popSync(id,true);idle=0;}
      // a range read finding the cache full never makes room (recorded in known/findings.txt); a point query of the same key does
      else if(!did&&name==='handleSucc'&&idle>4&&!this.opt.rawSucc){this.made=(this.made||0)+1;this.call('handleQuery',null,this.someKey());idle=this.pending().length?0:idle+0.1;}
      else if(!did&&++idle>lim)bad(`${name} makes no progress with no I/O outstanding`);
    }
    bad(`${name} does not finish`);
  }
  // a bounded number of tries; null when the operation did not finish
  attempt(name,args,done,tries){for(let i=0;i<tries;i++){const r=name==='handlePopSync'?this.popSync(...args):this.call(name,null,...args);if(name==='handleInsert')this.dirty=false;if(done(r))return r;if(this.pending().length&&this.t.bool())this.deliverOne();}return null;}
  insert(k,v){this.retry('handleInsert',[k,v],r=>r[0]);this.dirty=true;this.work++;for(const x of this.syncs.values())x.ok=true;}
  query(k){return this.retry('handleQuery',[k],r=>r[0].$cn==='Some')[0]._value;}
  succ(start,n){return this.retry('handleSucc',[start,n],r=>r[0].$cn==='Some')[0]._value;}
  pushSync(){const [id]=this.call('handlePushSync',null);if(id===0)bad('pushSync gives no id');if(this.syncs.has(id))bad('pushSync gives an id still in use');this.syncs.set(id,{ok:this.dirty});if(this.onPush)this.onPush(id);return id;}
  // A journal-only sync requested when nothing is waiting to be journalled is a recorded finding (see known/findings.txt), so it is
  // polled as a graph sync here; `raw` polls exactly as asked.
  popSync(id,g,raw){const x=this.syncs.get(id);const [wait,ok]=this.call('handlePopSync',null,id,g||!raw&&!x.ok);this.dirty=false;
    if(ok){this.syncs.delete(id);if(this.onSynced)this.onSynced(id);}return [wait,ok];}
  finishSync(id,g){this.retry('handlePopSync',[id,g],r=>r[1]);}
  sync(g){const id=this.pushSync();this.finishSync(id,g);return id;}
  someKey(){const x=this.made*2654435761>>>0;const p=this.opt.pool;if(p&&p.length&&this.made%4){const k=p[(x>>>7)%p.length];return this.made%4===1?k:k.slice(0,1023).concat([(x>>>16)&255]);}return [(x>>>3)&255,(x>>>11)&255,(x>>>19)&255].slice(0,1+this.made%3);}
  crash(){const t=this.t;for(const [id,q] of [...this.reqs])if(q.k==='w'&&t.bool())this.put(q.addr,q.bytes);this.boot();}
}
Object.assign(module,{exports:{}});module.exports={Sim,makeProgram,DiskIOHandler,DEFAULT_BOUNDS,crcPadded};
