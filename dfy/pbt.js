'use strict';
// Property-based testing core: choice tapes, generation, shrinking.
const crypto=require('crypto');
const {DafnyFail,Unsup}=require('./rt.js');const $=require('./rt.js');let maxT=0;
class Violation extends Error{constructor(m){super(m);this.name='Violation';}}
class Discard extends Error{}
class Rng{ // splitmix-like 53-bit draws
  constructor(seed){this.s=BigInt.asUintN(64,BigInt(seed)*0x9E3779B97F4A7C15n+0x632BE59BD9B4E019n);this.a=Number(this.s&0xffffffffn);this.b=Number(this.s>>32n);this.c=0x2545F491;this.d=1;for(let i=0;i<12;i++)this.u32();}
  u32(){let t=(this.a+this.b|0)+this.d|0;this.d=this.d+1|0;this.a=this.b^this.b>>>9;this.b=this.c+(this.c<<3)|0;this.c=(this.c<<21|this.c>>>11);this.c=this.c+t|0;return t>>>0;}
  below(n){if(n<=1)return 0;if(n<=4294967296)return Math.floor(this.u32()/4294967296*n);return Math.floor((this.u32()*2097152+(this.u32()>>>11))/9007199254740992*n);}
}
class Tape{ // draws integers below n, from a generator or from a recorded tape
  constructor(src,replay){this.rng=replay?null:src;this.in=replay?src:null;this.out=[];this.pos=0;}
  below(n){
    n=Math.max(1,Math.floor(n));let v;
    if(this.rng)v=this.rng.below(n);else{v=this.pos<this.in.length?this.in[this.pos]:0;if(v>=n)v=n-1;}
    this.pos++;this.out.push(v);
    if(this.out.length>400000)throw new Discard('too long');
    return v;
  }
  int(lo,hi){return lo+this.below(hi-lo+1);}              // inclusive; shrinks towards lo
  bool(){return this.below(2)===1;}
  chance(p,q){return this.below(q)>=q-p;}                  // true with probability p/q; shrinks to false
  pick(a){return a[this.below(a.length)];}
  weighted(ws){let s=0;for(const w of ws)s+=w[0];let k=this.below(s);for(const w of ws){if(k<w[0])return w[1];k-=w[0];}return ws[ws.length-1][1];}
  list(lo,hi,f){const n=this.size(lo,hi);const r=[];for(let i=0;i<n;i++)r.push(f(this,i));return r;}
  size(lo,hi){if(hi<=lo)return lo;const k=this.below(4);const span=hi-lo;return lo+this.below(1+(k===0?Math.min(span,2):k===1?Math.min(span,6):k===2?Math.ceil(span/2):span));}
  shuffle(a){a=a.slice();for(let i=a.length-1;i>0;i--){const j=i-this.below(i+1);[a[i],a[j]]=[a[j],a[i]];}return a;}
  subset(a,p=2){return a.filter(()=>this.below(p)===p-1);}
  bytes(lo,hi,alpha){return this.list(lo,hi,t=>alpha?t.pick(alpha):t.byte());}
  byte(){const k=this.below(4);return k===0?this.below(4):k===1?255-this.below(4):this.below(256);}
  u64(){ // boundary biased; a Number when safe, else a BigInt
    const k=this.below(6);
    if(k===0)return this.below(4);if(k===1)return this.below(300);
    if(k===2)return this.below(4294967296);
    let v;if(k===3){const b=BigInt(this.below(65));v=(1n<<b)-1n+BigInt(this.below(3))-1n;}else v=BigInt(this.below(4294967296))<<32n|BigInt(this.below(4294967296));
    if(v<0n)v=0n;v=BigInt.asUintN(64,v);return v<=9007199254740991n?Number(v):v;}
}
class Ctx{
  constructor(){this.nt=false;this.labels=[];this.lines=[];this.desc=null;}
  nontrivial(b=true){if(b)this.nt=true;}
  label(l){this.labels.push(l);}
  log(f){if(this.lines.length<4000)this.lines.push(typeof f==='function'?f():f);}
  sample(s){if(this.desc===null)this.desc=s;}
}
function check(c,m){if(!c)throw new Violation(typeof m==='function'?m():m);}
function discard(){throw new Discard();}
function classify(e){
  if(e instanceof Violation||e instanceof DafnyFail)return 'fail';
  if(e instanceof Discard)return 'discard';
  if(e instanceof RangeError&&/call stack/.test(e.message))return 'fail';
  return 'skip';
}
function runOnce(run,tape){
  const c=new Ctx();let err=null;$.softAlloc=false;if($.resetTicks)$.resetTicks(5e6);
  try{run(tape,c);}catch(e){err=e;}
  if(process.env.TICKS&&$.ticks&&$.ticks()>maxT){maxT=$.ticks();console.error('ticks',maxT);}
  return {c,err,kind:err?classify(err):'ok'};
}
function failMsg(e){return (e instanceof RangeError?'recursion without end: ':e instanceof DafnyFail?'runtime failure: ':'')+e.message;}
// shrink a failing tape: delete blocks, zero blocks, lower values
function shrink(run,tape,ms){
  const end=Date.now()+ms;let best=tape.slice(),tries=0;
  const ok=t=>{if(Date.now()>end)return false;tries++;const tp=new Tape(t,true);const r=runOnce(run,tp);if(r.kind==='fail'){const used=tp.out.slice(0,tp.pos);if(used.length<best.length||used.length===best.length&&less(used,best)){best=used;return true;}}return false;};
  const less=(a,b)=>{for(let i=0;i<a.length;i++)if(a[i]!==b[i])return a[i]<b[i];return false;};
  let progress=true;
  while(progress&&Date.now()<end){
    progress=false;
    for(let sz=Math.max(1,best.length>>1);sz>=1;sz=sz>8?sz>>1:sz-1){
      for(let i=best.length-sz;i>=0&&Date.now()<end;i-=sz>4?Math.max(1,sz>>1):1){if(i+sz>best.length)continue;if(ok([...best.slice(0,i),...best.slice(i+sz)]))progress=true;}
    }
    for(let i=0;i<best.length&&Date.now()<end;i++){
      if(best[i]===0)continue;
      const t=best.slice();t[i]=0;if(ok(t)){progress=true;continue;}
      let lo=0,hi=best[i];for(let k=0;k<8&&hi-lo>1&&i<best.length;k++){const m=Math.floor((lo+hi)/2);const u=best.slice();u[i]=m;if(ok(u)){progress=true;hi=Math.min(hi,best[i]===undefined?0:best[i]);}else lo=m;}
    }
  }
  return {tape:best,tries};
}
const hashTape=t=>{let h=5381,g=52711;for(const v of t){h=(h*33^v)>>>0;g=(g*31+v)>>>0;}return h*2097152+(g&2097151);};
module.exports={Rng,Tape,Ctx,Violation,Discard,check,discard,runOnce,shrink,failMsg,classify,hashTape};
