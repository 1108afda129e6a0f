'use strict';
// State machines written as relations: histories are driven by an independent JavaScript model of the legal transitions; the code's
// relation must accept each, and must agree with the independent relation on perturbed transitions.
const $=require('./rt.js');const {check}=require('./pbt.js');const {DT,Tup,DMap,DSet,IMap,ISet,DMs}=$;
const isInt=x=>typeof x==='number'||typeof x==='bigint';
// copy of a datatype value with some fields replaced
function upd(v,o){const names=v.$f||Object.keys(v).filter(k=>k[0]==='_');return new v.constructor(...names.map(n=>{const p=n.replace(/^_/,'');return p in o?o[p]:v[n];}));}
const fieldsOf=v=>v.$f||Object.keys(v).filter(k=>k[0]==='_');
// pool of values seen at each position, for type-correct perturbation
class Pool{
  constructor(){this.m=new Map();}
  add(path,v){let a=this.m.get(path);if(!a)this.m.set(path,a=[]);if(!a.some(x=>same(x,v))){if(a.length<24)a.push(v);else a[(a.length*7+path.length)%24]=v;}}
  walk(v,path){
    if(v instanceof Tup){for(let i=0;i<v.$len;i++)this.walk(v['_'+i],path+'#'+i);this.add(path,v);return;}
    if(v instanceof DT){this.add(path,v);for(const f of fieldsOf(v))this.walk(v[f],v.$cn+f);return;}
    this.add(path,v);
    if(typeof v==='string')return;
    if(Array.isArray(v)||v instanceof Uint8Array){for(const x of v)this.walk(x,path+'[]');return;}
    if(v instanceof DMap){for(const k of v){this.walk(k,path+'k');this.walk(v.get(k),path+'v');}return;}
    if(v instanceof DSet){for(const k of v)this.walk(k,path+'k');return;}
    if(DMs&&v instanceof DMs){for(const [,e] of v.m)this.walk(e[0],path+'k');return;}
    if(v instanceof IMap){for(const [,e] of v.ov){this.walk(e[0],path+'k');this.walk(e[1],path+'v');}return;}
  }
  get(path){return this.m.get(path)||[];}
}
function same(a,b){try{return $.eq(a,b);}catch(e){return a===b;}}
// same kind of value (positions of polymorphic datatypes share a path)
function kin(a,b){
  if(a instanceof Tup||b instanceof Tup)return a instanceof Tup&&b instanceof Tup&&a.$len===b.$len;
  if(a instanceof DT||b instanceof DT){if(!(a instanceof DT&&b instanceof DT&&a.$cell===b.$cell))return false;return a.$cn!==b.$cn||fieldsOf(a).every(f=>kin(a[f],b[f]));}
  if(isInt(a)||isInt(b))return isInt(a)&&isInt(b);if(typeof a!==typeof b)return false;if(typeof a!=='object')return true;
  const c=x=>Array.isArray(x)||x instanceof Uint8Array?1:x instanceof IMap||x instanceof DMap?2:3;return c(a)===c(b);
}
function perturb(t,v,path,pool,d=0){
  const swap=()=>{const a=pool.get(path).filter(x=>kin(x,v));return a.length?t.pick(a):v;};
  if(d>0&&t.below(5)===4)return swap();
  if(v instanceof Tup){if(!v.$len)return v;const i=t.below(v.$len);const a=[...Array(v.$len)].map((_,j)=>j===i?perturb(t,v['_'+j],path+'#'+j,pool,d+1):v['_'+j]);return new Tup(a);}
  if(v instanceof DT){const fs=fieldsOf(v);if(!fs.length)return swap();const f=t.pick(fs);const o={};o[f.replace(/^_/,'')]=perturb(t,v[f],v.$cn+f,pool,d+1);return upd(v,o);}
  if(typeof v==='boolean')return !v;
  if(isInt(v))return t.bool()?swap():$.add?$.add(v,t.bool()?1:-1):v;
  if(typeof v==='string')return swap();
  if(Array.isArray(v)){
    const k=t.below(5),i=t.below(Math.max(1,v.length));if(k===0||!v.length){const p=pool.get(path+'[]');if(!p.length)return swap();const j=t.below(v.length+1);return [...v.slice(0,j),t.pick(p),...v.slice(j)];}
    if(k===1)return v.filter((_,j)=>j!==i);if(k===2&&v.length>1){const a=v.slice(),j=t.below(v.length);[a[i],a[j]]=[a[j],a[i]];return a;}if(k===3)return t.bool()?v.slice(1):v.slice(0,-1);
    return v.map((x,j)=>j===i?perturb(t,x,path+'[]',pool,d+1):x);
  }
  if(v instanceof DMap){
    const ks=[...v],k=t.below(3);if(k===0||!ks.length){const pk=pool.get(path+'k'),pv=pool.get(path+'v');if(!pk.length||!pv.length)return swap();return DMap.of([...ks.map(x=>[x,v.get(x)]),[t.pick(pk),t.pick(pv)]]);}
    const x=t.pick(ks);if(k===1)return DMap.of(ks.filter(y=>y!==x).map(y=>[y,v.get(y)]));
    return DMap.of(ks.map(y=>[y,y===x?perturb(t,v.get(y),path+'v',pool,d+1):v.get(y)]));
  }
  if(v instanceof DSet){const ks=[...v];if(ks.length&&t.bool()){const x=t.pick(ks);return DSet.from(ks.filter(y=>y!==x));}const p=pool.get(path+'k');if(!p.length)return swap();return DSet.from([...ks,t.pick(p)]);}
  if(DMs&&v instanceof DMs){const l=[];for(const [,e] of v.m)for(let i=0;i<e[1];i++)l.push(e[0]);const k=t.below(4),p=pool.get(path+'k');if(l.length&&k===0){l.splice(t.below(l.length),1);return DMs.from(l);}if(l.length&&k===1){const i=t.below(l.length);l[i]=perturb(t,l[i],path+'k',pool,d+1);return DMs.from(l);}if(l.length&&k===2&&t.bool())return DMs.from([...l,t.pick(l)]);return p.length?DMs.from([...l,t.pick(p)]):swap();}
  if(v instanceof IMap){const pk=pool.get(path+'k'),pv=pool.get(path+'v');if(t.below(4)===3){const u=[...v.keys()];if(u.length){const x=t.pick(u),kx=$.key(x);const ov=new Map(v.ov);ov.delete(kx);return new IMap(y=>$.key(y)!==kx&&v.pred(y),y=>v.get(y),v.u,ov);}}if(t.below(3)===0||!pk.length||!pv.length)return swap();return v.set(t.pick(pk),t.pick(pv));}
  return swap();
}
const show=x=>$.show?$.show(x).slice(0,400):String(x);
/* o: init(t)->state; isInit?(s)->bool (independent), runInit?(s)->bool; next(t,s)->{n,l,step} or null; ref(s,n,l,step); run(s,n,l,step); any?(s,n,l): independent existence;
   runNext?(s,n,l,cands); inv?: [run(s), ref(s)] or run only; len */
function machine(o){
  return (t,c)=>{
    const pool=new Pool();let s=o.init(t);if(o.setup)o.setup();
    if(o.seedPool)o.seedPool(pool,t);
    if(o.runInit){check(o.runInit(s)===true,()=>`Init rejects ${show(s)}`);}
    pool.walk(s,'S');const len=t.size(1,o.len||14);let k=0;
    for(let i=0;i<len;i++){
      const tr=o.next(t,s);if(!tr)break;k++;
      const {n,l,step}=tr;pool.walk(n,'S');if(l!==undefined)pool.walk(l,'L');if(step!==undefined)pool.walk(step,'P');
      const name=step&&step.$cn||tr.name||'';c.label(name);c.log(()=>`${name} ${l===undefined?'':show(l)} -> ${show(n)}`);
      const R=(s,n,l,st,soft)=>{let r;try{r=o.ref(s,n,l,st);}catch(e){if(e instanceof $.Unsup||e instanceof $.DafnyFail||soft&&e instanceof TypeError)return null;throw e;}return r;};
      const want0=R(s,n,l,step);if(want0!==true)throw new Error('harness: own relation rejects its transition '+name);
      check(o.run(s,n,l,step)===true,()=>`${name} from ${show(s)} to ${show(n)} with ${show(l)} is rejected`);
      if(o.runNext){check(o.runNext(s,n,l,[step])===true,()=>`Next does not contain ${name}`);}
      for(let j=0;j<(o.perturbs||4);j++){
        let n2=n,l2=l,st2=step,s2=s;const w=t.below(o.perturbPre===false?5:6);
        if(w<=2)n2=perturb(t,n,'S',pool);else if(w===3&&l!==undefined)l2=perturb(t,l,'L',pool);else if(w===4&&step!==undefined)st2=perturb(t,step,'P',pool);else if(w===5)s2=perturb(t,s,'S',pool);
        if(t.below(4)===3)n2=perturb(t,n2,'S',pool);
        if(o.valid&&!(o.valid(s2)&&o.valid(n2)))continue;
        const want=R(s2,n2,l2,st2,true);if(want===null)continue;
        let got;try{got=o.run(s2,n2,l2,st2);}catch(e){if(e instanceof $.DafnyFail&&want===false&&o.partial)continue;throw e;}
        check(got===want,()=>`${st2&&st2.$cn||name} from ${show(s2)} to ${show(n2)} with ${show(l2)} step ${show(st2)} is ${got?'accepted':'rejected'}`);
        if(o.runInit&&o.isInit&&t.below(4)===0){const w2=o.isInit(n2);check(o.runInit(n2)===w2,()=>`Init ${w2?'rejects':'accepts'} ${show(n2)}`);}
        if(o.inv&&o.invRef){const w3=o.invRef(n2);if(w3!==null)check(o.inv(n2)===w3,()=>`Inv ${w3?'rejects':'accepts'} ${show(n2)}`);}
      }
      if(o.tricks)for(const q of o.tricks(t,s)||[]){ // likely wrong steps, built whole
        const qs=q.s||s;const want=R(qs,q.n,q.l,q.step,true);if(want===null)continue;const got=o.run(qs,q.n,q.l,q.step);
        check(got===want,()=>`${q.step&&q.step.$cn} from ${show(qs)} to ${show(q.n)} with ${show(q.l)} is ${got?'accepted':'rejected'}`);}
      if(o.inv)check(o.inv(n)===true,()=>`invariant fails after ${name}: ${show(n)}`);
      if(o.after)o.after(s,n,l,step,t,c);
      s=n;
    }
    c.nontrivial(k>=2);c.sample(k+' steps to '+show(s).slice(0,120));
  };
}
module.exports={machine,upd,perturb,Pool,same};
