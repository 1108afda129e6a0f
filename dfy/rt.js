'use strict';
// Runtime for compiled Dafny: values, integers, collections, failures.
class DafnyFail extends Error{constructor(m){super(m);this.name='DafnyFail';}}
class Unsup extends Error{constructor(m){super(m);this.name='Unsup';}}
const MAXS=Number.MAX_SAFE_INTEGER;
const norm=b=>(b>=-9007199254740991n&&b<=9007199254740991n)?Number(b):b;
const big=x=>typeof x==='bigint'?x:BigInt(x);
const isInt=x=>typeof x==='number'||typeof x==='bigint';
let oid=0;
class DObj{constructor(){this.$id=++oid;}}           // class instances
class DArr{constructor(a){this.a=a;this.$id=++oid;} get _Length(){return this.a.length;}}
class DArrN{constructor(dims,a){this.dims=dims;this.a=a;this.$id=++oid;for(let i=0;i<dims.length;i++)this['_Length'+i]=dims[i];}}
class DT{}                                             // datatype values
class Tup extends DT{constructor(v){super();for(let i=0;i<v.length;i++)this['_'+i]=v[i];this.$len=v.length;} get $f(){const r=[];for(let i=0;i<this.$len;i++)r.push('_'+i);return r;} get $cn(){return '#'+this.$len;} $vals(){const r=[];for(let i=0;i<this.$len;i++)r.push(this['_'+i]);return r;} $clone(){return new Tup(this.$vals());}}
class Real{constructor(n,d=1n){if(d<0n){n=-n;d=-d;}let a=n<0n?-n:n,b=d;while(b){[a,b]=[b,a%b];}if(a===0n)a=1n;this.n=n/a;this.d=d/a;}
  static parse(s){const [i,f='']=s.split('.');return new Real(BigInt(i+f),10n**BigInt(f.length));}}
const isSeq=x=>Array.isArray(x)||x instanceof Uint8Array||typeof x==='string';
function key(v){
  switch(typeof v){
    case 'number':return v;
    case 'bigint':return 'n'+v;
    case 'boolean':return v?'#t':'#f';
    case 'string':{if(v.length===1)return "'"+v;let r='[';for(const c of v)r+="'"+c+',';return r+']';}
    case 'undefined':return '#u';
    case 'function':if(!v.$id)v.$id=++oid;return 'f'+v.$id;
  }
  if(v===null)return '#n';
  if(Array.isArray(v)||v instanceof Uint8Array){let r='[';for(let i=0;i<v.length;i++)r+=key(v[i])+',';return r+']';}
  if(v instanceof DT){let r=v.$cn+'(';for(const x of v.$vals())r+=key(x)+',';return r+')';}
  if(v instanceof DSet)return '{'+[...v.m.keys()].map(String).sort().join(',')+'}';
  if(v instanceof DMap)return '<'+[...v.m.entries()].map(([k,e])=>String(k)+'>'+key(e[1])).sort().join(',')+'>';
  if(v instanceof DMs)return 'ms{'+[...v.m.entries()].map(([k,e])=>String(k)+'*'+e[1]).sort().join(',')+'}';
  if(v instanceof Real)return 'r'+v.n+'/'+v.d;
  if(v.$id!==undefined)return 'o'+v.$id;
  if(v instanceof IMap||v instanceof ISet)throw new Unsup('infinite collection as key');
  throw new Unsup('key of '+typeof v);
}
class DSet{
  constructor(m){this.m=m||new Map();}
  static of(...es){const s=new DSet();for(const e of es)s.m.set(key(e),e);return s;}
  static from(it){const s=new DSet();for(const e of it)s.m.set(key(e),e);return s;}
  has(x){return this.m.has(key(x));}
  get size(){return this.m.size;}
  [Symbol.iterator](){return this.m.values();}
}
class DMap{
  constructor(m){this.m=m||new Map();}
  static of(ps){const s=new DMap();for(const [k,v] of ps)s.m.set(key(k),[k,v]);return s;}
  has(x){return this.m.has(key(x));}
  get(x){const e=this.m.get(key(x));if(!e)throw new DafnyFail('map key not present');return e[1];}
  set(k,v){const m=new Map(this.m);m.set(key(k),[k,v]);return new DMap(m);}
  get size(){return this.m.size;}
  get _Keys(){return DSet.from(this.keys());}
  get _Values(){return DSet.from([...this.m.values()].map(e=>e[1]));}
  get _Items(){return DSet.from([...this.m.values()].map(e=>new Tup(e)));}
  *keys(){for(const e of this.m.values())yield e[0];}
  [Symbol.iterator](){return this.keys();}
}
class DMs{
  constructor(m){this.m=m||new Map();}
  static from(it){const s=new DMs();for(const e of it)s.add(e,1);return s;}
  add(e,n){const k=key(e),x=this.m.get(k);const c=(x?x[1]:0)+n;if(c>0)this.m.set(k,[e,c]);else this.m.delete(k);}
  count(e){const x=this.m.get(key(e));return x?x[1]:0;}
  has(e){return this.count(e)>0;}
  get size(){let n=0;for(const e of this.m.values())n+=e[1];return n;}
  *[Symbol.iterator](){for(const e of this.m.values())for(let i=0;i<e[1];i++)yield e[0];}
}
// possibly infinite sets and maps: a membership predicate, and a universe supplied by the harness for equality
class ISet{constructor(pred,u){this.pred=pred;this.u=u;} has(x){return this.pred(x);} *[Symbol.iterator](){for(const x of universe(this.u))if(this.pred(x))yield x;}}
class IMap{
  constructor(pred,fn,u,ov){this.pred=pred;this.fn=fn;this.u=u;this.ov=ov||new Map();}
  has(x){return this.ov.has(key(x))||this.pred(x);}
  get(x){const e=this.ov.get(key(x));if(e)return e[1];if(!this.pred(x))throw new DafnyFail('imap key not present');return this.fn(x);}
  set(k,v){const m=new Map(this.ov);m.set(key(k),[k,v]);return new IMap(this.pred,this.fn,this.u,m);}
  *keys(){const seen=new Set();for(const x of universe(this.u))if(this.has(x)){seen.add(key(x));yield x;}for(const [k,e] of this.ov)if(!seen.has(k))yield e[0];}
  [Symbol.iterator](){return this.keys();}
  get _Keys(){return new ISet(x=>this.has(x),this.u);}
  get _Values(){const s=[];for(const k of this)s.push(this.get(k));return DSet.from(s);}
}
const universes=[];       // stack of functions: type description -> iterable or undefined
function universe(u){for(let i=universes.length-1;i>=0;i--){const r=universes[i](u);if(r)return r;}throw new Unsup('no universe for '+(u&&u.k?u.k+(u.cell?' '+u.cell.name:u.name||''):'?'));}
function allKeys(...ms){const r=new Map();for(const m of ms)for(const k of m)r.set(key(k),k);return r.values();}
function eq(a,b){
  if(a===b)return true;
  const ta=typeof a;
  if(ta==='number'||ta==='boolean'||ta==='undefined'||a===null||b===null||b===undefined)return false;
  if(ta==='bigint')return typeof b==='bigint'&&a===b;
  if(Array.isArray(a)||a instanceof Uint8Array||ta==='string'){
    if(!isSeq(b)||a.length!==b.length||(ta==='string'&&typeof b==='string'))return false;
    for(let i=0;i<a.length;i++)if(a[i]!==b[i]&&!eq(a[i],b[i]))return false;
    return true;
  }
  if(a instanceof Tup||a instanceof DT){
    if(!(b instanceof DT)||a.$cn!==b.$cn)return false;
    const x=a.$vals(),y=b.$vals();if(x.length!==y.length)return false;
    for(let i=0;i<x.length;i++)if(x[i]!==y[i]&&!eq(x[i],y[i]))return false;
    return true;
  }
  if(a instanceof DSet&&b instanceof DSet){if(a.size!==b.size)return false;for(const k of a.m.keys())if(!b.m.has(k))return false;return true;}
  if((a instanceof ISet||a instanceof DSet)&&(b instanceof ISet||b instanceof DSet)){for(const x of a)if(!b.has(x))return false;for(const x of b)if(!a.has(x))return false;return true;}
  if(a instanceof DMap&&b instanceof DMap){if(a.size!==b.size)return false;for(const [k,e] of a.m){const f=b.m.get(k);if(!f||!eq(e[1],f[1]))return false;}return true;}
  if((a instanceof IMap||a instanceof DMap)&&(b instanceof IMap||b instanceof DMap)){for(const k of allKeys(a,b)){if(!a.has(k)||!b.has(k)||!eq(a.get(k),b.get(k)))return false;}return true;}
  if(a instanceof DMs&&b instanceof DMs){if(a.m.size!==b.m.size)return false;for(const [k,e] of a.m){const f=b.m.get(k);if(!f||f[1]!==e[1])return false;}return true;}
  if(a instanceof Real&&b instanceof Real)return a.n===b.n&&a.d===b.d;
  return false;
}
const $={DafnyFail,Unsup,DObj,DArr,DArrN,DT,Tup,Real,DSet,DMap,DMs,ISet,IMap,universes,universe,key,eq,norm,big,isSeq,isInt};
$.ne=(a,b)=>!eq(a,b);
$.fail=m=>{throw new DafnyFail(m);};
// a bound taken from inside a predicate: where it is undefined, an earlier conjunct of the predicate is false
$.soft=f=>{try{return f();}catch(e){if(e instanceof DafnyFail)return [];throw e;}};
$.unsup=m=>{throw new Unsup(m);};
$.add=(a,b)=>{
  if(typeof a==='number'&&typeof b==='number'){const r=a+b;if(r<=MAXS&&r>=-MAXS)return r;return norm(BigInt(a)+BigInt(b));}
  return addSlow(a,b);
};
function addSlow(a,b){
  if(isInt(a)&&isInt(b))return norm(big(a)+big(b));
  if(isSeq(a)&&isSeq(b))return cat(a,b);
  if(a instanceof DSet&&b instanceof DSet){const m=new Map(a.m);for(const [k,v] of b.m)m.set(k,v);return new DSet(m);}
  if((a instanceof ISet||a instanceof DSet)&&(b instanceof ISet||b instanceof DSet))return new ISet(x=>a.has(x)||b.has(x),a.u||b.u);
  if(a instanceof DMap&&b instanceof DMap){const m=new Map(a.m);for(const [k,v] of b.m)m.set(k,v);return new DMap(m);}
  if(a instanceof DMs&&b instanceof DMs){const r=new DMs(new Map(a.m));for(const [k,e] of b.m)r.add(e[0],e[1]);return r;}
  if(a instanceof Real&&b instanceof Real)return new Real(a.n*b.d+b.n*a.d,a.d*b.d);
  if(a instanceof DT&&typeof a['_operator+']==='function')return a['_operator+'](b);
  throw new Unsup('+ on '+desc(a)+' and '+desc(b));
}
function desc(x){return x===undefined?'undefined':x===null?'null':typeof x==='object'?(x.$cn||x.constructor.name):typeof x;}
$.desc=desc;
function cat(a,b){
  if(typeof a==='string'&&typeof b==='string')return a+b;
  if(a.length===0)return b;if(b.length===0)return a;
  if(a instanceof Uint8Array&&b instanceof Uint8Array){const r=new Uint8Array(a.length+b.length);r.set(a);r.set(b,a.length);return r;}
  return [...a,...b];
}
$.cat=cat;
$.sub=(a,b)=>{
  if(typeof a==='number'&&typeof b==='number'){const r=a-b;if(r<=MAXS&&r>=-MAXS)return r;return norm(BigInt(a)-BigInt(b));}
  if(isInt(a)&&isInt(b))return norm(big(a)-big(b));
  if(a instanceof DSet&&(b instanceof DSet||b instanceof ISet)){const m=new Map();for(const [k,v] of a.m)if(!b.has(v))m.set(k,v);return new DSet(m);}
  if(a instanceof ISet)return new ISet(x=>a.has(x)&&!b.has(x),a.u);
  if(a instanceof DMap){const m=new Map();for(const [k,v] of a.m)if(!b.has(v[0]))m.set(k,v);return new DMap(m);}
  if(a instanceof DMs&&b instanceof DMs){const r=new DMs(new Map(a.m));for(const [k,e] of b.m)r.add(e[0],-e[1]);return r;}
  if(a instanceof Real)return new Real(a.n*b.d-b.n*a.d,a.d*b.d);
  if(typeof a==='string'&&typeof b==='string')return a.charCodeAt(0)-b.charCodeAt(0);
  throw new Unsup('- on '+desc(a)+' and '+desc(b));
};
$.mul=(a,b)=>{
  if(typeof a==='number'&&typeof b==='number'){const r=a*b;if(r<=MAXS&&r>=-MAXS)return r;return norm(BigInt(a)*BigInt(b));}
  if(isInt(a)&&isInt(b))return norm(big(a)*big(b));
  if((a instanceof DSet||a instanceof ISet)&&(b instanceof DSet||b instanceof ISet)){if(a instanceof ISet&&b instanceof ISet)return new ISet(x=>a.has(x)&&b.has(x),a.u);if(a instanceof ISet)[a,b]=[b,a];const m=new Map();for(const [k,v] of a.m)if(b.has(v))m.set(k,v);return new DSet(m);}
  if(a instanceof DMs&&b instanceof DMs){const r=new DMs();for(const [k,e] of a.m){const n=Math.min(e[1],b.count(e[0]));if(n)r.add(e[0],n);}return r;}
  if(a instanceof Real)return new Real(a.n*b.n,a.d*b.d);
  throw new Unsup('* on '+desc(a)+' and '+desc(b));
};
$.div=(a,b)=>{
  if(typeof a==='number'&&typeof b==='number'){if(b===0)throw new DafnyFail('division by zero');let m=a%b;if(m<0)m+=Math.abs(b);return (a-m)/b+0;}
  if(a instanceof Real)return new Real(a.n*b.d,a.d*b.n);
  if(isInt(a)&&isInt(b)){const x=big(a),y=big(b);if(y===0n)throw new DafnyFail('division by zero');let m=x%y;if(m<0n)m+=y<0n?-y:y;return norm((x-m)/y);}
  throw new Unsup('/ on '+desc(a));
};
$.mod=(a,b)=>{
  if(typeof a==='number'&&typeof b==='number'){if(b===0)throw new DafnyFail('modulo by zero');let m=a%b;if(m<0)m+=Math.abs(b);return m+0;}
  if(isInt(a)&&isInt(b)){const x=big(a),y=big(b);if(y===0n)throw new DafnyFail('modulo by zero');let m=x%y;if(m<0n)m+=y<0n?-y:y;return norm(m);}
  throw new Unsup('% on '+desc(a));
};
$.neg=a=>a instanceof Real?new Real(-a.n,a.d):typeof a==='number'?0-a:norm(-a);
$.rng=(v,lo,hi)=>{if(v>=lo&&v<=hi)return v;if(isInt(v))throw new DafnyFail('native integer out of range: '+v);throw new Unsup('integer expected, got '+desc(v));};
$.lt=(a,b)=>{
  if(isInt(a)&&isInt(b))return a<b;
  if(a instanceof DSet&&b instanceof DSet)return a.size<b.size&&$.le(a,b);
  if(isSeq(a)&&isSeq(b)&&!(typeof a==='string'&&a.length===1&&typeof b==='string'&&b.length===1))return a.length<b.length&&$.le(a,b);
  if(typeof a==='string'&&typeof b==='string')return a<b;
  if(a instanceof Real)return a.n*b.d<b.n*a.d;
  if(a instanceof DMs)return a.size<b.size&&$.le(a,b);
  if(a instanceof ISet||b instanceof ISet)return $.le(a,b)&&!eq(a,b);
  throw new Unsup('< on '+desc(a)+' and '+desc(b));
};
$.le=(a,b)=>{
  if(isInt(a)&&isInt(b))return a<=b;
  if(typeof a==='string'&&typeof b==='string'&&a.length===1&&b.length===1)return a<=b;
  if((a instanceof DSet||a instanceof ISet)&&(b instanceof DSet||b instanceof ISet)){for(const x of a)if(!b.has(x))return false;return true;}
  if(a instanceof DMs&&b instanceof DMs){for(const [k,e] of a.m)if(b.count(e[0])<e[1])return false;return true;}
  if(isSeq(a)&&isSeq(b)){if(a.length>b.length)return false;for(let i=0;i<a.length;i++)if(!eq(a[i],b[i]))return false;return true;}
  if(a instanceof Real)return a.n*b.d<=b.n*a.d;
  throw new Unsup('<= on '+desc(a)+' and '+desc(b));
};
$.disj=(a,b)=>{if(a instanceof ISet)[a,b]=[b,a];for(const x of a)if(b.has(x))return false;return true;};
class LSeq extends Array{}  // linear sequence of possibly absent elements
$.LSeq=LSeq;$.EMPTY={$id:'empty',toString(){return 'empty';}};
$.in=(x,s)=>{
  if(s instanceof LSeq){if(!(x>=0&&x<s.length))throw new DafnyFail('index '+x+' out of range for linear sequence');return s[x]!==$.EMPTY;}
  if(s instanceof DSet||s instanceof DMap||s instanceof DMs||s instanceof ISet||s instanceof IMap)return s.has(x);
  if(isSeq(s)){for(let i=0;i<s.length;i++)if(s[i]===x||eq(s[i],x))return true;return false;}
  throw new Unsup('in on '+desc(s));
};
$.card=x=>{if(Array.isArray(x)||x instanceof Uint8Array||typeof x==='string')return x.length;if(x instanceof DSet||x instanceof DMap||x instanceof DMs)return x.size;if(x instanceof DT&&typeof x['_operator||']==='function')return x['_operator||']();throw new Unsup('|.| on '+desc(x));};
$.at=(s,i)=>{
  if(Array.isArray(s)||s instanceof Uint8Array||typeof s==='string'){const v=s[i];if(v===undefined&&!(i>=0&&i<s.length))throw new DafnyFail('index '+i+' out of range for sequence of length '+s.length);return v;}
  if(s instanceof DMap||s instanceof IMap)return s.get(i);
  if(s instanceof DArr){if(!(i>=0&&i<s.a.length))throw new DafnyFail('index '+i+' out of range for array of length '+s.a.length);return s.a[i];}
  if(s instanceof DMs)return s.count(i);
  if(s instanceof DT&&typeof s['_operator[]']==='function')return s['_operator[]'](i);
  throw new Unsup('[] on '+desc(s));
};
$.atN=(s,is)=>{let o=0;for(let k=0;k<is.length;k++){if(!(is[k]>=0&&is[k]<s.dims[k]))throw new DafnyFail('array index');o=o*s.dims[k]+is[k];}return s.a[o];};
$.setN=(s,is,v)=>{let o=0;for(let k=0;k<is.length;k++){if(!(is[k]>=0&&is[k]<s.dims[k]))throw new DafnyFail('array index');o=o*s.dims[k]+is[k];}s.a[o]=v;};
$.aset=(s,i,v)=>{if(!(s instanceof DArr))throw new Unsup('array store on '+desc(s));if(!(i>=0&&i<s.a.length))throw new DafnyFail('index '+i+' out of range for array of length '+s.a.length);s.a[i]=v;};
$.put=(s,i,v)=>{
  if(isSeq(s)){if(!(i>=0&&i<s.length))throw new DafnyFail('index '+i+' out of range for sequence update of length '+s.length);const r=s instanceof Uint8Array?new Uint8Array(s):[...s];r[i]=v;return r;}
  if(s instanceof DMap||s instanceof IMap)return s.set(i,v);
  if(s instanceof DMs){const r=new DMs(new Map(s.m));r.m.delete(key(i));if(v>0)r.m.set(key(i),[i,v]);return r;}
  throw new Unsup('[:=] on '+desc(s));
};
$.slice=(s,a,b)=>{
  const x=s instanceof DArr?s.a:s;
  if(s instanceof DT&&typeof s['_operator[..]']==='function')return s['_operator[..]'](a===null?0:a,b===null?$.card(s):b);
  if(s instanceof DT&&a!==null&&b===null&&typeof s['_operator[..]']!=='function'&&typeof s['_operator[..)']==='function')return s['_operator[..)'](a);
  if(!isSeq(x))throw new Unsup('slice of '+desc(s));
  if(a===null)a=0;if(b===null)b=x.length;
  if(!(0<=a&&a<=b&&b<=x.length))throw new DafnyFail('slice ['+a+'..'+b+'] out of range for length '+x.length);
  if(a===0&&b===x.length&&!(s instanceof DArr))return x;
  return x.slice(Number(a),Number(b));
};
$.slices=(s,lens)=>{const r=[];let p=0;for(const l of lens){r.push($.slice(s,p,p+l));p+=l;}return r;};
$.seqinit=(n,f)=>{if(n>4000000)throw new Unsup('sequence too large');const r=[];for(let i=0;i<n;i++)r.push(f(i));return r;};
$.bwU=(op,a,b)=>{
  if(typeof a==='number'&&typeof b==='number'&&a<=0x7fffffff&&b<=0x7fffffff&&a>=0&&b>=0)return op==='&'?a&b:op==='|'?a|b:a^b;
  const x=big(a),y=big(b);return norm(op==='&'?x&y:op==='|'?x|y:x^y);
};
$.shl=(a,n,w)=>norm(BigInt.asUintN(w,big(a)<<big(n)));
$.shr=(a,n)=>norm(big(a)>>big(n));
$.wrap=(v,w)=>norm(BigInt.asUintN(w,big(v)));
$.range=function*(lo,hi){if(!isInt(lo)||!isInt(hi))throw new Unsup('range bounds');if(Number(hi)-Number(lo)>4000000){if(!$.bigRange)throw new Unsup('range too large');for(const i of $.bigRange)if(i>=lo&&i<hi)yield i;return;}for(let i=lo;i<hi;i=$.add(i,1))yield i;};
$.elems=s=>{
  if(Array.isArray(s)||s instanceof Uint8Array||typeof s==='string'||s instanceof DSet||s instanceof DMap||s instanceof DMs||s instanceof ISet||s instanceof IMap)return s;
  throw new Unsup('elements of '+desc(s));
};
$.interleave=function*(...its){for(const i of its)yield* i;};
$.upd=(o,f,v)=>{if(!(o instanceof DT))throw new Unsup('update of '+desc(o));const c=o.$clone();if(!o.$f.includes(f))throw new DafnyFail('update of field '+f+' absent from '+o.$cn);c[f]=v;return c;};
$.mem=(o,f)=>{ // checked member access
  const v=o[f];if(v===undefined&&o instanceof DT&&!(f in o))throw new DafnyFail('destructor '+f+' applied to '+o.$cn);return v;};
$.is=(o,cn)=>o instanceof DT?o.$cn===cn:$.unsup('match on '+desc(o));
$.maxInt=(...a)=>a.reduce((x,y)=>x>=y?x:y);$.minInt=(...a)=>a.reduce((x,y)=>x<=y?x:y);
$.show=function show(v,d=0){
  if(v===undefined)return '_';if(v===null)return 'null';if(d>6)return '..';
  if(typeof v==='bigint')return v+'';if(typeof v==='string')return JSON.stringify(v);if(typeof v!=='object')return String(v);
  if(v instanceof Uint8Array)return v.length>40?'bytes#'+v.length+':'+Buffer.from(v.slice(0,16)).toString('hex')+'..':'x'+Buffer.from(v).toString('hex');
  if(Array.isArray(v))return '['+(v.length>40?v.slice(0,40):v).map(x=>show(x,d+1)).join(', ')+(v.length>40?', ..#'+v.length:'')+']';
  if(v instanceof DT){const a=v.$vals();return v.$cn+(a.length?'('+a.map(x=>show(x,d+1)).join(', ')+')':'');}
  if(v instanceof DSet)return '{'+[...v].slice(0,40).map(x=>show(x,d+1)).join(', ')+'}';
  if(v instanceof DMap)return 'map['+[...v.m.values()].slice(0,40).map(e=>show(e[0],d+1)+':='+show(e[1],d+1)).join(', ')+']';
  if(v instanceof DArr)return 'array'+show(v.a,d+1);
  return v.constructor.name;
};
module.exports=$;
