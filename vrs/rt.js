'use strict';
// Values and builtin operations of the Verus specification language, on top of the runtime of the Dafny engine.
const $=require('../dfy/rt.js');const {DT,Tup,DMap,DSet,IMap,ISet,DMs,DafnyFail,Unsup,eq,key}=$;
class OptN extends DT{get $cn(){return 'None';} $vals(){return [];} get $f(){return [];} $clone(){return this;}}
class OptS extends DT{constructor(v){super();this._0=v;} get $cn(){return 'Some';} $vals(){return [this._0];} get $f(){return ['_0'];} $clone(){return new OptS(this._0);}}
const None=new OptN(),Some=v=>new OptS(v);
class ResV extends DT{constructor(n,v){super();this.n=n;this._0=v;} get $cn(){return this.n;} $vals(){return [this._0];} get $f(){return ['_0'];} $clone(){return new ResV(this.n,this._0);}}
OptN.prototype.$cell=OptS.prototype.$cell='Option';ResV.prototype.$cell='Result';
const fail=m=>{throw new DafnyFail(m);};
const V={Some,None,OptS,OptN,ResV};
const isMap=x=>x instanceof DMap||x instanceof IMap,isSet=x=>x instanceof DSet||x instanceof ISet;
// bounded quantification: candidate sources in order, then the harness's universe
function src(cs,meta){
  let lo,hi;
  for(const c of cs){
    if(c.lo||c.hi)continue;
    let r;try{r=c();}catch(e){if(e instanceof DafnyFail||e instanceof Unsup||e instanceof TypeError)continue;throw e;}
    if(r instanceof DSet||r instanceof DMap||Array.isArray(r)||r instanceof DMs)return r;
    if(isMap(r)||isSet(r)){try{return [...r];}catch(e){if(e instanceof Unsup)continue;throw e;}}
  }
  for(const c of cs){try{if(c.lo){const x=c.lo();if(typeof x==='number'&&(lo===undefined||x>lo))lo=x;}if(c.hi){const x=c.hi();if(typeof x==='number'&&(hi===undefined||x<hi))hi=x;}}catch(e){if(!(e instanceof DafnyFail||e instanceof Unsup||e instanceof TypeError))throw e;}}
  if(lo===undefined&&hi!==undefined&&meta.ty&&['nat','u64','u32','usize','u8','u16','LSN','AU','Page'].includes(meta.ty.n))lo=0;
  if(lo!==undefined&&hi!==undefined){if(hi-lo>200000)throw new Unsup('range');const a=[];for(let i=lo;i<hi;i++)a.push(i);return a;}
  if(meta.ty&&meta.ty.n==='bool')return [false,true];
  const u=$.universe(meta);return u;
}
V.src=src;
const tryB=f=>{try{return f();}catch(e){if(e instanceof DafnyFail)return false;throw e;}};
V.forall=(ss,p)=>{const go=(i,vs)=>{if(i===ss.length)return p(...vs);for(const x of ss[i](...vs))if(!go(i+1,[...vs,x]))return false;return true;};return go(0,[]);};
V.exists=(ss,p)=>{const go=(i,vs)=>{if(i===ss.length)return tryB(()=>p(...vs));for(const x of ss[i](...vs))if(go(i+1,[...vs,x]))return true;return false;};return go(0,[]);};
V.choose=(ss,p,what)=>{let res;const go=(i,vs)=>{if(i===ss.length){if(tryB(()=>p(...vs))){res=vs;return true;}return false;}for(const x of ss[i](...vs))if(go(i+1,[...vs,x]))return true;return false;};if(!go(0,[]))fail('choose: no witness '+what);return res.length===1?res[0]:new Tup(res);};
const finite=s=>{if(s instanceof DSet)return s;if(Array.isArray(s))return DSet.from(s);throw new Unsup('infinite set');};
V.setNew=(s,p,meta)=>{ // s: bounded source or null
  if(s){let r=null;try{r=s();}catch(e){if(!(e instanceof Unsup))throw e;}if(r){const o=new DSet();for(const x of r)if(p(x))o.m.set(key(x),x);return o;}}
  return new ISet(p,meta);
};
V.mapNew=(s,p,f,meta)=>{
  if(s){let r=null;try{r=s();}catch(e){if(!(e instanceof Unsup))throw e;}if(r){const o=new DMap();for(const x of r)if(p(x))o.m.set(key(x),[x,f(x)]);return o;}}
  return new IMap(p,f,meta);
};
const dom=m=>m instanceof DMap?m._Keys:new ISet(x=>m.has(x),m.u);
const restrict=(m,pred,u)=>{if(m instanceof DMap){const o=new DMap();for(const [k,e] of m.m)if(pred(e[0]))o.m.set(k,e);return o;}return new IMap(x=>pred(x)&&m.has(x),x=>m.get(x),m.u);};
const sub=(s,a,b)=>{if(!(0<=a&&a<=b&&b<=s.length))fail(`subrange ${a}..${b} of length ${s.length}`);return s.slice(a,b);};
const union=(a,b)=>{if(a instanceof DMap&&b instanceof DMap)return $.add(a,b);return new IMap(x=>a.has(x)||b.has(x),x=>b.has(x)?b.get(x):a.get(x),a.u||b.u);};
const B={
  map:{
    insert:(m,k,v)=>m.set(k,v),contains_key:(m,k)=>m.has(k),dom,index:(m,k)=>mget(m,k),spec_index:(m,k)=>mget(m,k),
    remove:(m,k)=>restrict(m,x=>!eq(x,k)),remove_keys:(m,s)=>restrict(m,x=>!s.has(x)),restrict:(m,s)=>restrict(m,x=>s.has(x)),
    union_prefer_right:union,contains_pair:(m,k,v)=>m.has(k)&&eq(m.get(k),v),contains_value:(m,v)=>{for(const k of m)if(eq(m.get(k),v))return true;return false;},
    values:m=>DSet.from([...m].map(k=>m.get(k))),len:m=>m.size===undefined?$.unsup('len of infinite map'):m.size,is_empty:m=>m.size===0,
    submap_of:(a,b)=>le(a,b),le:(a,b)=>le(a,b),agrees:(a,b)=>{for(const k of a)if(b.has(k)&&!eq(a.get(k),b.get(k)))return false;return true;},
    map_values:(m,f)=>m instanceof DMap?DMap.of([...m].map(k=>[k,f(m.get(k))])):new IMap(x=>m.has(x),x=>f(m.get(x)),m.u),
    map_entries:(m,f)=>m instanceof DMap?DMap.of([...m].map(k=>[k,f(k,m.get(k))])):new IMap(x=>m.has(x),x=>f(x,m.get(x)),m.u),
    filter_keys:(m,p)=>restrict(m,p),invert:m=>DMap.of([...m].map(k=>[m.get(k),k])),is_injective:m=>{const s=new Set();for(const k of m){const x=key(m.get(k));if(s.has(x))return false;s.add(x);}return true;},
    ext_equal:eq,finite:m=>m instanceof DMap,get:(m,k)=>m.has(k)?Some(m.get(k)):None,union_prefer_left:(a,b)=>union(b,a),
  },
  set:{
    contains:(s,x)=>s.has(x),insert:(s,x)=>s instanceof DSet?DSet.from([...s,x]):new ISet(y=>eq(y,x)||s.has(y),s.u),remove:(s,x)=>s instanceof DSet?DSet.from([...s].filter(y=>!eq(x,y))):new ISet(y=>!eq(y,x)&&s.has(y),s.u),
    union:(a,b)=>$.add(a,b),intersect:(a,b)=>$.mul(a,b),difference:(a,b)=>$.sub(a,b),subset_of:(a,b)=>$.le(a,b),le:(a,b)=>$.le(a,b),disjoint:(a,b)=>$.disj(a,b),
    len:s=>finite(s).size,is_empty:s=>finite(s).size===0,finite:s=>s instanceof DSet,choose:s=>{for(const x of s)return x;fail('choose from empty set');},
    filter:(s,p)=>s instanceof DSet?DSet.from([...s].filter(p)):new ISet(x=>s.has(x)&&p(x),s.u),map:(s,f)=>DSet.from([...s].map(f)),map_by:(s,f)=>DSet.from([...s].map(f)),to_seq:s=>[...s],
    complement:s=>new ISet(x=>!s.has(x),s.u),ext_equal:eq,fold:(s,z,f)=>{let r=z;for(const x of s)r=f(r,x);return r;},is_singleton:s=>finite(s).size===1,all:(s,p)=>[...s].every(p),any:(s,p)=>[...s].some(p),
    to_multiset:s=>DMs.from(s),is_full:s=>fail('is_full'),mk_map:(s,f)=>s instanceof DSet?DMap.of([...s].map(k=>[k,f(k)])):new IMap(x=>s.has(x),f,s.u),
  },
  seq:{
    len:s=>s.length,push:(s,x)=>[...s,x],add:(a,b)=>[...a,...b],subrange:sub,take:(s,n)=>sub(s,0,n),skip:(s,n)=>sub(s,n,s.length),slice:sub,
    last:s=>s.length?s[s.length-1]:fail('last of empty'),first:s=>s.length?s[0]:fail('first of empty'),drop_last:s=>sub(s,0,s.length-1),drop_first:s=>sub(s,1,s.length),
    contains:(s,x)=>s.some(y=>eq(x,y)),index:(s,i)=>at(s,i),spec_index:(s,i)=>at(s,i),update:(s,i,x)=>{if(!(i>=0&&i<s.length))fail('update');const r=s.slice();r[i]=x;return r;},
    map:(s,f)=>s.map((x,i)=>f(i,x)),map_values:(s,f)=>s.map(x=>f(x)),to_set:s=>DSet.from(s),filter:(s,p)=>s.filter(x=>p(x)),to_multiset:s=>DMs.from(s),
    fold_left:(s,z,f)=>s.reduce((a,x)=>f(a,x),z),fold_left_alt:(s,z,f)=>s.reduce((a,x)=>f(a,x),z),fold_right:(s,f,z)=>s.reduceRight((a,x)=>f(x,a),z),no_duplicates:s=>new Set(s.map(key)).size===s.length,
    index_of:(s,x)=>{const i=s.findIndex(y=>eq(x,y));return i<0?fail('index_of'):i;},reverse:s=>s.slice().reverse(),ext_equal:eq,
    insert:(s,i,x)=>{if(!(i>=0&&i<=s.length))fail('insert');return [...s.slice(0,i),x,...s.slice(i)];},remove:(s,i)=>{if(!(i>=0&&i<s.length))fail('remove');return [...s.slice(0,i),...s.slice(i+1)];},
    zip_with:(a,b)=>{if(a.length!==b.length)fail('zip');return a.map((x,i)=>new Tup([x,b[i]]));},is_prefix_of:(a,b)=>a.length<=b.length&&eq(a,b.slice(0,a.length)),is_suffix_of:(a,b)=>a.length<=b.length&&eq(a,b.slice(b.length-a.length)),
    flatten:s=>s.flat(1),all:(s,p)=>s.every(x=>p(x)),any:(s,p)=>s.some(x=>p(x)),max:s=>Math.max(...s),min:s=>Math.min(...s),sort_by:(s,lte)=>s.slice().sort((a,b)=>lte(a,b)?(lte(b,a)?0:-1):1),
    finite:s=>true,is_empty:s=>s.length===0,
  },
  ms:{count:(m,x)=>m.count(x),contains:(m,x)=>m.has(x),add:(a,b)=>$.add(a,b),sub:(a,b)=>$.sub(a,b),insert:(m,x)=>{const r=new DMs(new Map(m.m));r.add(x,1);return r;},remove:(m,x)=>{const r=new DMs(new Map(m.m));if(r.has(x))r.add(x,-1);return r;},
    len:m=>m.size,dom:m=>DSet.from(m),subset_of:(a,b)=>$.le(a,b),le:(a,b)=>$.le(a,b),is_disjoint_from:(a,b)=>{for(const x of a)if(b.has(x))return false;return true;},update:(m,x,n)=>$.put(m,x,n),ext_equal:eq,difference_with:(a,b)=>$.sub(a,b),
    intersection_with:(a,b)=>$.mul(a,b),filter:(m,p)=>{const r=new DMs();for(const [,e] of m.m)if(p(e[0]))r.add(e[0],e[1]);return r;},choose:m=>{for(const x of m)return x;fail('choose');},is_empty:m=>m.size===0},
  opt:{unwrap:o=>o.$cn==='Some'?o._0:fail('unwrap of None'),is_some:o=>o.$cn==='Some',is_none:o=>o.$cn==='None',is_Some:o=>o.$cn==='Some',is_None:o=>o.$cn==='None',unwrap_or:(o,d)=>o.$cn==='Some'?o._0:d,expect:o=>o.$cn==='Some'?o._0:fail('expect'),get_Some_0:o=>o.$cn==='Some'?o._0:fail('get_Some_0'),arrow_0:o=>o.$cn==='Some'?o._0:fail('->0 of None'),arrow_Some_0:o=>o.$cn==='Some'?o._0:fail('->0 of None'),is_ok:o=>o.$cn==='Ok',is_err:o=>o.$cn==='Err'},
  any:{view:x=>x,spec_eq:eq,clone:x=>x,spec_le:(a,b)=>le(a,b),spec_lt:(a,b)=>$.lt(a,b),deep_view:x=>x,to_vec:x=>x,as_slice:x=>x},
};
function le(a,b){if(isMap(a)){for(const k of a)if(!b.has(k)||!eq(a.get(k),b.get(k)))return false;return true;}return $.le(a,b);}
V.havoc=null; // an arbitrary value for an index outside the domain (null: undefined)
function arb(vals,e){if(V.havoc===null||!vals.length)throw e;return vals[V.havoc%vals.length];}
function mget(m,k){if(V.havoc===null)return m.get(k);try{return m.get(k);}catch(e){if(!(e instanceof DafnyFail)||!(m instanceof DMap))throw e;return arb([...m].map(x=>m.get(x)),e);}}
function at(s,i){
  if(V.havoc!==null&&Array.isArray(s)&&!(i>=0&&i<s.length)&&s.length)return s[V.havoc%s.length];
  if(Array.isArray(s)){if(!(i>=0&&i<s.length))fail(`index ${i} of length ${s.length}`);return s[i];}
  if(isMap(s))return mget(s,i);
  if(s instanceof DT&&s.m_spec_index)return s.m_spec_index(i);
  if(s instanceof DMs)return s.count(i);
  if(s instanceof ISet||s instanceof DSet)return s.has(i);
  return $.at(s,i);
}
V.at=at;V.le=(a,b)=>typeof a==='number'&&typeof b==='number'?a<=b:le(a,b);V.lt=(a,b)=>typeof a==='number'&&typeof b==='number'?a<b:isMap(a)?le(a,b)&&!eq(a,b):$.lt(a,b);
V.add=(a,b)=>typeof a==='number'&&typeof b==='number'?a+b:isMap(a)?union(a,b):$.add(a,b);V.sub=$.sub;V.mul=$.mul;V.div=$.div;V.mod=$.mod;V.neg=$.neg;V.eq=eq;
const kind=o=>o instanceof OptS||o instanceof OptN||o instanceof ResV?B.opt:isMap(o)?B.map:isSet(o)?B.set:Array.isArray(o)||o instanceof Uint8Array?B.seq:o instanceof DMs?B.ms:B.any;
V.m=(o,n,...a)=>{
  if(o===undefined)throw new Unsup('method '+n+' of undefined');if(V.junk!==null&&o===V.junk)fail('method of an arbitrary value');
  if(o instanceof DT){const f=o['m_'+n];if(f)return f.apply(o,a);
    let m;if((m=/^(?:get|arrow)_(.*)$/.exec(n))&&!(o instanceof OptS||o instanceof OptN))return V.arrow(o,m[1]);if((m=/^is_(.*)$/.exec(n))&&!(o instanceof OptS||o instanceof OptN))return o.$cn===m[1];}
  const b=kind(o)[n]||B.any[n];if(b)return b(o,...a);
  if(typeof o==='number'){if(n==='max')return Math.max(o,a[0]);if(n==='min')return Math.min(o,a[0]);}
  if(n==='spec_index')return at(o,a[0]);
  const f=o['_'+n];if(typeof f==='function')return f(...a);
  throw new Unsup('method '+n+' on '+$.desc(o));
};
V.field=(o,f)=>{if(V.junk!==null&&o===V.junk)fail('field of an arbitrary value');const v=o['_'+f];if(v===undefined){if(o instanceof DT&&!(('_'+f) in o))fail('field '+f+' of '+o.$cn);if(v===undefined)throw new Unsup('field '+f+' of '+$.desc(o));}return v;};
V.arrow=(o,f)=>{if(V.junk!==null&&o===V.junk)fail('-> of an arbitrary value');if(!(o instanceof DT))throw new Unsup('-> on '+$.desc(o));if(('_'+f) in o)return o['_'+f];const p=o.$cn+'_';if(f.startsWith(p)&&('_'+f.slice(p.length)) in o)return o['_'+f.slice(p.length)];fail('->'+f+' of '+o.$cn);};
V.is=(o,n)=>{if(V.junk!==null&&o===V.junk)fail('variant test of an arbitrary value');if(!(o instanceof DT))throw new Unsup('is '+n+' on '+$.desc(o));return o.$cn===n;};
V.as=(v,t)=>{
  if(typeof v==='boolean')return v?1:0;
  if(t==='nat'){if(v<0){if(V.negNat!==null)return V.negNat;fail(v+' as nat');}return v;}
  const w={u8:8,u16:16,u32:32,u64:64,usize:64}[t];if(w){if(v<0||(w<53?v>=2**w:BigInt(v)>=(1n<<64n)))fail(v+' as '+t);}
  return v;
};
V.view=o=>o instanceof DT&&o.m_view?o.m_view():o;
V.call=(f,...a)=>{if(typeof f!=='function')throw new Unsup('call of '+$.desc(f));return f(...a);};
V.upd=(o,ks)=>{const c=o.$clone();for(const [k,v] of ks){if(!(k in o))fail('update of '+k);c[k]=v;}return c;};
V.lit=(v,b)=>{const c=b.$clone();return c;};
V.fail=fail;V.Tup=(...a)=>new Tup(a);V.junk=null;V.negNat=null;V.arb=()=>V.junk!==null?V.junk:fail('arbitrary value'); // junk: a stand-in for the unknown value, where it is only stored and compared
V.S={ // static builtins
  'Map::empty':()=>new DMap(),'Set::empty':()=>new DSet(),'Seq::empty':()=>[],'Multiset::empty':()=>new DMs(),'Multiset::singleton':x=>DMs.from([x]),'Vec::new':()=>[],
  'Seq::new':(n,f)=>{if(n<0)fail('Seq::new');const r=[];for(let i=0;i<n;i++)r.push(f(i));return r;},'Map::new':(p,f)=>p instanceof DSet?DMap.of([...p].map(k=>[k,f(k)])):new IMap(p,f,null),'Map::total':f=>new IMap(()=>true,f,null),'Set::new':p=>new ISet(p,null),'Set::full':()=>new ISet(()=>true,null),
  'Map::from_set':(s,f)=>DMap.of([...s].map(k=>[k,f(k)])),'Multiset::from_set':s=>DMs.from(s),'Multiset::new':m=>{const r=new DMs();for(const k of m)r.add(k,m.get(k));return r;},'Multiset::from_map':m=>{const r=new DMs();for(const k of m)r.add(k,m.get(k));return r;},
  'max':(a,b)=>Math.max(a,b),'min':(a,b)=>Math.min(a,b),'Some':Some,'Ok':v=>new ResV('Ok',v),'Err':v=>new ResV('Err',v),'Ghost':x=>x,'Tracked':x=>x,'Box':x=>x,'spec_affirm':x=>true,'arbitrary':()=>V.arb(),'set_int_range':(a,b)=>{const r=new DSet();for(let i=a;i<b;i++)r.m.set(i,i);return r;},
  'Box::new':x=>x,'Option::Some':Some,'Arc::new':x=>x,'recommends_by':()=>true,'decreases_when':()=>true,'decreases_by':()=>true,'abs':Math.abs,'id':x=>x,
};
module.exports=Object.assign(V,{$,DT,TupC:Tup,DMap,DSet,IMap,ISet,DMs,key,DafnyFail,Unsup,B});
