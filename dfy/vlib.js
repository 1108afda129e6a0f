'use strict';
// Shared machinery for the Verus (Splinter) specifications: loading, typed value pools, lemma statements as properties.
const {Program,CErr,V}=require('../vrs/compile.js');
const $=V.$;const {check,discard}=require('./pbt.js');
const {DT,TupC:Tup,DMap,DSet,IMap,ISet,DMs}=V;const eq=$.eq;
const ALL=['spec','abstract_system','journal','betree','allocation_layer','disk','trusted','implementation'];
function load(REPO,dirs,opts={}){const P=new Program(opts).load(REPO+'/Splinter/src',dirs||ALL);P.tcache=new Map();return P;}
// constructor shorthand: ty('spec::KeyType_t::Key') -> (...fields) ; enums -> {Variant:(...)}
function ty(P,q){
  const t=P.get(q);if(!t)throw new V.Unsup('type '+q+' not found');
  if(t.kind==='struct'){const f=(...a)=>new t.K(...a);f.t=t;return f;}
  const o={};for(const [n,v] of t.variants)o[n]=v.single||((...a)=>new v.K(...a));o.$t=t;return o;
}
function fn(P,q){const parts=q.split('::');const t=P.lookupPath(['crate',...parts],P.root,null);if(!t||t.k!=='fn'&&t.k!=='nat')throw new V.Unsup('function '+q+' not found');return (...a)=>P.C[t.i](...a);}
// undefined values (index out of range and the like) make a relation undefined, never a failure
function soft(f,d){try{return f();}catch(e){if(e instanceof V.DafnyFail||e instanceof V.Unsup)return d;throw e;}}
const U=f=>{try{return f();}catch(e){if(e instanceof V.DafnyFail)throw new V.Unsup('undefined: '+e.message);throw e;}};
// ---------------------------------------------------------------- types
const NUM=new Set(['nat','int','u64','u32','u8','u16','usize','i64','i32']);
function norm(P,t,m,env){
  if(!t)return {k:'?',key:'?'};
  if(t.k==='tuple'||t.tup){const a=(t.a||t.tup||[]).map(x=>norm(P,x,m,env));return {k:'tup',a,key:'('+a.map(x=>x.key)+')'};}
  const n=t.n;if(env&&env.has(n)&&!(t.a&&t.a.length))return env.get(n);
  const sub=()=>(t.a||[]).map(x=>norm(P,x,m,env));
  if(NUM.has(n))return {k:'num',key:n,n};if(n==='bool')return {k:'bool',key:'bool'};
  const W={Map:'map',Seq:'seq',Set:'set',Multiset:'ms',Option:'opt',Vec:'seq',IMap:'map',ISet:'set'};
  const r=P.lookupPath(t.p||[n],m,null);
  if(!r&&W[n]||r&&r.k==='builtin'&&W[n]){const a=sub();return {k:W[n],a,key:n+'<'+a.map(x=>x.key)+'>'};}
  if(n==='Ghost'||n==='Tracked'||n==='Box'||n==='Arc')return sub()[0]||{k:'?',key:'?'};
  if(r&&r.k==='alias'){
    const e2=new Map();(r.tps||[]).forEach((x,i)=>e2.set(typeof x==='string'?x:x.n,sub()[i]));const b=norm(P,r.ty,r.m,e2);
    if(b.k==='num')return {k:'num',key:n,n:b.n};return b;
  }
  if(r&&r.k==='type'){const a=sub();return {k:'dt',t:r,a,key:'T'+r.id+(a.length?'<'+a.map(x=>x.key)+'>':'')};}
  return {k:'?',key:'?'+n};
}
function envOf(nt){const e=new Map();(nt.t.tps||[]).forEach((x,i)=>{const nm=typeof x==='string'?x:x.n;if(nt.a[i])e.set(nm,nt.a[i]);});return e;}
function ftypes(P,nt,v){ // [field name, normalised type]
  const fs=nt.t.kind==='struct'?nt.t.fields:(nt.t.variants.get(v.$cn)||{fs:[]}).fs;
  const c=nt.ft||(nt.ft=new Map());const k=nt.t.kind==='struct'?'':v.$cn;let r=c.get(k);if(!r){const e=envOf(nt);r=fs.map(f=>['_'+f.n,norm(P,f.ty,nt.t.m,e)]);c.set(k,r);}return r;
}
class Pools{
  constructor(P,cap=40){this.P=P;this.cap=cap;this.m=new Map();this.seen=new Map();this.tri=new Map();}
  get(k){return this.m.get(k)||[];}
  put(k,v){let a=this.m.get(k),s=this.seen.get(k);if(!a){this.m.set(k,a=[]);this.seen.set(k,s=new Set());}
    let kk;try{kk=$.key(v);}catch(e){kk=null;}if(kk!==null){if(s.has(kk))return false;s.add(kk);}
    if(a.length<this.cap)a.push(v);else a[(s.size*7)%this.cap]=v;return true;}
  add(v,nt,d=0){
    if(v===undefined||v===null||d>14)return;
    if(!this.put(nt.key,v)&&nt.k!=='dt')return;
    switch(nt.k){
      case 'dt':if(v instanceof DT&&v.$ty===nt.t)for(const [f,t] of ftypes(this.P,nt,v))this.add(v[f],t,d+1);return;
      case 'opt':if(v.$cn==='Some')this.add(v._0,nt.a[0],d+1);return;
      case 'tup':nt.a.forEach((t,i)=>this.add(v['_'+i],t,d+1));return;
      case 'seq':for(const x of v)this.add(x,nt.a[0],d+1);return;
      case 'set':if(v instanceof DSet)for(const x of v)this.add(x,nt.a[0],d+1);return;
      case 'ms':if(v instanceof DMs)for(const x of v)this.add(x,nt.a[0],d+1);return;
      case 'map':if(v instanceof DMap)for(const x of v){this.add(x,nt.a[0],d+1);this.add(v.get(x),nt.a[1],d+1);}else if(v instanceof IMap)for(const [,e] of v.ov){this.add(e[0],nt.a[0],d+1);this.add(e[1],nt.a[1],d+1);}return;
    }
  }
  gen(t,nt,d=0){
    const p=this.m.get(nt.key);
    if(p&&p.length&&(nt.k==='dt'||nt.k==='?'||t.below(5)!==4))return t.pick(p);
    switch(nt.k){
      case 'num':return t.below(4)===3?t.below(40):t.below(8);
      case 'bool':return t.bool();
      case 'opt':return t.below(3)===0?V.None:V.Some(this.gen(t,nt.a[0],d+1));
      case 'tup':return new Tup(nt.a.map(x=>this.gen(t,x,d+1)));
      case 'seq':return t.list(0,4,()=>this.gen(t,nt.a[0],d+1));
      case 'set':return DSet.from(t.list(0,4,()=>this.gen(t,nt.a[0],d+1)));
      case 'ms':return DMs.from(t.list(0,4,()=>this.gen(t,nt.a[0],d+1)));
      case 'map':return DMap.of(t.list(0,4,()=>[this.gen(t,nt.a[0],d+1),this.gen(t,nt.a[1],d+1)]));
      case 'dt':{if(d>4)throw new V.Unsup('deep');const e=envOf(nt);let K,fs;if(nt.t.kind==='struct'){K=nt.t.K;fs=nt.t.fields;}else{const v=t.pick([...nt.t.variants.values()]);if(v.single)return v.single;K=v.K;fs=v.fs;}return new K(...fs.map(f=>this.gen(t,norm(this.P,f.ty,nt.t.m,e),d+1)));}
    }
    throw new V.Unsup('no value of '+nt.key);
  }
  triple(M,pre,post,lbl){let a=this.tri.get(M);if(!a)this.tri.set(M,a=[]);if(a.length<30)a.push([pre,post,lbl]);else a[(a.n=(a.n||0)+1)%30]=[pre,post,lbl];}
}
// ---------------------------------------------------------------- lemma statements
// lem: {files: [/regex on qn/], skip: /regex/}
function lemmaSet(P,o){
  const r=[];
  for(const c of P.lemmas){
    if(!o.files.test(c.qn)||o.skip&&o.skip.test(c.qn))continue;
    if(!c.decl.cl.ensures.length)continue;
    let f;try{f=P.lemma(c);}catch(e){if(e instanceof CErr||e instanceof Error)continue;throw e;}
    const env=new Map();const gens=[...(c.decl.tps||[]),...(c.tps||[])];const inst=o.inst||{};
    for(const g of gens){const nm=typeof g==='string'?g:g.n;env.set(nm,inst[nm]?norm(P,inst[nm],P.root):{k:'num',key:'tp',n:'nat'});}
    const own=c.owner?{k:'dt',t:c.owner,a:(c.owner.tps||[]).map(x=>env.get(typeof x==='string'?x:x.n)||norm(P,(o.inst||{})[typeof x==='string'?x:x.n]||{n:'nat'},P.root)),key:''}:null;
    if(own){own.key='T'+own.t.id+(own.a.length?'<'+own.a.map(x=>x.key)+'>':'');env.set('Self',own);}
    const ps=[];if(c.decl.self)ps.push({n:'self',ty:own});
    for(const p of c.decl.ps)ps.push({n:p.n,ty:norm(P,p.ty,c.m,env)});
    r.push({c,f,ps,qn:c.qn,sat:0,run:0});
  }
  return r;
}
// try one lemma once with arguments from the pools; returns 'sat' | 'vac' | 'undef'
function tryLemma(t,c,L,pools,pick){
  const byN=new Map();
  if(pick)pick(L,byN,t);
  const args=[];
  for(const p of L.ps){
    if(byN.has(p.n)){args.push(byN.get(p.n));continue;}
    try{args.push(pools.gen(t,p.ty));}catch(e){if(e instanceof V.Unsup)return 'undef';throw e;}
  }
  L.run++;
  let r;
  try{r=L.f(...args);}catch(e){if(e instanceof V.DafnyFail||e instanceof V.Unsup||e instanceof TypeError||e instanceof RangeError)return 'undef';throw e;}
  if(!r)return 'vac';
  let k;
  try{k=r[0]();}catch(e){if(e instanceof V.DafnyFail||e instanceof V.Unsup||e instanceof TypeError||e instanceof RangeError)return 'undef';throw e;}
  check(k===0,()=>`statement ${L.qn} (ensures ${k}) is false for ${L.ps.map((p,i)=>p.n+'='+$.show(args[i]).slice(0,500)).join('; ')}`);
  L.sat++;return 'sat';
}
// arguments of statements about transitions come from recorded transitions
function correlate(P,pools){
  const byState=new Map();for(const M of P.machines.values())byState.set(M.state,M);
  return (L,b,t)=>{
    const ps=L.ps;let M=null;
    for(const p of ps)if(p.ty&&p.ty.k==='dt'&&p.ty.t.M&&p.ty.t.M.state===p.ty.t){M=p.ty.t.M;break;}
    if(!M)return;const tr=pools.tri.get(M);if(!tr||!tr.length)return;
    const [a,z,l]=t.pick(tr);
    const st=ps.filter(p=>p.ty.k==='dt'&&p.ty.t===M.state);
    if(st.length>=2){b.set(st[0].n,a);b.set(st[1].n,z);}else if(st.length===1)b.set(st[0].n,/post|after/.test(st[0].n)?z:t.bool()?a:z);
    for(const p of ps)if(p.ty.k==='dt'&&p.ty.t.name==='Label'&&p.ty.t.m===M.mod&&l!==undefined)b.set(p.n,l);
  };
}
/* a part: history(t,c,rec) performs a random history, calling rec.state(M,s) / rec.step(M,pre,post,lbl) / rec.val(v,typeName) */
function recorder(P,pools){
  const nts=new Map();const ntOf=t=>{let n=nts.get(t);if(!n){n={k:'dt',t,a:(t.tps||[]).map(()=>({k:'?',key:'?'})),key:''};n.key='T'+t.id+(n.a.length?'<'+n.a.map(x=>x.key)+'>':'');nts.set(t,n);}return n;};
  return {pools,
    val(v){if(v instanceof DT&&v.$ty)pools.add(v,v.$nt||ntOf(v.$ty));},
    typed(v,nt){pools.add(v,nt);},
    step(M,pre,post,lbl){pools.add(pre,ntOf(M.state));pools.add(post,ntOf(M.state));if(lbl!==undefined)pools.add(lbl,ntOf(lbl.$ty));pools.triple(M,pre,post,lbl);}};
}
function lemmaPart(P,o){ // o:{files,skip,inst,history,uni,per,setup}
  const Ls=lemmaSet(P,o);if(!Ls.length)throw new V.Unsup('no statements');
  const run=(t,c)=>{
    $.universes.length=0;const pools=new Pools(P,o.cap||40);const rec=recorder(P,pools);
    $.universes.push(u=>o.uni?o.uni(u,pools):null);
    if(o.setup)o.setup(t,rec);
    if(o.history)o.history(t,c,rec);
    const pick=o.pick?(L,b,tt)=>{correlate(P,pools)(L,b,tt);o.pick(L,b,tt,pools);}:correlate(P,pools);
    let sat=0;const n=o.per||24;
    for(let i=0;i<n;i++){const L=Ls[t.below(Ls.length)];const k=tryLemma(t,c,L,pools,pick);if(k==='sat'){sat++;c.label(L.c.name);}}
    c.nontrivial(sat>=2);c.sample(sat+' statements exercised');
  };
  run.lemmas=Ls;
  if(process.env.LSTAT)process.on('exit',()=>{console.error('lemmas',Ls.length,'never satisfied:',Ls.filter(l=>!l.sat).map(l=>l.c.name+'/'+l.run).join(' '));});
  return run;
}
// apply a transition; undefined -> null
function apply(M,name,pre,...a){const x=M.trans.get(name);if(!x)throw new V.Unsup('no transition '+name);try{return M.apply(name,pre,...a);}catch(e){if(e instanceof V.DafnyFail)return null;throw e;}}
function init(M,name,...a){const x=M.inits.get(name);if(!x)throw new V.Unsup('no init '+name);return M.prog.applyTr(M,x,null,a);}
module.exports={Program,CErr,V,$,check,discard,DT,Tup,DMap,DSet,IMap,ISet,DMs,eq,ALL,load,ty,fn,soft,U,norm,Pools,lemmaSet,lemmaPart,recorder,tryLemma,correlate,apply,init,Some:V.Some,None:V.None};
