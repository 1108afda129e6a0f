'use strict';
// Contracts as properties: for a function, method or lemma with an executable contract, generate arguments of its declared types,
// keep those meeting its `requires`, run it (not for lemmas: their body is only a proof) and check every `ensures`.
const $=require('./rt.js');const {Program,dtInfo,memberCells,resolveType,compileExprFn,Cx}=require('./compile.js');
const {EX,TYPES}=require('./externs.js');const {Rng,Tape,Violation,Discard}=require('./pbt.js');
const {DafnyFail,Unsup,DSet,DMap,DMs,Tup,DArr}=$;
const TPN=4;                                        // type parameters and opaque types stand for {0,..,TPN-1}
const strip=e=>{while(e&&e.t==='Paren')e=e.e;return e;};
function uni(u){
  if(u.k==='tp'||u.k==='opaque')return [0,1,2,3];
  if(u.k==='set'){const b=uni(u.a);return b?$.subsets(b):undefined;}
  if(u.k==='bool')return [false,true];
  if(u.k==='map'){const a=uni(u.a),b=uni(u.b);if(!a||!b)return undefined;let acc=[[]];for(const k of a)acc=acc.flatMap(p=>[p,...b.map(v=>[...p,[k,v]])]);return acc.map(p=>DMap.of(p));}
  if(u.k==='tuple'){let acc=[[]];for(const t of u.args){const x=uni(t);if(!x)return undefined;acc=acc.flatMap(a=>x.map(v=>[...a,v]));}return acc.map(a=>new Tup(a));}
  return undefined;
}
// a value of type t
class Gen{
  constructor(t,opt={}){this.t=t;this.ints=[];this.opt=opt;this.lens=[];}
  int(nat){const t=this.t,k=t.below(8);let v;
    if(k===0)v=t.below(3);else if(k<=3)v=t.below(8);else if(k===4)v=t.below(40);else if(k===5&&this.ints.length)v=t.pick(this.ints)+t.below(3)-1;else if(k===6)v=t.below(300);else v=this.opt.maxInt?t.below(this.opt.maxInt):t.u64();
    if(typeof v==='number'&&!nat&&t.below(3)===2)v=-v;if(v<0&&nat)v=0;v=v||0;
    if(typeof v==='number'&&this.ints.length<12)this.ints.push(v);return v;}
  len(d){const t=this.t;let n;if(this.lens.length&&t.below(3)===2)n=t.pick(this.lens);else n=t.below(4)===3?t.below(d>1?4:9):t.below(d>1?3:5);if(this.lens.length<6)this.lens.push(n);return n;}
  val(ty,d=0,tps){
    const t=this.t;
    if(!ty)throw new Unsup('untyped parameter');
    if(this.opt.val){const r=this.opt.val(this,ty,d);if(r!==undefined)return r;}
    if(ty.sub&&ty.sub.cell&&ty.sub.cell.decl.sub&&ty.k!=='native'){
      const bare=Object.assign({},ty,{sub:undefined});
      for(let i=0;i<40;i++){const v=this.val(bare,d);if(subOk(ty.sub.cell,v))return v;}
      throw new Discard('subset type');
    }
    switch(ty.k){
      case 'int':return this.int(ty.nat);
      case 'bool':return t.bool();
      case 'char':return String.fromCharCode(t.below(3)===0?47:97+t.below(4));
      case 'tp':case 'opaque':return t.below(TPN);
      case 'native':{const lo=ty.lo,hi=ty.hi;let v=this.int(lo>=0n);let b=BigInt(v);if(t.below(8)===7)b=hi-BigInt(t.below(4));if(b<lo||b>hi){b=lo+((b%(hi-lo+1n))+(hi-lo+1n))%(hi-lo+1n);}return $.norm(b);}
      case 'bv':{let b=BigInt(this.int(true));return $.norm(BigInt.asUintN(ty.w,t.below(5)===4?~b:b));}
      case 'seq':{const n=this.len(d);const r=[];for(let i=0;i<n;i++)r.push(this.val(ty.a,d+1));if(ty.a&&ty.a.k==='char')return r.join('');return r;}
      case 'set':{const n=this.len(d);return DSet.from([...Array(n)].map(()=>this.val(ty.a,d+1)));}
      case 'ms':{const n=this.len(d);return DMs.from([...Array(n)].map(()=>this.val(ty.a,d+1)));}
      case 'map':{const n=this.len(d);return DMap.of([...Array(n)].map(()=>[this.val(ty.a,d+1),this.val(ty.b,d+1)]));}
      case 'tuple':return new Tup(ty.args.map(a=>this.val(a,d+1)));
      case 'real':return new $.Real(BigInt(t.below(9)),BigInt(1+t.below(4)));
      case 'arr':{const n=this.len(d);return new DArr([...Array(n)].map(()=>this.val(ty.a,d+1)));}
      case 'fun':{const seed=t.below(64),memo=new Map();const ret=ty.ret;const opt=this.opt;
        const f=(...a)=>{const k=a.map($.key).join('|');if(!memo.has(k)){let h=seed;for(const c of k)h=(h*31+c.charCodeAt(0))>>>0;memo.set(k,new Gen(new Tape(new Rng(h)),opt).val(ret,2));}return memo.get(k);};
        f.requires=()=>true;return f;}
      case 'dt':{
        const info=dtInfo(ty.cell);let cs=[...info.ctors.values()];
        if(d>3){const leaf=cs.filter(c=>!c.fields.some(f=>selfish(f.ty,ty.cell.name)));if(leaf.length)cs=leaf;if(d>9)throw new Discard('deep');}
        const c=cs[t.below(cs.length)];if(!c.fields.length)return c.single;
        const m=argMap(ty);const sc={inst:ty.cell.inst,owner:ty.cell,tps:m};
        return new c.cls(...c.fields.map(f=>this.val(resolveType(f.ty,Object.assign({},sc,{tps:tpsOf(ty.cell,m)})),d+1)));}
    }
    throw new Unsup('cannot generate '+ty.k+(ty.cell?' '+ty.cell.name:''));
  }
}
function selfish(ty,name){let r=false;(function w(x){if(r||!x||typeof x!=='object')return;if(Array.isArray(x)){for(const y of x){if(y===name)r=true;else w(y);}return;}for(const k of ['path','args','ret','a','b'])if(x[k])w(x[k]);})(ty);return r;}
function argMap(t){const m=new Map();(t.cell.decl.tps||[]).forEach((n,i)=>m.set(n,t.args&&t.args[i]||{k:'tp',name:n,decl:t.cell.decl}));return m;}
function tpsOf(cell,m){return m;}
function subOk(cell,v){const d=cell.decl.sub;if(!cell.$subg)cell.$subg=compileExprFn(cell,d.c,[{name:d.v,ty:d.ty||cell.decl.rhs||cell.decl.base}],false);return cell.$subg(v);}
// every declaration of a module instance with an executable contract
function declsOf(inst,out=[],seen=new Set()){
  if(!inst||seen.has(inst))return out;seen.add(inst);inst.build();
  for(const m of inst.members.values()){
    if(m.kind==='function'||m.kind==='method')out.push(m);
    else if(m.kind==='datatype')for(const x of memberCells(m).values()){if(x.kind==='function'||x.kind==='method')out.push(x);}
    else if(m.kind==='moddecl'&&!m.decl.params){const s=inst.modOf(m);if(s)declsOf(s,out,seen);}
  }
  return out;
}
function mentions(e,n){let r=false;(function w(x){if(r||!x||typeof x!=='object')return;if(Array.isArray(x)){x.forEach(w);return;}if(x.t==='Id'&&x.name===n){r=true;return;}for(const k in x)if(k!=='line'&&k!=='ty')w(x[k]);})(e);return r;}
function unold(e,names,inside){ // old(e): array parameters read from the copies made before the call
  if(!e||typeof e!=='object')return e;if(Array.isArray(e))return e.map(x=>unold(x,names,inside));
  if(e.t==='Old')return unold(e.e,names,true);
  if(inside&&e.t==='Id'&&names.has(e.name))return Object.assign({},e,{name:e.name+'$old'});
  const r={};for(const k in e)r[k]=k==='ty'||k==='line'?e[k]:unold(e[k],names,inside);return r;
}
function conjs(e,out=[]){e=strip(e);if(!e)return out;if(e.t==='Bin'&&e.op==='&&'){conjs(e.a,out);conjs(e.b,out);}else out.push(e);return out;}
// does a type carry fields that running code does not maintain?
function hasGhost(ty,seen=new Set()){
  if(!ty||typeof ty!=='object')return false;
  for(const x of [ty.a,ty.b,...(ty.args||[])])if(hasGhost(x,seen))return true;
  if(ty.k==='class')return true;
  if(ty.k!=='dt'||seen.has(ty.cell))return false;seen.add(ty.cell);
  for(const c of dtInfo(ty.cell).ctors.values())for(const f of c.fields){if(f.ghost||f.lin)return true;if(hasGhost(resolveType(f.ty,{inst:ty.cell.inst,owner:ty.cell,tps:argMap(ty)}),seen))return true;}
  return false;
}
// a checkable contract, or a reason why not
function contract(cell,opt={}){
  const d=cell.decl;const ens=(d.sp&&d.sp.ensures||[]);if(!ens.length)return 'no ensures';
  const ghostMeth=d.lemma||d.mods&&d.mods.has('ghost');
  const lemma=d.lemma;
  if(d.k==='method'&&!lemma&&!d.body)return 'no body';
  if(d.k==='function'&&!d.body)return 'no body';
  if(d.k==='method'&&!ghostMeth){for(const p of [...d.params,...(d.outs||[])])if(p.lin)return 'linear';}
  if(d.mods&&(d.mods.has('linear')||d.mods.has('shared')||d.mods.has('inout')))return 'linear';
  const staticOwner=cell.owner&&d.mods&&d.mods.has('static');
  const needSelf=cell.owner&&!staticOwner;
  const cx=new Cx(cell,false);
  if(d.params.some(p=>p.inout)||d.mods.has('inout'))return 'inout';
  if(d.outs&&d.outs.length&&lemma)return 'lemma with results';
  const params=d.params.map(p=>({name:p.name,ty:resolveType(p.ty,cx),decl:p}));
  if(params.some(p=>!p.ty))return 'unknown parameter type';
  if(!ghostMeth&&d.k==='method')for(const p of [...params,...(d.outs||[]).map(o=>({ty:resolveType(o.ty,cx)}))])if(hasGhost(p.ty))return 'ghost fields';
  const bad=params.find(p=>p.ty.k==='class'||p.ty.k==='object'||p.ty.k==='arr'&&d.k==='function');if(bad)return 'parameter of a class type';
  const outs=(d.outs||[]).map(o=>({name:o.name,ty:resolveType(o.ty,cx),decl:o}));
  const reqs=(d.sp.requires||[]).flatMap(e=>conjs(e));
  let fr,fe,eqs=[];
  try{
    fr=reqs.map(e=>compileExprFn(cell,e,d.params,false));
    const arrs=d.params.filter((p,i)=>params[i].ty.k==='arr');
    const olds=arrs.map(p=>({name:p.name+'$old',ty:p.ty}));
    fe=ens.map(e=>compileExprFn(cell,arrs.length?unold(e,new Set(arrs.map(p=>p.name)),false):e,[...d.params,...(d.outs||[]),...(d.rname?[{name:d.rname,ty:d.ret}]:[]),...olds],false));
    for(const e of reqs)if(e.t==='Bin'&&(e.op==='=='||e.op==='<==>'))for(const [a,b] of [[e.a,e.b],[e.b,e.a]]){const x=strip(a);if(x.t==='Id'){const i=d.params.findIndex(p=>p.name===x.name);if(i>=0&&!mentions(b,x.name))eqs.push([i,compileExprFn(cell,b,d.params,false)]);}}
    for(const e of reqs)if(e.t==='Bin'&&e.op==='in'){const x=strip(e.a);if(x.t==='Id'){const i=d.params.findIndex(p=>p.name===x.name);if(i>=0&&!mentions(e.b,x.name))eqs.push([i,compileExprFn(cell,e.b,d.params,false),true]);}}
  }catch(x){return String(x.message).slice(0,140);}
  let selfTy=null;
  if(needSelf){if(cell.owner.kind!=='datatype')return 'member of '+cell.owner.kind;selfTy={k:'dt',cell:cell.owner,args:(cell.owner.decl.tps||[]).map(n=>({k:'tp',name:n,decl:cell.owner.decl}))};}
  return {cell,name:cell.plain,lemma,params,outs,fr,fe,eqs,selfTy,d,ghostMeth};
}
function bigInt(v,d=0){if(typeof v==='bigint')return true;if(typeof v==='number')return Math.abs(v)>1000;if(d>6||!v||typeof v!=='object')return false;if(Array.isArray(v))return v.some(x=>bigInt(x,d+1));if(v instanceof $.DT)return v.$vals().some(x=>bigInt(x,d+1));if(v instanceof DArr)return bigInt(v.a,d+1);if(v instanceof DMap)return [...v.keys()].some(k=>bigInt(k,d+1)||bigInt(v.get(k),d+1));if(v instanceof DSet||v instanceof DMs)return [...v].some(x=>bigInt(x,d+1));return false;}
function runContract(c,t,ctx,opt={}){
  const cur={};try{return runContract1(c,t,ctx,opt,cur);}catch(e){if((e instanceof RangeError&&/call stack/.test(e.message)||e instanceof DafnyFail&&/loop budget|^allocation of/.test(e.message))&&(opt.deep||!cur.args||cur.args.some(a=>bigInt(a))||bigInt(cur.self)))throw new Discard('deep recursion on a large number');if(e instanceof RangeError&&!e.$w){e.$w=1;e.message=c.name+': '+e.message+' for ('+(cur.args||[]).map(x=>$.show(x)).join(', ').slice(0,600)+')';}throw e;}
}
function runContract1(c,t,ctx,opt,cur){
  $.universes.length=0;$.universes.push(uni);$.softAlloc=true;
  const g=new Gen(t,opt);let args=null,self;
  for(let tries=0;tries<(opt.tries||25)&&!args;tries++){
    g.ints.length=0;g.lens.length=0;
    const a=c.params.map(p=>g.val(p.ty));self=c.selfTy?g.val(c.selfTy):undefined;cur.args=a;cur.self=self;
    if(c.eqs.length&&t.below(4)>0)for(const [i,f,mem] of c.eqs){try{const v=f.apply(self,a);if(mem){const es=[...$.elems(v)];if(es.length)a[i]=es[t.below(es.length)];}else a[i]=v;}catch(x){if(!(x instanceof DafnyFail||x instanceof RangeError||x instanceof Unsup))throw x;}}
    let ok=true;
    try{for(const r of c.fr)if(!r.apply(self,a)){ok=false;break;}}catch(x){if(x instanceof DafnyFail||x instanceof RangeError){ok=false;}else throw x;}
    for(const [i,p] of c.params.entries())if(ok&&p.ty.nat&&!(a[i]>=0))ok=false;else if(ok&&p.ty.k==='native'&&!(BigInt(a[i])>=p.ty.lo&&BigInt(a[i])<=p.ty.hi))ok=false;else if(ok&&p.ty.sub&&p.ty.sub.cell.decl.sub&&p.ty.k!=='native'&&!subOk(p.ty.sub.cell,a[i]))ok=false;
    if(ok)args=a;
  }
  if(!args){ctx.label('unmet '+c.name);throw new Discard('requires');}
  ctx.label(c.name);ctx.nontrivial();
  ctx.log(()=>c.name+'('+args.map(x=>$.show(x)).join(', ')+')'+(self!==undefined?' on '+$.show(self):''));
  ctx.sample(c.name+'('+args.map(x=>$.show(x)).join(', ')+')');
  const copies=args.filter(a=>a instanceof DArr).map(a=>new DArr(a.a.slice()));
  let outs=[];
  if(!c.lemma){
    const r=c.cell.f.apply(self,args);
    outs=c.d.k==='function'?[]:c.outs.length===0?[]:c.outs.length===1?[r]:r;
    if(c.d.k==='function'&&c.d.rname)outs=[r];
    if(c.outs.length||c.d.k==='function')ctx.log(()=>'  gives '+$.show(r));
  }
  c.fe.forEach((f,i)=>{let ok;try{ok=f.apply(self,[...args,...outs,...copies]);}catch(x){if(x instanceof DafnyFail)throw new Violation(`${c.name}: ensures #${i+1} is not defined: ${x.message}`);throw x;}
    if(!ok)throw new Violation(`${c.name}: ensures #${i+1} is false for (${args.map(x=>$.show(x)).join(', ')})`);});
}
// the contract of a declaration, with or without a body, as functions of (parameters, results, old arrays)
function specOf(cell){
  const d=cell.decl,cx=new Cx(cell,false),ps=d.params;
  const arrs=ps.filter(p=>{const ty=resolveType(p.ty,cx);return ty&&ty.k==='arr';});const olds=arrs.map(p=>({name:p.name+'$old',ty:p.ty}));
  const fr=(d.sp.requires||[]).flatMap(e=>conjs(e)).map(e=>compileExprFn(cell,e,ps,false));
  const outs=[...(d.outs||[]),...(d.rname?[{name:d.rname,ty:d.ret}]:[])];
  const fe=(d.sp.ensures||[]).filter(e=>!/"Opaque"/.test(JSON.stringify(e))).map(e=>compileExprFn(cell,unold(e,new Set(arrs.map(p=>p.name)),false),[...ps,...outs,...olds],false));
  const ok=(fs,a)=>{for(const f of fs){let r;try{r=f.apply(undefined,a);}catch(x){if(x instanceof DafnyFail||x instanceof RangeError)return false;throw x;}if(r!==true)return false;}return true;};
  return {cell,nreq:fr.length,nens:fe.length,pre:args=>ok(fr,args),post:(args,outs,old)=>ok(fe,[...args,...outs,...old])};
}
// all contracts declared in some files
function contractsOf(REPO,files,opt={}){
  const P=new Program({externs:EX,types:TYPES,overrides:opt.overrides||{}}).load(...files.map(f=>REPO+'/'+f));
  const want=new Set(files.map(f=>require('path').resolve(REPO+'/'+f)));const cells=[];const R=P.R;
  for(const [f,ast] of P.files){if(!ast||!want.has(require('path').resolve(f)))continue;
    for(const d of ast.decls){
      if(d.k==='module'){if(d.params)continue;try{declsOf(P.mod(d.name),cells);}catch(e){if(process.env.DEV)console.error('module',d.name,e.message);}}
      else if(d.k==='function'||d.k==='method'){const m=R.own(d.name);if(m)cells.push(m);}
      else if(d.k==='datatype'){const m=R.own(d.name);if(m&&m.kind==='datatype')for(const x of memberCells(m).values())if(x.kind==='function'||x.kind==='method')cells.push(x);}
    }}
  const good=[],why={};
  for(const c of new Set(cells)){if(opt.skip&&opt.skip.test(c.plain))continue;if(opt.only&&!opt.only.test(c.plain))continue;const r=contract(c,opt);if(typeof r==='string')why[c.plain]=r;else good.push(r);}
  return {P,good,why};
}
function contractsPart(files,opt={}){
  return ({REPO})=>{
    const {good,why}=contractsOf(REPO,files,opt);
    if(process.env.DEV){const n=Object.entries(why).filter(x=>x[1]!=='no ensures');console.error(good.length,'contracts;',n.length,'not checkable');if(process.env.DEV>1)for(const x of n)console.error('  ',x.join(': '));}
    if(!good.length)throw new Unsup('no checkable contract');
    const dead=new Map();
    return (t,ctx)=>{
      const c=t.pick(good);const d=dead.get(c);
      if(d>12&&t.rng)throw new Discard('not executable');
      try{runContract(c,t,ctx,opt);dead.set(c,-1e9);}catch(e){if(e instanceof Unsup)dead.set(c,(d||0)+1);throw e;}
    };
  };
}
module.exports={specOf,Gen,contract,runContract,declsOf,uni,contractsOf,contractsPart};
