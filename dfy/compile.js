'use strict';
// Lazy compiler from the parsed Dafny (2.x and linear dialect) to JavaScript closures.
const fs=require('fs'),path=require('path');
const {parseFile,ParseError}=require('./parse.js');
const $=require('./rt.js');
const {Unsup,DafnyFail}=$;
const san=s=>'_'+s.replace(/'/g,'$p').replace(/\?/g,'$q').replace(/#/g,'$h');
class CompErr extends Error{}
let uid=0;
const T={int:{k:'int'},bool:{k:'bool'},char:{k:'char'},real:{k:'real'},nat:{k:'int',nat:true},str:{k:'seq',a:{k:'char'}}};
const isNum=t=>t&&(t.k==='int'||t.k==='native'||t.k==='bv'||t.k==='lit');
const tname=t=>!t?'?':t.k==='dt'||t.k==='class'?t.cell.qname:t.k==='native'?t.name:t.k;
class Cell{ // a named declaration within a module instance (or a member of a type within it)
  constructor(kind,name,decl,inst,owner){this.kind=kind;this.name=name;this.decl=decl;this.inst=inst;this.owner=owner||null;this.id=++uid;this.prog=inst.prog;
    if(kind==='function'||kind==='method'||kind==='constructor'){const self=this;this.f=function(...a){self.compile();return self.f.apply(this,a);};}
    else if(kind==='const'){Object.defineProperty(this,'v',{configurable:true,get(){return this.constVal();}});}
  }
  get qname(){return this.inst.qname+'.'+(this.owner?this.owner.name+'.':'')+this.name;}
  get plain(){return this.inst.name+'.'+(this.owner?this.owner.name+'.':'')+this.name;}
  constVal(){
    const ov=this.prog.override(this);let v;
    if(ov!==undefined)v=typeof ov==='function'?ov.call(this):ov;
    else{const d=this.decl;if(!d.e)throw new Unsup('const '+this.qname+' has no value');v=compileExprFn(this,d.e,[],true)();}
    Object.defineProperty(this,'v',{value:v,configurable:true,writable:true});return v;
  }
  compile(){
    const p=this.prog;const ov=p.override(this);
    if(ov!==undefined){if(typeof ov==='function'){this.orig=()=>buildCallable(this);this.f=ov;p.wrap&&p.wrap(this);return;}}
    this.f=buildCallable(this);
    p.wrap&&p.wrap(this);
  }
  get req(){if(!this._req){const d=this.decl;this._req=compileExprFn(this,(d.sp.requires||[]).reduce((a,b)=>a?{t:'Bin',op:'&&',a,b}:b,null)||{t:'Bool',v:true},d.params,false);}return this._req;}
}
// ---------------------------------------------------------------- modules
class ModInst{
  constructor(prog,decl,parent,args,name){
    this.prog=prog;this.decl=decl;this.parent=parent;this.args=args||new Map();this.name=name||decl.name;
    this.qname=(parent&&parent.parent?parent.qname+'.':'')+this.name+(this.args.size?'('+[...this.args.values()].map(m=>m.qname).join(',')+')':'');
    this.members=new Map();this.opened=[];this.id=++uid;this.ctorNames=new Map();this.built=false;
  }
  build(){
    if(this.built)return this;this.built=true;
    for(const [k,v] of this.args)this.members.set(k,{kind:'module',mod:v,name:k});
    const chain=[];let d=this.decl;
    if(d.ref){let sc=this.parent||this.prog.root;
      if(this.args&&this.args.size){const tmp=new ModInst(this.prog,{k:'module',name:'_params',decls:[]},sc,new Map());tmp.built=true;for(const [k,v] of this.args)tmp.members.set(k,{kind:'module',mod:v,name:k});sc=tmp;}
      this.base=this.prog.resolveMod(d.ref,sc,this);this.base.build();}
    const all=this.flat();
    for(const e of all)this.addDecl(e);
    for(const m of this.members.values())if(m.kind==='datatype')for(const c of m.decl.ctors){const l=this.ctorNames.get(c.name);if(l)l.push(m);else this.ctorNames.set(c.name,[m]);}
    return this;
  }
  flat(){ // declarations, base first, merged by name
    if(this._flat)return this._flat;
    const own=this.decl.decls||[];
    if(!this.base){return this._flat=own;}
    const res=new Map();let anon=0;
    for(const [k,v] of this.base.members)if(v.kind==='module'&&!this.members.has(k))this.members.set(k,v);
    for(const d of this.base.flat())res.set(d.name||('#'+anon++),d);
    for(const d of own){
      const k=d.name||('#'+anon++);const b=res.get(k);
      if(b&&b.k===d.k&&(d.k==='class'||d.k==='datatype'||d.k==='type')&&d.members){
        const mm=new Map();for(const m of b.members||[])mm.set(m.name,m);for(const m of d.members||[])mm.set(m.name,mergeFn(mm.get(m.name),m));
        res.set(k,Object.assign({},b,d,{members:[...mm.values()],ctors:d.ctors||b.ctors,rhs:d.rhs||b.rhs}));
      }else res.set(k,mergeFn(b,d));
    }
    return this._flat=[...res.values()];
  }
  addDecl(d){
    switch(d.k){
      case 'module':{
        if(d.prefix&&d.prefix.length){ // module A.B at top level
        }
        this.members.set(d.name,{kind:'moddecl',decl:d,name:d.name,scope:this});break;}
      case 'import':{const m={kind:'import',decl:d,name:d.name,scope:this};this.members.set(d.name,m);if(d.opened)this.opened.push(m);break;}
      case 'datatype':case 'class':case 'type':case 'newtype':this.members.set(d.name,new Cell(d.k,d.name,d,this));break;
      case 'const':this.members.set(d.name,new Cell('const',d.name,d,this));break;
      case 'function':case 'method':this.members.set(d.name,new Cell(d.k,d.name,d,this));break;
      case 'field':break;
    }
  }
  modOf(m){ // member -> ModInst or null
    if(m.kind==='module')return m.mod;
    if(m.mod)return m.mod;
    if(m.busy)return null;
    if(m.kind==='moddecl'){if(m.decl.params)return (m.functor=true,null);return m.mod=this.prog.instance(m.decl,m.scope,null);}
    if(m.kind==='import'){m.busy=true;try{m.mod=this.prog.resolveMod(m.decl.target,m.scope,null,m);}finally{m.busy=false;}return m.mod;}
    return null;
  }
  own(name){this.build();return this.members.get(name);}
  ctorIn(name){this.build();const l=this.ctorNames.get(name);return l?l[0]:null;}
  // lookup of an unqualified name: members, opened imports, enclosing modules
  lookup(name,seen){
    this.build();
    const m=this.members.get(name);
    if(m)return m;
    const c=this.ctorNames.get(name);if(c)return {kind:'ctor',cell:c[0],name};
    for(const o of this.opened){const om=this.modOf(o);if(!om||om===this)continue;const r=om.ownVisible(name);if(r)return r;}
    for(const o of this.opened){const om=this.modOf(o);if(!om||om===this)continue;om.build();const r=om.members.get(name);if(r)return r;}
    if(this.parent)return this.parent.lookup(name);
    return null;
  }
  ownVisible(name){this.build();const m=this.members.get(name);if(m&&m.kind!=='import'&&m.kind!=='module')return m;const c=this.ctorNames.get(name);if(c)return {kind:'ctor',cell:c[0],name};return null;}
}
function mergeFn(b,d){
  if(!b)return d;
  if(b.k!==d.k)return d;
  if(d.k==='function'||d.k==='method'){const r=Object.assign({},d);if(!d.body&&b.body&&(b.k==='function'||true))r.body=b.body;
    if((!d.params||!d.params.length)&&b.params&&b.params.length){r.params=b.params;}
    if(d.k==='method'&&(!d.outs||!d.outs.length)&&b.outs&&b.outs.length&&!d.params.length)r.outs=b.outs;
    if(!d.ret&&b.ret)r.ret=b.ret;
    if(!d.tps.length)r.tps=b.tps;
    if(b.mods.has('inout')&&!d.mods.has('inout'))r.mods=new Set([...d.mods,'inout']);
    r.sp={requires:[...(b.sp.requires||[]),...(d.sp.requires||[])],ensures:[...(b.sp.ensures||[]),...(d.sp.ensures||[])]};return r;}
  if(d.k==='type'&&!d.rhs&&b.rhs)return Object.assign({},d,{rhs:b.rhs,sub:b.sub});
  if(d.k==='const'&&!d.e&&b.e)return Object.assign({},d,{e:b.e});
  return d;
}
class Program{
  constructor(opts={}){this.opts=opts;this.root=null;this.files=new Map();this.externs=opts.externs||{};this.overrides=opts.overrides||{};this.insts=new Map();this.wrap=opts.wrap||null;this.parseErrors=[];this.stats={compiled:0,unsup:[]};
    this.rootDecl={k:'module',name:'_root',decls:[]};}
  override(cell){
    const o=this.overrides[cell.plain];if(o!==undefined)return o;
    const d=cell.decl;
    const e=this.externs[cell.plain];
    if(e!==undefined&&(!d.body||d.attrs&&d.attrs.extern)&&cell.kind!=='const')return e;
    if(e!==undefined&&cell.kind==='const'&&!d.e)return e;
    return undefined;
  }
  load(...fl){for(const f of fl)this.loadFile(path.resolve(f));this.root=null;return this;}
  loadFile(f){
    f=path.normalize(f);if(this.opts.redirect)f=this.opts.redirect(f);if(this.files.has(f))return;this.files.set(f,null);
    let ast;const src=fs.readFileSync(f,'utf8');
    try{ast=parseFile(src,f);}catch(e){if(!(e instanceof ParseError))throw e;this.parseErrors.push(e.message);return;}
    this.files.set(f,ast);
    for(const i of ast.includes)this.loadFile(path.resolve(path.dirname(f),i));
    this.rootDecl.decls.push(...ast.decls);
  }
  get R(){if(!this.root){this.root=new ModInst(this,this.rootDecl,null,null,'_root');this.root.build();}return this.root;}
  instance(decl,scope,args){
    const key=decl;let l=this.insts.get(key);if(!l)this.insts.set(key,l=[]);
    for(const x of l){if(x.parent===scope&&x.args.size===(args?args.size:0)&&[...x.args].every(([k,v])=>args.get(k)===v))return x;}
    const m=new ModInst(this,decl,scope,args);l.push(m);return m;
  }
  // resolve a module expression in a scope; self: member being resolved (skipped to avoid self reference)
  resolveMod(me,scope,derived,selfM){
    const r=this.tryMod(me,scope,selfM);
    if(!r)throw new CompErr(`module ${modStr(me)} not found in ${scope.qname}`);
    return r;
  }
  findMod(name,scope,selfM){
    for(let s=scope;s;s=s.parent){
      if(s===scope&&!s.built&&s!==this.root){/* building */}
      const m=s.members.get(name)|| (s.built?null:s.own(name));
      if(m&&m!==selfM&&(m.kind==='module'||m.kind==='moddecl'||m.kind==='import')){if(!(m.busy))return m;}
      // opened imports may provide modules
      if(m===undefined||m===selfM){for(const o of s.opened){if(o===selfM||o.busy||o.name===(selfM&&selfM.name))continue;if(o.mod){o.mod.build();const x=o.mod.members.get(name);if(x&&x!==selfM&&(x.kind==='moddecl'||x.kind==='import'))return x;}}}
    }
    return null;
  }
  tryMod(me,scope,selfM){
    let cur=null,path=me.path,i=0;
    if(me.base){cur=this.resolveMod(me.base,scope,null,selfM);}
    else{
      let m=this.findMod(path[0],scope,selfM);i=1;
      if(!m)return null;
      if(m.kind==='moddecl'&&m.decl.params){
        if(me.args&&path.length===1)return this.applyFunctor(m.decl,m.scope,me.args,scope,selfM);
        if(path.length===1)return this.applyFunctor(m.decl,m.scope,m.decl.params.map(p=>null),scope,selfM);
        return null;
      }
      cur=(m.scope||scope).modOf?(m.scope||scope).modOf(m):null;
      if(!cur)return null;
    }
    for(;i<path.length;i++){const x=cur.own(path[i]);if(!x)return null;
      if(x.kind==='moddecl'&&x.decl.params&&i===path.length-1)return this.applyFunctor(x.decl,x.scope,me.args||x.decl.params.map(p=>null),scope,selfM);
      cur=(x.scope||cur).modOf(x);if(!cur)return null;}
    return cur;
  }
  applyFunctor(decl,dscope,argExprs,scope,selfM){
    const args=new Map();decl.params.forEach((p,i)=>{
      const a=argExprs[i];
      // an omitted argument stands for the formal's own interface
      const m=a?this.resolveMod(a,scope,null,selfM):this.formal(p.ty,dscope,args);
      args.set(p.name,m);});
    return this.instance(decl,dscope,args);
  }
  formal(ty,dscope,args){
    // formal parameter types may mention earlier parameters
    const tmp=new ModInst(this,{k:'module',name:'_formal',decls:[]},dscope,args);tmp.built=true;for(const [k,v] of args)tmp.members.set(k,{kind:'module',mod:v,name:k});
    return this.resolveMod(ty,tmp);
  }
  mod(p){let m=null;for(const n of p.split('.')){const x=(m||this.R).own(n);if(!x)throw new CompErr('no module '+p);m=(m||this.R).modOf(x);if(!m)throw new CompErr('no module '+p);}return m.build();}
  functor(name,...args){const x=this.R.own(name);const a=new Map();x.decl.params.forEach((p,i)=>a.set(p.name,args[i]));return this.instance(x.decl,x.scope,a).build();}
  // proxy access: P.m('Mod').name -> function, const value, constructor function or class
  m(p){return proxy(typeof p==='string'?this.mod(p):p);}
}
function modStr(me){return (me.base?modStr(me.base)+'.':'')+me.path.join('.')+(me.args?'('+me.args.map(modStr).join(',')+')':'');}
const proxies=new WeakMap();
function proxy(inst){
  let p=proxies.get(inst);if(p)return p;
  p=new Proxy({},{get(_,name){
    if(typeof name!=='string')return undefined;
    if(name==='$inst')return inst;
    const x=inst.own(name);
    if(!x){const c=inst.ctorIn(name);if(c)return ctorFn(c,name);return undefined;}
    return cellVal(x,inst);
  },has(_,name){return typeof name==='string'&&!!(inst.own(name)||inst.ctorIn(name));}});
  proxies.set(inst,p);return p;
}
function cellVal(x,inst){
  if(x.kind==='function'||x.kind==='method')return (...a)=>x.f(...a);
  if(x.kind==='const')return x.v;
  if(x.kind==='datatype'||x.kind==='class')return typeProxy(x);
  if(x.kind==='type'||x.kind==='newtype'){const t=resolveNamed(x,[],inst);if(t.k==='dt'||t.k==='class')return typeProxy(t.cell);if(x.decl.members&&x.decl.members.length)return typeProxy(x);return t;}
  if(x.kind==='import'||x.kind==='moddecl'||x.kind==='module'){return proxy((x.scope||inst).modOf(x).build());}
  return x;
}
function ctorFn(cell,name){const info=dtInfo(cell);const c=info.ctors.get(name);return c.fields.length?(...a)=>new c.cls(...a):c.single;}
function typeProxy(cell){
  if(cell.$proxy)return cell.$proxy;
  return cell.$proxy=new Proxy(function(){},{get(_,name){
    if(typeof name!=='string')return undefined;
    if(name==='$cell')return cell;
    if(cell.kind==='datatype'){const info=dtInfo(cell);if(info.ctors.has(name))return ctorFn(cell,name);}
    const m=memberCells(cell).get(name);if(m)return m.kind==='const'?m.v:(...a)=>m.f(...a);
    return undefined;
  },apply(_,self,args){if(cell.kind==='datatype'){const c=dtInfo(cell).ctors.get(cell.name);if(c)return c.fields.length?new c.cls(...args):c.single;}throw new Error(cell.name+' is not a constructor');},
  construct(_,args){return newClass(cell,'_ctor',args);}});
}
function newClass(cell,cname,args){const C=classInfo(cell).cls;const o=new C();const m=memberCells(cell).get(cname);if(m)m.f.apply(o,args);return o;}
// ---------------------------------------------------------------- types
function memberCells(cell){
  if(cell.$mem)return cell.$mem;
  const r=cell.$mem=new Map();
  for(const m of cell.decl.members||[]){if(m.k==='field'){for(const f of m.fields)r.set(f.name,{kind:'field',name:f.name,ty:f.ty,ghost:m.mods.has('ghost'),decl:m,owner:cell,inst:cell.inst});}
    else r.set(m.name,new Cell(m.k,m.name,m,cell.inst,cell));}
  return r;
}
function isStatic(m){return m.decl.mods.has('static');}
function dtInfo(cell){
  if(cell.$dt)return cell.$dt;
  const d=cell.decl;const Base=class extends $.DT{};
  Object.defineProperty(Base,'name',{value:d.name});
  const info=cell.$dt={cell,ctors:new Map(),base:Base};
  for(const c of d.ctors)Base.prototype[san(c.name+'?')]=false;
  Base.prototype.$cell=cell;
  attachMembers(cell,Base.prototype);
  d.ctors.forEach((c,ci)=>{
    const fields=c.fields.map((f,i)=>({name:f.name||String(i),ty:f.ty,ghost:f.ghost,prop:f.name?san(f.name):'_$'+i}));
    // distinct objects per constructor keep property access fast
    const ps=fields.map((_,i)=>'a'+i);
    const K=new Function('Base',`return class ${/^[A-Za-z_]\w*$/.test(c.name)?'C_'+c.name:'C'} extends Base{constructor(${ps}){super();${fields.map((f,i)=>`this.${f.prop}=a${i};`).join('')}}
      $vals(){return [${fields.map(f=>'this.'+f.prop)}];} $clone(){return new this.constructor(${fields.map(f=>'this.'+f.prop)});}}`)(Base);
    K.prototype.$cn=c.name;K.prototype.$ci=ci;K.prototype.$f=fields.map(f=>f.prop);K.prototype[san(c.name+'?')]=true;
    const o={name:c.name,fields,cls:K,ci,cell};if(!fields.length)o.single=new K();
    info.ctors.set(c.name,o);
  });
  return info;
}
function attachMembers(cell,proto){
  for(const [n,m] of memberCells(cell)){
    if(m.kind==='field')continue;
    if(m.kind==='const'){if(!isStatic(m))Object.defineProperty(proto,san(n),{configurable:true,get(){if(m.decl.e){if(!m.cf)m.cf=compileExprFn(m,m.decl.e,[],true);return m.cf.call(this);}const ov=m.prog.override(m);if(ov!==undefined)return ov;return this['$c'+n];}});continue;}
    if(isStatic(m)&&m.kind!=='constructor'){proto[san(n)]=function(...a){return m.f(...a);};continue;}
    proto[n.startsWith('operator')?'_'+n:san(n)]=function(...a){return m.f.apply(this,a);};
  }
}
function classInfo(cell){
  if(cell.$cls)return cell.$cls;
  const ex=cell.prog.externs['class '+cell.plain];
  if(ex){ex.prototype.$cell=cell;return cell.$cls={cell,cls:ex};}
  const C=class extends $.DObj{constructor(){super();for(const f of fs)this[f.p]=f.d();}};
  const info=cell.$cls={cell,cls:C};
  const fs=[];for(const [n,m] of memberCells(cell))if(m.kind==='field'){const t=resolveType(m.ty,{inst:cell.inst,owner:cell,tps:tpMap(cell.decl,null)});fs.push({p:san(n),d:defaultOf(t)});}
  Object.defineProperty(C,'name',{value:cell.name});C.prototype.$cell=cell;
  for(const e of cell.decl.ext||[]){const t=resolveType(e,{inst:cell.inst,owner:cell,tps:new Map()});if(t.k==='class'){const b=classInfo(t.cell);for(const n of Object.getOwnPropertyNames(b.cls.prototype))if(n!=='constructor')Object.defineProperty(C.prototype,n,Object.getOwnPropertyDescriptor(b.cls.prototype,n));}}
  attachMembers(cell,C.prototype);
  return info;
}
function defaultOf(t){
  if(!t)return ()=>undefined;
  switch(t.k){case 'int':case 'native':case 'bv':return ()=>0;case 'bool':return ()=>false;case 'seq':return ()=>[];case 'set':return ()=>new $.DSet();case 'map':return ()=>new $.DMap();case 'ms':return ()=>new $.DMs();case 'char':return ()=>'D';case 'real':return ()=>new $.Real(0n);
    case 'dt':return ()=>{const i=dtInfo(t.cell);for(const c of i.ctors.values())if(!c.fields.length)return c.single;const c=[...i.ctors.values()][0];const sc={inst:t.cell.inst,owner:t.cell,tps:tpMap(t.cell.decl,null)};return new c.cls(...c.fields.map(f=>{const ft=subst(resolveType(f.ty,sc),argMap(t));return ft&&ft.k==='dt'&&ft.cell===t.cell?undefined:defaultOf(ft)();}));};
    case 'tuple':return ()=>new $.Tup(t.args.map(a=>defaultOf(a)()));
    case 'class':case 'arr':return ()=>null;}
  return ()=>undefined;
}
function tpMap(decl,outer){const m=new Map(outer||[]);for(const n of decl.tps||[])m.set(n,{k:'tp',name:n,decl});return m;}
function argMap(t){const m=new Map();(t.cell.decl.tps||[]).forEach((n,i)=>{if(t.args&&t.args[i])m.set(n,t.args[i]);});m.decl=t.cell.decl;return m;}
function subst(t,m){
  if(!t||!m||!m.size)return t;
  switch(t.k){
    case 'tp':return m.get(t.name)&&(!m.decl||m.decl===t.decl)?m.get(t.name):t;
    case 'seq':case 'set':case 'ms':case 'arr':{const a=subst(t.a,m);return a===t.a?t:Object.assign({},t,{a});}
    case 'map':return Object.assign({},t,{a:subst(t.a,m),b:subst(t.b,m)});
    case 'dt':case 'class':case 'tuple':return t.args&&t.args.length?Object.assign({},t,{args:t.args.map(x=>subst(x,m))}):t;
    case 'fun':return {k:'fun',args:t.args.map(x=>subst(x,m)),ret:subst(t.ret,m)};
  }
  return t;
}
function unify(p,a,m,decl){
  if(!p||!a)return;
  if(p.k==='tp'){if(p.decl===decl&&!m.has(p.name)&&a.k!=='lit'&&a.k!=='empty')m.set(p.name,a);return;}
  if(p.k!==a.k)return;
  switch(p.k){case 'seq':case 'set':case 'ms':case 'arr':unify(p.a,a.a,m,decl);break;case 'map':unify(p.a,a.a,m,decl);unify(p.b,a.b,m,decl);break;
    case 'dt':case 'class':if(p.cell!==a.cell)return;case 'tuple':(p.args||[]).forEach((x,i)=>unify(x,a.args&&a.args[i],m,decl));break;
    case 'fun':p.args.forEach((x,i)=>unify(x,a.args[i],m,decl));unify(p.ret,a.ret,m,decl);break;}
}
function constInt(e){if(e.t==='Int')return BigInt(e.v);if(e.t==='Paren')return constInt(e.e);if(e.t==='Un'&&e.op==='-'){const v=constInt(e.e);return v===null?null:-v;}
  if(e.t==='Bin'){const a=constInt(e.a),b=constInt(e.b);if(a===null||b===null)return null;switch(e.op){case '+':return a+b;case '-':return a-b;case '*':return a*b;}}return null;}
function conjs(e,out=[]){if(!e)return out;if(e.t==='Paren')return conjs(e.e,out);if(e.t==='Bin'&&e.op==='&&'){conjs(e.a,out);conjs(e.b,out);}else if(e.t==='StmtExpr')conjs(e.e,out);else out.push(e);return out;}
function resolveNamed(x,args,inst){
  const d=x.decl;
  switch(x.kind){
    case 'datatype':return {k:'dt',cell:x,args};
    case 'class':return {k:'class',cell:x,args};
    case 'newtype':{
      if(x.$t)return x.$t;
      let lo=null,hi=null;
      const b=d.base?resolveType(d.base,{inst:x.inst,tps:new Map()}):T.int;
      if(b.k!=='int')return x.$t=Object.assign({},b);
      if(d.sub)for(const c of conjs(d.sub.c))if(c.t==='Bin'){
        const isV=e=>e.t==='Id'&&e.name===d.sub.v;
        if(isV(c.b)){const v=constInt(c.a);if(v!==null){if(c.op==='<=')lo=v;if(c.op==='<')lo=v+1n;if(c.op==='>')hi=v-1n;if(c.op==='>=')hi=v;}}
        if(isV(c.a)){const v=constInt(c.b);if(v!==null){if(c.op==='<=')hi=v;if(c.op==='<')hi=v-1n;if(c.op==='>')lo=v+1n;if(c.op==='>=')lo=v;}}
      }
      if(lo===null||hi===null)return x.$t=Object.assign({},T.int,{nt:x});
      return x.$t={k:'native',name:x.name,lo,hi,cell:x,los:lit(lo),his:lit(hi)};}
    case 'type':{
      {const to=x.prog.opts.types&&x.prog.opts.types[x.plain];if(to)return to(args);}
      if(!d.rhs){if(d.sub&&!d.rhs)return Object.assign({},T.int,{sub:{cell:x}});return {k:'opaque',cell:x,name:x.name,args};}
      if(x.busy)return {k:'opaque',cell:x,name:x.name};
      x.busy=true;let t;try{t=resolveType(d.rhs,{inst:x.inst,tps:tpMap(d,null)});}finally{x.busy=false;}
      const m=new Map();(d.tps||[]).forEach((n,i)=>{if(args[i])m.set(n,args[i]);});m.decl=d;
      t=subst(t,m);
      if(d.sub)t=Object.assign({},t,{sub:{cell:x,base:t}});
      else t=Object.assign({},t,{alias:x});
      return t;}
  }
  return null;
}
function lit(b){return b>=-9007199254740991n&&b<=9007199254740991n?String(b):String(b)+'n';}
function resolveType(ty,sc){
  if(!ty)return null;
  switch(ty.k){
    case 'fun':return {k:'fun',args:ty.args.map(a=>resolveType(a,sc)),ret:resolveType(ty.ret,sc)};
    case 'tuple':return {k:'tuple',args:ty.args.map(a=>resolveType(a,sc))};
  }
  const p=ty.path;
  const args=()=>ty.args.map(a=>resolveType(a,sc));
  if(p.length===1){
    const n=p[0];
    if(sc.tps&&sc.tps.has(n))return sc.tps.get(n);
    switch(n){
      case 'int':return T.int;case 'nat':return T.nat;case 'bool':return T.bool;case 'char':return T.char;case 'real':return T.real;case 'string':return T.str;
      case 'seq':return {k:'seq',a:args()[0]};case 'set':return {k:'set',a:args()[0]};case 'iset':return {k:'set',a:args()[0],inf:true};
      case 'multiset':return {k:'ms',a:args()[0]};case 'map':{const a=args();return {k:'map',a:a[0],b:a[1]};}case 'imap':{const a=args();return {k:'map',a:a[0],b:a[1],inf:true};}
      case 'object':case 'object?':return {k:'object'};case 'ORDINAL':return T.int;
    }
    if(/^array\d*\??$/.test(n))return {k:'arr',a:args()[0],n:+(n.replace(/\D/g,'')||1)};
    if(/^bv\d+$/.test(n))return {k:'bv',w:+n.slice(2)};
    let x=sc.inst.lookup(n);
    if((!x||x.kind==='ctor')&&n.endsWith('?'))x=sc.inst.lookup(n.slice(0,-1));
    if(x&&x.kind==='ctor'){ // a type of that name elsewhere?
      x=typeLookup(sc.inst,n);}
    if(x&&x.kind!=='datatype'&&x.kind!=='class'&&x.kind!=='type'&&x.kind!=='newtype'){const y=typeLookup(sc.inst,n);if(y)x=y;}
    if(!x||!x.decl)return null;
    return resolveNamed(x,args(),sc.inst);
  }
  // qualified
  let m=findModIn(sc.inst,p[0]);if(!m)return null;
  for(let i=1;i<p.length-1;i++){const x=m.own(p[i]);if(!x)return null;m=m.modOf(x);if(!m)return null;}
  let x=m.own(p[p.length-1]);if(!x&&p[p.length-1].endsWith('?'))x=m.own(p[p.length-1].slice(0,-1));
  if(!x){x=m.lookup(p[p.length-1]);}
  if(!x||!x.decl||x.kind==='ctor')return null;
  return resolveNamed(x,args(),sc.inst);
}
function typeLookup(inst,n){
  for(let s=inst;s;s=s.parent){s.build();const m=s.members.get(n);if(m&&['datatype','class','type','newtype'].includes(m.kind))return m;
    for(const o of s.opened){const om=s.modOf(o);if(!om)continue;const r=om.own(n);if(r&&['datatype','class','type','newtype'].includes(r.kind))return r;}}
  return null;
}
function findModIn(inst,name){
  for(let s=inst;s;s=s.parent){s.build();const m=s.members.get(name);if(m&&(m.kind==='import'||m.kind==='moddecl'||m.kind==='module')){const r=s.modOf(m);if(r)return r.build();}
    for(const o of s.opened){const om=s.modOf(o);if(!om||om===s)continue;om.build();const x=om.members.get(name);if(x&&(x.kind==='import'||x.kind==='moddecl'||x.kind==='module')){const r=om.modOf(x);if(r)return r.build();}}}
  return null;
}
// ---------------------------------------------------------------- code generation
class Cx{
  constructor(cell,erase){this.inst=cell.inst;this.owner=cell.owner;this.cell=cell;this.erase=erase;this.vars=new Map();this.parent=null;this.fn={cells:[],ids:new Map(),tmp:0};this.self=null;this.tps=tpMap(cell.decl||{},cell.owner?tpMap(cell.owner.decl,null):null);this.labels=[];}
  sub(){const c=Object.create(this);c.vars=new Map();c.up=this;return c;}
  find(n){for(let c=this;c;c=c.up){const v=c.vars.get(n);if(v)return v;}return null;}
  def(n,ty,o={}){const js=san(n).replace(/\W/g,'$')+'_'+(this.fn.tmp++);const v=Object.assign({js,ty,name:n},o);this.vars.set(n,v);return v;}
  tmp(){return '$t'+(this.fn.tmp++);}
  ref(cell){let i=this.fn.ids.get(cell);if(i===undefined){i=this.fn.cells.length;this.fn.cells.push(cell);this.fn.ids.set(cell,i);}return 'c'+i;}
  type(ty){return resolveType(ty,this);}
}
const NUL={c:'undefined',t:null};
function strip(e){while(e&&e.t==='Paren')e=e.e;return e;}
function err(cx,e,m){throw new CompErr(`${cx.cell.qname}:${e&&e.line||''}: ${m}`);}
function gen(e,cx,want){ // -> {c,t}
  try{return gen0(e,cx,want);}catch(x){
    if(!(x instanceof CompErr))throw x;
    if(cx.strict)throw x;
    cx.inst.prog.stats.unsup.push(x.message);
    return {c:`$.unsup(${JSON.stringify(x.message)})`,t:null};
  }
}
const g=(e,cx,want)=>gen(e,cx,want).c;
function numBin(op,a,b,cx,e){
  let t=a.t,u=b.t;
  const res=isNum(t)&&t.k!=='lit'?t:isNum(u)&&u.k!=='lit'?u:(t&&t.k==='lit'&&u&&u.k==='lit')?{k:'lit'}:null;
  if(res&&res.k==='bv'){
    const w=res.w;
    const f={'+':'add','-':'sub','*':'mul'}[op];
    if(f)return {c:`$.wrap($.${f}(${a.c},${b.c}),${w})`,t:res};
  }
  const f={'+':'add','-':'sub','*':'mul','/':'div','%':'mod'}[op];
  let c=`$.${f}(${a.c},${b.c})`;
  if(res&&res.k==='native'){if(op==='+'||op==='-'||op==='*')c=`$.rng(${c},${res.los},${res.his})`;return {c,t:bare(res)};}
  if(res)return {c,t:res.k==='int'?T.int:res};
  return {c,t:null};
}
const bare=t=>t&&(t.sub||t.alias)?(t.k==='int'?T.int:Object.assign({},t,{sub:undefined,alias:undefined})):t;
function gen0(e,cx,want){
  switch(e.t){
    case 'Paren':return gen(e.e,cx,want);
    case 'Int':{const v=BigInt(e.v);return {c:lit(v),t:{k:'lit'}};}
    case 'Real':return {c:`$.Real.parse("${e.v}")`,t:T.real};
    case 'Bool':return {c:String(e.v),t:T.bool};
    case 'Str':return {c:JSON.stringify(e.v),t:T.str};
    case 'Char':return {c:JSON.stringify(e.v),t:T.char};
    case 'Null':return {c:'null',t:{k:'object'}};
    case 'This':{const s=cx.selfVar();return s;}
    case 'Tuple':{const es=e.es.map((x,i)=>gen(x,cx,want&&want.k==='tuple'?want.args[i]:null));return {c:`new $.Tup([${es.map(x=>x.c)}])`,t:{k:'tuple',args:es.map(x=>x.t)}};}
    case 'SeqDisp':{const wa=want&&want.k==='seq'?want.a:null;const es=e.es.map(x=>gen(x,cx,wa));const t0=es.map(x=>x.t).find(t=>t&&t.k!=='lit');return {c:`[${es.map(x=>x.c)}]`,t:{k:'seq',a:wa||t0||null}};}
    case 'SetDisp':{const es=e.es.map(x=>gen(x,cx));return {c:`$.DSet.of(${es.map(x=>x.c)})`,t:{k:'set',a:want&&want.k==='set'&&want.a||(es[0]?es[0].t:null)}};}
    case 'MsDisp':return {c:`$.DMs.from([${e.es.map(x=>g(x,cx))}])`,t:{k:'ms',a:null}};
    case 'MsOf':{const x=gen(e.e,cx);return {c:`$.DMs.from($.elems(${x.c}))`,t:{k:'ms',a:x.t&&x.t.a}};}
    case 'MapDisp':{const ps=e.ps.map(([k,v])=>[gen(k,cx,want&&want.a),gen(v,cx,want&&want.b)]);return {c:`$.DMap.of([${ps.map(([k,v])=>`[${k.c},${v.c}]`)}])`,t:{k:'map',a:want&&want.k==='map'&&want.a||(ps[0]?ps[0][0].t:null),b:want&&want.k==='map'&&want.b||(ps[0]?ps[0][1].t:null)}};}
    case 'Card':{const x=gen(e.e,cx);return {c:`$.card(${x.c})`,t:T.int};}
    case 'As':{
      const x=gen(e.e,cx),t=cx.type(e.ty);
      if(!t)err(cx,e,'unknown type in as');
      if(t.k==='native'){
        if(x.t&&x.t.k==='char')return {c:`${x.c}.charCodeAt(0)`,t};
        if(x.t&&x.t.k==='native'&&x.t.lo>=t.lo&&x.t.hi<=t.hi)return {c:x.c,t};
        return {c:`$.rng(${x.c},${t.los},${t.his})`,t};}
      if(t.k==='bv')return {c:x.t&&x.t.k==='bv'&&x.t.w<=t.w?x.c:`$.rng(${x.c},0,${lit((1n<<BigInt(t.w))-1n)})`,t};
      if(t.k==='int'){if(x.t&&x.t.k==='char')return {c:`${x.c}.charCodeAt(0)`,t};if(x.t&&x.t.k==='real')return {c:`$.norm(${x.c}.n/${x.c}.d)`,t};return {c:t.nat?`$.rng(${x.c},0,Infinity)`:x.c,t};}
      if(t.k==='char')return {c:`String.fromCharCode(Number(${x.c}))`,t};
      if(t.k==='real')return {c:x.t&&x.t.k==='real'?x.c:`new $.Real($.big(${x.c}))`,t};
      return {c:x.c,t};}
    case 'Is':err(cx,e,'is');
    case 'Un':{
      if(e.op==='-'){const x=gen(e.e,cx);if(x.t&&x.t.k==='bv')return {c:`$.wrap($.neg(${x.c}),${x.t.w})`,t:x.t};return {c:`$.neg(${x.c})`,t:x.t};}
      const x=gen(e.e,cx);if(x.t&&x.t.k==='bv')return {c:`$.norm($.big(${x.c})^${(1n<<BigInt(x.t.w))-1n}n)`,t:x.t};
      return {c:`!(${x.c})`,t:T.bool};}
    case 'Bin':return genBin(e,cx,want);
    case 'Ite':{
      if(e.bind){return genLetIf(e,cx,want);}
      const c=gen(e.c,cx),a=gen(e.a,cx,want),b=gen(e.b,cx,want);return {c:`(${c.c}?${a.c}:${b.c})`,t:pick(a.t,b.t,want)};}
    case 'Let':return genLet(e,cx,want);
    case 'Match':return genMatch(e,cx,want);
    case 'StmtExpr':return gen(e.e,cx,want);
    case 'Index':{
      const s=gen(e.e,cx);
      if(e.idx.length>1){return {c:`$.atN(${s.c},[${e.idx.map(x=>g(x,cx))}])`,t:s.t&&s.t.a};}
      const i=gen(e.i,cx);let t=null;if(s.t){if(s.t.k==='map')t=s.t.b;else if(s.t.k==='ms')t=T.int;else if(s.t.k==='dt'){const mm=memberCells(s.t.cell).get('operator[]');if(mm)t=subst(resolveType(mm.decl.ret,{inst:s.t.cell.inst,tps:tpMap(s.t.cell.decl,null)}),argMap(s.t));}else t=s.t.a;}
      return {c:`$.at(${s.c},${i.c})`,t};}
    case 'Slice':{const s=gen(e.e,cx);return {c:`$.slice(${s.c},${e.a?g(e.a,cx):'null'},${e.b?g(e.b,cx):'null'})`,t:s.t?(s.t.k==='arr'?{k:'seq',a:s.t.a}:bare(s.t)):null};}
    case 'Slices':{const s=gen(e.e,cx);return {c:`$.slices(${s.c},[${e.lens.map(x=>g(x,cx))}])`,t:{k:'seq',a:s.t}};}
    case 'SeqUpd':{const s=gen(e.e,cx);return {c:`$.put(${s.c},${g(e.i,cx)},${g(e.v,cx,s.t&&(s.t.k==='map'?s.t.b:s.t.a))})`,t:bare(s.t)};}
    case 'DtUpd':{
      const s=gen(e.e,cx);let c=s.c;
      for(const [f,v] of e.ups){
        let prop=/^\d+$/.test(f)?'_'+f:san(f),ft=null,gh=false;
        if(s.t&&s.t.k==='dt'){const fi=fieldInfo(s.t,f);if(fi){ft=fi.ty;gh=fi.ghost;prop=fi.prop;}}
        c=`$.upd(${c},"${prop}",${gh&&cx.erase?'undefined':g(v,cx,ft)})`;}
      return {c,t:bare(s.t)};}
    case 'Id':return genId(e,cx,want);
    case 'Dot':return genDot(e,cx,want);
    case 'Call':return genCall(e,cx,want);
    case 'Lambda':{
      const c2=cx.sub();const ps=e.params.map((p,i)=>c2.def(p.name,p.ty?cx.type(p.ty):(want&&want.k==='fun'?want.args[i]:null)).js);
      const b=gen(e.body,c2,want&&want.k==='fun'?want.ret:null);
      const fn=`((${ps})=>${wrapObj(b.c)})`;
      const c=e.reqs.length?`$.lam(${fn},(${ps})=>${e.reqs.map(r=>g(r,c2)).join('&&')})`:fn;
      return {c,t:{k:'fun',args:e.params.map(p=>c2.find(p.name).ty),ret:b.t}};}
    case 'SeqInit':{const f=gen(e.f,cx,{k:'fun',args:[T.int],ret:want&&want.k==='seq'?want.a:null});return {c:`$.seqinit(${g(e.n,cx)},${f.c})`,t:{k:'seq',a:f.t&&f.t.k==='fun'?f.t.ret:null}};}
    case 'Quant':return genQuant(e,cx);
    case 'SetComp':return genSetComp(e,cx,want);
    case 'MapComp':return genMapComp(e,cx,want);
    case 'Old':if(cx.oldMode)return cx.oldMode(e,cx);err(cx,e,'old');
    case 'Opaque':return {c:'true',t:T.bool};
    case 'Inout':return gen(e.e,cx,want);
    case 'New':case 'NewArr':return genNew(e,cx,want);
    case 'Havoc':return NUL;
    case 'Raw':return {c:e.c,t:e.ty||null};
  }
  err(cx,e,'expression '+e.t);
}
function wrapObj(c){return c[0]==='{'?`(${c})`:c;}
function pick(a,b,w){if(a&&a.k!=='lit'&&!(a.k==='seq'&&!a.a))return bare(a);if(b&&b.k!=='lit')return bare(b);return a||b||w||null;}
Cx.prototype.selfVar=function(){const v=this.find('self$');if(v)return {c:v.js,t:v.ty};throw new CompErr(this.cell.qname+': no this');};
function genBin(e,cx,want){
  const op=e.op;
  switch(op){
    case '&&':return {c:`(${g(e.a,cx)}&&${g(e.b,cx)})`,t:T.bool};
    case '||':return {c:`(${g(e.a,cx)}||${g(e.b,cx)})`,t:T.bool};
    case '==>':return {c:`(!(${g(e.a,cx)})||${g(e.b,cx)})`,t:T.bool};
    case '<==>':return {c:`(${g(e.a,cx)}===${g(e.b,cx)})`,t:T.bool};
    case 'in':return {c:`$.in(${g(e.a,cx)},${g(e.b,cx)})`,t:T.bool};
    case '!in':return {c:`!$.in(${g(e.a,cx)},${g(e.b,cx)})`,t:T.bool};
    case '!!':return {c:`$.disj(${g(e.a,cx)},${g(e.b,cx)})`,t:T.bool};
  }
  if(op==='=='||op==='!='){
    const a=gen(e.a,cx),b=gen(e.b,cx,a.t);
    if(isNum(a.t)&&isNum(b.t))return {c:`(${a.c}${op}=${b.c})`,t:T.bool};
    return {c:`${op==='=='?'':'!'}$.eq(${a.c},${b.c})`,t:T.bool};
  }
  if(op==='<'||op==='<='||op==='>'||op==='>='){
    const a=gen(e.a,cx),b=gen(e.b,cx);
    if(isNum(a.t)&&isNum(b.t))return {c:`(${a.c}${op}${b.c})`,t:T.bool};
    if(op==='<')return {c:`$.lt(${a.c},${b.c})`,t:T.bool};
    if(op==='<=')return {c:`$.le(${a.c},${b.c})`,t:T.bool};
    if(op==='>')return {c:`$.gt(${a.c},${b.c})`,t:T.bool};
    return {c:`$.ge(${a.c},${b.c})`,t:T.bool};
  }
  if(op==='&'||op==='|'||op==='^'){const a=gen(e.a,cx,want),b=gen(e.b,cx,want);const t=a.t&&a.t.k==='bv'?a.t:b.t&&b.t.k==='bv'?b.t:null;if(a.t&&a.t.k==='bool')return {c:`(${a.c}${op==='&'?'&&':'||'}${b.c})`,t:T.bool};return {c:`$.bwU("${op}",${a.c},${b.c})`,t};}
  if(op==='<<'||op==='>>'){
    const a=gen(e.a,cx,want),b=gen(e.b,cx);const t=a.t&&a.t.k==='bv'?a.t:want&&want.k==='bv'?want:null;
    if(op==='>>')return {c:`$.shr(${a.c},${b.c})`,t};
    if(!t)err(cx,e,'<< of unknown width');
    return {c:`$.shl(${a.c},${b.c},${t.w})`,t};}
  const a=gen(e.a,cx,want),b=gen(e.b,cx,want);
  if(isNum(a.t)||isNum(b.t)||op==='/'||op==='%')return numBin(op,a,b,cx,e);
  if(op==='+'){const ty=pick(a.t,b.t,null);return {c:`$.add(${a.c},${b.c})`,t:ty};}
  if(op==='-')return {c:`$.sub(${a.c},${b.c})`,t:a.t?(a.t.k==='char'?T.char:bare(a.t)):null};
  if(op==='*')return {c:`$.mul(${a.c},${b.c})`,t:pick(a.t,b.t,null)};
  err(cx,e,'operator '+op);
}
$.gt=(a,b)=>$.lt(b,a);$.ge=(a,b)=>$.le(b,a);
$.lam=(f,r)=>{f.$req=r;return f;};
$.freq=f=>f.$req||(()=>true);
function scopeOfDt(cell){return {inst:cell.inst,owner:cell,tps:tpMap(cell.decl,null)};}
function fieldInfo(t,f){
  const info=dtInfo(t.cell);
  for(const c of info.ctors.values())for(const x of c.fields)if(x.name===f)return {ty:subst(resolveType(x.ty,scopeOfDt(t.cell)),argMap(t)),ghost:x.ghost,prop:x.prop};
  return null;
}
// resolution of identifiers and dotted names to entities
const isReveal=n=>/^reveal_/.test(n);
function resolveName(e,cx){ // Id -> entity
  const v=cx.find(e.name);if(v)return {k:'var',v};
  if(cx.owner){
    const m=memberCells(cx.owner).get(e.name);
    if(m)return {k:'member',m,self:true,owner:cx.owner};
    if(cx.owner.kind==='datatype'){
      const d=cx.owner.decl;
      for(const c of d.ctors){for(const f of c.fields)if(f.name===e.name&&cx.find('self$'))return {k:'selffield',f:e.name};}
      for(const c of d.ctors)if(c.name+'?'===e.name&&cx.find('self$'))return {k:'selffield',f:e.name,bool:true};
    }
    if(cx.owner.decl.ext)for(const x of cx.owner.decl.ext){const t=resolveType(x,cx);if(t&&t.k==='class'){const m=memberCells(t.cell).get(e.name);if(m)return {k:'member',m,self:true,owner:t.cell};}}
  }
  const x=cx.inst.lookup(e.name);
  if(!x)return null;
  return ent(x,cx.inst);
}
function ent(x,inst){
  switch(x.kind){
    case 'ctor':return {k:'ctor',cell:x.cell,name:x.name};
    case 'function':case 'method':case 'const':return {k:'cell',cell:x};
    case 'datatype':case 'class':case 'type':case 'newtype':return {k:'type',cell:x};
    case 'module':case 'import':case 'moddecl':{const m=(x.scope||inst).modOf(x);if(!m)return null;return {k:'mod',mod:m.build()};}
  }
  return null;
}
function resolveDot(e,cx){ // Dot -> entity or null when it is a value member access
  const b=strip(e.e);let be=null;
  if(b.t==='Id')be=resolveName(b,cx);else if(b.t==='Dot')be=resolveDot(b,cx);
  if(!be)return null;
  if(be.k==='mod'){
    const x=be.mod.own(e.f);if(x)return ent(x,be.mod);
    const c=be.mod.ctorIn(e.f);if(c)return {k:'ctor',cell:c,name:e.f};
    const y=be.mod.lookup(e.f);if(y)return ent(y,be.mod);
    return null;
  }
  if(be.k==='type'){
    const t=resolveNamed(be.cell,[],cx.inst);
    const tc=t&&(t.k==='dt'||t.k==='class')?t.cell:be.cell;
    if(tc.kind==='datatype'&&dtInfo(tc).ctors.has(e.f))return {k:'ctor',cell:tc,name:e.f};
    const m=memberCells(tc).get(e.f);if(m)return {k:'member',m,owner:tc};
    return null;
  }
  return null;
}
function cellType(cell,args){
  const d=cell.decl;const sc={inst:cell.inst,owner:cell.owner,tps:tpMap(d,cell.owner?tpMap(cell.owner.decl,null):null)};
  return sc;
}
function genEnt(en,e,cx,want){
  switch(en.k){
    case 'var':{if(en.v.ghostErased&&cx.erase)return NUL;return {c:en.v.js,t:en.v.ty};}
    case 'selffield':{const s=cx.selfVar();return memberAccess(s,en.f,cx,e);}
    case 'ctor':{const info=dtInfo(en.cell).ctors.get(en.name);if(info.fields.length){return {c:`((...a)=>new ${cx.ref({ctor:info})}(...a))`,t:null};}
      return {c:cx.ref({single:info}),t:{k:'dt',cell:en.cell,args:want&&want.k==='dt'&&want.cell===en.cell?want.args:[]}};}
    case 'cell':{
      const c=en.cell;
      if(c.kind==='const')return {c:`${cx.ref(c)}.v`,t:c.decl.ty?resolveType(c.decl.ty,cellType(c)):inferConst(c)};
      const d=c.decl,sc=cellType(c);
      return {c:`$.fval(${cx.ref(c)})`,t:d.params?{k:'fun',args:d.params.map(p=>resolveType(p.ty,sc)),ret:d.ret?resolveType(d.ret,sc):null}:null};}
    case 'member':{
      const m=en.m;
      if(m.kind==='const'&&(isStatic(m)||!en.self&&!cx.find('self$')))return {c:`${cx.ref(m)}.v`,t:m.decl.ty?resolveType(m.decl.ty,cellType(m)):null};
      if(m.kind==='field'||m.kind==='const'){const s=cx.selfVar();return memberAccess(s,m.name,cx,e);}
      if(isStatic(m)||!en.self)return {c:`$.fval(${cx.ref(m)})`,t:null};
      const s=cx.selfVar();return {c:`$.bound(${cx.ref(m)},${s.c})`,t:null};}
  }
  if(en.k==='type'||en.k==='mod'){const name=e.t==='Dot'?e.f:e.name;const c=en.k==='type'?typeCtor(en.cell,name,cx):lookupCtor(cx.inst,name);if(c)return genEnt({k:'ctor',cell:c,name},e,cx,want);}
  err(cx,e,'cannot use '+en.k+' as a value');
}
function inferConst(c){return c.decl.e&&constInt(c.decl.e)!==null?T.int:null;}
$.fval=c=>{if(c.$fv)return c.$fv;const f=(...a)=>c.f(...a);f.$id='c'+c.id;Object.defineProperty(f,'$req',{get(){return (...a)=>c.req(...a);}});return c.$fv=f;};
$.bound=(c,s)=>{const f=(...a)=>c.f.apply(s,a);f.$req=(...a)=>c.req.apply(s,a);return f;};
function genId(e,cx,want){const en=resolveName(e,cx);if(!en)err(cx,e,'unresolved name '+e.name);return genEnt(en,e,cx,want);}
function memberAccess(s,f,cx,e){
  const t=s.t;
  if(t&&t.k==='dt'){
    if(f.endsWith('?')&&dtInfo(t.cell).ctors.has(f.slice(0,-1)))return {c:`${s.c}.${san(f)}`,t:T.bool};
    const fi=fieldInfo(t,f);
    if(fi){
      if(fi.ghost&&cx.erase)return {c:'undefined',t:fi.ty};
      const n=dtInfo(t.cell).ctors.size;
      return {c:n>1?`$.mem(${s.c},"${fi.prop}")`:`${s.c}.${fi.prop}`,t:fi.ty};}
    const m=memberCells(t.cell).get(f);
    if(m){
      if(m.kind==='const')return isStatic(m)?{c:`${cx.ref(m)}.v`,t:resolveType(m.decl.ty,cellType(m))}:{c:`${s.c}.${san(f)}`,t:m.decl.ty?subst(resolveType(m.decl.ty,scopeOfDt(t.cell)),argMap(t)):null};
      return {c:`$.bound(${cx.ref(m)},${s.c})`,t:null};}
    err(cx,e,`no member ${f} in ${t.cell.qname}`);
  }
  if(t&&t.k==='class'){
    const m=memberCells(t.cell).get(f);
    if(m&&m.kind==='field'){return {c:`$.nn(${s.c}).${san(f)}`,t:subst(resolveType(m.ty,scopeOfDt(t.cell)),argMap(t))};}
    if(m&&m.kind==='const')return isStatic(m)?{c:`${cx.ref(m)}.v`,t:null}:{c:`${s.c}.${san(f)}`,t:m.decl.ty?resolveType(m.decl.ty,scopeOfDt(t.cell)):null};
    if(m)return {c:`$.bound(${cx.ref(m)},${s.c})`,t:null};
    return {c:`${s.c}.${san(f)}`,t:null};
  }
  if(t&&t.k==='tuple'&&/^\d+$/.test(f))return {c:`${s.c}._${f}`,t:t.args[+f]};
  if(t&&t.k==='arr'&&f.startsWith('Length'))return {c:`${s.c}._${f}`,t:T.int};
  if(t&&t.k==='map'){if(f==='Keys')return {c:`${s.c}._Keys`,t:{k:'set',a:t.a,inf:t.inf}};if(f==='Values')return {c:`${s.c}._Values`,t:{k:'set',a:t.b,inf:t.inf}};if(f==='Items')return {c:`${s.c}._Items`,t:{k:'set',a:{k:'tuple',args:[t.a,t.b]},inf:t.inf}};}
  if(t&&t.k==='real'&&f==='Floor')return {c:`$.norm(${s.c}.n/${s.c}.d)`,t:T.int};
  if(f==='requires')return {c:`$.freq(${s.c})`,t:null};
  if(f==='reads')return {c:`(()=>new $.DSet())`,t:null};
  return {c:`$.mem(${s.c},"${/^\d+$/.test(f)?'_'+f:san(f)}")`,t:f.endsWith('?')?T.bool:null};
}
$.nn=o=>{if(o===null||o===undefined)throw new DafnyFail('null dereference');return o;};
function genDot(e,cx,want){
  const en=resolveDot(e,cx);
  if(en){return genEnt(en,e,cx,want);}
  const s=gen(e.e,cx);
  return memberAccess(s,e.f,cx,e);
}
function argTypes(cell,recvT,targs,cx){
  const sc=cellType(cell);const m=new Map();
  if(recvT&&cell.owner)for(const [k,v] of argMap(recvT))m.set(k,v);
  if(targs)(cell.decl.tps||[]).forEach((n,i)=>{if(targs[i])m.set(n,cx.type(targs[i]));});
  return {sc,m};
}
function genArgs(cell,args,cx,recvT,targs){ // -> {cs, rt}
  const d=cell.decl,{sc,m}=argTypes(cell,recvT,targs,cx);
  const erase=cx.erase&&(cell.kind==='method'||cell.kind==='constructor'||d.meth)&&!d.lemma;
  const cs=[];
  let ordered=args;
  if(args.some(a=>a.t==='Named')){ordered=d.params.map(p=>null);args.forEach((a,i)=>{if(a.t==='Named'){const k=d.params.findIndex(p=>p.name===a.name);ordered[k]=a.e;}else ordered[i]=a;});ordered=ordered.map((a,i)=>a||d.params[i].def);}
  else if(args.length<d.params.length)ordered=[...args,...d.params.slice(args.length).map(p=>p.def).filter(x=>x)];
  ordered.forEach((a,i)=>{
    const p=d.params[i];
    if(p&&p.ghost&&erase){cs.push('undefined');return;}
    if(a.t==='Inout'&&a.ghost&&cx.erase){cs.push('undefined');return;}
    const pt=p?resolveType(p.ty,sc):null;
    const x=gen(a,cx,pt?substAll(pt,m):null);
    if(pt)unifyAll(pt,x.t,m,sc);
    cs.push(x.c);
  });
  let rt=null;
  if(d.ret)rt=substAll(resolveType(d.ret,sc),m);
  const outs=d.outs?d.outs.map(o=>substAll(resolveType(o.ty,sc),m)):null;
  return {cs,rt,outs};
}
function substAll(t,m){return subst(t,m);}
function unifyAll(p,a,m,sc){
  if(!p||!a)return;
  if(p.k==='tp'){if(!m.has(p.name)&&a.k!=='lit'&&!(a.k==='seq'&&!a.a))m.set(p.name,a);return;}
  if(p.k!==a.k)return;
  switch(p.k){case 'seq':case 'set':case 'ms':case 'arr':unifyAll(p.a,a.a,m);break;case 'map':unifyAll(p.a,a.a,m);unifyAll(p.b,a.b,m);break;
    case 'dt':case 'class':if(p.cell!==a.cell)return;case 'tuple':(p.args||[]).forEach((x,i)=>unifyAll(x,a.args&&a.args[i],m));break;
    case 'fun':p.args.forEach((x,i)=>unifyAll(x,a.args[i],m));unifyAll(p.ret,a.ret,m);break;}
}
function genCtor(cell,name,args,cx,want,targs){
  const info=dtInfo(cell).ctors.get(name);
  const m=new Map();if(targs)(cell.decl.tps||[]).forEach((n,i)=>{if(targs[i])m.set(n,cx.type(targs[i]));});
  if(want&&want.k==='dt'&&want.cell===cell)for(const [k,v] of argMap(want))if(v&&v.k!=='tp')m.set(k,v);
  if(args.length&&args[0].t==='Named'||args.some(a=>a.t==='Named')){const o=info.fields.map(()=>null);args.forEach((a,i)=>{if(a.t==='Named')o[info.fields.findIndex(f=>f.name===a.name)]=a.e;else o[i]=a;});args=o;}
  const sc=scopeOfDt(cell);
  const cs=args.map((a,i)=>{const f=info.fields[i];if(!f)err(cx,a,'too many constructor arguments');if(f.ghost&&cx.erase)return 'undefined';
    const ft=resolveType(f.ty,sc);const wt=subst(ft,m);const x=gen(a,cx,wt);unifyAll(ft,x.t,m);
    return checkInto(x,wt);});
  if(!info.fields.length)return {c:cx.ref({single:info}),t:{k:'dt',cell,args:(cell.decl.tps||[]).map(n=>m.get(n)||null)}};
  return {c:`new ${cx.ref({ctor:info})}(${cs})`,t:{k:'dt',cell,args:(cell.decl.tps||[]).map(n=>m.get(n)||null)}};
}
function checkInto(x,t){ // range check when a value of unknown or wider type flows into a native one
  if(t&&t.k==='native'){
    if(x.t&&x.t.k==='native'&&x.t.lo>=t.lo&&x.t.hi<=t.hi)return x.c;
    if(/^\d+n?$/.test(x.c)&&BigInt(x.c.replace('n',''))<=t.hi)return x.c;
    return `$.rng(${x.c},${t.los},${t.his})`;
  }
  return x.c;
}
function genCall(e,cx,want){
  const f=strip(e.f);
  let en=null;
  if((f.t==='Id'&&isReveal(f.name))||(f.t==='Dot'&&isReveal(f.f)))return {c:'undefined',t:null};
  if(f.t==='Id')en=resolveName(f,cx);else if(f.t==='Dot')en=resolveDot(f,cx);
  if(en){
    if(en.k==='ctor')return genCtor(en.cell,en.name,e.args,cx,want,f.targs);
    if(en.k==='cell'&&en.cell.kind!=='const'){
      const a=genArgs(en.cell,e.args,cx,null,f.targs);
      return {c:`${cx.ref(en.cell)}.f(${a.cs})`,t:a.rt||(a.outs&&a.outs.length===1?a.outs[0]:null),outs:a.outs,cell:en.cell};
    }
    if(en.k==='member'&&en.m.kind!=='field'&&en.m.kind!=='const'){
      const m=en.m;
      if(isStatic(m)||!en.self){
        if(isStatic(m)||!cx.find('self$')||en.owner!==cx.owner){const a=genArgs(m,e.args,cx,null,f.targs);return {c:`${cx.ref(m)}.f(${a.cs})`,t:a.rt||(a.outs&&a.outs.length===1?a.outs[0]:null),outs:a.outs,cell:m};}
      }
      const s=cx.selfVar();const a=genArgs(m,e.args,cx,s.t,f.targs);
      return {c:`${cx.ref(m)}.f.call(${[s.c,...a.cs]})`,t:a.rt||(a.outs&&a.outs.length===1?a.outs[0]:null),outs:a.outs,cell:m};
    }
    if(en.k==='type'){ // a constructor named like its type
      const c=typeCtor(en.cell,f.t==='Id'?f.name:f.f,cx);if(c)return genCtor(c,f.t==='Id'?f.name:f.f,e.args,cx,want,f.targs);
      err(cx,e,'call of a type');
    }
  }
  if(f.t==='Dot'&&!(en&&en.k!=='type')){
    const s=gen(f.e,cx);
    if(s.t&&(s.t.k==='dt'||s.t.k==='class'||s.t.k==='opaque')&&s.t.cell){
      const m=memberCells(s.t.cell).get(f.f);
      if(m&&m.kind!=='field'&&m.kind!=='const'){
        const a=genArgs(m,e.args,cx,s.t,f.targs);
        const t=a.rt||(a.outs&&a.outs.length===1?a.outs[0]:null);
        if(isStatic(m))return {c:`${cx.ref(m)}.f(${a.cs})`,t,outs:a.outs,cell:m};
        if(s.t.k==='class')return {c:`$.nn(${s.c}).${san(f.f)}(${a.cs})`,t,outs:a.outs,cell:m};
        return {c:`${cx.ref(m)}.f.call(${[s.c,...a.cs]})`,t,outs:a.outs,cell:m};
      }
    }
    if(f.f==='requires')return {c:`$.freq(${s.c})(${e.args.map(a=>g(a,cx))})`,t:T.bool};
    if(!(s.t&&(s.t.k==='dt'))||fieldInfo(s.t,f.f)===null){
      if(s.t&&s.t.k==='dt')err(cx,e,`no member ${f.f} in ${s.t.cell.qname}`);
      return {c:`$.callm(${s.c},"${san(f.f)}",[${e.args.map(a=>dynArg(a,cx))}])`,t:null};
    }
  }
  const fv=gen(e.f,cx);
  const as=e.args.map((a,i)=>gen(a,cx,fv.t&&fv.t.k==='fun'?fv.t.args[i]:null).c);
  return {c:`(${fv.c})(${as})`,t:fv.t&&fv.t.k==='fun'?fv.t.ret:null};
}
function typeCtor(cell,name,cx){const t=resolveNamed(cell,[],cx.inst);if(t&&t.k==='dt'&&dtInfo(t.cell).ctors.has(name))return t.cell;
  return lookupCtor(cx.inst,name)||cell.inst.ctorIn(name);}
function dynArg(a,cx){return cx.erase&&isGhostExpr(a,cx)?'undefined':g(a,cx);}
$.callm=(o,f,as)=>{if(o===null||o===undefined)throw new DafnyFail('null dereference calling '+f);const m=o[f];if(typeof m!=='function')throw new Unsup('no method '+f+' on '+$.desc(o));return m.apply(o,as);};
// a call of a ghost method or lemma
function ghostCall(e,cx){const x=strip(e);if(x.t!=='Call')return false;const f=strip(x.f);const en=f.t==='Id'?quiet(()=>resolveName(f,cx)):f.t==='Dot'?quiet(()=>resolveDot(f,cx)):null;const c=en&&(en.k==='cell'?en.cell:en.k==='member'?en.m:null);return !!c&&c.kind==='method'&&(c.decl.lemma||c.decl.mods.has('ghost'));}
function isGhostExpr(e,cx){ // mentions something that is erased, so may only be used in ghost positions
  if(!e||typeof e!=='object')return false;
  if(Array.isArray(e))return e.some(x=>isGhostExpr(x,cx));
  switch(e.t){
    case 'Id':{const v=cx.find(e.name);if(v)return !!v.ghostErased;const en=quiet(()=>resolveName(e,cx));if(!en)return false;
      if(en.k==='member'&&en.m.kind==='field')return !!en.m.ghost;
      if((en.k==='cell'&&en.cell.kind==='const'&&en.cell.decl.mods.has('ghost'))||(en.k==='member'&&en.m.kind==='const'&&en.m.decl.mods.has('ghost')))return true;
      if(en.k==='selffield'&&!en.bool)return lhsGhost({t:'Dot',e:{t:'This'},f:e.name},cx);return false;}
    case 'Dot':{const en=quiet(()=>resolveDot(e,cx));if(en)return (en.k==='cell'&&en.cell.kind==='const'&&en.cell.decl.mods.has('ghost'));
      if(isGhostExpr(e.e,cx))return true;return lhsGhost(e,cx);}
    case 'Call':{
      const f=strip(e.f);let c=null,ct=null;
      const en=f.t==='Id'?quiet(()=>resolveName(f,cx)):f.t==='Dot'?quiet(()=>resolveDot(f,cx)):null;
      if(en&&en.k==='ctor')ct=quiet(()=>dtInfo(en.cell).ctors.get(en.name));
      else if(en&&en.k==='type'&&en.cell&&en.cell.kind==='datatype')ct=quiet(()=>dtInfo(en.cell).ctors.get(f.t==='Id'?f.name:f.f));
      else if(en&&en.k==='cell')c=en.cell;else if(en&&en.k==='member')c=en.m;
      else if(f.t==='Dot'&&!en){const s=quiet(()=>gen(f.e,strictOf(cx)));if(s&&s.t&&s.t.cell)c=memberCells(s.t.cell).get(f.f);if(isGhostExpr(f.e,cx))return true;}
      if(c&&c.kind==='function'&&!c.decl.meth)return true;
      if(c&&c.kind==='method'&&(c.decl.lemma||c.decl.mods.has('ghost')))return true;
      if(f.t==='Dot'&&c&&!en&&isGhostExpr(f.e,cx))return true;
      if(!c&&!ct&&f.t==='Id'&&isGhostExpr(f,cx))return true;
      const ps=c&&c.decl&&c.decl.params||ct&&ct.fields||[];
      return (e.args||[]).some((a,i)=>{if(ps[i]&&ps[i].ghost)return false;return isGhostExpr(a,cx);});}
    case 'Old':return true;
    case 'Lambda':{const c2=cx.sub();for(const p of e.params)c2.vars.set(p.name,{js:'undefined',ty:null,name:p.name});return isGhostExpr(e.body,c2);}
    case 'Quant':case 'SetComp':case 'MapComp':{const c2=cx.sub();for(const p of e.vs)c2.vars.set(p.name,{js:'undefined',ty:p.ty?quiet(()=>cx.type(p.ty)):null,name:p.name});return isGhostExpr(e.range,c2)||isGhostExpr(e.body,c2)||isGhostExpr(e.term,c2)||isGhostExpr(e.key,c2);}
    case 'Let':{const c2=cx.sub();if(isGhostExpr(e.es,cx)&&!e.ghost)return true;e.pats.forEach((p,i)=>{let t=null;if(p.k==='id'&&!e.st&&e.es[i]){const x=e.ghost?null:quiet(()=>gen(e.es[i],strictOf(cx)));t=x&&x.t;}for(const n of patNames(p))c2.vars.set(n,{js:'undefined',ty:t,name:n,ghostErased:!!e.ghost});});return isGhostExpr(e.body,c2);}
    case 'Match':{if(isGhostExpr(e.e,cx))return true;const s=quiet(()=>gen(e.e,strictOf(cx)));return e.cases.some(c=>{const c2=cx.sub();const ok=quiet(()=>{matchPat(c.p,'undefined',s&&s.t,c2,[],[]);return true;});if(!ok)for(const n of patNames(c.p))c2.vars.set(n,{js:'undefined',ty:null,name:n});return isGhostExpr(c.b,c2);});}
  }
  for(const k in e){if(k==='ty'||k==='targs'||k==='line'||k==='t')continue;const v=e[k];if(v&&typeof v==='object'&&isGhostExpr(v,cx))return true;}
  return false;
}
function strictOf(cx){const c=cx.sub();c.strict=true;return c;}
function quiet(f){const n=quiet.prog;try{return f();}catch(x){if(x instanceof CompErr)return null;throw x;}}
function walk(e,f){
  if(!e||typeof e!=='object')return;
  if(Array.isArray(e)){for(const x of e)walk(x,f);return;}
  if(e.t)f(e);
  for(const k in e){if(k==='ty'||k==='targs'||k==='line')continue;const v=e[k];if(v&&typeof v==='object')walk(v,f);}
}
function freeIn(e,names){let r=false;walk(e,x=>{if(x.t==='Id'&&names.has(x.name))r=true;});return r;}
function genLet(e,cx,want){
  const c2=cx.sub();const out=[];
  if(e.st){
    const vs=e.pats.map(p=>({name:p.name,ty:p.ty}));
    const vals=genChoose(vs,e.es.reduce((a,b)=>a?{t:'Bin',op:'&&',a,b}:b,null),cx,e);
    const names=vs.map((v,i)=>c2.def(v.name,vals.ts[i]).js);
    const b=gen(e.body,c2,want);
    return {c:`(([${names}])=>${wrapObj(b.c)})(${vals.c})`,t:b.t};
  }
  const st=[];
  e.pats.forEach((p,i)=>{
    if(e.ghost&&cx.erase){bindGhost(p,c2);return;}
    if(!e.es[i])err(cx,e,'let arity');
    if(cx.erase&&p.k==='id'&&isGhostExpr(e.es[i],cx)){bindGhost(p,c2);return;}
    const pty=p.ty?cx.type(p.ty):null;
    const x=gen(e.es[i],cx,pty);
    if(p.k==='id'){const v=c2.def(p.name,pty||x.t);st.push(`const ${v.js}=${x.c};`);}
    else{const t=cx.tmp();st.push(`const ${t}=${x.c};`);bindPat(p,t,x.t,c2,st,true);}
  });
  const b=gen(e.body,c2,want);
  return {c:`(()=>{${st.join('')}return ${b.c};})()`,t:b.t};
}
function bindGhost(p,cx){if(p.k==='id')cx.def(p.name,null,{ghostErased:true});else for(const q of p.ps||[])bindGhost(q,cx);}
function genLetIf(e,cx,want){const vals=genChoose([{name:e.bind,ty:null}],e.c,cx,e,true);const c2=cx.sub();const v=c2.def(e.bind,vals.ts[0]);const t=cx.tmp();const a=gen(e.a,c2,want),b=gen(e.b,cx,want);return {c:`(()=>{const ${t}=${vals.c};if(${t}===undefined)return ${b.c};const [${v.js}]=${t};return ${a.c};})()`,t:pick(a.t,b.t)};}
// destructuring pattern known to match (or failing)
function bindPat(p,js,ty,cx,st,fail){
  if(p.k==='id'){if(p.name==='_'||p.name.startsWith('_v'))return;
    const v=cx.def(p.name,p.ty?cx.type(p.ty):ty);st.push(`let ${v.js}=${js};`);return;}
  if(p.k==='tuple'){p.ps.forEach((q,i)=>bindPat(q,`${js}._${i}`,ty&&ty.k==='tuple'?ty.args[i]:null,cx,st,fail));return;}
  if(p.k==='ctor'){
    const cname=p.path[p.path.length-1];
    st.push(`if(!$.is(${js},${JSON.stringify(cname)}))$.fail("pattern ${cname} does not match");`);
    bindFields(p,js,ty,cx,st,fail);return;
  }
  err(cx,p,'pattern');
}
function ctorOfPat(p,ty,cx){
  const cname=p.path[p.path.length-1];
  if(ty&&ty.k==='dt'){const c=dtInfo(ty.cell).ctors.get(cname);return c||null;}
  let en=null;
  if(p.path.length===1){const x=cx.inst.lookup(cname);if(x&&x.kind==='ctor')en=x;else{const c=lookupCtor(cx.inst,cname);if(c)en={cell:c};}}
  else{let ex={t:'Id',name:p.path[0]};for(const q of p.path.slice(1))ex={t:'Dot',e:ex,f:q};const r=resolveDot(ex,cx);if(r&&r.k==='ctor')en=r;}
  return en?dtInfo(en.cell).ctors.get(cname):null;
}
function lookupCtor(inst,n){for(let s=inst;s;s=s.parent){s.build();const l=s.ctorNames.get(n);if(l)return l[0];for(const o of s.opened){const om=s.modOf(o);if(!om)continue;const c=om.ctorIn(n);if(c)return c;}}return null;}
function bindFields(p,js,ty,cx,st,fail){
  if(!p.ps||!p.ps.length)return;
  const c=ctorOfPat(p,ty,cx);
  if(!c)err(cx,p,'unknown constructor '+p.path.join('.')+' in pattern');
  const dt=ty&&ty.k==='dt'?ty:{k:'dt',cell:c.cell,args:[]};
  p.ps.forEach((q,i)=>{const f=c.fields[i];if(!f)err(cx,p,'pattern arity');
    const ft=subst(resolveType(f.ty,scopeOfDt(c.cell)),argMap(dt));
    if(f.ghost&&cx.erase){bindGhost(q,cx);return;}
    bindPat(q,`${js}.${f.prop}`,ft,cx,st,fail);});
}
// test-and-bind for match cases: returns condition list and binding statements
function matchPat(p,js,ty,cx,conds,st){
  if(p.k==='lit'){conds.push(`$.eq(${js},${g(p.e,cx)})`);return;}
  if(p.k==='tuple'){p.ps.forEach((q,i)=>matchPat(q,`${js}._${i}`,ty&&ty.k==='tuple'?ty.args[i]:null,cx,conds,st));return;}
  if(p.k==='id'){
    const c=p.name==='_'?null:ctorOfPat({path:[p.name]},ty,cx);
    if(c&&!p.ty&&(ty&&ty.k==='dt'||c.fields.length===0)){conds.push(`$.is(${js},${JSON.stringify(c.name)})`);return;}
    if(p.name==='_')return;
    const v=cx.def(p.name,ty);st.push(`let ${v.js}=${js};`);return;
  }
  const cname=p.path[p.path.length-1];
  conds.push(`$.is(${js},${JSON.stringify(cname)})`);
  if(p.ps&&p.ps.length){
    const c=ctorOfPat(p,ty,cx);
    if(!c){p.ps.forEach((q,i)=>matchPat(q,`${js}.$vals()[${i}]`,null,cx,conds,st));return;}
    const dt=ty&&ty.k==='dt'?ty:{k:'dt',cell:c.cell,args:[]};
    p.ps.forEach((q,i)=>{const f=c.fields[i];if(!f)err(cx,p,'pattern arity');if(f.ghost&&cx.erase){bindGhost(q,cx);return;}
      matchPat(q,`${js}.${f.prop}`,subst(resolveType(f.ty,scopeOfDt(c.cell)),argMap(dt)),cx,conds,st);});
  }
}
function genMatch(e,cx,want){
  const s=gen(e.e,cx);const t=cx.tmp();let body=`const ${t}=${s.c};`,ty=null;
  for(const c of e.cases){
    const c2=cx.sub(),conds=[],st=[];matchPat(c.p,t,s.t,c2,conds,st);
    let b;if(!c.b){b={c:'$.fail("empty match case")',t:null};}else b=gen(c.b,c2,want);
    ty=pick(ty,b.t,null);
    body+=`if(${conds.join('&&')||'true'}){${st.join('')}return ${b.c};}`;
  }
  return {c:`(()=>{${body}$.fail("no match case");})()`,t:ty||want||null};
}
// ---- bounded quantification
function boundVars(vs,preds,cx,e){
  // returns list of {v, src (js iterable expr)} in an order in which each is bounded by earlier ones
  const todo=vs.slice(),res=[];const names=new Set(vs.map(v=>v.name));
  const cs=[];for(const p of preds)conjs(p,cs);
  const c2=cx.sub();
  const done=new Set();
  // types
  const tys=new Map();vs.forEach(v=>tys.set(v.name,v.ty?cx.type(v.ty):null));
  const extra=[];
  for(const v of vs){const t=tys.get(v.name);if(t&&t.sub&&t.sub.cell&&t.sub.cell.decl.sub&&!(t.k==='native'))extra.push([v,t]);}
  while(todo.length){
    let picked=null;
    const open=new Set(todo.map(v=>v.name));
    for(const v of todo){const s=srcFor(v,cs,open,tys,c2,cx,1);if(s){picked=[v,s];break;}}
    if(!picked)for(const v of todo){const s=srcFor(v,cs,open,tys,c2,cx,2);if(s){picked=[v,s];break;}}
    if(!picked)for(const v of todo){const s=srcFor(v,cs,open,tys,c2,cx,3);if(s){picked=[v,s];break;}}
    if(!picked&&e&&e.t==='Quant')for(const v of todo){const s=iffSrc(v,e,open,c2);if(s){picked=[v,s];break;}}
    if(!picked&&e&&(e.t==='Quant'||((cx.cell&&cx.cell.prog||cx.prog||{}).opts||{}).guess)){let got=false;for(const v of todo)if(!tys.get(v.name)){const t=guessType(v.name,cs,c2,e);if(t){tys.set(v.name,t);got=true;}}if(got)continue;}
    if(!picked)return {bad:todo[0],tys,c2,res};
    const [v,s]=picked;todo.splice(todo.indexOf(v),1);
    let ty=tys.get(v.name)||s.et||null;
    const jv=c2.def(v.name,ty);let filt=null;
    const st=ty&&ty.sub&&ty.sub.cell&&ty.sub.cell.decl.sub;
    if(st){filt=`${cx.ref({sub:ty.sub.cell})}(${jv.js})`;}
    else if(ty&&ty.nat)filt=`${jv.js}>=0`;
    res.push({js:jv.js,src:s.c,filt});
  }
  return {res,c2,tys};
}
// the type of an untyped quantified variable from a call it is an argument of
// forall v :: (v in S <==> v in T && ..): only elements of S or T can differ
function iffSrc(v,e,open,cx){
  const b=strip(e.body||e.e);if(!b||b.t!=='Bin'||b.op!=='<==>')return null;
  const isV=x=>{x=strip(x);return x.t==='Id'&&x.name===v.name;};
  const dom=x=>{x=strip(x);if(x.t==='Bin'&&x.op==='in'&&isV(x.a)&&!mentions(x.b,open))return [x.b];if(x.t==='Bin'&&x.op==='&&')return dom(x.a)||dom(x.b);if(x.t==='Bin'&&x.op==='||'){const a=dom(x.a),c=dom(x.b);return a&&c?[...a,...c]:null;}return null;};
  const a=dom(b.a),c=dom(b.b);if(!a||!c)return null;
  const ss=[...a,...c].map(x=>gen(x,cx));if(ss.some(s=>s.t&&s.t.inf))return null;
  return {c:`[${ss.map(s=>`...$.elems(${s.c})`)}]`,et:elemT(ss[0].t)};
}
function guessType(name,cs,cx,e){
  { // forall k :: k in m
    const bs=[];let b=strip(e.body);while(b&&b.t==='Bin'&&b.op==='==>')b=strip(b.b);if(b)conjs(b,bs);
    for(const c of bs)if(c.t==='Bin'&&c.op==='in'&&strip(c.a).t==='Id'&&strip(c.a).name===name&&!mentions(c.b,new Set([name]))){try{const s=gen(c.b,cx);const et=s.t&&s.t.inf?elemT(s.t):null;if(et)return et;}catch(x){if(!(x instanceof CompErr))throw x;}}
  }
  for(const c of cs){if(c.t!=='Call')continue;const f=strip(c.f);let cell=null;
    try{let en=null;if(f.t==='Id')en=resolveName(f,cx);else if(f.t==='Dot')en=resolveDot(f,cx);
      if(en&&en.k==='cell'&&en.cell.kind==='function')cell=en.cell;else if(en&&en.k==='member'&&en.m.kind==='function')cell=en.m;
      if(!cell||!cell.decl.params||(cell.decl.tps||[]).length)continue;
      const k=c.args.findIndex(a=>{a=strip(a);return a.t==='Id'&&a.name===name;});
      if(k>=0&&cell.decl.params[k]&&cell.decl.params[k].ty)return resolveType(cell.decl.params[k].ty,new Cx(cell,false));
    }catch(x){if(!(x instanceof CompErr))throw x;}}
  const pr=cx.cell&&cx.cell.prog||cx.prog;
  if(pr&&pr.opts&&pr.opts.guess){ // any membership test or comparison anywhere in the body; only for programs with their own universes
    const found=[];for(const q of [e.range,e.body||e.e])if(q)walk(q,x=>{if(x.t==='Bin'&&(x.op==='in'||x.op==='!in')&&strip(x.a).t==='Id'&&strip(x.a).name===name&&!mentions(x.b,new Set([name])))found.push(x.b);});
    for(const b of found){try{const s=gen(b,cx);const et=s.t?elemT(s.t):null;if(et)return et;}catch(x){if(!(x instanceof CompErr))throw x;}}
    const cs2=[];for(const q of [e.range,e.body||e.e])if(q)walk(q,x=>{if(x.t==='Call')cs2.push(x);});
    if(cs2.length&&!e.$g){e.$g=1;try{return guessType(name,cs2,cx,e);}finally{delete e.$g;}}
  }
  return null;
}
function mentions(e,open){return freeIn(e,open);}
function srcFor(v,cs,open,tys,c2,cx,level){
  const isV=x=>{x=strip(x);return x.t==='Id'&&x.name===v.name;};
  const ok=x=>!mentions(x,open);
  if(v.dom&&level===1&&ok(v.dom)){const s=gen(v.dom,c2);return {c:`$.elems(${s.c})`,et:elemT(s.t)};}
  const ty=tys.get(v.name);
  if(level===1){
    for(const c of cs){if(c.t!=='Bin')continue;
      if(c.op==='=='){if(isV(c.a)&&ok(c.b)){const s=gen(c.b,c2);return {c:`[${s.c}]`,et:s.t};}if(isV(c.b)&&ok(c.a)){const s=gen(c.a,c2);return {c:`[${s.c}]`,et:s.t};}}}
    for(const c of cs){if(c.t==='Bin'&&c.op==='in'&&isV(c.a)&&ok(c.b)){const s=gen(c.b,c2);
      if(s.t&&(s.t.k==='set'||s.t.k==='map')&&s.t.inf&&cs.some(d=>d!==c&&d.t==='Bin'&&d.op==='in'&&isV(d.a)&&ok(d.b)&&d!==c)){const d=cs.find(d=>d!==c&&d.t==='Bin'&&d.op==='in'&&isV(d.a)&&ok(d.b));const s2=gen(d.b,c2);if(!(s2.t&&s2.t.inf))return {c:`$.elems(${s2.c})`,et:elemT(s2.t)};}
      return {c:`$.elems(${s.c})`,et:elemT(s.t)};}}
    // pattern membership: Ctor(..v..) in S or (a,v) in S
    for(const c of cs){if(c.t==='Bin'&&c.op==='in'&&ok(c.b)){const a=strip(c.a);if((a.t==='Tuple')&&a.es.some(isV)){const k=a.es.findIndex(isV);const s=gen(c.b,c2);const et=elemT(s.t);return {c:`[...$.elems(${s.c})].map(x=>x._${k})`,et:et&&et.k==='tuple'?et.args[k]:null};}
      if(a.t==='Dot'&&0){}}}
    if(ty&&ty.k==='bool')return {c:'[false,true]',et:T.bool};
    // integer bounds
    const los=[],his=[];
    for(const c of cs)if(c.t==='Bin'&&['<','<=','>','>='].includes(c.op)){
      let a=c.a,b=c.b,op=c.op;if(op==='>'){[a,b]=[b,a];op='<';}if(op==='>='){[a,b]=[b,a];op='<=';}
      if(isV(b)&&ok(a)){const x=gen(a,c2);if(!x.t||isNum(x.t))los.push(op==='<'?`$.add(${x.c},1)`:x.c);}
      if(isV(a)&&ok(b)){const x=gen(b,c2);if(!x.t||isNum(x.t)){his.push(op==='<'?x.c:`$.add(${x.c},1)`);}
        else if(x.t&&x.t.k==='set'&&!x.t.inf&&op==='<='){return {c:`$.subsets(${x.c})`,et:x.t};}}
      // v + k <= e style upper bounds
      if(strip(a).t==='Bin'&&strip(a).op==='+'&&ok(b)){const s=strip(a);if(isV(s.a)&&ok(s.b)){his.push(op==='<'?`$.sub(${g(b,c2)},${g(s.b,c2)})`:`$.add($.sub(${g(b,c2)},${g(s.b,c2)}),1)`);}if(isV(s.b)&&ok(s.a)){his.push(op==='<'?`$.sub(${g(b,c2)},${g(s.a,c2)})`:`$.add($.sub(${g(b,c2)},${g(s.a,c2)}),1)`);}}
    }
    // bounds through other variables still open:  0 <= i <= j < n
    if(!los.length||!his.length){
      const cmp=[];for(const c of cs)if(c.t==='Bin'&&['<','<=','>','>='].includes(c.op)){let a=c.a,b=c.b,op=c.op;if(op==='>'){[a,b]=[b,a];op='<';}if(op==='>='){[a,b]=[b,a];op='<=';}cmp.push([strip(a),strip(b),op]);}
      const isO=x=>x.t==='Id'&&open.has(x.name);
      const numeric=x=>{const r=gen(x,c2);return !r.t||isNum(r.t)?r.c:null;};
      const chase=(up)=>{const seen=new Set([v.name]),q=[v.name],out=[];while(q.length){const n=q.shift();for(const [a,b,op] of cmp){const [from,to]=up?[a,b]:[b,a];if(!(from.t==='Id'&&from.name===n))continue;
        if(isO(to)){if(!seen.has(to.name)){seen.add(to.name);q.push(to.name);}}else if(ok(to)){const x=numeric(to);if(x)out.push(up?(op==='<'?x:`$.add(${x},1)`):(op==='<'?`$.add(${x},1)`:x));}}
        const nt=n===v.name?null:tys.get(n);if(nt&&!up){if(nt.nat)out.push('0');else if(nt.k==='native')out.push(nt.los);}}return out;};
      if(!los.length&&!(ty&&(ty.nat||ty.k==='native')))los.push(...chase(false));
      if(!his.length)his.push(...chase(true));
    }
    if(ty&&ty.nat)los.push('0');if(ty&&ty.k==='native')los.push(ty.los);
    if(ty&&ty.sub&&ty.sub.cell.decl.sub&&!(ty.k==='native')){const sd=ty.sub.cell.decl.sub;for(const c of conjs(sd.c))if(c.t==='Bin'){const iv=x=>{x=strip(x);return x.t==='Id'&&x.name===sd.v;};const sx={};
      const gg=x=>{const cc=new Cx(ty.sub.cell,false);cc.fn=c2.fn;return gen(x,cc).c;};
      if((c.op==='<='||c.op==='<')&&iv(c.b))los.push(c.op==='<'?`$.add(${gg(c.a)},1)`:gg(c.a));if((c.op==='<='||c.op==='<')&&iv(c.a))his.push(c.op==='<'?gg(c.b):`$.add(${gg(c.b)},1)`);}}
    if(los.length&&his.length&&(!ty||isNum(ty)))return {c:`$.range(${los.length>1?`$.maxInt(${los})`:los[0]},${his.length>1?`$.minInt(${his})`:his[0]})`,et:ty||T.int};
    if(ty&&ty.k==='dt'&&finite(ty))return {c:`$.finite(${cx.ref({fin:ty})})`,et:ty};
    if(ty&&ty.k==='native'&&ty.hi-ty.lo<=65536n)return {c:`$.range(${his.length?`0,$.minInt(${his},${lit(ty.hi+1n)})`:`${ty.los},${lit(ty.hi+1n)}`})`,et:ty};
  }
  if(level===2){
    // look inside called predicates for bounds on v
    for(const c of cs)if(c.t==='Call'){
      const s=predBounds(c,v,open,c2,cx,0);if(s)return Object.assign({},s,{c:`$.soft(()=>${s.c})`});
    }
    for(const c of cs)if(c.t==='Quant'){ }
  }
  if(level===3&&ty){ // harness-supplied universe
    return {c:`$.universe(${cx.ref({type:ty})})`,et:ty};
  }
  return null;
}
// expand a predicate call (module-level or static, or on a receiver) whose body bounds v
function predBounds(c,v,open,c2,cx,depth){
  if(depth>3)return null;
  const f=strip(c.f);let cell=null,self=null;
  try{
    let en=null;if(f.t==='Id')en=resolveName(f,c2);else if(f.t==='Dot')en=resolveDot(f,c2);
    if(en&&en.k==='cell'&&en.cell.kind==='function')cell=en.cell;
    else if(en&&en.k==='member'&&en.m.kind==='function'){cell=en.m;if(!isStatic(cell)){if(!en.self)return null;self=c2.selfVar();}}
    else if(f.t==='Dot'&&!en){if(mentions(f.e,open))return null;const s=gen(f.e,c2);if(s.t&&(s.t.k==='dt'||s.t.k==='class')){const m=memberCells(s.t.cell).get(f.f);if(m&&m.kind==='function'){cell=m;if(!isStatic(m))self=s;}}}
  }catch(x){if(x instanceof CompErr)return null;throw x;}
  if(!cell||!cell.decl.body||!cell.decl.params)return null;
  const d=cell.decl;
  const k=c.args.findIndex(a=>{a=strip(a);return a.t==='Id'&&a.name===v.name;});
  if(k<0||!d.params[k])return null;
  const cc=new Cx(cell,false);cc.fn=c2.fn;cc.strict=true;
  if(self)cc.vars.set('self$',{js:self.c,ty:self.t});
  const open2=new Set([d.params[k].name]);
  d.params.forEach((p,i)=>{if(i===k){return;}if(!c.args[i]||mentions(c.args[i],open)){open2.add(p.name);return;}const x=gen(c.args[i],c2);cc.vars.set(p.name,{js:x.c,ty:resolveType(p.ty,cc)||x.t,name:p.name});});
  const vv={name:d.params[k].name,ty:d.params[k].ty};const tys=new Map([[vv.name,resolveType(d.params[k].ty,cc)]]);
  // cc2 hides the params left open
  const cs=conjs(d.body);for(const r of d.sp.requires||[])conjs(r,cs);
  try{
    let s=srcFor(vv,cs,open2,tys,cc,cx,1);
    if(s)return s;
    for(const c3 of cs)if(c3.t==='Call'){s=predBounds(c3,vv,open2,cc,cx,depth+1);if(s)return s;}
  }catch(x){if(x instanceof CompErr)return null;throw x;}
  return null;
}
function elemT(t){if(!t)return null;if(t.k==='map')return t.a;return t.a||null;}
function finite(t,seen=new Set()){if(!t)return false;if(t.k==='bool')return true;if(t.k!=='dt'||seen.has(t.cell))return false;seen.add(t.cell);return [...dtInfo(t.cell).ctors.values()].every(c=>c.fields.every(f=>finite(subst(resolveType(f.ty,scopeOfDt(t.cell)),argMap(t)),seen)));}
$.finite=t=>{if(t.k==='bool')return [false,true];const r=[];for(const c of dtInfo(t.cell).ctors.values()){if(!c.fields.length){r.push(c.single);continue;}let acc=[[]];for(const f of c.fields){const vs=[...$.finite(subst(resolveType(f.ty,scopeOfDt(t.cell)),argMap(t)))];acc=acc.flatMap(a=>vs.map(v=>[...a,v]));}for(const a of acc)r.push(new c.cls(...a));}return r;};
$.subsets=s=>{const es=[...s];if(es.length>12)throw new Unsup('too many subsets');const r=[];for(let m=0;m<(1<<es.length);m++)r.push($.DSet.from(es.filter((_,i)=>m>>i&1)));return r;};
function loops(b,inner){let c=inner;for(let i=b.res.length-1;i>=0;i--){const r=b.res[i];c=`for(const ${r.js} of ${r.src}){${r.filt?`if(!(${r.filt}))continue;`:''}${c}}`;}return c;}
function genQuant(e,cx){
  const body=e.range?{t:'Bin',op:e.q==='forall'?'==>':'&&',a:e.range,b:e.body}:e.body;
  const preds=[];if(e.range)preds.push(e.range);
  if(e.q==='forall'){let b=strip(e.body);while(b&&b.t==='Bin'&&b.op==='==>'){preds.push(b.a);b=strip(b.b);}if(b&&b.t==='StmtExpr'){}
    // forall x :: A || B : negated disjuncts bound too; not analysed
  }else preds.push(e.body);
  const bd=boundVars(e.vs,preds,cx,e);
  if(bd.bad)err(cx,e,`unbounded ${e.q} over ${bd.bad.name}`);
  const b=gen(body,bd.c2);
  if(e.q==='forall')return {c:`(()=>{${loops(bd,`if(!(${b.c}))return false;`)}return true;})()`,t:T.bool};
  return {c:`(()=>{${loops(bd,`if(${b.c})return true;`)}return false;})()`,t:T.bool};
}
function genSetComp(e,cx,want){
  const preds=e.range?[e.range]:[];
  if(e.inf){ // infinite: predicate, when a single variable and no term
    if(e.vs.length===1&&(!e.term||strip(e.term).t==='Id'&&strip(e.term).name===e.vs[0].name)){
      const c2=cx.sub();const ty=e.vs[0].ty?cx.type(e.vs[0].ty):want&&want.k==='set'?want.a:guessEl(e.vs[0].name,preds,cx);const v=c2.def(e.vs[0].name,ty);
      return {c:`new $.ISet(${v.js}=>${e.range?g(e.range,c2):'true'},${cx.ref({type:ty})})`,t:{k:'set',a:ty,inf:true}};
    }
  }
  const bd=boundVars(e.vs,preds,cx,e);
  if(bd.bad){
    // term form over an unbounded variable may still be bounded through the term (rare)
    err(cx,e,'unbounded set comprehension over '+bd.bad.name);
  }
  const cond=e.range?g(e.range,bd.c2):'true';
  const term=e.term?gen(e.term,bd.c2):{c:bd.c2.find(e.vs[0].name).js,t:bd.c2.find(e.vs[0].name).ty};
  return {c:`(()=>{const R=new $.DSet();${loops(bd,`if(${cond}){const X=${term.c};R.m.set($.key(X),X);}`)}return R;})()`,t:{k:'set',a:term.t,inf:e.inf}};
}
function guessEl(name,preds,cx){for(const c of preds.flatMap(p=>conjs(p)))if(c.t==='Bin'&&c.op==='in'&&strip(c.a).t==='Id'&&strip(c.a).name===name){try{const s=gen(c.b,cx);return elemT(s.t);}catch(x){if(!(x instanceof CompErr))throw x;}}return null;}
function genMapComp(e,cx,want){
  const preds=e.range?[e.range]:[];
  if(e.inf&&e.vs.length===1&&!e.key){
    const c2=cx.sub();const ty=e.vs[0].ty?cx.type(e.vs[0].ty):(guessEl(e.vs[0].name,preds,cx)||(want&&want.k==='map'?want.a:null));const v=c2.def(e.vs[0].name,ty);
    const b=gen(e.term,c2,want&&want.k==='map'?want.b:null);
    return {c:`new $.IMap(${v.js}=>${e.range?g(e.range,c2):'true'},${v.js}=>${wrapObj(b.c)},${cx.ref({type:ty})})`,t:{k:'map',a:ty,b:b.t,inf:true}};
  }
  const bd=boundVars(e.vs,preds,cx,e);
  if(bd.bad)err(cx,e,'unbounded map comprehension over '+bd.bad.name);
  const cond=e.range?g(e.range,bd.c2):'true';const k=e.key?gen(e.key,bd.c2):{c:bd.c2.find(e.vs[0].name).js,t:bd.c2.find(e.vs[0].name).ty};
  const v=gen(e.term,bd.c2,want&&want.k==='map'?want.b:null);
  return {c:`(()=>{const R=new $.DMap();${loops(bd,`if(${cond}){const X=${k.c};R.m.set($.key(X),[X,${v.c}]);}`)}return R;})()`,t:{k:'map',a:k.t,b:v.t,inf:e.inf}};
}
function genChoose(vs,pred,cx,e,opt){
  const bd=boundVars(vs,[pred],cx,e);
  if(bd.bad)err(cx,e,'unbounded choice of '+bd.bad.name);
  const c=g(pred,bd.c2);const names=vs.map(v=>bd.c2.find(v.name).js);
  return {c:`(()=>{${loops(bd,`if(${c})return [${names}];`)}${opt?'return undefined;':'$.fail("no value satisfies :|");'}})()`,ts:vs.map(v=>bd.c2.find(v.name).ty)};
}
function genNew(e,cx,want){
  if(e.t==='NewArr'){
    const ty=e.ty?cx.type(e.ty):(want&&want.k==='arr'?want.a:null);
    const t={k:'arr',a:ty,n:Math.max(1,e.dims.length)};
    if(e.init)return {c:`$.mkarr([${e.init.map(x=>g(x,cx,ty))}],${ty&&ty.k==='native'&&ty.hi===255n})`,t};
    if(e.fn&&e.dims.length===1)return {c:`new $.DArr($.seqinit(${g(e.dims[0],cx)},${g(e.fn,cx)}))`,t};
    if(e.dims.length>1){return {c:`$.newarrN([${e.dims.map(x=>g(x,cx))}],${cx.ref({def:ty})})`,t};}
    if(ty&&ty.k==='native'&&ty.lo===0n&&ty.hi===255n)return {c:`new $.DArr($.newbytes(${g(e.dims[0],cx)}))`,t};
    return {c:`$.newarr(${g(e.dims[0],cx)},${cx.ref({def:ty})})`,t};
  }
  // new C(args) / new C.Ctor(args) / new M.C.Ctor(args)
  let t=cx.type(e.ty),cname='_ctor';
  if(!t||t.k!=='class'){if(e.ty.path.length>1){const p=e.ty.path;t=cx.type({k:'name',path:p.slice(0,-1),args:e.ty.args});cname=p[p.length-1];}}
  if(!t||t.k!=='class')err(cx,e,'new of unknown class '+e.ty.path.join('.'));
  const m=memberCells(t.cell).get(cname);
  const cs=m?genArgs(m,e.args||[],cx,t,null).cs:[];
  return {c:`$.newobj(${cx.ref({cls:t.cell})},${m?cx.ref(m):'null'},[${cs}])`,t:bare(t)};
}
$.mkarr=(a,b)=>new $.DArr(b?Uint8Array.from(a):a);
$.bigAlloc=(n,b)=>{if(!(n<=2**b)){if($.softAlloc)throw new Unsup('allocation');throw new $.DafnyFail('allocation of '+n+' elements');}};
$.newbytes=n=>{$.bigAlloc(n,30);return new Uint8Array(Number(n));};
$.newarr=(n,def)=>{$.bigAlloc(n,24);const a=new Array(Number(n));for(let i=0;i<a.length;i++)a[i]=def();return new $.DArr(a);};
$.newarrN=(dims,def)=>{let n=1;for(const d of dims)n*=Number(d);const a=[];for(let i=0;i<n;i++)a.push(def());return new $.DArrN(dims.map(Number),a);};
$.newobj=(C,m,as)=>{const o=new C();if(m)m.f.apply(o,as);return o;};
// ---------------------------------------------------------------- statements
function isCompiledCallee(cell){return cell.kind==='constructor'||cell.kind==='method'&&!cell.decl.lemma&&!cell.decl.mods.has('ghost')||cell.kind==='function'&&cell.decl.meth;}
const GHOSTM={kind:'method',decl:{lemma:true,mods:new Set(['lemma'])}};
function calleeOf(e,cx){
  e=strip(e);if(e.t==='Inout')e=strip(e.e);if(e.t!=='Call')return null;const f=strip(e.f);
  if((f.t==='Id'&&isReveal(f.name))||(f.t==='Dot'&&isReveal(f.f)))return GHOSTM;
  try{
    let en=null;if(f.t==='Id')en=resolveName(f,cx);else if(f.t==='Dot')en=resolveDot(f,cx);
    if(en){if(en.k==='cell')return en.cell;if(en.k==='member'&&en.m.decl)return en.m;if(en.k==='ctor')return null;}
    if(f.t==='Dot'&&!en){const s=gen(f.e,strictOf(cx));if(s.t&&s.t.cell){const m=memberCells(s.t.cell).get(f.f);if(m)return m;}
      // unknown receiver: decide by name across all types
      const g=ghostNames(cx.inst.prog);if(g.get(f.f)==='ghost')return GHOSTM;}
  }catch(x){if(!(x instanceof CompErr))throw x;}
  return null;
}
function ghostNames(prog){
  if(prog.$gn)return prog.$gn;const r=prog.$gn=new Map();
  const see=(m)=>{if(m.k!=='function'&&m.k!=='method')return;const gh=m.k==='method'?(m.lemma||m.mods.has('ghost')):false;const o=r.get(m.name);r.set(m.name,o===undefined||o===(gh?'ghost':'real')?(gh?'ghost':'real'):'mixed');};
  for(const a of prog.files.values())if(a){const go=ds=>{for(const d of ds){if(d.k==='module')go(d.decls);else if(d.members)for(const m of d.members)see(m);}};go(a.decls);}
  return r;
}
function lhsGhost(l,cx){
  if(l.t==='Inout')return !!l.ghost||lhsGhost(l.e,cx);
  if(l.t==='Id'){const v=cx.find(l.name);if(v)return !!v.ghostErased;
    if(cx.owner){const m=memberCells(cx.owner).get(l.name);if(m&&m.kind==='field')return m.ghost;}
    return false;}
  if(l.t==='Dot'){
    try{const s=gen(l.e,strictOf(cx));if(s.t&&s.t.k==='dt'){const fi=fieldInfo(s.t,l.f);return !!(fi&&fi.ghost);}if(s.t&&s.t.k==='class'){const m=memberCells(s.t.cell).get(l.f);return !!(m&&m.ghost);}}catch(x){if(!(x instanceof CompErr))throw x;}
    return false;}
  if(l.t==='Index')return isGhostRoot(l.e,cx);
  return false;
}
function isGhostRoot(e,cx){e=strip(e);if(e.t==='Id'){const v=cx.find(e.name);return !!(v&&v.ghostErased);}if(e.t==='Dot')return lhsGhost(e,cx);return false;}
function stmtGhost(s,cx){ // nothing to execute
  if(!s)return true;
  if(s.ghostMod)return true;
  switch(s.t){
    case 'Block':{return s.ss.every(x=>stmtGhost(x,cx));}
    case 'Skip':case 'Assert':case 'Assume':return true;
    case 'ForallS':return !s.body||stmtGhost(s.body,cx)||!hasArrAssign(s.body);
    case 'If':if(s.c&&cx.erase&&!s.bind&&isGhostExpr(s.c,cx))return true;return !hasExec(s.a)&&!(s.b&&hasExec(s.b))&&stmtGhost(s.a,cx)&&stmtGhost(s.b,cx);
    case 'IfAlt':return s.alts.every(a=>stmtGhost(a.b,cx));
    case 'MatchS':return s.cases.every(c=>stmtGhostNoBind(c.b,c.p,cx));
    case 'While':return s.body&&stmtGhost(s.body,cx);
    case 'Var':return s.mods.includes('ghost');
    case 'VarPat':return s.mods.includes('ghost');
    case 'VarST':return s.mods.includes('ghost');
    case 'Assign':return s.ls.every(l=>lhsGhost(l,cx));
    case 'AssignST':return s.ls.every(l=>lhsGhost(l,cx));
    case 'Label':return stmtGhost(s.s,cx);
    case 'ExprStmt':{const c=calleeOf(s.e,cx);if(c)return !isCompiledCallee(c);return false;}
  }
  return false;
}
function stmtGhostNoBind(b,p,cx){const c2=cx.sub();for(const n of patNames(p))c2.vars.set(n,{js:'undefined',ty:null,name:n});return stmtGhost(b,c2);}
function patNames(p){if(p.k==='id')return [p.name];return (p.ps||[]).flatMap(patNames);}
function hasExec(s){let r=false;walk(s,x=>{if(x.t==='Return'||x.t==='Break'||x.t==='Print'||x.t==='Expect')r=true;});return r;}
function hasArrAssign(s){let r=false;walk(s,x=>{if(x.t==='Assign'&&x.ls.some(l=>l.t==='Index'||l.t==='Dot'))r=true;});return r;}
// lvalue: returns {get js, set(v)->statement}
function lval(l,cx){
  l=l.t==='Inout'?l.e:l;l=strip(l);
  if(l.t==='Id'){
    const v=cx.find(l.name);if(v){if(v.ghostErased&&cx.erase)return {set:x=>'',get:'undefined',t:null,ghost:true};return {get:v.js,set:x=>`${v.js}=${x};`,t:v.ty};}
    if(cx.owner){
      const m=memberCells(cx.owner).get(l.name);
      if(m&&m.kind==='field'){const s=cx.selfVar();return {get:`${s.c}.${san(l.name)}`,set:x=>`${s.c}.${san(l.name)}=${x};`,t:resolveType(m.ty,cx)};}
      if(m&&m.kind==='const'){const s=cx.selfVar();return {get:`${s.c}.${san(l.name)}`,set:x=>`${s.c}["$c${l.name}"]=${x};`,t:null};}
      if(cx.owner.kind==='datatype'&&cx.find('self$')){return lval({t:'Dot',e:{t:'This'},f:l.name},cx);}
    }
    err(cx,l,'assignment to unknown '+l.name);
  }
  if(l.t==='This'){const s=cx.find('self$');return {get:s.js,set:x=>`${s.js}=${x};`,t:s.ty};}
  if(l.t==='Dot'){
    const s=gen(l.e,cx);
    if(s.t&&s.t.k==='class'){const m=memberCells(s.t.cell).get(l.f);return {get:`${s.c}.${san(l.f)}`,set:x=>`$.nn(${s.c}).${san(l.f)}=${x};`,t:m&&m.ty?subst(resolveType(m.ty,scopeOfDt(s.t.cell)),argMap(s.t)):null};}
    const base=lval(l.e,cx);
    const acc=memberAccess({c:base.get,t:base.t},l.f,cx,l);
    let prop=/^\d+$/.test(l.f)?'_'+l.f:san(l.f);if(base.t&&base.t.k==='dt'){const fi=fieldInfo(base.t,l.f);if(fi)prop=fi.prop;}
    return {get:acc.c,set:x=>base.set(`$.updo(${base.get},"${prop}",${x})`),t:acc.t};
  }
  if(l.t==='Index'){
    const s=gen(l.e,cx);
    if(l.idx&&l.idx.length>1)return {get:`$.atN(${s.c},[${l.idx.map(x=>g(x,cx))}])`,set:x=>`$.setN(${s.c},[${l.idx.map(x=>g(x,cx))}],${x});`,t:s.t&&s.t.a};
    if(s.t&&s.t.k==='arr'||!s.t||s.t.k!=='seq')return {get:`$.at(${s.c},${g(l.i,cx)})`,set:x=>`$.aset(${s.c},${g(l.i,cx)},${x});`,t:s.t&&s.t.a};
    const base=lval(l.e,cx);return {get:`$.at(${base.get},${g(l.i,cx)})`,set:x=>base.set(`$.put(${base.get},${g(l.i,cx)},${x})`),t:s.t.a};
  }
  if(l.t==='Call'){ // inout of an expression used only as receiver
    const s=gen(l,cx);return {get:s.c,set:x=>'',t:s.t};
  }
  err(cx,l,'assignment target '+l.t);
}
$.updo=(o,f,v)=>{if(o instanceof $.DT)return $.upd(o,f,v);$.nn(o)[f]=v;return o;};
// a call with inout parts or several results: returns statements assigning results to targets
function genCallStmt(rhs,targets,cx){
  // targets: list of lval-like {set,t,ghost}
  let recvInout=false,call=strip(rhs);
  if(call.t==='Inout'){recvInout=true;call=strip(call.e);}
  const rs=[];
  if(recvInout){const f=strip(call.f);if(f.t!=='Dot')err(cx,rhs,'inout call without receiver');rs.push(lval(f.e,cx));}
  for(const a of call.args)if(a.t==='Inout'){if(a.ghost&&cx.erase)rs.push({set:x=>''});else rs.push(lval(a.e,cx));}
  const x=gen(call,cx);
  // inout recv inferred from the callee when it is a linear inout method called without the keyword inside its own type
  const tot=rs.length+targets.length;
  const outs=x.outs;
  const all=[...rs,...targets];
  if(tot===0)return `${x.c};`;
  if(tot===1){let v={c:x.c,t:outs&&targets.length===1&&!rs.length?outs[0]:x.t};return all[0].set(targets.length?checkInto(v,all[0].t):x.c);}
  const t=cx.tmp();
  let s=`const ${t}=${x.c};`;
  all.forEach((l,i)=>{s+=l.set(`${t}[${i}]`);});
  return `{${s}}`;
}
function callInfo(e,cx){ // does this rhs need statement treatment?
  const r=strip(e);
  if(r.t==='Inout')return true;
  if(r.t==='Call'&&r.args.some(a=>a.t==='Inout'))return true;
  return false;
}
function genBlock(b,cx){const c2=cx.sub();return b.ss.map(s=>genStmt(s,c2)).join('\n');}
function genStmt(s,cx){
  try{return genStmt0(s,cx);}catch(x){if(!(x instanceof CompErr))throw x;cx.inst.prog.stats.unsup.push(x.message);
    // keep names declared so later statements still resolve
    if(s.t==='Var'||s.t==='VarST')for(const v of s.vs)if(!cx.vars.has(v.name)){cx.def(v.name,null);}
    return `$.unsup(${JSON.stringify(x.message)});`;}
}
function declVar(v,ty,cx,ghost){return cx.def(v.name,ty,ghost?{ghostErased:true}:{});}
function genStmt0(s,cx){
  if(s.ghostMod&&cx.erase)return '';
  switch(s.t){
    case 'Block':return `{${genBlock(s,cx)}}`;
    case 'Skip':case 'Assert':case 'Assume':return '';
    case 'Expect':return `if(!(${g(s.e,cx)}))$.fail("expect failed at line ${s.line}");`;
    case 'Print':return `$.print([${s.es.map(x=>g(x,cx))}]);`;
    case 'Var':{
      const gh=s.mods.includes('ghost');
      if(gh&&cx.erase){for(const v of s.vs)declVar(v,v.ty?cx.type(v.ty):null,cx,true);return '';}
      if(!s.rs){return s.vs.map(v=>{if(v.ghost&&cx.erase){declVar(v,null,cx,true);return '';}const t=v.ty?cx.type(v.ty):null;const d=declVar(v,t,cx);return `let ${d.js}${t&&t.k!=='dt'&&t.k!=='tuple'?`=${cx.ref({def:t})}()`:''};`;}).join('');}
      if(s.rs.length===1&&s.vs.length>1&&cx.erase&&ghostCall(s.rs[0],cx)){for(const v of s.vs)declVar(v,v.ty?cx.type(v.ty):null,cx,true);return '';}
      if(s.rs.length===1&&(s.vs.length>1||callInfo(s.rs[0],cx))){
        const pre=[],targets=[];const x=strip(s.rs[0]);const call=x.t==='Inout'?strip(x.e):x;
        const info=call.t==='Call'?gen(call,cx):null;
        const vars=s.vs.map((v,i)=>({v,t:v.ty?cx.type(v.ty):info&&info.outs?info.outs[i]:s.vs.length===1&&info?info.t:null}));
        const names=vars.map(({v,t})=>{const js=san(v.name).replace(/\W/g,'$')+'_'+(cx.fn.tmp++);return {js,v,t};});
        const code=genCallStmt(s.rs[0],names.map(n=>n.v.ghost&&cx.erase?{set:y=>''}:{set:y=>`${n.js}=${y};`,t:n.t}),cx);
        let r='';
        for(const n of names){if(n.v.ghost&&cx.erase)cx.vars.set(n.v.name,{js:'undefined',ty:n.t,name:n.v.name,ghostErased:true});else{r+=`let ${n.js};`;cx.vars.set(n.v.name,{js:n.js,ty:n.t,name:n.v.name});}}
        return r+code;
      }
      if(s.rs.length!==s.vs.length)err(cx,s,'var arity');
      const outs=s.vs.map((v,i)=>{
        if(v.ghost&&cx.erase)return {v,gh:true};
        // a variable initialised from something erased is ghost
        if(cx.erase&&isGhostExpr(s.rs[i],cx))return {v,gh:true,auto:true};
        const t=v.ty?cx.type(v.ty):null;const x=gen(s.rs[i],cx,t);return {v,x,t:t||x.t};});
      let r='';
      for(const o of outs){if(o.gh){declVar(o.v,null,cx,true);continue;}const ty=o.t&&o.t.k==='lit'?T.int:o.t;const d=declVar(o.v,bare2(ty),cx);r+=`let ${d.js}=${o.t?checkInto(o.x,o.t):o.x.c};`;}
      return r;}
    case 'VarST':{
      if(s.mods.includes('ghost')&&cx.erase){for(const v of s.vs)declVar(v,null,cx,true);return '';}
      const ch=genChoose(s.vs,s.e,cx,s);const names=s.vs.map((v,i)=>declVar(v,ch.ts[i],cx).js);return `let [${names}]=${ch.c};`;}
    case 'VarPat':{
      if(s.mods.includes('ghost')&&cx.erase){bindGhost(s.p,cx);return '';}
      if(callInfo(s.r,cx)){const t=cx.tmp();const info=gen(strip(s.r).t==='Inout'?strip(strip(s.r).e):strip(s.r),cx);const code=genCallStmt(s.r,[{set:y=>`${t}=${y};`}],cx);const st=[`let ${t};`,code];bindPat(s.p,t,info.outs?info.outs[0]:info.t,cx,st,true);return st.join('');}
      const x=gen(s.r,cx);const t=cx.tmp();const st=[`const ${t}=${x.c};`];bindPat(s.p,t,x.t,cx,st,true);return st.join('');}
    case 'Assign':{
      if(s.rs.length===1&&(s.ls.length>1||callInfo(s.rs[0],cx))){
        return genCallStmt(s.rs[0],s.ls.map(l=>lhsGhost(l,cx)&&cx.erase?{set:y=>''}:lval(l,cx)),cx);
      }
      if(s.ls.length===1){
        if(cx.erase&&lhsGhost(s.ls[0],cx))return '';
        const l=lval(s.ls[0],cx);if(s.rs[0].t==='Havoc')return '';
        const x=gen(s.rs[0],cx,l.t);return l.set(checkInto(x,l.t));
      }
      const st=[],ts=[];
      s.ls.forEach((l,i)=>{if(cx.erase&&lhsGhost(l,cx)){ts.push(null);return;}const lv=lval(l,cx);const t=cx.tmp();const x=gen(s.rs[i],cx,lv.t);st.push(`const ${t}=${checkInto(x,lv.t)};`);
        // index expressions evaluated before assignment take place on simultaneous semantics
        ts.push([lv,t]);});
      for(const x of ts)if(x)st.push(x[0].set(x[1]));
      return `{${st.join('')}}`;}
    case 'AssignST':{
      if(cx.erase&&s.ls.every(l=>lhsGhost(l,cx)))return '';
      const vs=s.ls.map((l,i)=>{if(strip(l).t!=='Id')err(cx,s,':| target');return {name:strip(l).name,ty:null};});
      const tys=vs.map(v=>cx.find(v.name)&&cx.find(v.name).ty);
      const c2=cx.sub();
      const ch=genChoose(vs,s.e,cx,s);const t=cx.tmp();
      return `{const ${t}=${ch.c};${s.ls.map((l,i)=>lval(l,cx).set(`${t}[${i}]`)).join('')}}`;}
    case 'ExprStmt':{
      if(cx.erase){const c=calleeOf(s.e,cx);if(c&&!isCompiledCallee(c))return '';}
      const e=strip(s.e);
      if(e.t==='Inout'||e.t==='Call'){
        // method called for its inout effects (or none)
        return genCallStmt(e,[],cx);
      }
      return `${g(e,cx)};`;}
    case 'If':{
      if(cx.erase&&stmtGhost(s,cx))return '';
      if(s.bind){
        const ch=genChoose(s.bind,s.c,cx,s,true);const t=cx.tmp();const c2=cx.sub();const names=s.bind.map((v,i)=>c2.def(v.name,ch.ts[i]).js);
        return `{const ${t}=${ch.c};if(${t}!==undefined){const [${names}]=${t};${genBlock(s.a,c2)}}${s.b?`else{${genStmt(s.b,cx)}}`:''}}`;
      }
      const c=s.c?g(s.c,cx):'$.nondet()';
      return `if(${c}){${genBlock(s.a,cx)}}${s.b?`else{${s.b.t==='Block'?genBlock(s.b,cx):genStmt(s.b,cx)}}`:''}`;}
    case 'IfAlt':{if(cx.erase&&stmtGhost(s,cx))return '';return s.alts.map((a,i)=>`${i?'else ':''}if(${g(a.g,cx)}){${genBlock(a.b,cx)}}`).join('')+'else $.fail("no alternative holds");';}
    case 'WhileAlt':{return `for(;;){${s.alts.map((a,i)=>`${i?'else ':''}if(${g(a.g,cx)}){${genBlock(a.b,cx)}}`).join('')}else break;}`;}
    case 'While':{
      if(!s.body)return '';
      if(cx.erase&&stmtGhost(s.body,cx)&&!hasExec(s.body))return '';
      const c=s.g?g(s.g,cx):'$.nondet()';
      return `while(${c}){$.tick();${genBlock(s.body,cx)}}`;}
    case 'Label':return `L_${s.lab}:{${genStmt(s.s,cx)}}`;
    case 'Break':return s.lab?`break L_${s.lab};`:s.n>1?err(cx,s,'multi break'):'break;';
    case 'MatchS':{
      if(cx.erase&&stmtGhost(s,cx))return '';
      const x=gen(s.e,cx);const t=cx.tmp();let r=`const ${t}=${x.c};`;
      const lab='M'+t.slice(1);
      s.cases.forEach((c,i)=>{const c2=cx.sub(),conds=[],st=[];matchPat(c.p,t,x.t,c2,conds,st);
        r+=`if(${conds.join('&&')||'true'}){${st.join('')}${genBlock(c.b,c2)}break ${lab};}`;});
      r+='$.fail("no match case");';
      // break inside the body must leave the enclosing loop: only the labelled block is left by our own break
      return `${lab}:{${r}}`;}
    case 'Return':{
      const outs=cx.outs||[];
      if(s.es.length===0)return cx.retStmt();
      if(s.es.length===1&&(outs.length>1||callInfo(s.es[0],cx))){
        const targets=outs.map(o=>o.ghostErased?{set:y=>''}:{set:y=>`${o.js}=${y};`,t:o.ty});
        return `{${genCallStmt(s.es[0],targets,cx)}${cx.retStmt()}}`;
      }
      const st=[],ts=[];s.es.forEach((x,i)=>{const o=outs[i];if(!o)err(cx,s,'return arity');if(o.ghostErased)return;const v=gen(x,cx,o.ty);const t=cx.tmp();st.push(`const ${t}=${checkInto(v,o.ty)};`);ts.push(`${o.js}=${t};`);});
      return `{${st.join('')}${ts.join('')}${cx.retStmt()}}`;}
    case 'ForallS':{
      if(cx.erase&&stmtGhost(s,cx))return '';
      // array comprehension assignment
      const bd=boundVars(s.vs,[s.range].filter(x=>x),cx,s);if(bd.bad)err(cx,s,'unbounded forall statement');
      const body=s.body.ss.find(x=>x.t==='Assign');const l=lval(body.ls[0],bd.c2),x=gen(body.rs[0],bd.c2);
      if(body.ls[0].t!=='Index')err(cx,s,'forall assignment');
      const arr=g(body.ls[0].e,bd.c2),ix=g(body.ls[0].i,bd.c2);
      return `{const W=[];${loops(bd,`if(${s.range?g(s.range,bd.c2):'true'})W.push([${arr},${ix},${x.c}]);`)}for(const [a,i,v] of W)$.aset(a,i,v);}`;}
  }
  err(cx,s,'statement '+s.t);
}
const bare2=t=>t;
let ticks=0;
$.ticks=()=>ticks;$.maxTicks=Infinity;$.resetTicks=(m=Infinity)=>{ticks=0;$.maxTicks=m;};
$.tick=()=>{if(++ticks>$.maxTicks){throw new DafnyFail('loop budget exceeded ('+$.maxTicks+' iterations)');}};
$.nondet=()=>false;
$.print=process.env.DFYPRINT?a=>process.stdout.write(a.map(x=>typeof x==='string'?x:$.show?$.show(x):String(x)).join('')):()=>{};
function link(cx,src,name){
  const cells=cx.fn.cells.map(c=>{
    if(c instanceof Cell)return c;
    if(c.ctor)return c.ctor.cls;if(c.single)return c.single.single;if('def' in c)return defaultOf(c.def);if(c.cls)return classInfo(c.cls).cls;
    if('type' in c)return c.type;if(c.fin)return c.fin;
    if(c.sub){const cell=c.sub;return v=>{if(!cell.$subf){const d=cell.decl.sub;cell.$subf=compileExprFn(cell,d.c,[{name:d.v,ty:d.ty}],false);}return cell.$subf(v);};}
    return c;
  });
  let f;
  try{f=new Function('$',...cells.map((_,i)=>'c'+i),src);}
  catch(x){throw new Error(`codegen for ${name}: ${x.message}\n${src}`);}
  return f($,...cells);
}
function setupParams(cx,cell,params,erase){
  const names=[];const chk=[];
  for(const p of params){
    const ty=resolveType(p.ty,cx);
    const gh=erase&&p.ghost;
    const v=cx.def(p.name,ty,gh?{ghostErased:true}:{});names.push(v.js);
    if(!gh&&ty&&ty.k==='native')chk.push(`$.rng(${v.js},${ty.los},${ty.his});`);
  }
  return {names,chk};
}
function setSelf(cx,cell){
  if(cell.owner&&!isStatic(cell)){
    const t={k:cell.owner.kind==='datatype'?'dt':cell.owner.kind==='class'?'class':'opaque',cell:cell.owner,args:(cell.owner.decl.tps||[]).map(n=>({k:'tp',name:n,decl:cell.owner.decl}))};
    let ty=t;if(cell.owner.kind==='type'||cell.owner.kind==='newtype'){ty=resolveNamed(cell.owner,[],cell.inst)||t;}
    const v={js:'$self',ty,name:'this'};cx.vars.set('self$',v);
    return 'let $self=this;';
  }
  return '';
}
function compileExprFn(cell,e,params,erase){
  const cx=new Cx(cell,erase);
  const pre=setSelf(cx,cell);
  const {names}=setupParams(cx,cell,params,erase);
  const b=gen(e,cx,null);
  return link(cx,`return function(${names}){${pre}return ${b.c};}`,cell.qname);
}
function buildCallable(cell){
  const d=cell.decl,prog=cell.prog;prog.stats.compiled++;
  try{
    if(cell.kind==='function'){
      if(!d.body){const n=cell.qname;return ()=>{throw new Unsup('function without body: '+n);};}
      const cx=new Cx(cell,!!d.meth);
      const pre=setSelf(cx,cell);
      const {names,chk}=setupParams(cx,cell,d.params,!!d.meth);
      const rt=d.ret?resolveType(d.ret,cx):null;
      const b=gen(d.body,cx,rt);
      return link(cx,`return function ${jsname(cell)}(${names}){${pre}${chk.join('')}return ${checkInto(b,rt)};}`,cell.qname);
    }
    if(!d.body){const n=cell.qname;return ()=>{throw new Unsup('method without body: '+n);};}
    const erase=!(d.mods.has('ghost')||d.lemma);
    const cx=new Cx(cell,erase);
    let pre=setSelf(cx,cell);
    if(cx.find('self$'))cx.vars.set('self',{js:'$self',ty:cx.find('self$').ty,name:'self'});
    const {names,chk}=setupParams(cx,cell,d.params,erase);
    const rets=[];
    const inoutSelf=d.mods.has('inout');
    if(inoutSelf)rets.push('$self');
    d.params.forEach((p,i)=>{if(p.inout){rets.push(names[i]);}
      if(p.inout){cx.vars.set('old_'+p.name,{js:'undefined',ty:resolveType(p.ty,cx),name:'old_'+p.name,ghostErased:erase});}});
    if(inoutSelf)cx.vars.set('old_self',{js:'undefined',ty:null,name:'old_self',ghostErased:erase});
    let decl='';cx.outs=[];
    for(const o of d.outs||[]){const ty=resolveType(o.ty,cx);const v=cx.def(o.name,ty,erase&&o.ghost?{ghostErased:true}:{});cx.outs.push(v);if(!v.ghostErased)decl+=`let ${v.js}=${cx.ref({def:ty})}();`;rets.push(v.ghostErased?'undefined':v.js);}
    const ret=rets.length===0?'return;':rets.length===1?`return ${rets[0]};`:`return [${rets}];`;
    cx.retStmt=()=>ret;
    const b=genBlock(d.body,cx);
    return link(cx,`return function ${jsname(cell)}(${names}){${pre}${chk.join('')}${decl}\n${b}\n${ret}}`,cell.qname);
  }catch(x){
    if(!(x instanceof CompErr))throw x;
    prog.stats.unsup.push(x.message);const m=x.message;return ()=>{throw new Unsup(m);};
  }
}
function jsname(cell){return san((cell.owner?cell.owner.name+'_':'')+cell.name).replace(/\W/g,'$');}
module.exports={Program,CompErr,dtInfo,classInfo,memberCells,resolveType,san,$,newClass,typeProxy,proxy,compileExprFn,buildCallable,Cx};
