'use strict';
// Resolves and compiles the parsed specification language to JavaScript. Dynamically typed: methods dispatch on the receiver's value.
const fs=require('fs'),path=require('path');const {parse,PErr}=require('./parse.js');const V=require('./rt.js');const {DT}=V;
class CErr extends Error{}
const BT=new Set(['Map','Set','Seq','Multiset','Option','Result','Vec','Box','Ghost','Tracked','IMap','String','u8','u16','u32','u64','usize','i64','int','nat','bool','u128']);
class Program{
  constructor(opts={}){this.o=opts;this.root={path:[],name:'',items:new Map(),uses:new Map(),globs:[],kids:new Map()};this.cells=[];this.C=[];this.types=[];this.lemmas=[];this.impls=[];this.machines=new Map();this.errs=[];this.methods=new Map();}
  load(src,dirs){
    const files=[];const walk=d=>{for(const f of fs.readdirSync(d).sort()){const p=d+'/'+f;let s;try{s=fs.statSync(p);}catch(e){continue;}if(s.isDirectory())walk(p);else if(f.endsWith('.rs'))files.push(p);}};
    for(const d of dirs)(fs.statSync(src+'/'+d).isDirectory()?walk(src+'/'+d):files.push(src+'/'+d));
    for(const f of files){
      const rel=f.slice(src.length+1).replace(/\.rs$/,'').split('/');if(rel[rel.length-1]==='mod')rel.pop();
      let m=this.root;for(const s of rel){if(!m.kids.has(s))m.kids.set(s,this.mod(s,m));m=m.kids.get(s);}
      let its;try{its=parse(fs.readFileSync(f,'utf8'),rel.join('/')+'.rs',this.o);}catch(e){if(e instanceof PErr)throw e;throw e;}
      m.file=rel.join('/')+'.rs';this.collect(m,its);
    }
    for(const [m,it] of this.impls)this.addImpl(m,it);
    return this;
  }
  mod(name,parent,machine){return {name,parent,path:[...(parent.path||[]),name],items:new Map(),uses:new Map(),globs:[],kids:new Map(),machine};}
  collect(m,its){
    for(const it of its)switch(it.k){
      case 'group':this.collect(m,it.items);break;
      case 'use':for(const u of it.us)if(u.glob)m.globs.push(u.path);else m.uses.set(u.as,u.path);break;
      case 'mod':{const k=this.mod(it.name,m);k.nested=true;m.kids.set(it.name,k);this.collect(k,it.items);break;}
      case 'struct':m.items.set(it.name,this.struct(m,it.name,it.fs,it.pos,it));break;
      case 'enum':m.items.set(it.name,this.enm(m,it.name,it.vs,it));break;
      case 'type':m.items.set(it.name,{k:'alias',ty:it.ty,m,tps:it.tps});break;
      case 'const':m.items.set(it.name,{k:'const',m,decl:it});break;
      case 'fn':{const c=this.fn(m,null,it);if(c)m.items.set(it.name,c);break;}
      case 'impl':this.impls.push([m,it]);break;
      case 'trait':{const d={k:'trait',name:it.name,m,fns:new Map()};for(const f of it.items)if(f&&f.k==='fn')d.fns.set(f.name,f);m.items.set(it.name,d);break;}
      case 'machine':this.machine(m,it);break;
    }
  }
  fn(m,owner,d,extra){
    const c={k:'fn',m,owner,decl:d,i:this.cells.length,name:d.name,qn:(m.path.join('::'))+'::'+(owner?owner.name+'::':'')+d.name};
    this.cells.push(c);this.C.push((...a)=>this.compile(c)(...a));
    if(d.mods.has('proof')||(d.cl.ensures.length&&!d.mods.has('spec')&&!d.body))this.lemmas.push(c);
    if(d.body||d.mods.has('spec')){if(owner&&d.self){let l=this.methods.get(d.name);if(!l)this.methods.set(d.name,l=[]);l.push(c);}}
    return c;
  }
  struct(m,name,fs,pos,it){
    const t={k:'type',kind:'struct',name,m,members:new Map(),fields:fs,pos,id:this.types.length,tps:(it&&it.tps)||[]};this.types.push(t);
    t.base=class extends DT{};t.K=this.klass(t,name,fs);t.base.prototype.$ty=t.base.prototype.$cell=t;return t;
  }
  klass(t,cn,fs){
    const ps=fs.map((_,i)=>'a'+i),pr=fs.map(f=>'_'+f.n);
    const K=new Function('Base',`return class extends Base{constructor(${ps}){super();${pr.map((p,i)=>`this.${p}=a${i};`).join('')}} $vals(){return [${pr.map(p=>'this.'+p)}];} $clone(){return new this.constructor(${pr.map(p=>'this.'+p)});}}`)(t.base);
    K.prototype.$cn=cn;K.prototype.$f=pr;K.$n=fs.length;return K;
  }
  enm(m,name,vs,it){
    const t={k:'type',kind:'enum',name,m,members:new Map(),variants:new Map(),id:this.types.length,tps:(it&&it.tps)||[]};this.types.push(t);
    t.base=class extends DT{};t.base.prototype.$ty=t.base.prototype.$cell=t;for(const v of vs){const K=this.klass(t,v.n,v.fs);const o={K,fs:v.fs,pos:v.pos,single:v.fs.length?null:new K(),n:v.n,t};t.variants.set(v.n,o);}
    return t;
  }
  addImpl(m,it){
    const t=this.typeDef(it.ty,m,true);if(!t){this.errs.push('impl for '+(it.ty&&it.ty.n));return;}
    const seen=new Set();
    for(const f of it.items)if(f&&f.k==='fn'){if(it.tr&&t.members.has(f.name)&&!['view'].includes(f.name))continue;const c=this.fn(m,t,f);c.tps=it.tps;t.members.set(f.name,c);this.proto(t,f.name,c);seen.add(f.name);}
      else if(f&&f.k==='const'){t.members.set(f.name,{k:'const',m,decl:f,owner:t});}
    if(it.tr){const tr=this.lookupPath(it.tr.p||[it.tr.n],m,t);if(tr&&tr.k==='trait')for(const [n,f] of tr.fns)if(!seen.has(n)&&(f.body)&&!t.members.has(n)){const c=this.fn(tr.m,t,f);t.members.set(n,c);this.proto(t,n,c);}}
  }
  proto(t,n,c){const C=this.C,i=c.i;if(c.decl.self)t.base.prototype['m_'+n]=function(...a){return C[i](this,...a);};}
  machine(m,it){
    const mm=this.mod(it.name,m,true);m.kids.set(it.name,mm);m.items.set(it.name,{k:'modref',mod:mm});
    const st=this.struct(mm,'State',it.fields,false,it);mm.items.set('State',st);st.machine=it;
    const M={name:it.name,mod:mm,state:st,decl:it,trans:new Map(),inits:new Map(),invs:it.invs,prog:this};this.machines.set(it.name,M);st.M=M;
    const lab=it.items.find(x=>(x.k==='enum'||x.k==='type')&&x.name==='Label');
    const isLabel=p=>p&&p.ty&&p.ty.n==='Label'&&(!p.ty.p||p.ty.p.length===1);
    const steps=[],confs=[];
    for(const tr of it.trans){
      const hasL=tr.ps.length&&isLabel(tr.ps[0])&&!!lab;const x={kind:tr.kind,name:tr.name,ps:tr.ps,hasL,args:hasL?tr.ps.slice(1):tr.ps,body:tr.body,M};
      if(tr.kind==='init'){M.inits.set(tr.name,x);confs.push({n:tr.name,fs:tr.ps.map((p,i)=>({n:String(i),ty:p.ty})),pos:true});}
      else if(tr.kind==='transition'||tr.kind==='readonly'){M.trans.set(tr.name,x);steps.push({n:tr.name,fs:x.args.map((p,i)=>({n:String(i),ty:p.ty})),pos:true});}
    }
    M.hasLabel=!!lab;
    const S=M.Step=this.enm(mm,'Step',steps,it),Cf=M.Config=this.enm(mm,'Config',confs,it);mm.items.set('Step',S);mm.items.set('Config',Cf);
    for(const e of it.items)if(e.k!=='fn'&&e.k!=='none')this.collect(mm,[e]);
    for(const e of it.items)if(e.k==='fn'){const c=this.fn(mm,st,e);st.members.set(e.name,c);this.proto(st,e.name,c);}
    const P=this,nat=(name,f)=>{const i=this.cells.length;this.cells.push({k:'nat',name,qn:it.name+'::State::'+name});this.C.push(f);st.members.set(name,{k:'nat',i,name});};
    for(const x of M.trans.values()){
      M.apply=M.apply||function(name,pre,...a){return P.applyTr(M,M.trans.get(name),pre,a);};
      const rel=(pre,post,...a)=>{const u=P.trans(x)(pre,...a);return !!u&&P.agree(st,pre,post,u);};
      nat(x.name,rel);nat(x.name+'_strong',rel);
    }
    for(const x of M.inits.values()){const rel=(post,...a)=>{const u=P.trans(x)(null,...a);return !!u&&P.agree(st,null,post,u);};nat(x.name,rel);}
    const by=(pre,post,...r)=>{const lbl=M.hasLabel?[r[0]]:[],step=r[r.length-1];const x=M.trans.get(step.$cn);return st.members.get(x.name)&&P.C[st.members.get(x.name).i](pre,post,...(x.hasL?lbl:[]),...step.$vals());};
    nat('next_by',by);nat('next_strong_by',by);
    const next=(pre,post,lbl)=>{for(const s of P.stepsFor(M,pre,post,lbl)){let r;try{r=by(pre,post,...(M.hasLabel?[lbl]:[]),s);}catch(e){if(e instanceof V.DafnyFail)continue;throw e;}if(r)return true;}return false;};
    nat('next',next);nat('next_strong',next);M.next=next;M.by=by;
    nat('init_by',(post,conf)=>P.C[st.members.get(conf.$cn).i](post,...conf.$vals()));
    nat('init',post=>{for(const x of M.inits.values()){for(const a of P.paramCombos(M,x,null,post,null)){try{if(P.C[st.members.get(x.name).i](post,...a))return true;}catch(e){if(!(e instanceof V.DafnyFail))throw e;}}}return false;});
    for(const inv of it.invs){/* invariant predicates are ordinary members */}
    nat('invariant',s=>it.invs.every(n=>P.C[st.members.get(n).i](s)));st.base.prototype.m_invariant=function(){return it.invs.every(n=>this['m_'+n]());};
    for(const it2 of mm.items.values())if(it2.k==='type')it2.M=M;
  }
  agree(st,pre,post,u){for(const f of st.fields){const n='_'+f.n;const w=n in u?u[n]:pre?pre[n]:undefined;if(w===undefined&&!pre)continue;if(!V.eq(w,post[n]))return false;}return true;}
  applyTr(M,x,pre,a){const u=this.trans(x)(pre,...a);if(!u)return null;if(pre)return Object.keys(u).length?V.upd(pre,Object.entries(u)):pre;return new M.state.K(...M.state.fields.map(f=>u['_'+f.n]));}
  // candidate steps of a machine for a given transition
  *stepsFor(M,pre,post,lbl){
    const h=this.o.steps&&this.o.steps(M.name,pre,post,lbl);if(h)yield* h;
    for(const x of M.trans.values())for(const a of this.paramCombos(M,x,pre,post,lbl))yield new (M.Step.variants.get(x.name).K)(...a);
  }
  *paramCombos(M,x,pre,post,lbl){
    if(!x.infer){x.infer=new Map();const walk=ss=>{for(const s of ss){if(s.t==='Upd'&&s.l.length===1&&!s.idx){let e=s.e;if(e.t==='Path'&&e.path.length===1)x.infer.set(e.path[0],p=>p['_'+s.l[0]]);
        if(e.t==='Dot'&&e.e.t==='Path'&&e.e.path.length===1&&x.kind==='init'&&!x.infer.has(e.e.path[0]))x.infer.set(e.e.path[0],p=>p);}
        if(s.t==='If'){walk(s.a);if(s.b)walk(s.b);}if(s.t==='Match')s.arms.forEach(a=>walk(a.b));}};walk(x.body);}
    const lists=[];
    for(const p of x.args){
      const h=this.o.params&&this.o.params(M.name,x.name,p.n,pre,post,lbl);
      if(h){lists.push([...h]);continue;}
      if(x.infer.has(p.n)){lists.push([x.infer.get(p.n)(post)]);continue;}
      let l;try{l=[...V.$.universe({k:'v',name:p.n,ty:p.ty,fn:M.name+'.'+x.name,pre,post,lbl})];}catch(e){if(e instanceof V.Unsup)return;throw e;}
      lists.push(l);
    }
    const go=function*(i,a){if(i===lists.length){yield a;return;}for(const v of lists[i])yield* go(i+1,[...a,v]);};
    yield* go(0,[]);
  }
  // ---- name resolution
  modPath(p){let m=this.root;for(const s of p){m=m.kids.get(s);if(!m)return null;}return m;}
  lookup(n,m,seen=new Set()){ // name in module m
    if(!m||seen.has(m))return null;seen.add(m);
    if(m.items.has(n))return m.items.get(n);
    if(m.kids.has(n))return {k:'modref',mod:m.kids.get(n)};
    if(m.uses.has(n)){const r=this.lookupPath(m.uses.get(n),m,null,true);if(r)return r;}
    // items of a glob-imported module come before what that module itself imports (private imports are not re-exported)
    for(const g of m.globs){const gm=this.lookupPath(g,m,null,true);if(gm&&gm.k==='modref'&&gm.mod.items.has(n))return gm.mod.items.get(n);}
    if((m.machine||m.nested)&&m.parent&&m.parent.items.has(n))return m.parent.items.get(n);
    for(const g of m.globs){const gm=this.lookupPath(g,m,null,true);if(gm&&gm.k==='modref'){const r=this.lookup(n,gm.mod,seen);if(r)return r;}
      if(gm&&gm.k==='type'&&gm.variants&&gm.variants.has(n))return {k:'variant',v:gm.variants.get(n)};}
    if((m.machine||m.nested)&&m.parent){const r=this.lookup(n,m.parent,seen);if(r)return r;}
    return null;
  }
  lookupPath(p,m,self,isUse){
    let cur=null,i=0;
    const s=p[0];
    if(s==='crate'){cur={k:'modref',mod:this.root};i=1;}
    else if(s==='super'){cur={k:'modref',mod:m.parent};i=1;}
    else if(s==='self'&&p.length>1){cur={k:'modref',mod:m};i=1;}
    else if(s==='Self'&&self){cur=self;i=1;}
    else if(isUse){cur=m.items.get(s)||(m.kids.has(s)?{k:'modref',mod:m.kids.get(s)}:null)||(this.root.kids.has(s)?{k:'modref',mod:this.root.kids.get(s)}:null);
      if(!cur&&!['vstd','builtin','builtin_macros','std','state_machines_macros','verus_builtin','verus_builtin_macros','verus_state_machines_macros','core','alloc'].includes(s)&&!this.inUse){this.inUse=true;try{cur=this.lookup(s,m);}finally{this.inUse=false;}}i=1;if(!cur)return null;}
    else{cur=this.lookup(s,m);i=1;if(!cur)return null;}
    for(;i<p.length;i++){
      cur=this.deal(cur);if(!cur)return null;
      if(cur.k==='modref'){const x=cur.mod.items.get(p[i])||(cur.mod.kids.has(p[i])?{k:'modref',mod:cur.mod.kids.get(p[i])}:null)||this.lookup(p[i],cur.mod);cur=x;}
      else if(cur.k==='type'){const mm=cur.members.get(p[i]);if(mm)cur=mm;else if(cur.variants&&cur.variants.has(p[i]))cur={k:'variant',v:cur.variants.get(p[i])};else return {k:'missing',t:cur,n:p[i]};}
      else if(cur.k==='builtin')return {k:'bstatic',n:cur.n+'::'+p[i]};
      else if(cur.k==='trait'){return {k:'traitfn',tr:cur,n:p[i]};}
      else return null;
      if(!cur)return null;
    }
    return cur;
  }
  deal(x){let g=0;while(x&&x.k==='alias'&&g++<20){if(!x.ty)return null;const t=this.typeDef(x.ty,x.m);if(!t)return BT.has(x.ty.n)?{k:'builtin',n:x.ty.n}:null;x=t;}return x;}
  typeDef(ty,m,quiet){ if(!ty)return null;const r=this.deal(this.lookupPath(ty.p||[ty.n],m,null));return r&&r.k==='type'?r:null; }
  get(q){const r=this.deal(this.lookupPath(['crate',...q.split('::')],this.root,null));return r;}
  // ---- compilation
  ref(i){return `C[${i}]`;}
  compile(c){
    if(c.f)return c.f;
    const ov=this.o.overrides&&this.o.overrides[c.qn];
    if(ov){c.f=ov;this.C[c.i]=ov;return ov;}
    if(!c.decl.body){const q=c.qn;c.f=()=>{throw new V.Unsup('no body: '+q);};return c.f;}
    const cx=new Cx(this,c.m,c.owner,c);
    const ps=[];if(c.decl.self)ps.push(cx.def('self'));for(const p of c.decl.ps)ps.push(p.n?cx.def(p.n):cx.tmp());
    let body;
    try{let pre='';if(c.decl.cl.when)pre=`if(!(${cx.e(c.decl.cl.when)}))V.fail('decreases-when of ${c.name}');`;body=pre+cx.tail(c.decl.body);}catch(e){if(e instanceof CErr){e.message=c.qn+': '+e.message;}throw e;}
    const js=`return function ${san(c.name)}(${ps}){${cx.declJs()}${body}}`;
    let f;try{f=new Function('V','C','K',js)(V,this.C,this.K);}catch(e){throw new Error('js for '+c.qn+': '+e.message+'\n'+js);}
    if(this.o.wrap)f=this.o.wrap(c,f)||f;
    c.f=f;this.C[c.i]=f;return f;
  }
  get K(){if(!this._K){this._K={};}return this._K;}
  kref(K){if(!K.$kid){K.$kid='k'+Object.keys(this.K).length;this.K[K.$kid]=K;}return 'K.'+K.$kid;}
  sref(o){if(!o.$sid){o.$sid='s'+Object.keys(this.K).length;this.K[o.$sid]=o.single;}return 'K.'+o.$sid;}
  cref(c){ // constant
    if(c.val===undefined){const cx=new Cx(this,c.m,c.owner||null,{qn:'const '+c.decl.name});const e=cx.e(c.decl.e);c.val=new Function('V','C','K',`${cx.declJs()}return ${e};`)(V,this.C,this.K);c.key='c'+Object.keys(this.K).length;this.K[c.key]=c.val;}
    return 'K.'+c.key;
  }
  trans(x){
    if(x.f)return x.f;
    const cx=new Cx(this,x.M.mod,x.M.state,{qn:x.M.name+'.'+x.name});
    const ps=[x.kind==='init'?'_p':cx.def('pre'),...x.ps.map(p=>cx.def(p.n))];
    const body=cx.tstmts(x.body);
    const js=`return function ${san(x.name)}(${ps}){const U={};${cx.declJs()}${body}return U;}`;
    try{x.f=new Function('V','C','K',js)(V,this.C,this.K);}catch(e){throw new Error('js for '+x.name+': '+e.message+'\n'+js);}
    return x.f;
  }
  // lemma: f(self?,...args) -> null (requires false) or list of [ok, text]
  lemma(c){
    if(c.lf)return c.lf;const d=c.decl;const cx=new Cx(this,c.m,c.owner,c);
    const ps=[];if(d.self)ps.push(cx.def('self'));for(const p of d.ps)ps.push(p.n?cx.def(p.n):cx.tmp());
    const pre=d.cl.requires.map(r=>`if(!(${cx.e(r)}))return null;`).join('');
    const post=d.cl.ensures.map((r,i)=>`if(!(${cx.e(r)}))return ${i+1};`).join('');
    const js=`return function(${ps}){${cx.declJs()}${pre}return [()=>{${post}return 0;}];}`;
    c.lf=new Function('V','C','K',js)(V,this.C,this.K);return c.lf;
  }
}
const RES=new Set(['var','let','const','new','delete','function','this','default','class','in','of','with','export','import','package','void','switch','case','try','catch','typeof','arguments','eval','yield','static','interface','do','V','C','K','U','null','undefined']);
const san=n=>RES.has(n)?n+'$':n;
class Cx{
  constructor(P,m,self,fn){this.P=P;this.m=m;this.self=self;this.fn=fn;this.scopes=[new Map()];this.decls=[[]];this.n=0;}
  declJs(){const d=this.decls[this.decls.length-1];return d.length?'let '+d.join(',')+';':'';}
  def(n){const j=san(n)+'$'+(this.n++);this.scopes[this.scopes.length-1].set(n,j);return j;}
  tmp(){return 't$'+(this.n++);}
  local(n){const j=this.def(n);this.decls[this.decls.length-1].push(j);return j;}
  ltmp(){const j=this.tmp();this.decls[this.decls.length-1].push(j);return j;}
  find(n){for(let i=this.scopes.length-1;i>=0;i--)if(this.scopes[i].has(n))return this.scopes[i].get(n);return null;}
  scoped(f){this.scopes.push(new Map());try{return f();}finally{this.scopes.pop();}}
  func(ps,g){ // arrow function with own declarations
    this.scopes.push(new Map());this.decls.push([]);
    try{const names=[];let pre='';for(const p of ps){if(p.n)names.push(this.def(p.n));else{const t=this.tmp();names.push(t);if(p.p)pre+=this.pat(p.p,t)+';';}}
      const b=g();const d=this.declJs();return `((${names})=>{${d}${pre}${b}})`;}
    finally{this.scopes.pop();this.decls.pop();}
  }
  err(e,m){throw new CErr((this.m.file||this.m.path.join('/'))+':'+(e&&e.line||'?')+': '+m);}
  // statements ending in return
  tail(e){
    switch(e.t){
      case 'Block':return this.scoped(()=>{let s='';for(const x of e.ss)s+=this.stmt(x);return s+(e.last?this.tail(e.last):'return undefined;');});
      case 'If':return this.scoped(()=>`if(${this.e(e.c)}){${this.tail(e.a)}}else{${e.b?this.tail(e.b):'return undefined;'}}`);
      case 'Match':{const t=this.ltmp();let s=`${t}=${this.e(e.e)};`;for(const a of e.arms)s+=this.scoped(()=>{const p=this.pat(a.p,t);return `if(${p}${a.g?`&&(${this.e(a.g)})`:''}){${this.tail(a.b)}}`;});return s+`V.fail('no match arm');`;}
      case 'Par':return this.tail(e.e);
      default:return `return ${this.e(e)};`;
    }
  }
  stmt(x){
    switch(x.t){
      case 'Let':{if(!x.e)return '';const t=this.ltmp();const v=this.e(x.e);if(x.p.t==='PId')return `${this.local(x.p.n)}=${v};`;return `${t}=${v};if(!(${this.pat(x.p,t)}))V.fail('let pattern');`;}
      case 'ExprS':{if(x.e.t==='Unit'||x.e.t==='Block'&&!x.e.ss.length)return '';const c=this.e(x.e);return c+';';}
      default:this.err(x,'statement '+x.t);
    }
  }
  tstmts(ss){return this.scoped(()=>{let s='';for(const x of ss){
    switch(x.t){
      case 'Req':s+=`if(!(${this.e(x.e)}))return null;`;break;
      case 'ReqLet':{const t=this.ltmp();s+=`${t}=${this.e(x.e)};if(!(${this.pat(x.p,t)}))return null;`;break;}
      case 'Let':s+=this.stmt(x);break;
      case 'Upd':{
        if(x.idx){const f='_'+x.l[0];s+=`U.${f}=('${f}' in U?U.${f}:${this.find('pre')}.${f}).set(${this.e(x.idx)},${this.e(x.e)});`;break;}
        if(x.l.length===1){s+=`U._${x.l[0]}=${this.e(x.e)};`;break;}
        const path=x.l;let base=`('_${path[0]}' in U?U._${path[0]}:${this.find('pre')}._${path[0]})`;
        const go=(b,i)=>i===path.length?this.e(x.e):`V.upd(${b},[['_${path[i]}',${go(`V.field(${b},'${path[i]}')`,i+1)}]])`;s+=`U._${path[0]}=${go(base,1)};`;break;}
      case 'If':s+=this.scoped(()=>`if(${this.e(x.c)}){${this.tstmts(x.a)}}`)+(x.b?`else{${this.tstmts(x.b)}}`:'');break;
      case 'Match':{const t=this.ltmp();s+=`${t}=${this.e(x.e)};`;let first=true;for(const a of x.arms){s+=this.scoped(()=>{const p=this.pat(a.p,t);return `${first?'':'else '}if(${p}){${this.tstmts(a.b)}}`;});first=false;}break;}
      case 'ExprS':break;
      default:this.err(x,'transition statement '+x.t);
    }}return s;});}
  // pattern test with bindings as side effects
  pat(p,v){
    switch(p.t){
      case 'PWild':case 'PRest':return 'true';
      case 'PId':{const r=this.P.lookup(p.n,this.m);if(r&&r.k==='variant')return `V.is(${v},'${p.n}')`;return `(${this.local(p.n)}=${v},true)`;}
      case 'PLit':return `${v}===${JSON.stringify(p.v)}`;
      case 'PTup':return '('+(p.a.map((q,i)=>this.pat(q,`${v}._${i}`)).filter(x=>x!=='true').join('&&')||'true')+')';
      case 'PAt':return `(${this.local(p.n)}=${v},${this.pat(p.p,v)})`;
      case 'POr':return '('+p.a.map(q=>this.pat(q,v)).join('||')+')';
      case 'PCtor':{
        const n=p.path[p.path.length-1];let en=null;
        if(['Some','None','Ok','Err'].includes(n)&&(p.path.length===1||p.path[0]==='Option'||p.path[0]==='Result'))en=null;
        else{en=this.P.deal(this.P.lookupPath(p.path,this.m,this.self));if(!en)this.err(p,'pattern '+p.path.join('::'));}
        const cs=[];
        if(!en||en.k==='variant')cs.push(`V.is(${v},'${n}')`);
        if(p.fs)for(const [f,q] of p.fs){const t=this.ltmp();const s=this.pat(q,t);if(s!=='true')cs.push(`(${t}=${v}._${f},${s})`);}
        if(p.pos)p.pos.forEach((q,i)=>{if(q.t==='PRest')return;const t=this.ltmp();const s=this.pat(q,t);if(s!=='true')cs.push(`(${t}=${v}._${i},${s})`);});
        return '('+(cs.join('&&')||'true')+')';
      }
    }
    this.err(p,'pattern '+p.t);
  }
  iife(g){return this.func([],g)+'()';}
  e(e){
    switch(e.t){
      case 'Lit':return typeof e.v==='bigint'?e.v+'n':JSON.stringify(e.v);
      case 'Par':return `(${this.e(e.e)})`;
      case 'Unit':return 'undefined';
      case 'Arb':return 'V.arb()';
      case 'Tup':return e.a.length?`V.Tup(${e.a.map(x=>this.e(x))})`:'undefined';
      case 'SeqLit':return `[${e.a.map(x=>this.e(x))}]`;
      case 'SetLit':return `V.DSet.of(${e.a.map(x=>this.e(x))})`;
      case 'MsLit':return `V.DMs.from([${e.a.map(x=>this.e(x))}])`;
      case 'MapLit':return `V.DMap.of([${e.a.map(([k,v])=>`[${this.e(k)},${this.e(v)}]`)}])`;
      case 'Rep':return `Array(${this.e(e.n)}).fill(${this.e(e.e)})`;
      case 'Not':return `!(${this.e(e.e)})`;
      case 'Neg':return `V.neg(${this.e(e.e)})`;
      case 'And':return '('+e.a.map(x=>this.e(x)).join('&&')+')';
      case 'Or':return '('+e.a.map(x=>this.e(x)).join('||')+')';
      case 'Chain':{ // evaluate inner operands once
        const ps=e.parts.map((p,i)=>i>0&&i<e.parts.length-1?{t:this.ltmp(),c:this.e(p)}:{c:this.e(p)});
        return '('+e.ops.map((op,i)=>this.cmp(op,i===0?ps[0].c:ps[i].t,i+1===ps.length-1?ps[i+1].c:`(${ps[i+1].t}=${ps[i+1].c})`)).join('&&')+')';}
      case 'Bin':return this.bin(e);
      case 'Matches':{const t=this.ltmp();const v=this.e(e.e);return `(${t}=${v},${this.pat(e.p,t)})`;}
      case 'Is':return `V.is(${this.e(e.e)},'${e.v}')`;
      case 'As':{const r=this.P.deal(this.P.lookupPath(e.ty.p||[e.ty.n],this.m,this.self));const n=r&&r.k==='builtin'?r.n:e.ty.n;return `V.as(${this.e(e.e)},'${n}')`;}
      case 'View':return `V.view(${this.e(e.e)})`;
      case 'Arrow':return `V.arrow(${this.e(e.e)},'${e.f}')`;
      case 'Dot':return `V.field(${this.e(e.e)},'${e.f}')`;
      case 'Idx':if(e.i.t==='Range')this.err(e,'range index');return `V.at(${this.e(e.e)},${this.e(e.i)})`;
      case 'Path':return this.path(e);
      case 'Struct':return this.structE(e);
      case 'Call':return this.call(e);
      case 'Block':if(!e.ss.length&&e.last)return `(${this.scoped(()=>this.e(e.last))})`;return this.iife(()=>this.tail(e));
      case 'If':if(e.c.t!=='Matches'&&e.b)return `((${this.e(e.c)})?${this.e(e.a)}:${this.e(e.b)})`;return this.iife(()=>this.tail(e));
      case 'Match':return this.iife(()=>this.tail(e));
      case 'Fn':return this.func(e.vs,()=>this.tail(e.body));
      case 'Quant':return this.quant(e);
    }
    this.err(e,'expression '+e.t);
  }
  cmp(op,a,b){switch(op){case '==':case '===':case '=~=':case '=~~=':return `V.eq(${a},${b})`;case '!=':case '!==':case '!~=':return `!V.eq(${a},${b})`;case '<':return `V.lt(${a},${b})`;case '<=':return `V.le(${a},${b})`;case '>':return `V.lt(${b},${a})`;case '>=':return `V.le(${b},${a})`;}}
  bin(e){
    const a=this.e(e.a),b=this.e(e.b);
    switch(e.op){
      case '&&':return `((${a})&&(${b}))`;case '||':return `((${a})||(${b}))`;case '==>':return `(!(${a})||(${b}))`;case '<==>':return `((${a})===(${b}))`;
      case '+':return `V.add(${a},${b})`;case '-':return `V.sub(${a},${b})`;case '*':return `V.mul(${a},${b})`;case '/':return `V.div(${a},${b})`;case '%':return `V.mod(${a},${b})`;
      case '&':case '|':case '^':return `V.$.bwU('${e.op}',${a},${b})`;case '<<':return `V.$.shl(${a},${b},64)`;case '>>':return `V.$.shr(${a},${b})`;
    }
    return this.cmp(e.op,a,b);
  }
  path(e){
    const p=e.path;
    if(p.length===1){const l=this.find(p[0]);if(l)return l;if(p[0]==='None')return 'V.None';if(p[0]==='Some')return 'V.Some';}
    if(p[0]==='Option'&&p.length===2)return 'V.'+p[1];
    let r=this.P.lookupPath(p,this.m,this.self);
    if(r&&r.k==='alias')r=this.P.deal(r);
    if(!r&&BT.has(p[0])&&p.length===2){if(p[1]==='MAX')return String({u8:255,u16:65535,u32:4294967295,u64:'18446744073709551615n',usize:'18446744073709551615n',u128:'340282366920938463463374607431768211455n'}[p[0]]);if(p[1]==='MIN')return '0';}
    const s=this.bstatic(p,r);if(s)return s;
    if(!r)this.err(e,'unresolved '+p.join('::'));
    switch(r.k){
      case 'variant':return r.v.single?this.P.sref(r.v):`((...a)=>new ${this.P.kref(r.v.K)}(...a))`;
      case 'fn':case 'nat':return this.P.ref(r.i);
      case 'const':return this.P.cref(r);
      case 'type':if(r.kind==='struct'){if(!r.fields.length){return `new ${this.P.kref(r.K)}()`;}return `((...a)=>new ${this.P.kref(r.K)}(...a))`;}
    }
    this.err(e,'path '+p.join('::')+' is '+r.k);
  }
  bstatic(p,r){
    let key=null;
    if(r&&r.k==='bstatic')key=r.n;
    else if(r)return null;
    else if(p.length>=2)key=p[p.length-2]+'::'+p[p.length-1];
    else key=p[0];
    if(key&&V.S[key])return `V.S['${key}']`;
    const l=p[p.length-1];if(!r&&V.S[l]&&p.length>=2&&!BT.has(p[p.length-2]))return `V.S['${l}']`;
    if(p.length===2&&BT.has(p[0])){for(const k of ['map','set','seq','ms','opt'])if(({Map:'map',Set:'set',Seq:'seq',Multiset:'ms',Option:'opt'})[p[0]]===k&&V.B[k][p[1]])return `V.B.${k}.${p[1]}`;}
    return null;
  }
  structE(e){
    const n=e.path[e.path.length-1];
    let r=this.P.deal(this.P.lookupPath(e.path,this.m,this.self));
    if(!r)this.err(e,'struct '+e.path.join('::'));
    let K,fs;if(r.k==='variant'){K=r.v.K;fs=r.v.fs;}else if(r.k==='type'&&r.kind==='struct'){K=r.K;fs=r.fields;}else this.err(e,'struct literal of '+r.k);
    const m=new Map(e.fs);
    for(const k of m.keys())if(!fs.some(f=>f.n===k))this.err(e,'no field '+k);
    if(e.base){const b=this.ltmp();return `(${b}=${this.e(e.base)},new ${this.P.kref(K)}(${fs.map(f=>m.has(f.n)?this.e(m.get(f.n)):`V.field(${b},'${f.n}')`)}))`;}
    const miss=fs.find(f=>!m.has(f.n));if(miss)this.err(e,'missing field '+miss.n);
    // source order of evaluation does not matter: pure
    return `new ${this.P.kref(K)}(${fs.map(f=>this.e(m.get(f.n)))})`;
  }
  call(e){
    const f=e.f,args=()=>e.args.map(x=>this.e(x));
    if(f.t==='Dot'){return `V.m(${[this.e(f.e),`'${f.f}'`,...args()]})`;}
    if(f.t==='Path'){
      const p=f.path;
      if(p.length===1&&this.find(p[0]))return `V.call(${[this.find(p[0]),...args()]})`;
      if(p.length===2&&(p[0]==='Set'||p[0]==='Map')&&p[1]==='new')return this.comp(p[0],e);
      let r=this.P.lookupPath(p,this.m,this.self);if(r&&r.k==='alias')r=this.P.deal(r);
      if(r&&r.k==='bstatic'&&(r.n==='Set::new'||r.n==='Map::new'))return this.comp(r.n.slice(0,3),e);
      if(r&&(r.k==='fn'||r.k==='nat'))return `${this.P.ref(r.i)}(${args()})`;
      if(r&&r.k==='variant')return `new ${this.P.kref(r.v.K)}(${args()})`;
      if(r&&r.k==='type'&&r.kind==='struct')return `new ${this.P.kref(r.K)}(${args()})`;
      if(r&&r.k==='missing'){if(r.t.kind==='struct'||r.t.kind==='enum'){if(r.n==='arbitrary')return 'V.arb()';return `V.m(${[...args().slice(0,1),`'${r.n}'`,...args().slice(1)]})`;}}
      if(r&&r.k==='traitfn')return `V.m(${[...args().slice(0,1),`'${r.n}'`,...args().slice(1)]})`;
      // type parameter
      if(!r&&p.length===2&&(this.P.o.tparams&&this.P.o.tparams[p[0]]||this.fn&&this.tparam(p[0]))){const t=this.P.o.tparams&&this.P.o.tparams[p[0]];if(t){const d=this.P.get(t);const mm=d&&d.members.get(p[1]);if(mm)return `${this.P.ref(mm.i)}(${args()})`;}
        return `V.m(${[...args().slice(0,1),`'${p[1]}'`,...args().slice(1)]})`;}
      const s=this.bstatic(p,r);if(s)return `${s}(${args()})`;
      this.err(e,'call of '+p.join('::')+(r?' ('+r.k+')':''));
    }
    return `V.call(${[this.e(f),...args()]})`;
  }
  tparam(n){const d=this.fn.decl;return d&&(d.tps.includes(n)||(this.fn.tps||[]).includes(n)||(this.fn.owner&&this.fn.owner.tps||[]).includes(n))||/^[A-Z]$/.test(n);}
  // ---- bounded binders
  conj(x,out){x=strip(x);if(x.t==='And')x.a.forEach(y=>this.conj(y,out));else if(x.t==='Bin'&&x.op==='&&'){this.conj(x.a,out);this.conj(x.b,out);}else if(x.t==='Block'&&!x.ss.length&&x.last)this.conj(x.last,out);else out.push(x);return out;}
  cands(v,cs,open,depth=0){ // candidate sources for variable v; open: names not yet bound
    const r=[];const isV=x=>{x=strip(x);return x.t==='Path'&&x.path.length===1&&x.path[0]===v;};const ok=x=>!mentions(x,open);
    const add=(x)=>r.push(`()=>${wrapO(this.e(x))}`);
    for(const c of cs){
      if(c.t==='Bin'&&['==','=~=','==='].includes(c.op)){if(isV(c.a)&&ok(c.b))r.unshift(`()=>[${this.e(c.b)}]`);else if(isV(c.b)&&ok(c.a))r.unshift(`()=>[${this.e(c.a)}]`);}
      if(c.t==='Call'&&c.f.t==='Dot'&&['contains','contains_key','contains_pair','has'].includes(c.f.f)&&c.args.length&&isV(c.args[0])&&ok(c.f.e))add(c.f.e);
      if(c.t==='Call'&&c.f.t==='Dot'&&c.f.f==='contains_value'&&isV(c.args[0])&&ok(c.f.e))r.push(`()=>V.m(${this.e(c.f.e)},'values')`);
      const rel=(op,a,b)=>{if(op==='>'){rel('<',b,a);return;}if(op==='>='){rel('<=',b,a);return;}if(op!=='<'&&op!=='<=')return;
        if(isV(b)&&ok(a))r.push(`{lo:()=>V.add(${this.e(a)},${op==='<'?1:0})}`);if(isV(a)&&ok(b))r.push(`{hi:()=>V.add(${this.e(b)},${op==='<'?0:1})}`);};
      if(c.t==='Bin')rel(c.op,c.a,c.b);
      if(c.t==='Chain'){c.ops.forEach((op,i)=>rel(op,c.parts[i],c.parts[i+1]));
        // transitive: a <= i < j < n bounds both
        for(let i=0;i<c.parts.length;i++)if(isV(c.parts[i])){const dn=c.ops.slice(0,i).every(o=>o[0]==='<'),up=c.ops.slice(i).every(o=>o[0]==='<');if(dn)for(let j=i-2;j>=0;j--)if(ok(c.parts[j]))r.push(`{lo:()=>${this.e(c.parts[j])}}`);if(up)for(let j=i+2;j<c.parts.length;j++)if(ok(c.parts[j]))r.push(`{hi:()=>V.add(${this.e(c.parts[j])},1)}`);}}
      // self-evident predicates with a unique definition: look inside
      if(depth<3&&c.t==='Call'){
        const k=c.args.findIndex(isV);if(k>=0){
          let cell=null;
          if(c.f.t==='Dot'){const l=(this.P.methods.get(c.f.f)||[]).filter(x=>x.decl.body&&x.decl.ps.length===c.args.length);if(l.length===1&&ok(c.f.e))cell=l[0];}
          else if(c.f.t==='Path'){const q=this.P.lookupPath(c.f.path,this.m,this.self);if(q&&q.k==='fn'&&q.decl.body&&q.decl.mods.has('spec')&&q.decl.ps.length===c.args.length)cell=q;}
          if(cell&&cell.decl.body.t==='Block'&&!cell.decl.body.ss.length&&cell.decl.body.last&&cell.decl.ps[k].n&&c.args.every((a,i)=>i===k||ok(a)||true)){
            const cx=new Cx(this.P,cell.m,cell.owner,cell);cx.n=this.n+100;const ps=[];const vals=[];
            if(cell.decl.self){ps.push(cx.def('self'));vals.push(this.e(c.f.e));}
            const op2=new Set();cell.decl.ps.forEach((p,i)=>{if(i===k){op2.add(p.n);cx.def(p.n);return;}if(!p.n)return;if(ok(c.args[i])){ps.push(cx.def(p.n));vals.push(this.e(c.args[i]));}else{op2.add(p.n);cx.def(p.n);}});
            const sub=cx.cands(cell.decl.ps[k].n,cx.conj(cell.decl.body.last,[]),op2,depth+1);
            const d=cx.declJs();
            for(const s of sub){const inner=s.startsWith('{')?s.replace(/^\{(lo|hi):\(\)=>([\s\S]*)\}$/,(_,w,b)=>`{${w}:()=>((${ps})=>{${d}return ${b};})(${vals})}`):s.replace(/^\(\)=>([\s\S]*)$/,(_,b)=>`()=>((${ps})=>{${d}return ${b};})(${vals})`);r.push(inner);}
          }
        }
      }
    }
    return r;
  }
  meta(v,ty){return `{k:'v',name:'${v}',ty:${JSON.stringify(ty||null)},fn:${JSON.stringify(this.fn&&this.fn.qn||'')}${this.find('self')?',self:'+this.find('self'):''}}`;}
  quant(e){
    const vs=e.vs;const cs=[];let extra=[];
    if(e.q==='forall'){
      let b=strip(e.body);while(b.t==='Bin'&&b.op==='==>'){this.conj(b.a,cs);b=strip(b.b);}
      if(b.t==='Bin'&&b.op==='<==>')extra=[b.a,b.b];
      else if(b.t==='Bin'&&b.op==='=='&&[b.a,b.b].every(x=>{x=strip(x);return x.t==='Call';}))extra=[b.a,b.b];
    }else this.conj(e.body,cs);
    this.scopes.push(new Map());this.decls.push([]);
    try{
      const open=new Set(vs.map(v=>v.n));const todo=vs.slice();const order=[];const srcs=[];
      for(const v of vs)v.js=this.def(v.n||'_w');
      while(todo.length){
        let pick=null,pc=[];
        for(const v of todo){const c=this.cands(v.n,cs,open);if(c.length){const lo=c.some(x=>x.startsWith('{lo')),hi=c.some(x=>x.startsWith('{hi')),st=c.some(x=>!x.startsWith('{'));if(st||lo&&hi||(hi&&v.ty)){pick=v;pc=c;break;}}}
        if(!pick){pick=todo[0];pc=[];
          if(extra.length){const l=extra.map(x=>this.cands(pick.n,this.conj(x,[]),open).filter(y=>!y.startsWith('{')));if(l.every(x=>x.length))pc=[`()=>[${l.map(x=>`...(${x[0]})()`)}]`];
            else{const l2=extra.map(x=>this.cands(pick.n,this.conj(x,[]),open));const j=l2.find(x=>x.some(y=>y.startsWith('{lo')));if(j&&l2.find(x=>x!==j&&x.some(y=>!y.startsWith('{')))){const g=n=>j.filter(y=>y.startsWith('{'+n));const s=l2.find(x=>x!==j).find(y=>!y.startsWith('{'));
              pc=[`()=>[...(${s})(),...V.src([${j}],{ty:null})]`];}}}
        }
        todo.splice(todo.indexOf(pick),1);open.delete(pick.n);
        srcs.push(`(${order.map(v=>v.js)})=>V.src([${pc}],${this.meta(pick.n,pick.ty)})`);order.push(pick);
      }
      // per-iteration declarations live inside the predicate
      this.decls.push([]);const body=this.e(e.body);const d=this.declJs();this.decls.pop();
      const outer=this.declJs();
      const pred=`(${order.map(v=>v.js)})=>{${d}return ${body};}`;
      let call;
      if(e.q==='choose'){const same=order.every((v,i)=>v===vs[i]);call=`V.choose([${srcs}],${pred},'${(this.fn&&this.fn.qn)||''}:${e.line}')`;if(!same)call=`((r)=>V.Tup(${vs.map(v=>'r._'+order.indexOf(v))}))(${call})`;}
      else call=`V.${e.q}([${srcs}],${pred})`;
      return outer?`(()=>{${outer}return ${call};})()`:call;
    }finally{this.scopes.pop();this.decls.pop();}
  }
  comp(kind,e){ // Set::new / Map::new with literal predicates
    const p=e.args[0];
    if(p.t!=='Fn'||!p.vs.length||!p.vs[0].n){return kind==='Set'?`V.setNew(null,${this.e(p)},null)`:`V.S['Map::new'](${this.e(p)},${this.e(e.args[1])})`;}
    const v=p.vs[0];let body=strip(p.body);while(body.t==='Block'&&!body.ss.length&&body.last)body=strip(body.last);
    let src='null';
    this.scopes.push(new Map());this.decls.push([]);
    try{v.js=this.def(v.n);const c=this.cands(v.n,this.conj(body,[]),new Set([v.n]));const d=this.declJs();
      const lo=c.some(x=>x.startsWith('{lo')),hi=c.some(x=>x.startsWith('{hi')),st=c.some(x=>!x.startsWith('{'));
      if(st||lo&&hi||hi&&v.ty)src=`()=>{${d}return V.src([${c}],Object.assign(${this.meta(v.n,v.ty)},{nouni:1}));}`;
    }finally{this.scopes.pop();this.decls.pop();}
    const pf=this.e(p);
    if(kind==='Set')return `V.setNew(${src},${pf},${this.meta(v.n,v.ty)})`;
    return `V.mapNew(${src},${pf},${this.e(e.args[1])},${this.meta(v.n,v.ty)})`;
  }
}
const wrapO=c=>c.startsWith('{')?`(${c})`:c;
function strip(x){while(x&&x.t==='Par')x=x.e;return x;}
function mentions(x,names){let r=false;const go=y=>{if(r||!y||typeof y!=='object')return;if(Array.isArray(y)){for(const z of y)go(z);return;}if(y.t==='Path'&&y.path&&y.path.length===1&&names.has(y.path[0])){r=true;return;}for(const k in y)if(k!=='ty'&&k!=='ta'&&k!=='js')go(y[k]);};go(x);return r;}
module.exports={Program,CErr,V};
