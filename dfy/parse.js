'use strict';
// Parser for Dafny 2.x and the linear-Dafny dialect used in this repository.
const KW_OPS=['<==>','==>','<==','-->','...','::',':=',':|','=>','&&','||','==','!=','<=','>=','!!','..','->','~>','<-'];
class ParseError extends Error{}
function lex(src,file){
  const toks=[];let i=0,line=1;const n=src.length;
  const isId0=c=>(c>='a'&&c<='z')||(c>='A'&&c<='Z')||c==='_'||c==='?'||c.charCodeAt(0)>127;
  const isD=c=>c>='0'&&c<='9';
  const isId=c=>isId0(c)||isD(c)||c==="'"||c==='#';
  let prevEnd=-1;
  const push=(k,v,s)=>{toks.push({k,v,line,s,e:i,adj:s===prevEnd});prevEnd=i;};
  while(i<n){
    const c=src[i];
    if(c==='\n'){line++;i++;continue;}
    if(c===' '||c==='\t'||c==='\r'||c==='\ufeff'){i++;continue;}
    if(c==='/'&&src[i+1]==='/'){while(i<n&&src[i]!=='\n')i++;continue;}
    if(c==='/'&&src[i+1]==='*'){let d=1;i+=2;while(i<n&&d>0){if(src[i]==='*'&&src[i+1]==='/'){d--;i+=2;}else if(src[i]==='/'&&src[i+1]==='*'){d++;i+=2;}else{if(src[i]==='\n')line++;i++;}}continue;}
    const s=i;
    if(isD(c)){
      if(c==='0'&&(src[i+1]==='x'||src[i+1]==='X')){i+=2;while(i<n&&/[0-9a-fA-F_]/.test(src[i]))i++;push('num',src.slice(s,i).replace(/_/g,''),s);continue;}
      while(i<n&&(isD(src[i])||src[i]==='_'))i++;
      if(src[i]==='.'&&isD(src[i+1]||' ')&&!(toks.length&&toks[toks.length-1].v==='.'&&toks[toks.length-1].k==='op')){i++;while(i<n&&isD(src[i]))i++;push('real',src.slice(s,i).replace(/_/g,''),s);continue;}
      // identifiers may start with digits as field names (tuple 0, 1)
      push('num',src.slice(s,i).replace(/_/g,''),s);continue;
    }
    if(isId0(c)||(c==="'"&&toks.length===0)){while(i<n&&isId(src[i]))i++;push('id',src.slice(s,i),s);continue;}
    if(c==="'"){
      const m=/^'(\\u[0-9a-fA-F]{4}|\\.|[^\\'\n])'/.exec(src.slice(i,i+9));
      if(m){i+=m[0].length;push('char',unesc(m[1]),s);continue;}
      throw new ParseError(`${file}:${line}: bad char literal`);
    }
    if(c==='"'||(c==='@'&&src[i+1]==='"')){
      let v='';
      if(c==='@'){i+=2;for(;;){if(i>=n)throw new ParseError('string');if(src[i]==='"'){if(src[i+1]==='"'){v+='"';i+=2;continue;}i++;break;}if(src[i]==='\n')line++;v+=src[i++];}}
      else{i++;let q='';while(i<n&&src[i]!=='"'){if(src[i]==='\\'){q+=src[i++];}q+=src[i++];}i++;v=q.replace(/\\u[0-9a-fA-F]{4}|\\./g,x=>unesc(x));}
      push('str',v,s);continue;
    }
    if(c==='!'&&src.startsWith('in',i+1)&&!isId(src[i+3]||' ')){i+=3;push('op','!in',s);continue;}
    let op=null;for(const o of KW_OPS)if(src.startsWith(o,i)){op=o;break;}
    if(op){i+=op.length;push('op',op,s);continue;}
    if('{}()[]<>,;:.=+-*/%!|&^`@#~'.includes(c)){i++;push('op',c,s);continue;}
    throw new ParseError(`${file}:${line}: unexpected character ${JSON.stringify(c)}`);
  }
  toks.push({k:'eof',v:'<eof>',line,s:n,e:n});
  return toks;
}
function unesc(x){if(x[0]!=='\\')return x;const m={n:'\n',t:'\t',r:'\r','0':'\0',"'":"'",'"':'"','\\':'\\'};if(x[1]==='u')return String.fromCharCode(parseInt(x.slice(2),16));return x[1] in m?m[x[1]]:x[1];}
const DECLMOD=new Set(['abstract','ghost','static','protected','linear','shared','inout','glinear','gshared','twostate','inductive','least','greatest','opaque','replaceable']);
const RESERVED=new Set(['if','then','else','match','case','forall','exists','set','iset','map','imap','in','var','as','requires','ensures','reads','modifies','decreases','invariant','returns','while','return','assert','assume','calc','new','function','predicate','method','lemma','datatype','module','import','class','const','include','print','break','label','constructor','codatatype','newtype','trait','iterator','yields','yield','by','this','true','false','null','old','fresh','copredicate','colemma']);
class P{
  constructor(src,file){this.file=file;this.T=lex(src,file);this.p=0;}
  get t(){return this.T[this.p];}
  pk(n=1){return this.T[Math.min(this.p+n,this.T.length-1)];}
  err(m){const t=this.t;throw new ParseError(`${this.file}:${t.line}: ${m} at '${t.v}'`);}
  is(v){const t=this.t;return t.v===v&&(t.k==='op'||t.k==='id');}
  isAt(n,v){const t=this.pk(n);return t.v===v&&(t.k==='op'||t.k==='id');}
  acc(v){if(this.is(v)){this.p++;return true;}return false;}
  exp(v){if(!this.acc(v))this.err(`expected '${v}'`);}
  id(){const t=this.t;if(t.k!=='id')this.err('expected identifier');this.p++;return t.v;}
  loc(){return this.t.line;}
  tryp(f){const s=this.p;try{const r=f();if(r!==null&&r!==undefined)return r;}catch(e){if(!(e instanceof ParseError))throw e;}this.p=s;return null;}
  attrs(){const a={};while(this.is('{')&&this.isAt(1,':')){this.p+=2;const nm=this.id();const args=[];while(!this.is('}')){args.push(this.expr());if(!this.acc(','))break;}this.exp('}');a[nm]=args;}return a;}
  // ---- types
  typeArgsOpt(){if(!this.is('<'))return [];this.exp('<');const a=[];do{this.linMod();a.push(this.type());}while(this.acc(','));this.exp('>');return a;}
  linMod(){let m=null;for(;;){if((this.is('linear')||this.is('shared')||this.is('glinear')||this.is('gshared')||this.is('ghost')||this.is('inout')||this.is('older')||this.is('nameonly')||this.is('lshared'))&&this.pk().k!=='op'||((this.is('linear')||this.is('shared')||this.is('ghost')||this.is('glinear')||this.is('gshared')||this.is('inout'))&&this.isAt(1,'('))){m=(m?m+' ':'')+this.t.v;this.p++;}else return m;}}
  type(){
    const a=this.typeAtom();
    if(this.is('->')||this.is('-->')||this.is('~>')){const arrow=this.t.v;this.p++;const m=this.linMod();const r=this.type();return {k:'fun',args:a.k==='tuple'&&!a.single?a.args:[a],ret:r,arrow};}
    return a;
  }
  typeAtom(){
    if(this.acc('(')){
      const args=[],mods=[];
      if(!this.is(')')){do{mods.push(this.linMod());args.push(this.type());}while(this.acc(','));}
      this.exp(')');
      if(args.length===1)return args[0];
      return {k:'tuple',args,mods};
    }
    const parts=[];let name=this.id();let args=this.typeArgsOpt();let ty={k:'name',path:[name],args,line:this.loc()};
    if(this.is('(')&&this._typeFunctor){/* functor application in a type path */}
    while(this.is('.')){this.p++;if(this.t.k!=='id'&&this.t.k!=='num')this.err('type path');ty.path.push(this.t.v);this.p++;ty.args=this.typeArgsOpt();}
    return ty;
  }
  typeParams(){if(!this.is('<'))return [];this.exp('<');const r=[];do{if(this.is('+')||this.is('-')||this.is('*')||this.is('!'))this.p++;r.push(this.id());if(this.is('(')){while(!this.acc(')'))this.p++;}}while(this.acc(','));this.exp('>');return r;}
  typeChar(){if(this.is('(')&&(this.isAt(1,'==')||this.isAt(1,'0')||this.pk().k==='num'||this.isAt(1,'!'))){while(!this.acc(')'))this.p++;}}
  // ---- expressions
  expr(sem=false,opt={}){ // sem: allow "lemma(); e"
    const line=this.loc();if(!!opt.sem!==!!sem)opt=Object.assign({},opt,{sem:!!sem});
    let e=this.equiv(opt);
    if(sem&&this.is(';')&&!opt.nosemi){
      // only when what follows can start an expression
      const s=this.p;this.p++;
      const r=this.tryp(()=>this.expr(true,opt));
      if(r)return {t:'StmtExpr',s:{t:'ExprStmt',e},e:r,line};
      this.p=s;
    }
    return e;
  }
  equiv(o){let a=this.implies(o);while(this.is('<==>')){const l=this.loc();this.p++;a={t:'Bin',op:'<==>',a,b:this.implies(o),line:l};}return a;}
  implies(o){
    let a=this.logical(o);
    if(this.is('==>')){const l=this.loc();this.p++;return {t:'Bin',op:'==>',a,b:this.implies(o),line:l};}
    while(this.is('<==')){const l=this.loc();this.p++;const b=this.logical(o);a={t:'Bin',op:'==>',a:b,b:a,line:l};}
    return a;
  }
  logical(o){
    if((this.is('&&')||this.is('||'))){ // prefix-list form
      const op=this.t.v;this.p++;let a=this.rel(o);while(this.is(op)){const l=this.loc();this.p++;a={t:'Bin',op,a,b:this.rel(o),line:l};}return a;
    }
    let a=this.rel(o);
    while((this.is('&&')||this.is('||'))){const op=this.t.v,l=this.loc();this.p++;a={t:'Bin',op,a,b:this.rel(o),line:l};}
    return a;
  }
  relop(o){
    const t=this.t;if(t.k!=='op'&&t.v!=='in')return null;
    switch(t.v){
      case '==':case '!=':case '<=':case '>=':case '!!':case 'in':case '!in':return t.v;
      case '<':if(this.isAt(1,'<')&&this.pk().adj)return null;return '<';
      case '>':if(this.isAt(1,'>')&&this.pk().adj)return null;return '>';
    }
    return null;
  }
  eatRel(op){this.p++;if((op==='=='||op==='!=')&&this.is('#')){this.p++;this.exp('[');this.expr();this.exp(']');}}
  rel(o){
    let a=this.shift(o);let op=this.relop(o);if(!op)return a;
    const l=this.loc();this.eatRel(op);let b=this.shift(o);
    let r={t:'Bin',op,a,b,line:l};let prev=b;const ds=op==='!!'?[a,b]:null;
    for(;;){op=this.relop(o);if(!op)return r;const l2=this.loc();this.eatRel(op);const c=this.shift(o);if(op==='!!'&&ds){for(const x of ds)r={t:'Bin',op:'&&',a:r,b:{t:'Bin',op:'!!',a:x,b:c,line:l2},line:l2};ds.push(c);prev=c;continue;}r={t:'Bin',op:'&&',a:r,b:{t:'Bin',op,a:prev,b:c,line:l2},line:l2};prev=c;}
  }
  shift(o){let a=this.term(o);for(;;){if((this.is('<')&&this.isAt(1,'<')&&this.pk().adj)||(this.is('>')&&this.isAt(1,'>')&&this.pk().adj)){const op=this.t.v+this.t.v,l=this.loc();this.p+=2;a={t:'Bin',op,a,b:this.term(o),line:l};}else return a;}}
  term(o){let a=this.factor(o);while(this.is('+')||this.is('-')){const op=this.t.v,l=this.loc();this.p++;a={t:'Bin',op,a,b:this.factor(o),line:l};}return a;}
  factor(o){let a=this.bvf(o);while(this.is('*')||this.is('/')||this.is('%')){const op=this.t.v,l=this.loc();this.p++;a={t:'Bin',op,a,b:this.bvf(o),line:l};}return a;}
  bvf(o){let a=this.asx(o);while(this.is('&')||this.is('^')||(this.is('|')&&!o.nobar)){const op=this.t.v,l=this.loc();this.p++;a={t:'Bin',op,a,b:this.asx(o),line:l};}return a;}
  asx(o){let a=this.unary(o);while((this.is('as')||this.is('is'))&&this.t.k==='id'){const op=this.t.v,l=this.loc();this.p++;a={t:op==='as'?'As':'Is',e:a,ty:this.asType(),line:l};}return a;}
  asType(){if(this.t.k==='id'){const path=[this.id()];while(this.is('.')&&this.pk().k==='id'){this.p++;path.push(this.id());}const ty={k:'name',path,args:[],line:this.loc()};if(this.is('<')){const a=this.tryp(()=>this.typeArgsOpt());if(a)ty.args=a;}return ty;}return this.type();}
  unary(o){
    const l=this.loc();
    if(this.is('-')){this.p++;return {t:'Un',op:'-',e:this.unary(o),line:l};}
    if(this.is('!')){this.p++;return {t:'Un',op:'!',e:this.unary(o),line:l};}
    return this.primary(o);
  }
  primary(o){let e=this.atom(o);return this.suffix(e,o);}
  lambdaTail(params,l,o){
    const reqs=[];
    while(this.is('requires')||this.is('reads')){const w=this.t.v;this.p++;if(w==='requires')reqs.push(this.expr(false,{nolam:true}));else{do{this.acc('*')||this.expr(false,{nolam:true});}while(this.acc(','));}}
    if(!this.acc('=>'))return null;
    const body=this.expr(o&&o.sem,o||{});
    return {t:'Lambda',params,reqs,body,line:l};
  }
  bvars(noType){const r=[];do{this.linMod();const name=this.id();let ty=null;if(!noType&&this.acc(':'))ty=this.type();else if(this.is(':')&&!this.isAt(1,':')){this.p++;ty=this.type();}let dom=null;if(this.acc('<-'))dom=this.expr(false,{nobar:true});r.push({name,ty,dom});this.attrs();}while(this.acc(','));return r;}
  canStart(){return true;}
  atom(o){
    const t=this.t,l=t.line;
    if(t.k==='num'){this.p++;return {t:'Int',v:t.v,line:l};}
    if(t.k==='real'){this.p++;return {t:'Real',v:t.v,line:l};}
    if(t.k==='str'){this.p++;return {t:'Str',v:t.v,line:l};}
    if(t.k==='char'){this.p++;return {t:'Char',v:t.v,line:l};}
    if(t.k==='op'){
      if(t.v==='('){
        // lambda?
        const lam=this.tryp(()=>{this.p++;const ps=[];if(!this.is(')')){do{this.linMod();const name=this.id();let ty=null;if(this.acc(':'))ty=this.type();ps.push({name,ty});}while(this.acc(','));}this.exp(')');if(!this.is('=>')&&!this.is('requires')&&!this.is('reads'))return null;return this.lambdaTail(ps,l,o);});
        if(lam)return lam;
        this.p++;
        const es=[];
        if(!this.is(')')){do{this.linMod();es.push(this.expr(true));}while(this.acc(','));}
        this.exp(')');
        if(es.length===1)return {t:'Paren',e:es[0],line:l};
        return {t:'Tuple',es,line:l};
      }
      if(t.v==='['){this.p++;const es=this.exprList(']');return {t:'SeqDisp',es,line:l};}
      if(t.v==='{'){this.p++;const es=this.exprList('}');return {t:'SetDisp',es,line:l};}
      if(t.v==='|'){this.p++;const e=this.expr(true,{nobar:true});this.exp('|');return {t:'Card',e,line:l};}
      this.err('unexpected token in expression');
    }
    if(t.k!=='id')this.err('expression expected');
    switch(t.v){
      case 'true':this.p++;return {t:'Bool',v:true,line:l};
      case 'false':this.p++;return {t:'Bool',v:false,line:l};
      case 'null':this.p++;return {t:'Null',line:l};
      case 'this':this.p++;return {t:'This',line:l};
      case 'if':{
        this.p++;
        if(this.is('case'))this.err('if-case expr');
        let c,bind=null;
        if(this.t.k==='id'&&this.isAt(1,':|')){const name=this.id();this.p++;c=this.expr();bind=name;}
        else c=this.expr();
        this.exp('then');const a=this.expr(true);this.exp('else');const b=this.expr(o.sem,o);return {t:'Ite',c,a,b,bind,line:l};}
      case 'match':{this.p++;return this.matchExpr(l,o);}
      case 'linear':case 'shared':case 'ghost':case 'glinear':case 'gshared':
        if(this.pk().k==='id'){
          if(this.isAt(1,'match')){this.p+=2;return this.matchExpr(l,o);}
          if(this.isAt(1,'var')){const m=t.v;this.p++;return this.letExpr(l,o,m);}
          this.p++;return this.atom(o);
        }
        break;
      case 'var':return this.letExpr(l,o,null);
      case 'forall':case 'exists':{
        this.p++;this.attrs();const vs=this.bvars();this.attrs();let range=null;if(this.acc('|'))range=this.expr(false,{nobar:false});
        this.exp('::');this.attrs();const b=this.expr(o.sem,o);
        return {t:'Quant',q:t.v,vs,range,body:b,line:l};}
      case 'set':case 'iset':
        if(this.isAt(1,'{')){this.p+=2;const es=this.exprList('}');return {t:'SetDisp',es,inf:t.v==='iset',line:l};}
        if(this.pk().k==='id'||this.isAt(1,'{')){
          this.p++;this.attrs();const vs=this.bvars();this.attrs();let range=null;if(this.acc('|'))range=this.expr(false,{nobar:!!o.nobar,nolam:o.nolam});
          let term=null;if(this.acc('::')){this.attrs();term=this.expr(o.sem,o);}
          return {t:'SetComp',inf:t.v==='iset',vs,range,term,line:l};
        }
        break;
      case 'map':case 'imap':
        if(this.isAt(1,'[')){this.p+=2;const ps=[];if(!this.is(']')){do{const k=this.expr(true);this.exp(':=');ps.push([k,this.expr(true)]);}while(this.acc(','));}this.exp(']');return {t:'MapDisp',ps,inf:t.v==='imap',line:l};}
        if(this.pk().k==='id'||this.isAt(1,'{')){
          this.p++;this.attrs();const vs=this.bvars();this.attrs();let range=null;if(this.acc('|'))range=this.expr(false,{nobar:!!o.nobar});
          this.exp('::');this.attrs();let term=this.expr(false,o.nobar?{nobar:true}:{}),key=null;if(this.acc(':=')){key=term;term=this.expr(o.sem,o);}
          return {t:'MapComp',inf:t.v==='imap',vs,range,key,term,line:l};
        }
        break;
      case 'multiset':
        if(this.isAt(1,'{')){this.p+=2;const es=this.exprList('}');return {t:'MsDisp',es,line:l};}
        if(this.isAt(1,'(')){this.p+=2;const e=this.expr(true);this.exp(')');return {t:'MsOf',e,line:l};}
        break;
      case 'seq':
        if(this.isAt(1,'(')||this.isAt(1,'<')){const r=this.tryp(()=>{this.p++;this.typeArgsOpt();this.exp('(');const n=this.expr();this.exp(',');const f=this.expr();this.exp(')');return {t:'SeqInit',n,f,line:l};});if(r)return r;}
        break;
      case 'old':
        if(this.isAt(1,'(')||this.isAt(1,'@')){this.p++;let lab=null;if(this.acc('@'))lab=this.id();this.exp('(');const e=this.expr(true);this.exp(')');return {t:'Old',e,lab,line:l};}
        break;
      case 'fresh':case 'allocated':case 'unchanged':
        if(this.isAt(1,'(')||this.isAt(1,'@')){this.p++;if(this.acc('@'))this.id();this.exp('(');const es=this.exprList(')');return {t:'Opaque',w:t.v,es,line:l};}
        break;
      case 'assert':case 'assume':case 'expect':{
        this.p++;this.attrs();let e=null;if(this.t.k==='id'&&this.isAt(1,':')&&!this.isAt(2,':')){this.p+=2;}
        e=this.expr();let by=null;if(this.acc('by')){by=this.block();}else this.exp(';');const r=this.expr(o.sem,o);return {t:'StmtExpr',s:{t:'Assert',e,line:l},e:r,line:l};}
      case 'calc':{const s=this.calc();const r=this.expr(o.sem,o);return {t:'StmtExpr',s,e:r,line:l};}
      case 'reveal':if(this.pk().k==='id'){this.p++;do{this.primary({});}while(this.acc(','));this.exp(';');const r=this.expr(o.sem,o);return {t:'StmtExpr',s:{t:'Skip'},e:r,line:l};}break;
      case 'inout':{this.p++;const g=this.acc('ghost');const e=this.primary(o);return {t:'Inout',e,ghost:g,line:l};}
      case 'new':{return this.newExpr();}
    }
    // plain identifier
    if(RESERVED.has(t.v)&&t.v!=='by')this.err('reserved word in expression');
    this.p++;
    if(this.is('=>')&&!o.nolam)return this.lambdaTail([{name:t.v,ty:null}],l,o);
    if((this.is('requires')||this.is('reads'))&&!o.nolam){const s=this.p;const r=this.tryp(()=>this.lambdaTail([{name:t.v,ty:null}],l,o));if(r)return r;this.p=s;}
    const node={t:'Id',name:t.v,line:l,targs:null};
    return this.genericInst(node);
  }
  genericInst(node){
    if(this.is('<')&&!(this.isAt(1,'<')&&this.pk().adj)){
      const a=this.tryp(()=>{const a=this.typeArgsOpt();const t=this.t;if(t.k==='op'&&['(','.',')',',',';','}',']','==','!=','[',':=','::','=>'].includes(t.v))return a;return null;});
      if(a)node.targs=a;
    }
    return node;
  }
  exprList(close){const es=[];if(!this.is(close)){do{es.push(this.expr(true));}while(this.acc(','));}this.exp(close);return es;}
  callArgs(){ // after '('
    const as=[];if(!this.is(')')){do{let m=this.linMod();
      if(this.t.k==='id'&&this.isAt(1,':=')){const nm=this.id();this.p++;as.push({t:'Named',name:nm,e:this.expr(true)});continue;}
      let e=this.expr(true);if(m&&m.includes('inout'))e={t:'Inout',e,ghost:m.includes('ghost'),line:e.line};as.push(e);}while(this.acc(','));}
    this.exp(')');return as;
  }
  suffix(e,o){
    for(;;){
      const l=this.loc();
      if(this.is('.')&&!(this.isAt(1,'.'))){
        this.p++;
        if(this.is('(')){ // datatype update
          this.p++;const ups=[];do{const tk=this.t;if(tk.k!=='id'&&tk.k!=='num')this.err('field');this.p++;this.exp(':=');ups.push([tk.v,this.expr(true)]);}while(this.acc(','));this.exp(')');
          e={t:'DtUpd',e,ups,line:l};continue;
        }
        const tk=this.t;if(tk.k==='real'){ // x.0.1 lexed as real
          this.p++;const [a,b]=tk.v.split('.');e={t:'Dot',e:{t:'Dot',e,f:a,line:l,targs:null},f:b,line:l,targs:null};continue;}
        if(tk.k!=='id'&&tk.k!=='num')this.err('member name');
        this.p++;e=this.genericInst({t:'Dot',e,f:tk.v,line:l,targs:null});continue;
      }
      if(this.is('(')){
        this.p++;const args=this.callArgs();e={t:'Call',f:e,args,line:l};continue;
      }
      if(this.is('[')){
        this.p++;
        if(this.acc('..')){let b=null;if(!this.is(']'))b=this.expr(true);this.exp(']');e={t:'Slice',e,a:null,b,line:l};continue;}
        const a=this.expr(true);
        if(this.acc('..')){let b=null;if(!this.is(']'))b=this.expr(true);this.exp(']');e={t:'Slice',e,a,b,line:l};continue;}
        if(this.acc(':=')){const b=this.expr(true);this.exp(']');e={t:'SeqUpd',e,i:a,v:b,line:l};continue;}
        if(this.is(':')&&!this.isAt(1,':')){ // s[a:b:] slicing by lengths
          const lens=[a];while(this.acc(':')){if(this.is(']'))break;lens.push(this.expr(true));}this.exp(']');e={t:'Slices',e,lens,line:l};continue;}
        const idx=[a];while(this.acc(','))idx.push(this.expr(true));this.exp(']');e={t:'Index',e,i:a,idx,line:l};continue;
      }
      if(this.is('`')){this.p++;this.id();continue;}
      return e;
    }
  }
  pattern(){
    const l=this.loc();this.linMod();
    if(this.t.k==='num'||this.t.k==='str'||this.t.k==='char'||this.is('-')||this.is('true')||this.is('false')){return {k:'lit',e:this.unary({}),line:l};}
    if(this.acc('(')){const ps=[];if(!this.is(')')){do ps.push(this.pattern());while(this.acc(','));}this.exp(')');return {k:'tuple',ps,line:l};}
    const path=[this.id()];while(this.acc('.'))path.push(this.id());
    if(this.acc('(')){const ps=[];if(!this.is(')')){do ps.push(this.pattern());while(this.acc(','));}this.exp(')');return {k:'ctor',path,ps,line:l};}
    let ty=null;if(this.is(':')&&!this.isAt(1,':')){this.p++;ty=this.type();}
    return {k:path.length>1?'ctor':'id',name:path[0],path,ps:path.length>1?null:undefined,ty,line:l};
  }
  letExpr(l,o,mod){
    this.exp('var');
    const pats=[];do{pats.push(this.pattern());}while(this.acc(','));
    this.attrs();
    let st=false;if(this.acc(':|'))st=true;else this.exp(':=');
    const es=[];do{es.push(this.expr(false,{}));}while(this.acc(','));
    this.exp(';');
    const body=this.expr(o.sem,o);
    return {t:'Let',pats,es,st,body,ghost:mod==='ghost',line:l};
  }
  matchExpr(l,o){
    const e=this.expr(false,{nobrace:true});const cases=[];
    const br=this.is('{')&&this.acc('{');
    while(this.acc('case')){this.attrs();const p=this.pattern();let alts=[p];while(this.is('|')){this.p++;alts.push(this.pattern());}this.exp('=>');let b=null;if(!(this.is('case')||this.is('}')))b=br?this.expr(true,{}):this.expr(o.sem,o);for(const q of alts)cases.push({p:q,b});}
    if(br)this.exp('}');
    return {t:'Match',e,cases,line:l};
  }
  newExpr(){
    const l=this.loc();this.exp('new');
    if(this.is('[')){const r=this.tryp(()=>{this.p++;const es=this.exprList(']');if(this.is('('))return null;return {t:'NewArr',ty:null,dims:[],init:es,line:l};});if(r)return r;}
    const ty=this.is('[')?null:this.typeAtomNoCall();
    if(this.is('[')){
      this.p++;const dims=[];if(!this.is(']')){do dims.push(this.expr(true));while(this.acc(','));}this.exp(']');let init=null,fn=null;if(this.is('[')){this.p++;init=this.exprList(']');}else if(this.is('(')){this.p++;fn=this.expr(true);this.exp(')');}
      return {t:'NewArr',ty,dims,init,fn,line:l};
    }
    let args=null;if(this.acc('('))args=this.callArgs();
    return {t:'New',ty,args,line:l};
  }
  typeAtomNoCall(){return this.typeAtom();}
  // ---- statements
  block(){const l=this.loc();this.exp('{');const ss=[];while(!this.is('}')){const s=this.stmt();if(s)ss.push(s);}this.exp('}');return {t:'Block',ss,line:l};}
  rhs(){
    // expression, call, new, *, havoc
    if(this.is('*')){this.p++;return {t:'Havoc'};}
    if(this.is('new'))return this.newExpr();
    this.linMod2();
    const e=this.expr(false);this.attrs();return e;
  }
  linMod2(){while((this.is('linear')||this.is('shared')||this.is('glinear'))&&this.pk().k==='id'&&!this.isAt(1,'match')&&!this.isAt(1,'var'))this.p++;}
  specs(sp){
    for(;;){
      if(this.is('requires')||this.is('ensures')||this.is('invariant')||this.is('free')){
        if(this.acc('free')){}
        const w=this.t.v;this.p++;this.attrs();
        if(this.t.k==='id'&&this.isAt(1,':')&&!this.isAt(2,':')&&this.pk().v===':'){this.p+=2;}
        const e=this.expr(false);this.acc(';');(sp[w]=sp[w]||[]).push(e);
      }else if(this.is('modifies')||this.is('reads')||this.is('decreases')){
        const w=this.t.v;this.p++;this.attrs();
        do{if(this.is('*'))this.p++;else{const e=this.expr(false);if(w==='decreases')(sp.decreases=sp.decreases||[]).push(e);}}while(this.acc(','));
        this.acc(';');
      }else return sp;
    }
  }
  calc(){
    const l=this.loc();this.exp('calc');this.attrs();
    const ops=['==','!=','<','>','<=','>=','==>','<==','<==>'];
    if(this.t.k==='op'&&ops.includes(this.t.v))this.eatRel(this.t.v);
    this.exp('{');
    while(!this.is('}')){
      if(this.is('{')&&!this.isCalcExprBrace()){this.block();continue;}
      if(this.t.k==='op'&&ops.includes(this.t.v)){this.eatRel(this.t.v);continue;}
      if(this.is('calc')){this.calc();continue;}
      this.expr(false);this.exp(';');
    }
    this.exp('}');
    return {t:'Skip',line:l};
  }
  isCalcExprBrace(){ // a set display used as a calc line?
    const s=this.p;const r=this.tryp(()=>{const e=this.expr(false);if(this.is(';'))return e;return null;});
    this.p=s;
    return !!(r)&&!this.isBlockLike();
  }
  isBlockLike(){const s=this.p;try{this.block();const ok=!this.is(';');this.p=s;return ok;}catch(e){if(!(e instanceof ParseError))throw e;this.p=s;return false;}}
  stmt(){
    const t=this.t,l=t.line;
    if(t.k==='op'){
      if(t.v==='{')return this.block();
      if(t.v===';'){this.p++;return null;}
      if(t.v==='...'){this.p++;this.acc(';');return {t:'Skip',line:l};}
    }
    if(t.k==='id')switch(t.v){
      case 'ghost':case 'linear':case 'shared':case 'glinear':case 'gshared':{
        let i=1;while(['ghost','linear','shared','glinear','gshared'].includes(this.pk(i).v)&&this.pk(i).k==='id')i++;
        if(this.isAt(i,'var')||this.isAt(i,'match')||this.isAt(i,'if')){
          const mods=[];for(let k=0;k<i;k++)mods.push(this.T[this.p+k].v);this.p+=i;
          if(this.is('var'))return this.varStmt(mods);
          const s=this.stmt();if(mods.includes('ghost')&&s)s.ghostMod=true;return s;
        }
        break;}
      case 'var':return this.varStmt([]);
      case 'inout':{
        // inout [ghost] lhs := rhs;  or  inout call;
        this.p++;const g=this.acc('ghost');
        const e=this.primary({});
        if(this.is(':=')||this.is(':|')||this.is(',')){return this.assignRest([{t:'Inout',e,ghost:g,line:l}],l);}
        this.semi();
        return {t:'ExprStmt',e:{t:'Inout',e,ghost:g,line:l},line:l};}
      case 'if':return this.ifStmt();
      case 'while':{
        this.p++;
        if(this.is('{')||this.is('case')){const sp={};const alts=this.altCases();return {t:'WhileAlt',alts,line:l};}
        let g=null;if(this.is('*'))this.p++;else if(this.is('(')&&this.isAt(1,'*')&&this.isAt(2,')'))this.p+=3;else g=this.expr(false);
        const sp=this.specs({});
        if(this.is('case')){const alts=this.altCases();return {t:'WhileAlt',alts,line:l};}
        let body=null;if(this.is('{'))body=this.block();else this.acc('...');
        return {t:'While',g,sp,body,line:l};}
      case 'match':{
        this.p++;const e=this.expr(false);const br=this.acc('{');const cases=[];
        while(this.acc('case')){this.attrs();const p=this.pattern();const alts=[p];while(this.acc('|'))alts.push(this.pattern());this.exp('=>');const ss=[];while(!this.is('case')&&!this.is('}')){const s=this.stmt();if(s)ss.push(s);}for(const q of alts)cases.push({p:q,b:{t:'Block',ss,line:l}});}
        if(br)this.exp('}');
        return {t:'MatchS',e,cases,line:l};}
      case 'assert':case 'assume':case 'expect':{
        const w=t.v;
        this.p++;this.attrs();
        if(this.is('...')){this.p++;this.acc(';');return {t:'Skip',line:l};}
        if(this.t.k==='id'&&this.isAt(1,':')&&!this.isAt(2,':'))this.p+=2;
        const e=this.expr(false);let msg=null;
        if(w==='expect'&&this.acc(','))msg=this.expr();
        if(this.acc('by')){this.block();this.acc(';');}else this.semi();
        return {t:w==='expect'?'Expect':w==='assume'?'Assume':'Assert',e,msg,line:l};}
      case 'calc':{const s=this.calc();this.acc(';');return s;}
      case 'print':{this.p++;const es=[];do es.push(this.expr(false));while(this.acc(','));this.semi();return {t:'Print',es,line:l};}
      case 'return':{this.p++;const es=[];if(!this.is(';')){do es.push(this.rhs());while(this.acc(','));}this.semi();return {t:'Return',es,line:l};}
      case 'yield':{this.p++;const es=[];if(!this.is(';')){do es.push(this.rhs());while(this.acc(','));}this.semi();return {t:'Return',es,line:l,yield:true};}
      case 'break':{this.p++;let n=1,lab=null;while(this.acc('break'))n++;if(this.t.k==='id')lab=this.id();this.semi();return {t:'Break',n,lab,line:l};}
      case 'label':{this.p++;const lab=this.id();this.exp(':');const s=this.stmt();return {t:'Label',lab,s,line:l};}
      case 'modify':{this.p++;while(!this.is(';')&&!this.is('{'))this.p++;if(this.is('{'))this.block();else this.p++;return {t:'Skip',line:l};}
      case 'reveal':if(this.pk().k==='id'){this.p++;do this.primary({});while(this.acc(','));this.semi();return {t:'Skip',line:l};}break;
      case 'forall':{
        this.p++;this.attrs();let vs=[],range=null;
        if(this.acc('(')){if(!this.is(')')){vs=this.bvars();this.attrs();if(this.acc('|'))range=this.expr(false);}this.exp(')');}
        else if(!this.is('ensures')&&!this.is('{')){vs=this.bvars();this.attrs();if(this.acc('|'))range=this.expr(false);}
        const sp=this.specs({});let body=null;if(this.is('{'))body=this.block();else this.acc(';');
        return {t:'ForallS',vs,range,body,sp,line:l};}
    }
    // expression / assignment
    const e=this.lhs();
    if(this.is(':=')||this.is(':|')||this.is(','))return this.assignRest([e],l);
    this.attrs();
    this.semi();
    return {t:'ExprStmt',e,line:l};
  }
  lhs(){if(this.is('inout')){const l=this.loc();this.p++;const g=this.acc('ghost');return {t:'Inout',e:this.primary({}),ghost:g,line:l};}return this.expr(false,{});}
  semi(){this.exp(';');}
  assignRest(ls,l){
    while(this.acc(','))ls.push(this.lhs());
    if(this.acc(':|')){this.acc('assume');const e=this.expr(false);this.semi();return {t:'AssignST',ls,e,line:l};}
    this.exp(':=');
    const rs=[];do rs.push(this.rhs());while(this.acc(','));this.semi();
    return {t:'Assign',ls,rs,line:l};
  }
  varStmt(mods){
    const l=this.loc();this.exp('var');const attrs=this.attrs();
    // destructuring pattern?
    if(this.is('(')||(this.t.k==='id'&&(this.isAt(1,'(')||this.isAt(1,'.')))){
      const p=this.pattern();this.exp(':=');const r=this.rhs();this.semi();return {t:'VarPat',p,r,mods,line:l};
    }
    const vs=[];
    do{const m=this.linMod();const name=this.id();let ty=null;if(this.acc(':'))ty=this.type();vs.push({name,ty,ghost:(m||'').includes('ghost')||mods.includes('ghost')});this.attrs();}while(this.acc(','));
    if(this.acc(':=')){const rs=[];do rs.push(this.rhs());while(this.acc(','));this.semi();return {t:'Var',vs,rs,mods,line:l};}
    if(this.acc(':|')){this.acc('assume');const e=this.expr(false);this.semi();return {t:'VarST',vs,e,mods,line:l};}
    this.semi();return {t:'Var',vs,rs:null,mods,line:l};
  }
  altCases(){const br=this.acc('{');const alts=[];while(this.acc('case')){const g=this.expr(false,{});this.exp('=>');const ss=[];while(!this.is('case')&&!this.is('}')){const s=this.stmt();if(s)ss.push(s);}alts.push({g,b:{t:'Block',ss}});}if(br)this.exp('}');return alts;}
  ifStmt(){
    const l=this.loc();this.exp('if');
    if(this.is('case')||(this.is('{')&&this.isAt(1,'case')))return {t:'IfAlt',alts:this.altCases(),line:l};
    let c=null,bind=null;
    if(this.is('*'))this.p++;
    else if(this.is('(')&&this.isAt(1,'*')&&this.isAt(2,')'))this.p+=3;
    else if(this.acc('...')){}
    else if(this.t.k==='id'&&(this.isAt(1,':|'))){bind=[{name:this.id(),ty:null}];this.p++;c=this.expr(false);}
    else {
      const b=this.tryp(()=>{const v=this.bvars();if(!this.acc(':|'))return null;return v;});
      if(b){bind=b;c=this.expr(false);}else c=this.expr(false);
    }
    const a=this.block();let b=null;
    if(this.acc('else')){if(this.is('if'))b=this.ifStmt();else b=this.block();}
    return {t:'If',c,a,b,bind,line:l};
  }
  // ---- declarations
  params(){ // (mods name: type, ...)
    const r=[];this.exp('(');
    if(!this.is(')')){do{let m=this.linMod()||'';this.attrs();
      const name=this.t.k==='num'?(this.p++,String(this.T[this.p-1].v)):this.id();let ty=null;if(this.acc(':')){const m2=this.linMod();if(m2)m+=' '+m2;ty=this.type();}
      let def=null;if(this.acc(':='))def=this.expr();
      r.push({name,ty,def,ghost:/\bghost\b/.test(m),inout:/\binout\b/.test(m),lin:m});}while(this.acc(','));}
    this.exp(')');return r;
  }
  modExp(){ // path with functor args
    let e={name:null};const path=[this.id()];let node={path,args:null};
    for(;;){
      if(this.is('(')){this.p++;const as=[];if(!this.is(')')){do as.push(this.modExp());while(this.acc(','));}this.exp(')');node={path:node.path,args:as,base:node.base};
        if(this.is('.')){node={base:node,path:[],args:null};}}
      if(this.acc('.')){node.path.push(this.id());continue;}
      if(this.is('`')){this.p++;if(this.acc('{')){while(!this.acc('}'))this.p++;}else this.id();}
      return node;
    }
  }
  program(){
    const decls=[],includes=[];
    while(this.t.k!=='eof'){
      if(this.is('include')){this.p++;includes.push(this.t.v);this.p++;this.acc(';');continue;}
      const d=this.decl();if(d)decls.push(d);
    }
    return {file:this.file,includes,decls};
  }
  decl(){
    const start=this.p,l=this.loc();const mods=new Set();
    for(;;){
      if(this.t.k==='id'&&DECLMOD.has(this.t.v)&&this.pk().k==='id'){mods.add(this.t.v);this.p++;}
      else if(this.is('linear')||this.is('ghost')||this.is('static')||this.is('protected')){if(this.pk().v==='{'){mods.add(this.t.v);this.p++;break;}this.err('modifier');}
      else break;
    }
    const t=this.t;if(t.k!=='id'){if(this.is(';')){this.p++;return null;}this.err('declaration expected');}
    const mk=(o)=>Object.assign(o,{mods,line:l,file:this.file});
    switch(t.v){
      case 'module':{
        this.p++;const attrs=this.attrs();const names=[this.id()];while(this.acc('.'))names.push(this.id());
        let params=null;
        if(this.is('(')){this.p++;params=[];if(!this.is(')')){do{const n=this.id();this.exp(':');params.push({name:n,ty:this.modExp()});}while(this.acc(','));}this.exp(')');}
        this.attrs();
        let ref=null;if(this.acc('refines'))ref=this.modExp();
        if(this.acc('exclusively')){this.acc('refines');ref=this.modExp();}
        this.exp('{');const decls=[];while(!this.is('}')){if(this.is('include')){this.err('nested include');}const d=this.decl();if(d)decls.push(d);}this.exp('}');
        let nm=names.pop();let r=mk({k:'module',name:nm,params,ref,decls,attrs,prefix:names});return r;}
      case 'import':{
        this.p++;const opened=this.acc('opened');let name=this.id();let target=null,abs=false;
        if(this.acc('='))target=this.modExp();else if(this.acc(':')){target=this.modExp();abs=true;}
        else{ // import A.B or import A(B)
          const node={path:[name],args:null};let cur=node;
          if(this.is('(')||this.is('.')||this.is('`')){this.p--;cur=this.modExp();name=cur.path[cur.path.length-1];}
          target=cur;
        }
        if(this.acc('as')||this.acc('default'))this.modExp();
        if(this.is('`')){this.p++;this.id();}
        this.acc(';');
        return mk({k:'import',name,opened,target,abs});}
      case 'export':{this.p++;
        while(!this.is('}')&&!(this.t.k==='id'&&['import','module','datatype','type','newtype','class','function','predicate','method','lemma','const','ghost','linear','static','abstract','protected','export','codatatype','inductive','copredicate','twostate','trait'].includes(this.t.v)))this.p++;
        return null;}
      case 'class':case 'trait':{
        this.p++;const attrs=this.attrs();const name=this.id();const tps=this.typeParams();let ext=[];if(this.acc('extends')){do ext.push(this.type());while(this.acc(','));}
        if(this.acc('...')){}
        const ms=[];this.exp('{');while(!this.is('}')){const d=this.decl();if(d)ms.push(d);}this.exp('}');
        return mk({k:'class',trait:t.v==='trait',name,tps,ext,members:ms,attrs});}
      case 'datatype':case 'codatatype':{
        this.p++;const attrs=this.attrs();const name=this.id();const tps=this.typeParams();this.typeChar();
        const ctors=[];
        this.exp('=');this.acc('|');
        do{this.attrs();const cm=this.linMod();const cn=this.id();let fs=[];if(this.is('(')){fs=this.ctorFields();}ctors.push({name:cn,fields:fs});}while(this.acc('|'));
        let members=[];this.acc(';');
        if(this.is('{')&&!this.isAt(1,':')){this.p++;while(!this.is('}')){const d=this.decl();if(d)members.push(d);}this.exp('}');}
        return mk({k:'datatype',name,tps,ctors,members,attrs,co:t.v==='codatatype'});}
      case 'type':{
        this.p++;const attrs=this.attrs();const name=this.id();this.typeChar();const tps=this.typeParams();this.typeChar();
        let rhs=null,sub=null;
        if(this.acc('=')){
          if(this.t.k==='id'&&(this.isAt(1,'|')||(this.isAt(1,':')&&!this.isAt(2,':')))&&!this.isAt(1,'::')){const s=this.p;const v=this.id();let ty=null;if(this.acc(':'))ty=this.type();if(this.acc('|')){const c=this.expr(false);let w=null;if(this.acc('witness')||((this.is('ghost'))&&this.isAt(1,'witness')&&(this.p+=2))){if(!this.acc('*'))w=this.expr(false);}sub={v,ty,c,w};rhs=ty;}else{this.p=s;rhs=this.type();}}
          else rhs=this.type();
          if(this.acc('witness')||((this.is('ghost'))&&this.isAt(1,'witness')&&(this.p+=2))){if(!this.acc('*'))this.expr(false);}
        }
        let members=[];
        if(this.is('{')&&!this.isAt(1,':')){this.p++;while(!this.is('}')){const d=this.decl();if(d)members.push(d);}this.exp('}');}
        this.acc(';');
        return mk({k:'type',name,tps,rhs,sub,attrs,members});}
      case 'newtype':{
        this.p++;const attrs=this.attrs();const name=this.id();this.exp('=');let base=null,sub=null;
        if(this.t.k==='id'&&(this.isAt(1,'|')||this.isAt(1,':'))){const v=this.id();if(this.acc(':'))base=this.type();this.exp('|');const c=this.expr(false);sub={v,ty:base,c};}
        else base=this.type();
        if(this.acc('witness')){if(!this.acc('*'))this.expr(false);}
        this.acc(';');
        return mk({k:'newtype',name,tps:[],base,sub,attrs});}
      case 'const':{
        this.p++;const attrs=this.attrs();const name=this.id();let ty=null,e=null;if(this.acc(':'))ty=this.type();if(this.acc(':='))e=this.expr(true);this.acc(';');
        return mk({k:'const',name,ty,e});}
      case 'var':{
        this.p++;this.attrs();const name=this.id();this.exp(':');const ty=this.type();
        const fields=[{name,ty}];while(this.acc(',')){const n=this.id();this.exp(':');fields.push({name:n,ty:this.type()});}
        this.acc(';');
        return mk({k:'field',fields,name});}
      case 'iterator':this.err('iterator');
      case 'function':case 'predicate':case 'copredicate':{
        this.p++;let meth=false;if(this.is('method')){this.p++;meth=true;}
        let attrs=this.attrs();let name=this.id();if(name==='operator'&&this.is('(')){this.p++;name='operator';while(!this.acc(')')){name+=this.t.v;this.p++;}}Object.assign(attrs,this.attrs());const tps=this.typeParams();
        if(this.is('[')){while(!this.acc(']'))this.p++;}
        let params=[];if(this.is('('))params=this.params();else if(this.acc('...')){}
        if(this.acc('...')){}
        let ret=null,rname=null,rlin=null;
        if(this.acc(':')){
          rlin=this.linMod();
          if(this.is('(')){const r=this.tryp(()=>{this.p++;const m=this.linMod();const n=this.id();this.exp(':');const m2=this.linMod();const ty=this.type();this.exp(')');return {n,ty,m:(m||'')+(m2||'')};});if(r){ret=r.ty;rname=r.n;rlin=r.m;}else ret=this.type();}
          else ret=this.type();
        }else if(t.v!=='function')ret={k:'name',path:['bool'],args:[]};
        const sp=this.specs({});let body=null;
        if(this.is('{')){this.p++;if(this.is('}')){body=null;}else if(this.is('...')){this.p++;}else body=this.expr(true);this.exp('}');}
        if(this.is('by')&&this.isAt(1,'method')){this.p+=2;this.block();}
        return mk({k:'function',pred:t.v!=='function',meth,name,tps,params,ret,rname,sp,body,attrs});}
      case 'method':case 'lemma':case 'colemma':case 'constructor':{
        this.p++;let attrs=this.attrs();let name=null;if(this.t.k==='id'&&!this.is('requires')&&!this.is('ensures')&&!this.is('modifies'))name=this.id();
        Object.assign(attrs,this.attrs());
        const tps=this.typeParams();let params=[],outs=[];
        if(this.is('(')){params=this.params();}else if(this.acc('...')){}
        if(this.acc('...')){}
        const sp={};this.specs(sp);
        if(this.acc('returns')){outs=this.params();}
        this.specs(sp);
        let body=null;if(this.is('{')){body=this.ctorBody(t.v==='constructor');}
        if(t.v==='lemma'||t.v==='colemma')mods.add('lemma');
        return mk({k:t.v==='constructor'?'constructor':'method',lemma:t.v==='lemma'||t.v==='colemma',name:name||'_ctor',tps,params,outs,sp,body,attrs});}
    }
    this.err('declaration expected');
  }
  ctorBody(isCtor){
    if(!isCtor)return this.block();
    // "new;" separates phases in a constructor body
    const l=this.loc();this.exp('{');const ss=[];while(!this.is('}')){if(this.is('new')&&this.isAt(1,';')){this.p+=2;continue;}const s=this.stmt();if(s)ss.push(s);}this.exp('}');return {t:'Block',ss,line:l};
  }
  ctorFields(){
    const r=[];this.exp('(');let n=0;
    if(!this.is(')')){do{let m=this.linMod()||'';this.attrs();
      let name=null;if((this.t.k==='id'||this.t.k==='num')&&this.isAt(1,':')&&!this.isAt(1,'::')){name=this.t.v;this.p+=2;const m2=this.linMod();if(m2)m+=' '+m2;}
      const ty=this.type();r.push({name,ty,ghost:/\bghost\b/.test(m)||/glinear|gshared/.test(m),lin:m});n++;}while(this.acc(','));}
    this.exp(')');return r;
  }
}
function parseFile(src,file){return new P(src,file).program();}
module.exports={parseFile,lex,ParseError};
