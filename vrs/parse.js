'use strict';
// Parser for the Verus subset of Rust used by Splinter/src: items, specification functions, lemma statements, state_machine! blocks.
class PErr extends Error{}
const OPS=['<==>','===','!==','=~~=','&&&','|||','==>','<==','=~=','!~=','..=','...','<<=','>>=','::','->','=>','==','!=','<=','>=','&&','||','<<','>>','+=','-=','*=','/=','%=','&=','|=','^=','..'];
function lex(src,file){
  const out=[];let i=0,line=1;const n=src.length;
  const err=m=>{throw new PErr(`${file}:${line}: ${m}`);};
  while(i<n){
    const c=src[i];
    if(c==='\n'){line++;i++;continue;}
    if(c===' '||c==='\t'||c==='\r'){i++;continue;}
    if(c==='/'&&src[i+1]==='/'){while(i<n&&src[i]!=='\n')i++;continue;}
    if(c==='/'&&src[i+1]==='*'){let d=0;do{if(src[i]==='/'&&src[i+1]==='*'){d++;i+=2;}else if(src[i]==='*'&&src[i+1]==='/'){d--;i+=2;}else{if(src[i]==='\n')line++;i++;}}while(d&&i<n);continue;}
    if(/[A-Za-z_]/.test(c)){
      if((c==='b'||c==='r')&&src[i+1]==='"'){i++;continue;}
      let j=i;while(j<n&&/[A-Za-z0-9_]/.test(src[j]))j++;out.push({k:'id',v:src.slice(i,j),line});i=j;continue;}
    if(/[0-9]/.test(c)){
      let m=/^(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)((?:u|i)(?:8|16|32|64|128|size)|int|nat|f64)?/.exec(src.slice(i,i+80));
      const t=BigInt(m[1].replace(/_/g,''));out.push({k:'num',v:t<=9007199254740991n?Number(t):t,line});i+=m[0].length;continue;}
    if(c==='"'){let j=i+1;while(src[j]!=='"'){if(src[j]==='\\')j++;if(src[j]==='\n')line++;j++;}out.push({k:'str',v:src.slice(i+1,j),line});i=j+1;continue;}
    if(c==="'"){let m=/^'(\\.|[^\\'])'/.exec(src.slice(i,i+6));if(m){out.push({k:'chr',v:m[1],line});i+=m[0].length;continue;}m=/^'[A-Za-z_]\w*/.exec(src.slice(i,i+40));out.push({k:'life',v:m[0],line});i+=m[0].length;continue;}
    const o=OPS.find(o=>src.startsWith(o,i));
    if(o){out.push({k:'op',v:o,line});i+=o.length;continue;}
    out.push({k:'op',v:c,line});i++;
  }
  out.push({k:'eof',v:'<eof>',line});
  return out;
}
const CMP=new Set(['==','!=','===','!==','<','<=','>','>=','=~=','=~~=','!~=']);
class P{
  constructor(toks,file){this.t=toks;this.i=0;this.file=file;}
  get c(){return this.t[this.i];}
  la(n){return this.t[Math.min(this.i+n,this.t.length-1)];}
  is(v){const c=this.c;return c.v===v&&(c.k==='op'||c.k==='id');}
  isAt(n,v){const c=this.la(n);return c.v===v&&(c.k==='op'||c.k==='id');}
  err(m){throw new PErr(`${this.file}:${this.c.line}: ${m} at '${this.c.v}'`);}
  eat(v){if(this.is(v)){this.i++;return true;}return false;}
  need(v){
    if(this.is(v)){this.i++;return;}
    // split compound operators
    const c=this.c;if(c.k==='op'&&c.v.startsWith(v)&&c.v.length>v.length){this.t[this.i]={k:'op',v:c.v.slice(v.length),line:c.line};return;}
    this.err(`expected '${v}'`);}
  id(){if(this.c.k!=='id')this.err('identifier expected');return this.t[this.i++].v;}
  // token trees
  skipTree(){
    const o=this.c.v,p={'(':')','[':']','{':'}'}[o];
    if(this.c.k!=='op'||!p){this.i++;return;}
    let d=0;do{const c=this.c;if(c.k==='eof')this.err('unbalanced');if(c.k==='op'){if('([{'.includes(c.v))d++;else if(')]}'.includes(c.v))d--;}this.i++;}while(d);
  }
  attrs(){const r=[];while(this.is('#')){this.i++;this.eat('!');const s=this.i;this.skipTree();r.push(this.t.slice(s,this.i).map(x=>x.v).join(''));}return r;}
  vis(){if(this.eat('pub')){if(this.is('(')&&['crate','super','self','in'].includes(this.la(1).v))this.skipTree();}}
  // ---- types
  type(){
    if(this.c.k==='life'){this.i++;return {n:"'"};}
    if(this.is('&&'))this.t[this.i]={k:'op',v:'&',line:this.c.line},this.t.splice(this.i,0,{k:'op',v:'&',line:this.c.line});
    if(this.eat('&')){if(this.c.k==='life')this.i++;this.eat('mut');return this.type();}
    if(this.eat('*')){this.id();return this.type();}
    if(this.eat('(')){const a=[];while(!this.is(')')){if(this.is('tracked')||this.is('ghost'))this.i++;a.push(this.type());if(!this.eat(','))break;}this.need(')');return a.length===1?a[0]:{n:'(',a};}
    if(this.eat('[')){const e=this.type();if(this.eat(';'))this.expr();this.need(']');return {n:'Seq',a:[e]};}
    if(this.eat('!'))return {n:'!'};
    if(this.eat('impl')||this.eat('dyn')){const t=this.type();while(this.eat('+'))this.type();return t;}
    if(this.eat('_'))return null;
    if(this.eat('<')){const t=this.type();if(this.eat('as'))this.type();this.need('>');const p=[];while(this.eat('::'))p.push(this.id());return {n:p[p.length-1]||t.n,q:t,a:[]};}
    this.eat('::');
    const path=[];let a=[];
    for(;;){
      path.push(this.id());
      if(this.is('::')&&this.isAt(1,'<')){this.i++;}
      if(this.is('<'))a=this.tyArgs();
      else if(this.is('(')&&['FnSpec','Fn','FnMut','FnOnce','fn','spec_fn','proof_fn'].includes(path[path.length-1])){this.skipTree();if(this.eat('->'))this.type();return {n:'fn'};}
      if(!this.eat('::'))break;
    }
    return {n:path[path.length-1],p:path,a};
  }
  tyArgs(){this.need('<');const a=[];while(!this.is('>')&&!String(this.c.v).startsWith('>')){if(this.c.k==='id'&&this.isAt(1,'=')&&!this.isAt(2,'=')){this.i+=2;this.type();}else if(this.c.k==='num'||this.is('{')){if(this.is('{'))this.skipTree();else this.i++;a.push(null);}else a.push(this.type());if(!this.eat(','))break;}this.need('>');return a;}
  generics(){ // <T: B, const N: usize>
    const r=[];if(!this.is('<'))return r;this.need('<');
    while(!this.is('>')){if(this.c.k==='life'){this.i++;if(this.eat(':'))this.i++;}else{this.eat('const');const n=this.id();r.push(n);if(this.eat(':')){this.bounds();}if(this.eat('='))this.type();}if(!this.eat(','))break;}
    this.need('>');return r;
  }
  bounds(){do{this.eat('?');if(this.c.k==='life')this.i++;else this.type();}while(this.eat('+'));}
  where(){if(!this.eat('where'))return;while(this.c.k==='id'&&!['requires','ensures','recommends','decreases'].includes(this.c.v)){this.type();this.need(':');this.bounds();if(!this.eat(','))break;}}
  // ---- patterns
  pat(){this.eat('|');const a=[this.pat1()];while(this.is('|')){this.i++;a.push(this.pat1());}return a.length===1?a[0]:{t:'POr',a};}
  pat1(){
    if(this.eat('&'))return this.pat1();
    if(this.is('ref')||this.is('mut')||this.is('tracked')||this.is('ghost')){this.i++;return this.pat1();}
    if(this.eat('_'))return {t:'PWild'};
    if(this.eat('..'))return {t:'PRest'};
    if(this.eat('(')){const a=this.pats(')');return a.length===1&&!this.comma?a[0]:{t:'PTup',a};}
    if(this.eat('['))return {t:'PSeq',a:this.pats(']')};
    if(this.c.k==='num'){const v=this.t[this.i++].v;if(this.eat('..=')||this.eat('..')){this.i++;}return {t:'PLit',v};}
    if(this.is('true')||this.is('false'))return {t:'PLit',v:this.id()==='true'};
    const path=[this.id()];for(;;){if(this.is('::')){this.i++;if(this.is('<')){this.tyArgs();continue;}path.push(this.id());}else break;}
    if(this.eat('('))return {t:'PCtor',path,pos:this.pats(')')};
    if(this.is('{')){this.i++;const fs=[];while(!this.is('}')){if(this.eat('..'))break;this.eat('ref');this.eat('mut');const n=this.c.k==='num'?String(this.t[this.i++].v):this.id();fs.push([n,this.eat(':')?this.pat():{t:'PId',n}]);if(!this.eat(','))break;}this.need('}');return {t:'PCtor',path,fs};}
    if(path.length===1&&this.eat('@'))return {t:'PAt',n:path[0],p:this.pat1()};
    if(path.length===1&&/^[a-z_]/.test(path[0]))return {t:'PId',n:path[0]};
    return {t:'PCtor',path,pos:[]};
  }
  pats(end){const a=[];this.comma=false;while(!this.is(end)){a.push(this.pat());if(!this.eat(','))break;this.comma=true;}this.need(end);return a;}
  // ---- expressions; ns = no struct literal
  expr(ns){return this.iff(!!ns);}
  exprList(end){const a=[];while(!this.is(end)){a.push(this.expr());if(!this.eat(','))break;}this.need(end);return a;}
  iff(ns){
    if(this.is('&&&')||this.is('|||')){const op=this.c.v;const a=[];const l=this.c.line;while(this.eat(op))a.push(this.iff2(ns));return {t:op==='&&&'?'And':'Or',a,line:l};}
    return this.iff2(ns);
  }
  iff2(ns){let a=this.imp(ns);while(this.is('<==>')){const line=this.c.line;this.i++;a={t:'Bin',op:'<==>',a,b:this.imp(ns),line};}return a;}
  imp(ns){const a=this.or(ns);if(this.is('==>')){const line=this.c.line;this.i++;return {t:'Bin',op:'==>',a,b:this.imp(ns),line};}
    if(this.is('<==')){const line=this.c.line;this.i++;return {t:'Bin',op:'==>',a:this.or(ns),b:a,line};}return a;}
  or(ns){let a=this.and(ns);while(this.is('||')){this.i++;a={t:'Bin',op:'||',a,b:this.and(ns)};}return a;}
  and(ns){let a=this.cmp(ns);while(this.is('&&')){this.i++;a={t:'Bin',op:'&&',a,b:this.cmp(ns)};}return a;}
  cmp(ns){
    let a=this.bor(ns);
    if(this.is('matches')){this.i++;const p=this.pat1();return {t:'Matches',e:a,p};}
    if(this.c.k==='op'&&CMP.has(this.c.v)){
      const parts=[a],ops=[];
      while(this.c.k==='op'&&CMP.has(this.c.v)){ops.push(this.t[this.i++].v);parts.push(this.bor(ns));}
      if(ops.length===1)return {t:'Bin',op:ops[0],a:parts[0],b:parts[1]};
      return {t:'Chain',parts,ops};
    }
    return a;
  }
  bor(ns){let a=this.bxor(ns);while(this.is('|')){this.i++;a={t:'Bin',op:'|',a,b:this.bxor(ns)};}return a;}
  bxor(ns){let a=this.band(ns);while(this.is('^')){this.i++;a={t:'Bin',op:'^',a,b:this.band(ns)};}return a;}
  band(ns){let a=this.shift(ns);while(this.is('&')){this.i++;a={t:'Bin',op:'&',a,b:this.shift(ns)};}return a;}
  shift(ns){let a=this.add(ns);while(this.is('<<')||this.is('>>')){const op=this.t[this.i++].v;a={t:'Bin',op,a,b:this.add(ns)};}return a;}
  add(ns){let a=this.mul(ns);while(this.is('+')||this.is('-')){const op=this.t[this.i++].v;a={t:'Bin',op,a,b:this.mul(ns)};}return a;}
  mul(ns){let a=this.cast(ns);while(this.is('*')||this.is('/')||this.is('%')){const op=this.t[this.i++].v;a={t:'Bin',op,a,b:this.cast(ns)};}return a;}
  cast(ns){let a=this.unary(ns);for(;;){
    if(this.is('as')){this.i++;a={t:'As',e:a,ty:this.type(),line:this.c.line};}
    else if(this.is('is')){this.i++;const path=[this.id()];while(this.eat('::'))path.push(this.id());a={t:'Is',e:a,v:path[path.length-1]};}
    else if(this.is('has')){this.i++;a={t:'Call',f:{t:'Dot',e:a,f:'contains'},args:[this.unary(ns)]};}
    else return a;}}
  unary(ns){
    const c=this.c;
    if(c.k==='op'){
      if(c.v==='!'){this.i++;return {t:'Not',e:this.unary(ns)};}
      if(c.v==='-'){this.i++;return {t:'Neg',e:this.unary(ns)};}
      if(c.v==='*'){this.i++;return this.unary(ns);}
      if(c.v==='&'){this.i++;if(this.is('mut'))this.i++;return this.unary(ns);}
      if(c.v==='&&'){this.i++;return this.unary(ns);}
      if(c.v==='|'||c.v==='||')return this.closure();
      if(c.v==='#'){this.attrs();return this.unary(ns);}
      if(c.v==='&&&'||c.v==='|||')return this.iff(ns);
    }
    return this.postfix(ns);
  }
  binders(){ // |x: T, (a,b)|
    const vs=[];if(this.eat('||'))return vs;this.need('|');
    while(!this.is('|')){this.attrs();const p=this.pat1();let ty=null;if(this.eat(':'))ty=this.type();vs.push({p,n:p.n,ty});if(!this.eat(','))break;}
    this.need('|');return vs;
  }
  closure(){const line=this.c.line;const vs=this.binders();if(this.eat('->')){if(this.is('(')&&this.isAt(2,':')){this.skipTree();}else this.type();}
    this.clauses();
    const body=this.is('{')?this.block():this.expr();return {t:'Fn',vs,body,line};}
  postfix(ns){
    let a=this.primary(ns);
    for(;;){
      if(this.is('.')){
        this.i++;
        if(this.c.k==='num'){const n=this.t[this.i++];a={t:'Dot',e:a,f:String(n.v),line:n.line};continue;}
        const line=this.c.line;const f=this.id();let ta=null;
        if(this.is('::')){this.i++;ta=this.tyArgs();}
        a={t:'Dot',e:a,f,ta,line};continue;
      }
      if(this.is('(')){const line=this.c.line;this.i++;a={t:'Call',f:a,args:this.exprList(')'),line};continue;}
      if(this.is('[')){const line=this.c.line;this.i++;const i=this.expr();this.need(']');a={t:'Idx',e:a,i,line};continue;}
      if(this.is('->')){const line=this.c.line;this.i++;const f=this.c.k==='num'?String(this.t[this.i++].v):this.id();a={t:'Arrow',e:a,f,line};continue;}
      if(this.is('@')){this.i++;a={t:'View',e:a};continue;}
      if(this.is('?')){this.i++;a={t:'Try',e:a};continue;}
      return a;
    }
  }
  primary(ns){
    const c=this.c,line=c.line;
    if(c.k==='num'){this.i++;return {t:'Lit',v:c.v};}
    if(c.k==='str'){this.i++;return {t:'Lit',v:c.v};}
    if(c.k==='chr'){this.i++;return {t:'Lit',v:c.v};}
    if(c.k==='life'){this.i++;this.need(':');return this.primary(ns);}
    if(this.is('(')){this.i++;const a=[];let comma=false;while(!this.is(')')){a.push(this.expr());if(!this.eat(','))break;comma=true;}this.need(')');return a.length===1&&!comma?{t:'Par',e:a[0]}:{t:'Tup',a};}
    if(this.is('[')){this.i++;const a=[];while(!this.is(']')){a.push(this.expr());if(this.eat(';')){const n=this.expr();this.need(']');return {t:'Rep',e:a[0],n};}if(!this.eat(','))break;}this.need(']');return {t:'SeqLit',a};}
    if(this.is('{'))return this.block();
    if(this.is('<')){ // <T as Tr>::f
      this.i++;const t=this.type();if(this.eat('as'))this.type();this.need('>');const path=[t.n];while(this.eat('::'))path.push(this.id());return {t:'Path',path,line};}
    if(c.k==='id'){
      switch(c.v){
        case 'true':case 'false':this.i++;return {t:'Lit',v:c.v==='true'};
        case 'if':return this.ifE();
        case 'match':{this.i++;const e=this.expr(true);this.need('{');const arms=[];while(!this.is('}')){this.attrs();const p=this.pat();let g=null;if(this.eat('if'))g=this.expr();this.need('=>');const b=this.expr();arms.push({p,g,b});if(!this.eat(',')&&!this.is('}')&&b.t!=='Block'&&b.t!=='If'&&b.t!=='Match')this.err('match arm');}this.need('}');return {t:'Match',e,arms,line};}
        case 'forall':case 'exists':case 'choose':case 'assert_forall':{if(!(this.isAt(1,'|')||this.isAt(1,'||')))break;this.i++;const vs=this.binders();this.attrs();let b=this.expr(ns);return {t:'Quant',q:c.v,vs,body:b,line};}
        case 'move':this.i++;return this.closure();
        case 'proof':if(this.isAt(1,'{')){this.i++;this.skipTree();return {t:'Unit'};}break;
        case 'unsafe':if(this.isAt(1,'{')){this.i++;return this.block();}break;
        case 'loop':this.i++;return {t:'Loop',b:this.block(),line};
        case 'while':{this.i++;const e=this.cond();const cl=this.clauses();return {t:'While',c:e,b:this.block(),cl,line};}
        case 'for':{this.i++;const p=this.pat();this.need('in');if(this.c.k==='id'&&this.isAt(1,':')&&!this.isAt(1,'::'))this.i+=2;const e=this.range(true);const cl=this.clauses();return {t:'For',p,e,b:this.block(),cl,line};}
        case 'return':this.i++;return {t:'Return',e:this.is(';')||this.is('}')||this.is(',')?null:this.expr()};
        case 'break':this.i++;return {t:'Break'};
        case 'continue':this.i++;return {t:'Continue'};
        case 'assert':case 'assume':case 'assert_by':if(this.isAt(1,'(')){this.i++;this.skipTree();if(this.eat('by')){if(this.is('('))this.skipTree();if(this.is('{'))this.skipTree();}if(this.is('requires')){while(!this.is(';')&&!this.is('{'))this.skipTree();}return {t:'Unit'};}
          if(this.isAt(1,'forall')){while(!this.is('by'))this.skipTree();this.i++;this.skipTree();return {t:'Unit'};}break;
        case 'calc':if(this.isAt(1,'!')){this.i+=2;this.skipTree();return {t:'Unit'};}break;
      }
      const path=[this.id()];let ta=null;
      for(;;){
        if(this.is('::')){this.i++;if(this.is('<')){ta=this.tyArgs();continue;}path.push(this.id());continue;}
        break;
      }
      if(this.is('!')&&(this.isAt(1,'(')||this.isAt(1,'[')||this.isAt(1,'{'))&&path.length===1){this.i++;return this.macro(path[0],line);}
      if(this.is('{')&&!ns&&/^[A-Z]/.test(path[path.length-1])&&this.structAhead()){
        this.i++;const fs=[];let base=null;
        while(!this.is('}')){this.attrs();if(this.eat('..')){base=this.expr();break;}const n=this.c.k==='num'?String(this.t[this.i++].v):this.id();fs.push([n,this.eat(':')?this.expr():{t:'Path',path:[n],line}]);if(!this.eat(','))break;}
        this.need('}');return {t:'Struct',path,ta,fs,base,line};
      }
      return {t:'Path',path,ta,line};
    }
    this.err('expression expected');
  }
  structAhead(){ // after `Path` at '{': does it look like a struct literal
    if(this.isAt(1,'}')||this.isAt(1,'..'))return true;
    const a=this.la(1),b=this.la(2);
    return (a.k==='id'||a.k==='num')&&(b.v===':'||b.v===','||b.v==='}')&&b.k==='op'&&!['self','true','false'].includes(a.v);
  }
  range(ns){const a=this.is('..')?null:this.expr(ns);if(this.is('..')||this.is('..=')){const inc=this.t[this.i++].v==='..=';const b=this.expr(ns);return {t:'Range',a,b,inc};}return a;}
  cond(){if(this.eat('let')){const p=this.pat();this.need('=');const e=this.expr(true);return {t:'Matches',e,p};}return this.expr(true);}
  ifE(){const line=this.c.line;this.need('if');const c=this.cond();const a=this.block();let b=null;if(this.eat('else'))b=this.is('if')?this.ifE():this.block();return {t:'If',c,a,b,line};}
  macro(n,line){
    const end={'(':')','[':']','{':'}'}[this.c.v];
    if(['map','set','seq','vec','matches','imap','multiset'].includes(n)){
      this.i++;
      if(n==='matches'){const e=this.expr();this.need(',');const p=this.pat();let g=null;if(this.eat('if'))g=this.expr();this.eat(',');this.need(end);return {t:'Par',e:g?{t:'Bin',op:'&&',a:{t:'Matches',e,p},b:g}:{t:'Matches',e,p}};}
      const a=[];while(!this.is(end)){const k=this.expr();if(n==='map'||n==='imap'){this.need('=>');a.push([k,this.expr()]);}else{if(this.eat(';')){const m=this.expr();this.need(end);return {t:'Rep',e:k,n:m};}a.push(k);}if(!this.eat(','))break;}
      this.need(end);return {t:n==='map'||n==='imap'?'MapLit':n==='set'?'SetLit':n==='multiset'?'MsLit':'SeqLit',a,line};
    }
    this.skipTree();return n==='arbitrary'||n==='unimplemented'||n==='panic'||n==='unreached'?{t:'Arb',line}:{t:'Unit'};
  }
  block(){
    const line=this.c.line;this.need('{');const ss=[];let last=null;
    while(!this.is('}')){
      this.attrs();
      if(this.eat(';'))continue;
      if(this.is('let')||((this.is('ghost')||this.is('tracked'))&&this.isAt(1,'let'))){if(!this.is('let'))this.i++;ss.push(this.letS());continue;}
      if((this.is('use')))  {while(!this.eat(';'))this.i++;continue;}
      if(this.is('reveal')||this.is('broadcast')||this.is('hide')||this.is('reveal_with_fuel')){while(!this.eat(';'))this.skipTree();continue;}
      const e=this.expr();
      if(this.c.k==='op'&&['=','+=','-=','*=','/=','%=','|=','&=','^='].includes(this.c.v)){const op=this.t[this.i++].v;const r=this.expr();this.eat(';');ss.push({t:'Assign',op,l:e,r,line});continue;}
      if(this.eat(';')){ss.push({t:'ExprS',e});continue;}
      if(this.is('}')){last=e;break;}
      if(['Block','If','Match','While','For','Loop','Unit'].includes(e.t)){ss.push({t:'ExprS',e});continue;}
      this.err("';' or '}' expected");
    }
    this.need('}');return {t:'Block',ss,last,line};
  }
  letS(){const line=this.c.line;this.need('let');this.eat('tracked');this.eat('ghost');const p=this.pat();let ty=null;if(this.eat(':'))ty=this.type();let e=null,els=null;if(this.eat('='))e=this.expr();if(this.eat('else'))els=this.block();this.eat(';');return {t:'Let',p,ty,e,els,line};}
  clauses(){
    const r={requires:[],ensures:[],recommends:[],decreases:[]};
    for(;;){
      const c=this.c;if(c.k!=='id')break;
      if(['requires','ensures','recommends','decreases','invariant','invariant_except_break','invariant_ensures','returns'].includes(c.v)){
        this.i++;const l=r[c.v]||(r[c.v]=[]);
        while(!this.is('{')&&!this.is(';')&&!(this.c.k==='id'&&['requires','ensures','recommends','decreases','opens_invariants','when','via','returns','invariant_ensures','invariant_except_break','invariant'].includes(this.c.v))){l.push(this.expr(true));if(!this.eat(','))break;}
        continue;
      }
      if(c.v==='when'){this.i++;r.when=this.expr(true);continue;}
      if(c.v==='via'){this.i++;this.expr(true);continue;}
      if(c.v==='opens_invariants'||c.v==='no_unwind'){this.i++;while(!this.is('{')&&!this.is(';')&&!['ensures','requires','recommends','decreases'].includes(this.c.v))this.skipTree();continue;}
      break;
    }
    return r;
  }
  // ---- items
  fnItem(attrs){
    const m=new Set();const line=this.c.line;
    for(;;){
      if(this.is('pub')){this.vis();continue;}
      if(['open','closed','proof','exec','const','unsafe','broadcast','uninterp','axiom','tracked','async','extern'].includes(this.c.v)&&!this.is('fn')){m.add(this.id());if(m.has('open')&&this.is('('))this.skipTree();continue;}
      if(this.is('spec')){this.i++;m.add('spec');if(this.is('('))this.skipTree();continue;}
      break;
    }
    this.need('fn');const name=this.id();const tps=this.generics();this.need('(');
    const ps=[];let self=false;
    while(!this.is(')')){
      this.attrs();this.eat('tracked');this.eat('ghost');
      if(this.is('&')&&(this.isAt(1,'self')||this.isAt(1,'mut')&&this.isAt(2,'self')||this.la(1).k==='life')){this.i++;if(this.c.k==='life')this.i++;if(this.eat('mut'))m.add('mutself');}
      if(this.is('self')||this.is('mut')&&this.isAt(1,'self')){this.eat('mut');this.i++;if(this.eat(':'))this.type();self=true;}
      else {const p=this.pat1();this.need(':');const mut=this.is('&')&&this.isAt(1,'mut');ps.push({p,n:p.n,ty:this.type(),mut});}
      if(!this.eat(','))break;
    }
    this.need(')');
    let ret=null;if(this.eat('->')){this.eat('tracked');if(this.is('(')&&(this.la(1).k==='id'&&this.isAt(2,':')||this.isAt(1,'tracked')||this.isAt(1,'ghost'))){this.i++;this.eat('tracked');this.eat('ghost');const n=this.id();this.need(':');ret={n,ty:this.type()};this.need(')');}else ret={n:null,ty:this.type()};}
    this.where();
    const cl=this.clauses();
    let body=null;if(this.is('{')){const spec=m.has('spec');if(spec||this.keepExec&&!m.has('proof')&&!m.has('axiom'))body=this.block();else this.skipTree();}else this.need(';');
    return {k:'fn',name,tps,ps,self,ret,cl,body,mods:m,attrs,line};
  }
  fields(end){ // named fields up to end
    const fs=[];while(!this.is(end)){const at=this.attrs();this.vis();this.eat('ghost');this.eat('tracked');const n=this.id();this.need(':');fs.push({n,ty:this.type(),at});if(!this.eat(','))break;}this.need(end);return fs;
  }
  tfields(){const fs=[];let i=0;while(!this.is(')')){this.attrs();this.vis();this.eat('ghost');this.eat('tracked');fs.push({n:String(i++),ty:this.type()});if(!this.eat(','))break;}this.need(')');return fs;}
  enumItem(){this.need('enum');const name=this.id();const tps=this.generics();this.where();this.need('{');const vs=[];
    while(!this.is('}')){this.attrs();const n=this.id();let fs=[],pos=false;if(this.eat('('))fs=this.tfields(),pos=true;else if(this.eat('{'))fs=this.fields('}');if(this.eat('='))this.expr();vs.push({n,fs,pos});if(!this.eat(','))break;}
    this.need('}');return {k:'enum',name,tps,vs};}
  structItem(){this.need('struct');const name=this.id();const tps=this.generics();this.where();let fs=[],pos=false;if(this.eat('('))  {fs=this.tfields();pos=true;this.where();this.eat(';');}else if(this.eat('{'))fs=this.fields('}');else this.need(';');return {k:'struct',name,tps,fs,pos};}
  useItem(){ // list of {path, as, glob}
    this.need('use');const out=[];
    const tree=pre=>{
      this.eat('::');
      for(;;){
        if(this.eat('{')){while(!this.is('}')){tree(pre.slice());if(!this.eat(','))break;}this.need('}');return;}
        if(this.eat('*')){out.push({path:pre,glob:true});return;}
        pre.push(this.id());
        if(this.eat('::'))continue;
        let as=pre[pre.length-1];if(this.eat('as'))as=this.c.v==='_'?(this.i++,'_'):this.id();
        out.push({path:pre,as});return;
      }
    };
    tree([]);this.need(';');return {k:'use',us:out};
  }
  items(end){const out=[];while(!this.is(end)&&this.c.k!=='eof'){const it=this.item();if(it)out.push(it);}return out;}
  item(){
    const attrs=this.attrs();
    const s=this.i;
    // look past visibility
    let j=this.i;if(this.la(0).v==='pub'){j++;if(this.t[j].v==='('&&['crate','super','self','in'].includes(this.t[j+1].v)){while(this.t[j].v!==')')j++;j++;}}
    const w=this.t[j].v,w1=this.t[j+1]&&this.t[j+1].v;
    if(this.c.k==='id'&&this.isAt(1,'!')){
      const n=this.id();this.i++;
      if(n==='verus'){const e={'{':'}','(':')'}[this.c.v];this.i++;const r=this.items(e);this.need(e);this.eat(';');return {k:'group',items:r};}
      if(n==='state_machine'){const e={'{':'}','(':')'}[this.c.v];this.i++;const r=this.machine();this.need(e);this.eat(';');return r;}
      this.skipTree();this.eat(';');return null;
    }
    switch(w){
      case 'use':this.i=j;return this.useItem();
      case 'mod':{this.i=j+1;const name=this.id();if(this.eat(';'))return {k:'modref',name};this.need('{');const its=this.items('}');this.need('}');return {k:'mod',name,items:its};}
      case 'enum':this.i=j;return this.enumItem();
      case 'struct':this.i=j;return this.structItem();
      case 'type':{this.i=j+1;const name=this.id();const tps=this.generics();if(this.eat(':'))this.bounds();let ty=null;if(this.eat('='))ty=this.type();this.need(';');return {k:'type',name,tps,ty};}
      case 'impl':{this.i=j+1;const tps=this.generics();let ty=this.type(),tr=null;if(this.eat('for')){tr=ty;ty=this.type();}this.where();this.need('{');const its=this.items('}');this.need('}');return {k:'impl',tps,ty,tr,items:its};}
      case 'trait':{this.i=j+1;const name=this.id();const tps=this.generics();if(this.eat(':'))this.bounds();this.where();this.need('{');const its=this.items('}');this.need('}');return {k:'trait',name,tps,items:its};}
      case 'global':{while(!this.eat(';'))this.skipTree();return null;}
      case 'static':while(!this.eat(';'))this.skipTree();return null;
      case 'extern':if(w1==='crate'){while(!this.eat(';'))this.i++;return null;}break;
      case 'broadcast':if(w1==='use'||w1==='group'){while(!this.is(';')&&!this.is('{'))this.skipTree();if(this.is('{'))this.skipTree();this.eat(';');return null;}break;
      case 'tracked':case 'ghost':if(w1==='struct'||w1==='enum'){this.i=j+1;return w1==='struct'?this.structItem():this.enumItem();}break;
    }
    // const or fn
    let q=j;while(['open','closed','proof','exec','unsafe','broadcast','uninterp','axiom','tracked','async','spec','const','('].includes(this.t[q].v)){if(this.t[q].v==='const'&&this.t[q+1].v!=='fn'&&this.t[q+1].v!=='unsafe'){this.i=q+1;const name=this.c.v==='_'?(this.i++,'_'):this.id();this.need(':');const ty=this.type();this.clauses();let e=null;if(this.eat('='))e=this.expr();else if(this.is('{'))e=this.block();this.eat(';');return {k:'const',name,ty,e};}
      if(this.t[q].v==='('){while(this.t[q].v!==')')q++;}q++;}
    return this.fnItem(attrs);
  }
  // ---- state machines
  machine(){
    this.attrs();this.vis();const name=this.id();const tps=this.generics();this.where();this.need('{');
    const M={k:'machine',name,tps,fields:[],trans:[],items:[],invs:[]};
    while(!this.is('}')){
      const attrs=this.attrs();
      if(this.is('fields')&&this.isAt(1,'{')){this.i+=2;M.fields=this.fields('}');continue;}
      if(this.c.k==='id'&&this.isAt(1,'!')){
        const kind=this.id();this.i++;const e={'{':'}','(':')'}[this.c.v];this.i++;
        const nm=this.id();this.need('(');const ps=[];while(!this.is(')')){const n=this.id();this.need(':');ps.push({n,ty:this.type()});if(!this.eat(','))break;}this.need(')');
        const body=this.tblock();this.need(e);
        M.trans.push({kind,name:nm,ps,body});continue;
      }
      const it=this.item0(attrs);if(it.k==='fn'&&attrs.some(a=>a.includes('invariant')))M.invs.push(it.name);
      M.items.push(it);
    }
    this.need('}');return M;
  }
  item0(attrs){const it=this.item();if(it&&it.k==='fn')it.attrs=attrs;return it||{k:'none'};}
  tblock(){
    this.need('{');const ss=[];
    while(!this.is('}')){
      this.attrs();const line=this.c.line;
      if(this.eat(';'))continue;
      this.eat('birds_eye');
      if(this.is('let')){ss.push(this.letS());continue;}
      if(this.is('require')||this.is('assert')&&!this.isAt(1,'(')){const w=this.id();if(this.eat('let')){const p=this.pat();this.need('=');const e=this.expr();this.eat(';');ss.push({t:'ReqLet',p,e,line});}else{const e=this.expr();this.eat(';');if(w==='require')ss.push({t:'Req',e,line});}continue;}
      if(this.is('assert')){this.expr();this.eat(';');continue;}
      if(this.is('update')||this.is('init')){this.i++;const l=[this.id()];let idx=null;for(;;){if(this.eat('.'))l.push(this.id());else if(this.is('[')){this.i++;idx=this.expr();this.need(']');}else break;}this.need('=');const e=this.expr();this.eat(';');ss.push({t:'Upd',l,idx,e,line});continue;}
      if(this.is('if')){const f=()=>{this.need('if');let c;if(this.eat('let')){const p=this.pat();this.need('=');c={t:'Matches',e:this.expr(true),p};}else c=this.expr(true);const a=this.tblock();let b=null;if(this.eat('else'))b=this.is('if')?[f()]:this.tblock();return {t:'If',c,a,b};};ss.push(f());continue;}
      if(this.is('match')){this.i++;const e=this.expr(true);this.need('{');const arms=[];while(!this.is('}')){const p=this.pat();this.need('=>');const b=this.tblock();arms.push({p,b});this.eat(',');}this.need('}');ss.push({t:'Match',e,arms});continue;}
      const e=this.expr();this.eat(';');ss.push({t:'ExprS',e});
    }
    this.need('}');return ss;
  }
}
function parse(src,file,opts={}){const p=new P(lex(src,file),file);p.keepExec=!!opts.exec;const r=p.items('<none>');if(p.c.k!=='eof')p.err('item expected');return r;}
module.exports={parse,PErr};
