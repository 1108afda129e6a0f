'use strict';
// V04: the betree layers of Splinter: paged, pivot, filtered and linked trees. One independent tree model per shape drives each machine; what a
// reader sees of every key is recomputed directly from the code's data values.
const L=require('../vlib.js');const {V,$,check,DMap,DSet,IMap,load,ty,fn,eq,Some,None,init}=L;const {perturb,Pool}=require('../sm.js');
const {base}=require('./vspec.js');const {hist}=require('./vabs.js');
const DIRS=['spec','abstract_system','betree','disk'],ALLOC=['spec','abstract_system','betree','disk','allocation_layer'];
const NK=7,MAX=Infinity,PG=6,AU_=8;
const isN=o=>o.$cn==='None';
const show=x=>$.show(x).slice(0,1100);
class Bad extends Error{}
const bad=m=>{throw new Bad(m);};
const soft=f=>{try{return f();}catch(e){if(e instanceof V.DafnyFail||e instanceof V.Unsup||e instanceof TypeError||e instanceof RangeError)return undefined;throw e;}};
// perturbed values must stay inside the generated key range
const inRange=(v,w)=>{const {nk,PAGES,AUS}=w&&w.lim||{nk:NK,PAGES:PG,AUS:AU_};let ok=true;const go=(x,d)=>{if(!ok||d>16)return;if(typeof x==='number'){if(x<0)ok=false;return;}if(!x||typeof x!=='object')return;if(x instanceof DMap){for(const k of x){go(k,d+1);go(x.get(k),d+1);}return;}if(x instanceof DSet||Array.isArray(x)){for(const k of x)go(k,d+1);return;}if(x.$ty&&x.$ty.name==='Key'&&!(x._0<nk)){ok=false;return;}if(x.$cn==='Elem'&&!(x._e<nk)){ok=false;return;}if(x.$ty&&x.$ty.name==='Address'&&!(x._au<AUS&&x._page<PAGES)){ok=false;return;}if(x.$ty&&x.$ty.name==='MsgHistory'&&x._seq_end>26){ok=false;return;}if(x.$ty&&x.$ty.name==='Memtable'&&x._seq_end>26){ok=false;return;}for(const f of x.$f||Object.keys(x))if(f[0]==='_')go(x[f],d+1);};go(v,0);return ok;};
function world(REPO,dirs,opts={}){
  const {nk,PAGES,AUS}=Object.assign({nk:NK,PAGES:PG,AUS:AU_},opts);
  const w=base(REPO,dirs||DIRS,{nk,overrides:{'spec::AsyncDisk_t::page_count':()=>PAGES,'spec::AsyncDisk_t::au_count':()=>AUS}});const P=w.P,h=hist(w);const B='betree::';
  const Addr=ty(P,'spec::AsyncDisk_t::Address');const ADDRS=[];for(let a=0;a<AUS;a++)for(let p=0;p<PAGES;p++)ADDRS.push(Addr(a,p));
  Object.assign(w,{h,ADDRS,lim:{nk,PAGES,AUS},ak:a=>a._au+'/'+a._page,SB:ty(P,B+'Buffer_v::SimpleBuffer'),BS:ty(P,B+'BufferSeq_v::BufferSeq'),BO:ty(P,B+'BufferOffsets_v::BufferOffsets'),PT:ty(P,B+'PivotTable_v::PivotTable'),OM:ty(P,B+'OffsetMap_v::OffsetMap'),MT:ty(P,B+'Memtable_v::Memtable'),SR:ty(P,B+'SplitRequest_v::SplitRequest'),Dom:ty(P,B+'Domain_v::Domain'),LS:ty(P,B+'LinkedSeq_v::LinkedSeq'),BD:ty(P,B+'BufferDisk_v::BufferDisk'),
    M:n=>P.machines.get(n),St:n=>(...a)=>new (P.machines.get(n).state.K)(...a),lab:(n,m)=>ty(P,m+'::'+n+'::Label')});
  w.key=n=>w.KEYS[n];w.el=n=>n===MAX?w.El.Max:w.El.Elem(n);w.un=e=>e.$cn==='Max'?MAX:e._e;
  w.play=[];w.ranks=()=>[];
  w.ready=()=>{V.S.arbitrary=V.arb=()=>0;w.play=[];w.setup(u=>{
    if(!u)return null;const n=u.ty&&u.ty.n,m=u.name||'';
    if(n==='Ranking'||/ranking/.test(m))return w.ranksOf&&w.ranksOf(u.self)||w.ranks();
    if(n==='Key'||m==='k'||m==='key')return w.KEYS;
    if(n==='Address'||/addr/.test(m))return w.ADDRS;
    if(n==='Pointer')return [None,...w.ADDRS.map(Some)];
    if(n==='nat'||n==='int'||/^(i|j|idx|x|y|lsn)$|idx$/.test(m))return /MsgHistory|Stamped|lsn/i.test((u.fn||'')+m)?w.lsns:w.nums;
    return null;});};
  w.nums=[...Array(14).keys()];w.lsns=[...Array(28).keys()];
  // pure facts about immutable values are computed once per value
  w.memo=(o,...names)=>{for(const n of names){let p=o;while(p&&!Object.prototype.hasOwnProperty.call(p,'m_'+n))p=Object.getPrototypeOf(p);if(!p||p['m_'+n].memo)continue;const f=p['m_'+n],c=new WeakMap();const g=function(...a){if(a.length>1||a.length===1&&(typeof a[0]!=='object'||a[0]===null))return f.apply(this,a);const k=a.length?a[0]:c;let m=c.get(this);if(!m){m=new WeakMap();c.set(this,m);}if(m.has(k))return m.get(k);const r=f.apply(this,a);m.set(k,r);return r;};g.memo=true;p['m_'+n]=g;}};
  w.nop=w.upd(0);w.m2=(o,n)=>w.merge(o,n);
  // buffers: Map(number -> message)
  w.buf=m=>w.SB(DMap.of([...m].map(([k,v])=>[w.key(k),v])));
  w.rbuf=t=>{const r=new Map();for(let i=t.below(4);i>0;i--)r.set(t.below(NK),w.msg(t));return r;};
  w.bget=(b,k)=>{const kk=typeof k==='number'?w.key(k):k;return b._map.has(kk)?b._map.get(kk):null;};
  w.pts=p=>w.PT(p.map(w.el));
  w.route=(p,k)=>{let r=-1;for(let i=0;i<p.length;i++)if(p[i]<=k)r=i;return r;};
  w.fold=(r,bufs)=>bufs.reduce((a,b)=>b===null||b===undefined?a:w.m2(a,b),r);
  w.mem=m=>w.MT(w.buf(m.mem),m.lsn);
  w.put=(m,kms)=>{const mem=new Map(m.mem);for(const x of kms){const k=x._key._0;mem.set(k,w.m2(mem.get(k)||w.nop,x._message));}return Object.assign({},m,{mem,lsn:m.lsn+kms.length});};
  return w;
}
/* one machine. o: {name,LB,build(m),R(state)->{read(k),lsn}|throws Bad, ok(state)->null|why, ops(t,m), fit?(name,args,pre,post)->bool precondition of the layer above} */
function drive(w,o){
  const {h}=w;const M=w.M(o.name);
  const app=(name,s,a)=>{if(o.see)o.see(s,...a);try{return M.apply(name,s,...a);}catch(e){if(e instanceof V.DafnyFail)return null;throw e;}};
  const core=o.core||(s=>s),unl=o.unl||(l=>l);
  const reads=z=>{const s=core(z);try{const r=o.read(s);return {v:w.KEYS.map(k=>{const b=w.bget(s._memtable._buffer,k);const x=r(k._0);return b?w.m2(x,b):x;}),lsn:s._memtable._seq_end};}catch(e){if(e instanceof Bad)return null;throw e;}};
  const rdv=v=>{try{const r=o.readv(v);return w.KEYS.map(k=>r(k._0));}catch(e){if(e instanceof Bad)return null;throw e;}};
  const same=(a,b)=>a.every((x,i)=>eq(x,b[i]));
  const rel=(l0,a,b,pre)=>{const l=unl(l0),f=n=>l['_'+n];
    switch(l.$cn){
      case 'Query':return f('end_lsn')===a.lsn&&eq(a.v[f('key')._0],w.Msg.Define(f('value')))&&same(a.v,b.v)&&a.lsn===b.lsn;
      case 'Put':{const p=f('puts');if(!h.wf(p)||p._seq_start!==a.lsn)return false;const v=a.v.slice();for(const x of h.arr(p))v[x._key._0]=w.m2(v[x._key._0],x._message);return same(v,b.v)&&b.lsn===p._seq_end;}
      case 'FreezeAs':{const z=f('stamped_betree'),q=rdv(z._value);return [...core(pre)._memtable._buffer._map].length===0&&z._seq_end===a.lsn&&q!==null&&same(q,a.v)&&same(a.v,b.v)&&a.lsn===b.lsn;}
      case 'Internal':return same(a.v,b.v)&&a.lsn===b.lsn;}
    return null;};
  return (t,c)=>{
    w.ready();const pool=new Pool();let m=o.init(t),s=o.build(m),k=0;const len=t.size(2,o.len||18);const past=[];
    for(const x of w.KEYS)pool.add('Key',x);for(let i=0;i<6;i++){pool.add('LSN',i);}
    for(const x of w.ELS)pool.add('PivotTable_pivots[]',x);
    const judge=(name,pre,a,post)=>{
      const d=()=>`${o.name}.${name} from ${show(pre)} with ${show(a)}`;const R0=reads(pre),R1=reads(post);
      check(R1!==null,()=>`${d()} leaves an unreadable tree ${show(post)}`);
      const r=rel(a[0],R0,R1,pre);check(r!==false,()=>`${d()} is accepted and leads to ${show(post)}`);
      const y=o.ok(post)||(o.frame?o.frame(name,pre,a,post):null);check(y===null,()=>`${d()} leads to ${show(post)}: ${y}`);};
    const inv=(x,why)=>{if(o.see)o.see(x);let r;try{r=x.m_inv?x.m_inv():x.m_wf();}catch(e){if(e instanceof V.DafnyFail)r=e.message;else throw e;}check(r===true,()=>`the invariant of ${o.name} is ${r} ${why}: ${show(x)}`);};
    inv(s,'initially');
    for(let i=0;i<len;i++){
      const op=o.op(t,m);if(!op)continue;k++;c.label(op.name);c.log(()=>op.name+' '+show(op.args));
      const want=op.m2===m?s:o.build(op.m2);pool.walk(want,'S');op.args.forEach((x,j)=>pool.walk(x,j?'S':'L'));
      const got=app(op.name,s,op.args);
      check(got!==null,()=>`${o.name}.${op.name} from ${show(s)} with ${show(op.args)} is rejected`);
      check(eq(got,want),()=>`${o.name}.${op.name} from ${show(s)} with ${show(op.args)} leads to ${show(got)}, not ${show(want)}`);
      judge(op.name,s,op.args,got);
      if(o.legal)o.legal(t,op,s,got);
      for(let j=0;j<(o.odd||4);j++){
        let a=op.args.slice(),nm2=op.name;const z=t.below(a.length);
        if(t.below(3)===0&&op.alt){const b=op.alt(t);if(!b)continue;a=b;if(b.nm)nm2=b.nm;}
        else{a[z]=perturb(t,a[z],z?'S':'L',pool);if(t.below(3)===0){const y=t.below(a.length);a[y]=perturb(t,a[y],y?'S':'L',pool);}}
        let nm=nm2;const y=t.below(8);if(y===1&&past.length){const b=t.pick(past);nm=b[0];a=b[1];}else if(y===2&&past.length){nm=op.name;a=[t.pick(past)[1][0],...op.args.slice(1)];}
        if(!inRange(a,w))continue;let p;try{p=app(nm,s,a);}catch(e){if(e instanceof V.Unsup||e instanceof TypeError||e instanceof RangeError)continue;throw e;}
        if(p===null){c.label('near miss rejected');continue;}if(o.fit&&!o.fit(nm,a,s,p))continue;judge(nm,s,a,p);c.label('near miss accepted');
      }
      if(o.interp&&t.below(2)){if(o.see)o.see(want,...op.args);o.interp(t,want,op.m2,op);}
      inv(want,'after '+op.name);
      past.push([op.name,op.args]);m=op.m2;s=want;
      if(t.below(9)===0){ // freeze, reload
        const z=Object.assign({},m,{mem:new Map()});const r=o.restart(z);if(r){m=z;s=o.build(z);if(o.see)o.see(...r);const g=init(M,'initialize',...r);check(g!==null,()=>`${o.name}.initialize rejects ${show(r)}`);check(eq(g,s),()=>`${o.name}.initialize of ${show(r)} gives ${show(g)}`);
          const x=r.map(y=>perturb(t,y,'S',pool));if(inRange(x,w)){if(o.see)o.see(...x);const q=soft(()=>init(M,'initialize',...x));if(q){const y=o.ok(q);check(y!==null&&/root/.test(y)||reads(q)!==null&&y===null,()=>`${o.name}.initialize accepts ${show(x)}: ${y}`);}}}}
    }
    c.nontrivial(k>=4&&m.root!==null);c.sample(k+' steps to '+show(s).slice(0,200));
  };
}
// ---------------------------------------------------------------- steps shared by every layer
function common(w,t,m,o){
  const {h}=w;const k=t.below(10);
  if(k<3&&m.lsn<18){const kms=t.list(0,4,()=>h.km(t));return {name:'put',args:[o.LB.Put(h.mk(m.lsn,kms))],m2:w.put(m,kms)};}
  if(k<5){const key=t.below(NK);const lines=o.lines(m,key);const r=w.m2(lines[0].r,m.mem.get(key)||w.nop);return {name:'query',args:[o.LB.Query(m.lsn,w.key(key),r._value),o.receipt(m,key,lines)],m2:m,
    alt:tt=>{const k2=tt.below(NK),l2=o.lines(m,k2);if(o.cross&&tt.bool()){const l=o.cross(tt,lines,l2,key);if(!l)return null;return [o.LB.Query(m.lsn,w.key(key),w.m2(l[0].r,m.mem.get(key)||w.nop)._value),o.receipt(m,key,l)];}if(tt.bool())return [o.LB.Query(m.lsn,w.key(key),w.m2(l2[0].r,m.mem.get(key)||w.nop)._value),o.receipt(m,k2,l2)];const l3=lines.slice();const j=tt.below(l3.length);const v=w.def(tt.below(5));for(let i=0;i<=j;i++)l3[i]=Object.assign({},l3[i],{r:v});return [o.LB.Query(m.lsn,w.key(key),w.m2(l3[0].r,m.mem.get(key)||w.nop)._value),o.receipt(m,key,l3)];}};}
  if(k===5&&m.mem.size===0)return {name:'freeze_as',args:[o.LB.FreezeAs(h.St(o.tree(m),m.lsn))],m2:m};
  if(k===6)return {name:'internal_noop',args:[o.LB.Internal],m2:m};
  return null;
}
// ---------------------------------------------------------------- model trees with pivots
// node: {piv, kid, ofs, buf:[Map]} or null; only what is needed by each layer is used
function pivots(w){
  const T={};const last=a=>a[a.length-1];
  T.isLeaf=n=>n!==null&&n.kid.length===1&&n.kid[0]===null&&n.ofs[0]===0;
  T.isIndex=n=>n!==null&&n.kid.every(x=>x!==null);
  // a receipt that leaves the path of its key half way, with results that add up
  T.cross=(t,a,b,key)=>{const j=1+t.below(Math.min(a.length,b.length));const l=[...a.slice(0,j),...b.slice(j)].map(x=>({n:x.n,r:w.def(0)}));if(l[l.length-1].n!==null)return null;for(let i=l.length-2;i>=0;i--){if(l[i].n===null)return null;const n=l[i].n,q=w.route(n.piv,key);if(q<0||q>=n.kid.length||key>=n.piv[n.piv.length-1])return null;l[i].r=w.fold(l[i+1].r,T.active(n,key));}return l;};
  T.lines=(root,key,act)=>{const l=[];let n=root;for(;;){if(n===null){l.push({n:null,r:w.def(0)});break;}l.push({n});n=n.kid[w.route(n.piv,key)];}for(let i=l.length-2;i>=0;i--)l[i].r=w.fold(l[i+1].r,act(l[i].n,key));return l;};
  T.active=(n,key)=>{const o=n.ofs[w.route(n.piv,key)];return n.buf.slice(o).map(b=>(b.m||b).get(key));};
  T.depth=n=>n===null?0:1+Math.max(...n.kid.map(T.depth));
  T.size=n=>n===null?0:1+n.kid.reduce((a,x)=>a+T.size(x),0);
  // random place to work: key and depth; all nodes passed must be index nodes
  T.path=(t,root)=>{if(root===null)return null;const key=t.below(NK);const at=[root];let n=root;while(T.isIndex(n)){const c=n.kid[w.route(n.piv,key)];if(c===null)break;at.push(c);n=c;}const depth=t.below(at.length);return {key,depth,target:at[depth],at:at.slice(0,depth+1)};};
  T.put=(root,key,depth,f)=>{if(depth===0)return f(root);const j=w.route(root.piv,key);return Object.assign({},root,{kid:root.kid.map((x,i)=>i===j?T.put(x,key,depth-1,f):x)});};
  T.splits=(n)=>{const r=[];n.kid.forEach((x,i)=>{if(x===null)return;if(T.isLeaf(x))for(let k=0;k<NK;k++)if(k>x.piv[0]&&k<x.piv[1])r.push({leaf:true,i,at:k});if(T.isIndex(x))for(let j=1;j<x.kid.length;j++)r.push({i,j,at:x.piv[j]});});return r;};
  T.oddSplits=(t,n)=>{const r=[];n.kid.forEach((x,i)=>{if(x===null)return;r.push({leaf:true,i,at:t.below(NK)});if(x.kid.length>1){const j=t.below(x.piv.length);if(x.piv[j]!==MAX)r.push({i,j,at:x.piv[j]});}});return r;};
  T.req=s=>s.leaf?w.SR.SplitLeaf(s.i,w.key(s.at)):w.SR.SplitIndex(s.i,s.j);
  T.halves=(x,s,filter)=>{const fl=(b,lo,hi)=>filter?new Map([...b].filter(([k])=>k>=lo&&k<hi)):b;const a=x.piv[0],z=last(x.piv);
    const mk=(o,lo,hi)=>Object.assign({},x,o,{buf:filter?x.buf.map(b=>fl(b,lo,hi)):x.buf});
    return s.leaf?[mk({piv:[a,s.at]},a,s.at),mk({piv:[s.at,z]},s.at,z)]:[mk({piv:x.piv.slice(0,s.j+1),kid:x.kid.slice(0,s.j),ofs:x.ofs.slice(0,s.j)},a,s.at),mk({piv:x.piv.slice(s.j),kid:x.kid.slice(s.j),ofs:x.ofs.slice(s.j)},s.at,z)];};
  T.split=(n,s,filter)=>{const [l,r]=T.halves(n.kid[s.i],s,filter);return Object.assign({},n,{piv:[...n.piv.slice(0,s.i+1),s.at,...n.piv.slice(s.i+1)],kid:[...n.kid.slice(0,s.i),l,r,...n.kid.slice(s.i+1)],ofs:[...n.ofs.slice(0,s.i),n.ofs[s.i],...n.ofs.slice(s.i)]});};
  T.empty=(lo,hi,buf)=>({piv:[lo,hi],kid:[null],ofs:[0],buf:buf||[]});
  T.grow=(root,buf)=>({piv:[0,MAX],kid:[root],ofs:[0],buf:buf||[]});
  // independent well-formedness of code nodes
  T.okNode=(n,kidOf,total)=>{const p=n._pivots._pivots.map(w.un);if(p.length<2)return 'too few pivots';for(let i=0;i+1<p.length;i++){if(p[i]===MAX)return 'Max inside the pivots';if(!(p[i]<p[i+1]))return 'pivots not increasing';}
    if(n._children.length!==p.length-1)return 'children do not match the pivots';if(total&&(p[0]!==0||last(p)!==MAX))return 'the root does not cover every key';
    for(let i=0;i<n._children.length;i++){const ch=kidOf(n,i);if(ch===null)continue;const q=ch._pivots._pivots.map(w.un);if(q[0]!==p[i]||last(q)!==p[i+1])return 'a child covers a different range';}
    return null;};
  return T;
}
// ---------------------------------------------------------------- paged: children by key
function paged({REPO}){
  const w=world(REPO);const Q='betree::PagedBetree_v::';const N=ty(w.P,Q+'BetreeNode'),CM=ty(w.P,Q+'ChildMap'),Line=ty(w.P,Q+'QueryReceiptLine'),Rc=ty(w.P,Q+'QueryReceipt'),Path=ty(w.P,Q+'Path'),LB=w.lab('PagedBetree','betree::PagedBetree_v');const St=w.St('PagedBetree');
  const ei=fn(w.P,Q+'empty_image');
  const memo=new WeakMap();const node=n=>{if(n===null)return N.Nil;let r=memo.get(n);if(!r){const ks=n.kid.map(node);r=N.Node(w.buf(n.buf),CM(DMap.of(ks.map((x,i)=>[w.key(i),x]))));memo.set(n,r);}return r;};
  const build=m=>St(w.mem(m),node(m.root));
  const lines=(m,key)=>{const l=[];let n=m.root;for(;;){l.push({n,r:w.def(0)});if(n===null)break;n=n.kid[key];}for(let i=l.length-2;i>=0;i--)l[i].r=w.fold(l[i+1].r,[l[i].n.buf.get(key)]);return l;};
  const readv=v=>k=>{const up=[];let n=v;while(n.$cn==='Node'){up.push(w.bget(n._buffer,k));if(!n._children._map.has(w.key(k)))bad('no child');n=n._children._map.get(w.key(k));}return w.fold(w.def(0),up.reverse());};
  const total=(n,d)=>n.$cn==='Nil'||d>3||w.KEYS.every(k=>n._children._map.has(k)&&total(n._children._map.get(k),d+1));
  const depth=n=>n===null?0:1+Math.max(...n.kid.map(depth));const filt=(n,f)=>n===null?null:{buf:new Map([...n.buf].filter(([k])=>f.has(k))),kid:n.kid.map((x,i)=>f.has(i)?x:null)};
  const sub=(root,path,f)=>{if(!path.rt.length)return f(root);const c=sub(root.kid[path.key],{key:path.key,rt:path.rt.slice(1)},f);return {buf:root.buf,kid:root.kid.map((x,i)=>path.rt[0].has(i)?c:x)};};
  const sep=(n,z)=>n===z||n!==null&&z!==null&&eq(node(n),node(z));
  const ks=(t,d)=>{const r=new Set();for(let i=0;i<NK;i++)if(t.below(d||2))r.add(i);return r;};const dset=s=>DSet.from([...s].map(w.key));
  const o={name:'PagedBetree',LB,build,read:s=>readv(s._root),readv,ok:s=>total(s._root,0)?null:'a node lacks the child of some key',odd:4,len:14,
    init:t=>({mem:new Map(),lsn:t.below(3),root:null}),lines,tree:m=>node(m.root),
    receipt:(m,key,l)=>Rc(w.key(key),node(m.root),l.map(x=>Line(node(x.n),x.r))),
    op(t,m){
      if(m.root===null&&t.below(3)){const b=new Map(m.mem);return {name:'internal_flush_memtable',args:[LB.Internal],m2:Object.assign({},m,{mem:new Map(),root:{buf:b,kid:Array(NK).fill(null)}})};}
      const x=common(w,t,m,o);if(x)return x;const k=t.below(6);
      if(k===0){const r=m.root||{buf:new Map(),kid:Array(NK).fill(null)};const b=new Map(r.buf);for(const [q,v] of m.mem)b.set(q,b.has(q)?w.m2(b.get(q),v):v);return {name:'internal_flush_memtable',args:[LB.Internal],m2:Object.assign({},m,{mem:new Map(),root:{buf:b,kid:r.kid}})};}
      if(k===1){if(depth(m.root)>=3)return null;return {name:'internal_grow',args:[LB.Internal],m2:Object.assign({},m,{root:{buf:new Map(),kid:Array(NK).fill(m.root)}})};}
      if(m.root===null)return null;
      const key=t.below(NK),path={key,rt:[]};let n=m.root;while(n.kid[key]!==null&&t.below(2)){const same=new Set();for(let i=0;i<NK;i++)if(sep(n.kid[i],n.kid[key])&&t.below(4))same.add(i);path.rt.push(same);n=n.kid[key];}
      const mk=(p,r)=>Path(r||node(m.root),w.key(p.key),p.rt.map(dset));
      const alt=(rest)=>tt=>{const p={key:tt.below(NK),rt:path.rt.map(x=>{const y=new Set(x);const i=tt.below(NK);if(y.has(i))y.delete(i);else y.add(i);return y;})};if(tt.bool()&&m.root.kid[0])return [LB.Internal,mk(p,node(m.root.kid[0])),...rest];return [LB.Internal,mk(p),...rest];};
      if(k<4){const l=ks(t),r=t.bool()?new Set([...Array(NK).keys()].filter(i=>!l.has(i))):ks(t);return {name:'internal_split',args:[LB.Internal,mk(path),dset(l),dset(r)],alt:alt([dset(l),dset(r)]),m2:Object.assign({},m,{root:sub(m.root,path,z=>({buf:z.buf,kid:z.kid.map((x,i)=>l.has(i)?filt(x,l):r.has(i)?filt(x,r):x)}))})};}
      const d=ks(t);return {name:'internal_flush',args:[LB.Internal,mk(path),dset(d)],alt:alt([dset(d)]),m2:Object.assign({},m,{root:sub(m.root,path,z=>{const mv=[...z.buf].filter(([q])=>d.has(q));return {buf:new Map([...z.buf].filter(([q])=>!d.has(q))),kid:z.kid.map((x,i)=>{if(!d.has(i))return x;const y=x||{buf:new Map(),kid:Array(NK).fill(null)};const b=new Map(y.buf);for(const [q,v] of mv)b.set(q,b.has(q)?w.m2(b.get(q),v):v);return {buf:b,kid:y.kid};})};})})};},
    interp(t,s,m,op){
      const i=s.m_i()._stamped_map;const R=readv(s._root);check(i._seq_end===m.lsn&&w.KEYS.every(k=>eq(i._value._0.get(k),w.fold(R(k._0),[m.mem.get(k._0)]))),()=>`the view of ${show(s)} as a map`);
      const key=t.below(NK);const r=s._root.m_build_query_receipt(w.key(key));check(eq(r,o.receipt(m,key,lines(m,key))),()=>`the receipt built for key ${key} in ${show(s)} is ${show(r)}`);
      const l=soft(()=>op.args[0].m_i());if(l&&op.name==='freeze_as')check(l._stamped_map._seq_end===m.lsn&&w.KEYS.every(k=>eq(l._stamped_map._value._0.get(k),R(k._0))),()=>`the view of ${show(op.args[0])}`);
      if(t.below(6)===0)check(eq(ei(),w.h.St(N.Nil,0)),'the empty image');},
    restart:m=>[w.h.St(node(m.root),m.lsn)]};
  return drive(w,o);
}
// ---------------------------------------------------------------- pivot: one buffer per node
function pivot({REPO}){
  const w=world(REPO),T=pivots(w);const Q='betree::PivotBetree_v::';const N=ty(w.P,Q+'BetreeNode'),Line=ty(w.P,Q+'QueryReceiptLine'),Rc=ty(w.P,Q+'QueryReceipt'),Path=ty(w.P,Q+'Path'),LB=w.lab('PivotBetree','betree::PivotBetree_v');const St=w.St('PivotBetree');
  const ei=fn(w.P,Q+'empty_image');
  const memo=new WeakMap();const node=n=>{if(n===null)return N.Nil;let r=memo.get(n);if(!r){r=N.Node(w.buf(n.buf[0]),w.pts(n.piv),n.kid.map(node));memo.set(n,r);}return r;};
  const build=m=>St(w.mem(m),node(m.root));const lines=(m,key)=>T.lines(m.root,key,T.active);
  const readv=v=>k=>{const up=[];let n=v;while(n.$cn==='Node'){const p=n._pivots._pivots.map(w.un),r=w.route(p,k);if(r<0||r>=p.length-1||r>=n._children.length)bad('key out of range');up.push(w.bget(n._buffer,k));n=n._children[r];}return w.fold(w.def(0),up.reverse());};
  const okv=(n,total)=>{if(n.$cn==='Nil')return null;return T.okNode(n,(x,i)=>x._children[i].$cn==='Nil'?null:x._children[i],total)||n._children.map(x=>okv(x,false)).find(x=>x)||null;};
  const merge=(a,b)=>{const r=new Map(a);for(const [k,v] of b)r.set(k,r.has(k)?w.m2(r.get(k),v):v);return r;};
  const PG=pagedView(w);
  const o={name:'PivotBetree',LB,build,read:s=>readv(s._root),readv,ok:s=>okv(s._root,true),len:22,
    init:t=>({mem:new Map(),lsn:t.below(3),root:null}),lines,cross:T.cross,tree:m=>node(m.root),
    receipt:(m,key,l)=>Rc(w.key(key),node(m.root),l.map(x=>Line(node(x.n),x.r))),
    op(t,m){
      const x=common(w,t,m,o);if(x)return x;const k=t.below(10);
      if(k<2){const r=m.root||T.empty(0,MAX,[new Map()]);return {name:'internal_flush_memtable',args:[LB.Internal],m2:Object.assign({},m,{mem:new Map(),root:Object.assign({},r,{buf:[merge(r.buf[0],m.mem)]})})};}
      if(k===2||m.root===null){if(T.depth(m.root)>=4)return null;return {name:'internal_grow',args:[LB.Internal],m2:Object.assign({},m,{root:T.grow(m.root,[new Map()])})};}
      const p=T.path(t,m.root);const pth=(z,r)=>Path(r||node(m.root),w.key(z.key),z.depth);
      if(k<6){const ss=T.splits(p.target);if(!ss.length||T.size(m.root)>12)return null;const s=t.pick(ss);return {name:'internal_split',args:[LB.Internal,pth(p),T.req(s)],alt:alt([T.req(s)]),m2:Object.assign({},m,{root:T.put(m.root,p.key,p.depth,n=>T.split(n,s,true))})};}
      const i=t.below(p.target.kid.length);return {name:'internal_flush',args:[LB.Internal,pth(p),i],alt:alt([i]),m2:Object.assign({},m,{root:T.put(m.root,p.key,p.depth,n=>{const lo=n.piv[i],hi=n.piv[i+1],mv=[...n.buf[0]].filter(([q])=>q>=lo&&q<hi);const ch=n.kid[i]||T.empty(lo,hi,[new Map()]);return Object.assign({},n,{buf:[new Map([...n.buf[0]].filter(([q])=>!(q>=lo&&q<hi)))],kid:n.kid.map((y,j)=>j===i?Object.assign({},ch,{buf:[merge(ch.buf[0],mv)]}):y)});})})};
      function alt(rest){return tt=>{const z={key:tt.below(NK),depth:tt.below(p.depth+2)};let r=null;if(tt.bool()){const c=m.root.kid.filter(y=>y);if(c.length)r=node(tt.pick(c));}return [LB.Internal,pth(z,r),...(tt.bool()?rest:[tt.bool()&&typeof rest[0]!=='number'?T.req({leaf:tt.bool(),i:tt.below(3),at:tt.below(NK),j:tt.below(3)}):typeof rest[0]==='number'?tt.below(4):rest[0]])];};}},
    interp(t,s,m,op){
      const i=s.m_i();check(eq(i._memtable,s._memtable)&&eq(i._root,PG.node(m.root,n=>n.buf[0])),()=>`the view of ${show(s)} as a paged tree is ${show(i)}`);
      if(op.name==='freeze_as'){const l=op.args[0].m_i();check(eq(l._stamped_betree,w.h.St(PG.node(m.root,n=>n.buf[0]),m.lsn)),()=>`the view of ${show(op.args[0])}`);}
      if(t.below(6)===0)check(eq(ei(),w.h.St(N.Nil,0)),'the empty image');},
    restart:m=>[w.h.St(node(m.root),m.lsn)]};
  return drive(w,o);
}
function pagedView(w){const Q='betree::PagedBetree_v::';const N=ty(w.P,Q+'BetreeNode'),CM=ty(w.P,Q+'ChildMap');const node=(n,buf)=>n===null?N.Nil:(ks=>N.Node(w.buf(buf(n)),CM(DMap.of(w.KEYS.map(k=>{const r=w.route(n.piv,k._0);return [k,r<0||r>=n.kid.length?N.Nil:ks[r]];})))))(n.kid.map(x=>node(x,buf)));return {node};}
// ---------------------------------------------------------------- filtered: a sequence of buffers and flushed offsets
function pivotView(w,T){const N=ty(w.P,'betree::PivotBetree_v::BetreeNode');const node=n=>{if(n===null)return N.Nil;const b=new Map();for(let k=n.piv[0];k<NK&&k<n.piv[n.piv.length-1];k++){const a=T.active(n,k).filter(x=>x);if(a.length)b.set(k,a.reduce((x,y)=>w.m2(x,y)));}return N.Node(w.buf(b),w.pts(n.piv),n.kid.map(node));};return {node};}
function compacted(w,T,n,a,z){const b=new Map();for(let k=n.piv[0];k<NK&&k<n.piv[n.piv.length-1];k++){const o=Math.max(a,n.ofs[w.route(n.piv,k)]);if(o>=z)continue;const x=n.buf.slice(o,z).map(y=>(y.m||y).get(k)).filter(y=>y);if(x.length)b.set(k,x.reduce((p,q)=>w.m2(p,q)));}return b;}
const adj=(o,a,z)=>o<=a?o:o<z?a:o-(z-a)+1;
const gcs=(n,i)=>Math.min(n.buf.length,...n.ofs.filter((_,j)=>j!==i));
function filtered({REPO}){
  const w=world(REPO),T=pivots(w);const Q='betree::FilteredBetree_v::';const N=ty(w.P,Q+'BetreeNode'),Line=ty(w.P,Q+'QueryReceiptLine'),Rc=ty(w.P,Q+'QueryReceipt'),Path=ty(w.P,Q+'Path'),LB=w.lab('FilteredBetree','betree::FilteredBetree_v');const St=w.St('FilteredBetree');
  const ei=fn(w.P,Q+'empty_image');const F=filteredView(w),node=F.node;
  const build=m=>St(w.mem(m),node(m.root));const lines=(m,key)=>T.lines(m.root,key,T.active);
  const readv=v=>k=>{const up=[];let n=v;while(n.$cn==='Node'){const p=n._pivots._pivots.map(w.un),r=w.route(p,k);if(r<0||r>=p.length-1||r>=n._children.length)bad('key out of range');const o=n._flushed._offsets[r];if(!(o<=n._buffers._buffers.length))bad('offset beyond the buffers');up.push(n._buffers._buffers.slice(o).map(b=>w.bget(b,k)));n=n._children[r];}return up.reverse().reduce((a,b)=>w.fold(a,b),w.def(0));};
  const okv=(n,total)=>{if(n.$cn==='Nil')return null;return T.okNode(n,(x,i)=>x._children[i].$cn==='Nil'?null:x._children[i],total)||(n._flushed._offsets.length!==n._children.length||n._flushed._offsets.some(x=>x>n._buffers._buffers.length)?'flushed offsets do not match':null)||n._children.map(x=>okv(x,false)).find(x=>x)||null;};
  const PV=pivotView(w,T);
  const o={name:'FilteredBetree',LB,build,read:s=>readv(s._root),readv,ok:s=>okv(s._root,true),len:24,
    init:t=>({mem:new Map(),lsn:t.below(3),root:null}),lines,cross:T.cross,tree:m=>node(m.root),
    receipt:(m,key,l)=>Rc(w.key(key),node(m.root),l.map(x=>Line(node(x.n),x.r))),
    op(t,m){
      const x=common(w,t,m,o);if(x)return x;const k=t.below(12);
      if(k<3){const r=m.root||T.empty(0,MAX);if(r.buf.length>6)return null;return {name:'internal_flush_memtable',args:[LB.Internal],m2:Object.assign({},m,{mem:new Map(),root:Object.assign({},r,{buf:[...r.buf,m.mem]})})};}
      if(k===3||m.root===null){if(T.depth(m.root)>=4)return null;return {name:'internal_grow',args:[LB.Internal],m2:Object.assign({},m,{root:T.grow(m.root)})};}
      const p=T.path(t,m.root),n=p.target;const pth=(z,r)=>Path(r||node(m.root),w.key(z.key),z.depth);const go=f=>Object.assign({},m,{root:T.put(m.root,p.key,p.depth,f)});
      const alt=rest=>tt=>{const z=tt.below(3)?p:{key:tt.below(NK),depth:tt.below(p.depth+2)};let r=null;if(tt.below(3)===0){const c=m.root.kid.filter(y=>y);if(c.length)r=node(tt.pick(c));}return [LB.Internal,pth(z,r),...rest(tt)];};
      if(k<6){const ss=T.splits(n);if(!ss.length||T.size(m.root)>12)return null;const s=t.pick(ss);return {name:'internal_split',args:[LB.Internal,pth(p),T.req(s)],alt:alt(tt=>[T.req({leaf:tt.bool(),i:tt.below(3),at:tt.below(NK),j:tt.below(3)})]),m2:go(z=>T.split(z,s,false))};}
      if(k<9){const i=t.below(n.kid.length),g=t.below(gcs(n,i)+1);return {name:'internal_flush',args:[LB.Internal,pth(p),i,g],alt:alt(tt=>[tt.below(3),tt.below(n.buf.length+2)]),m2:go(z=>{const ch=z.kid[i]||T.empty(z.piv[i],z.piv[i+1]);return Object.assign({},z,{buf:z.buf.slice(g),kid:z.kid.map((y,j)=>j===i?Object.assign({},ch,{buf:[...ch.buf,...z.buf.slice(z.ofs[i])]}):y),ofs:z.ofs.map((y,j)=>(j===i?z.buf.length:y)-g)});})};}
      if(!n.buf.length)return null;const a=t.below(n.buf.length),z=a+1+t.below(n.buf.length-a),b=compacted(w,T,n,a,z);
      return {name:'internal_compact',args:[LB.Internal,pth(p),a,z,w.buf(b)],m2:go(y=>Object.assign({},y,{buf:[...y.buf.slice(0,a),b,...y.buf.slice(z)],ofs:y.ofs.map(q=>adj(q,a,z))})),
        alt:alt(tt=>{const a2=tt.below(n.buf.length),z2=a2+1+tt.below(n.buf.length-a2+1);const c=new Map(tt.bool()?compacted(w,T,n,a2,z2):b);if(tt.below(3)===0){const q=tt.below(NK);if(c.has(q)&&tt.bool())c.delete(q);else c.set(q,w.msg(tt));}else if(tt.bool()){for(const y of n.buf.slice(a2,z2))for(const [q,v] of y)if(!c.has(q))c.set(q,v);}return [a2,z2,w.buf(c)];})};},
    interp(t,s,m,op){
      const i=s.m_i();check(eq(i._memtable,s._memtable)&&eq(i._root,PV.node(m.root)),()=>`the view of ${show(s)} as a pivot tree is ${show(i)}`);
      if(op.name==='freeze_as'){const l=op.args[0].m_i();check(eq(l._stamped_betree,w.h.St(PV.node(m.root),m.lsn)),()=>`the view of ${show(op.args[0])}`);}
      if(t.below(6)===0)check(eq(ei(),w.h.St(N.Nil,0)),'the empty image');},
    restart:m=>[w.h.St(node(m.root),m.lsn)]};
  return drive(w,o);
}
function filteredView(w){const N=ty(w.P,'betree::FilteredBetree_v::BetreeNode');const memo=new WeakMap();const node=n=>{if(n===null)return N.Nil;let r=memo.get(n);if(!r){r=N.Node(w.BS(n.buf.map(b=>w.buf(b.m||b))),w.pts(n.piv),n.kid.map(node),w.BO(n.ofs.slice()));memo.set(n,r);}return r;};return {node};}

// ---------------------------------------------------------------- linked: nodes and buffers at disk addresses
function linkedModel(w,T){
  const Q='betree::LinkedBetree_v::',P=w.P;const K={w,T};const {PAGES,AUS}=w.lim;
  const BN=ty(P,Q+'BetreeNode'),DV=ty(P,Q+'DiskView'),LBt=ty(P,Q+'LinkedBetree'),Line=ty(P,Q+'QueryReceiptLine'),Rc=ty(P,Q+'QueryReceipt'),Path=ty(P,Q+'Path'),Two=ty(P,Q+'TwoAddrs'),Three=ty(P,Q+'SplitAddrs');
  const St=w.St('LinkedBetreeVars'),LB=w.lab('LinkedBetreeVars',Q.slice(0,-2));const A=i=>w.ADDRS[i],N=PAGES*AUS;const idx=new Map(w.ADDRS.map((a,i)=>[w.ak(a),i]));const un=a=>idx.has(w.ak(a))?idx.get(w.ak(a)):w.ak(a);
  w.memo(BN(w.LS([]),w.pts([0,MAX]),[None],w.BO([0])),'wf');w.memo(w.pts([0,MAX]),'wf');w.memo(DV(DMap.of([])),'wf','entries_wf','healthy_child_ptrs','valid_ranking');w.memo(LBt(None,DV(DMap.of([])),w.BD(DMap.of([]))),'wf','acyclic','valid_ranking','the_ranking','has_root','reachable_betree_addrs','reachable_betree_addrs_using_ranking','reachable_buffer_addrs');
  const ptr=n=>n===null?None:Some(A(n.at));
  const memo=new WeakMap(),bm=new WeakMap();
  const node=n=>{let r=memo.get(n);if(!r){r=BN(w.LS(n.buf.map(b=>A(b.at))),w.pts(n.piv),n.kid.map(ptr),w.BO(n.ofs.slice()));memo.set(n,r);}return r;};
  const buf=m=>{let r=bm.get(m);if(!r){r=w.buf(m);bm.set(m,r);}return r;};
  const dv=m=>DV(DMap.of([...m.dv].map(([a,n])=>[A(a),node(n)]))),bd=m=>w.BD(DMap.of([...m.bd].map(([a,b])=>[A(a),buf(b)])));
  const lm=new WeakMap();const linked=m=>{let r=lm.get(m.dv);if(r&&r[0]===m.bd&&r[1]===m.root)return r[2];r=[m.bd,m.root,LBt(ptr(m.root),dv(m),bd(m))];lm.set(m.dv,r);return r[2];};
  const at=(l,n)=>LBt(ptr(n),l._dv,l._buffer_dv);
  const build=m=>St(w.mem(m),linked(m));
  const walk=(n,f)=>{if(n===null)return;f(n);n.kid.forEach(x=>walk(x,f));};
  const reach=root=>{const ns=new Map(),bs=new Map();walk(root,n=>{ns.set(n.at,n);for(const b of n.buf)bs.set(b.at,b.m);});return {ns,bs};};
  // readers of code values: walk the disk from the root pointer
  const get=(l,a)=>l._dv._entries.has(a)?l._dv._entries.get(a):bad('dangling node pointer');
  const readv=l=>k=>{const up=[];let p=l._root,d=0;while(!isN(p)){if(++d>60)bad('cycle');const n=get(l,p._0),v=n._pivots._pivots.map(w.un),r=w.route(v,k);if(r<0||r>=v.length-1||r>=n._children.length)bad('key out of range');const o=n._flushed._offsets[r];if(!(o<=n._buffers._addrs.length))bad('offset');up.push(n._buffers._addrs.slice(o).map(a=>l._buffer_dv._entries.has(a)?w.bget(l._buffer_dv._entries.get(a),k):bad('dangling buffer')));p=n._children[r];}return up.reverse().reduce((a,b)=>w.fold(a,b),w.def(0));};
  const walkv=(l,f)=>{const go=(p,d)=>{if(isN(p))return;if(d>60)bad('cycle');const n=get(l,p._0);f(p._0,n);n._children.forEach(c=>go(c,d+1));};go(l._root,0);};
  const okv=l=>{for(const a of l._dv._entries){const n=l._dv._entries.get(a);for(const c of n._children)if(!isN(c)&&!l._dv._entries.has(c._0))return 'a node on disk has a dangling child';
      const y=T.okNode(n,(x,i)=>isN(x._children[i])?null:l._dv._entries.get(x._children[i]._0),false);if(y)return y;if(n._flushed._offsets.length!==n._children.length||n._flushed._offsets.some(x=>x>n._buffers._addrs.length))return 'flushed offsets do not match';}
    if(!isN(l._root)){if(!l._dv._entries.has(l._root._0))return 'the root is dangling';const p=l._dv._entries.get(l._root._0)._pivots._pivots.map(w.un);if(p[0]!==0||p[p.length-1]!==MAX)return 'the root does not cover every key';}
    try{let y=null;walkv(l,(a,n)=>{for(const b of n._buffers._addrs)if(!l._buffer_dv._entries.has(b))y='a reachable buffer is gone';});if(y)return y;}catch(e){if(e instanceof Bad)return e.message;throw e;}
    if(!ranking(l._dv))return 'the disk has a cycle';return null;};
  const rk=new WeakMap();const ranking=d=>{if(rk.has(d))return rk.get(d);const h=new Map();let bad=false;const go=(a,n)=>{const k=w.ak(a);if(h.has(k)){if(h.get(k)===-1)bad=true;return h.get(k);}if(n>60){bad=true;return 0;}h.set(k,-1);let z=0;const x=d._entries.get(a);for(const c of x._children)if(!isN(c)&&d._entries.has(c._0))z=Math.max(z,go(c._0,n+1)+1);h.set(k,z);return z;};
    let r=null;for(const a of d._entries)go(a,0);if(!bad)r=DMap.of([...d._entries].map(a=>[a,h.get(w.ak(a))]));rk.set(d,r);return r;};
  w.ranksOf=self=>{const d=self&&(self._dv||self._entries&&self);if(!d||!d._entries||!(d._entries instanceof DMap))return null;try{const r=ranking(d);return r?[r]:[];}catch(e){return [];}};
  // ------------------------------------------------ steps
  let dirt=false,odd=false;
  const free=(t,m,n)=>{const f=[];for(let i=0;i<N;i++)if(!m.dv.has(i)&&!m.bd.has(i))f.push(i);if(f.length<n)return null;const r=[];const au=t.below(3)?t.below(AUS):-1;for(let i=0;i<n;i++){const g=au>=0?f.filter(x=>Math.floor(x/PAGES)===au):[];const x=t.pick(g.length?g:f);f.splice(f.indexOf(x),1);r.push(x);}if(dirt){const l=[...m.dv.keys(),...m.bd.keys(),...r];if(l.length)r[t.below(r.length)]=t.pick(l);}return r;};
  const put=(root,key,d,pa,f)=>{if(d===0)return f(root);const j=w.route(root.piv,key);return Object.assign({},root,{at:pa[0],kid:root.kid.map((x,i)=>i===j?put(x,key,d-1,pa.slice(1),f):x)});};
  // what to keep of the disk after a step to `root`
  const gc=(t,m,root,mode,extra)=>{const {ns,bs}=reach(root);const rdv=new Map([...m.dv,...ns]),rbd=new Map([...m.bd,...bs,...(extra||[])]);
    const nau=new Set([...ns.keys()].map(x=>Math.floor(x/PAGES))),bau=new Set([...bs.keys()].map(x=>Math.floor(x/PAGES)));const pressure=rdv.size+rbd.size>N-16;
    const keep=new Map();const add=(a,n)=>{if(keep.has(a))return;keep.set(a,n);for(const c of n.kid)if(c)add(c.at,rdv.get(c.at));};const p=pressure?0:t.below(4);
    for(const [a,n] of rdv)if(ns.has(a)||(mode==='au'&&nau.has(Math.floor(a/PAGES)))||t.below(4)<p)add(a,n);
    const kb=new Map();for(const [a,b] of rbd)if(bs.has(a)||(mode==='au'&&bau.has(Math.floor(a/PAGES)))||t.below(4)<p||extra&&extra.has(a))kb.set(a,b);
    return {root,dv:keep,bd:kb,raw:{dv:rdv,bd:rbd}};};
  // one tree operation: {name, m2, path, rest: how to spell the arguments, at: new addresses}
  const step=(t,m,mode)=>{
    const k=t.below(13);const G=(root,o,extra)=>{const g=gc(t,m,root,mode,extra);return Object.assign({},m,{root,dv:g.dv,bd:g.bd,raw:g.raw},o);};
    if(k<3){const a=free(t,m,2);if(!a)return null;const r=m.root||T.empty(0,MAX);if(r.buf.length>6)return null;const root=Object.assign({},r,{at:a[0],buf:[...r.buf,{at:a[1],m:m.mem}]});return {name:'internal_flush_memtable',two:a,sealed:m.mem,m2:G(root,{mem:new Map()})};}
    if(k===3||m.root===null){if(T.depth(m.root)>=4)return null;const a=free(t,m,1);if(!a)return null;const root=Object.assign(T.grow(m.root),{at:a[0]});return {name:'internal_grow',one:a[0],m2:Object.assign({},m,{root,dv:new Map([...m.dv,[a[0],root]]),raw:null})};}
    if(k===4){const ex=new Map();const f=free(t,m,2);if(f&&t.bool())for(const a of f)ex.set(a,w.rbuf(t));const {bs}=reach(m.root);const kb=new Map();for(const [a,b] of [...m.bd,...ex])if(bs.has(a)||mode&&mode!=='linked'||t.below(3)||ex.has(a))kb.set(a,b);const kd=gc(t,m,m.root,mode).dv;return {name:'internal_buffer_noop',m2:Object.assign({},m,{bd:kb,dv:mode==='linked'?kd:m.dv,raw:null})};}
    const p=T.path(t,m.root),n=p.target;
    if(k<7){const ss=odd?T.oddSplits(t,n):T.splits(n);if(!ss.length||T.size(m.root)>11)return null;const s=t.pick(ss);const a=free(t,m,3+p.depth);if(!a)return null;const [l,r,q,...pa]=a;
      return {name:'internal_split',p,req:s,three:[l,r,q],pa,m2:G(put(m.root,p.key,p.depth,pa,z=>{const y=T.split(z,s,false);y.at=q;y.kid[s.i].at=l;y.kid[s.i+1].at=r;return y;}),{})};}
    if(k<10){const is=n.kid.map((_,i)=>i).filter(i=>n.kid[i]);if(!is.length)return null;const i=t.pick(is),g=t.below(gcs(n,i)+1);const a=free(t,m,2+p.depth);if(!a)return null;const [q,c,...pa]=a;
      return {name:'internal_flush',p,i,g,two:[q,c],pa,m2:G(put(m.root,p.key,p.depth,pa,z=>Object.assign({},z,{at:q,buf:z.buf.slice(g),kid:z.kid.map((y,j)=>j===i?Object.assign({},y,{at:c,buf:[...y.buf,...z.buf.slice(z.ofs[i])]}):y),ofs:z.ofs.map((y,j)=>(j===i?z.buf.length:y)-g)})),{})};}
    if(!n.buf.length)return null;const a=t.below(n.buf.length),z=a+1+t.below(n.buf.length-a),b=compacted(w,T,n,a,z);const f=free(t,m,2+p.depth);if(!f)return null;const [q,c,...pa]=f;
    return {name:'internal_compact',p,a,z,b,two:[q,c],pa,m2:G(put(m.root,p.key,p.depth,pa,y=>Object.assign({},y,{at:q,buf:[...y.buf.slice(0,a),{at:c,m:b},...y.buf.slice(z)],ofs:y.ofs.map(v=>adj(v,a,z))})),{})};};
  const path=(l,p)=>Path(l,w.key(p.key),p.depth);
  // arguments of a step, given the value new_linked (or a wrapping state) `post`; S = the spelled step (possibly twisted)
  const args=(pre,s,post,how)=>{const two=()=>Two(A(s.two[0]),A(s.two[1])),pa=()=>s.pa.map(A),h=how==='linked';
    switch(s.name){
      case 'internal_flush_memtable':return h?[buf(s.sealed),post,two()]:[post,two()];
      case 'internal_grow':return h?[A(s.one)]:[post,A(s.one)];
      case 'internal_split':return [post,path(pre,s.p),T.req(s.req),Three(...s.three.map(A)),pa()];
      case 'internal_flush':return [post,path(pre,s.p),s.i,s.g,two(),pa()];
      case 'internal_compact':return [post,path(pre,s.p),s.a,s.z,buf(s.b),two(),pa()];
      default:return [post];}};
  // a twisted variant of a step
  const twist=(t,m,s)=>{const z=Object.assign({},s);const any=()=>{const l=[...m.dv.keys(),...m.bd.keys(),...(s.pa||[]),...(s.two||[]),...(s.three||[])];return t.below(3)&&l.length?t.pick(l):t.below(N);};
    const alter=l=>{l=l.slice();if(l.length)l[t.below(l.length)]=any();return l;};
    switch(t.below(6)){
      case 0:if(z.two)z.two=alter(z.two);if(z.three)z.three=alter(z.three);if(z.one!==undefined)z.one=any();break;
      case 1:if(z.pa&&z.pa.length)z.pa=t.below(3)?alter(z.pa):t.bool()?z.pa.slice(1):[...z.pa,any()];else if(z.two)z.two=[z.two[0],z.two[0]];break;
      case 2:if(z.p)z.p=Object.assign({},z.p,t.bool()?{key:t.below(NK)}:{depth:t.below(z.p.depth+2)});else if(z.sealed)z.sealed=w.rbuf(t);break;
      case 3:if(z.req)z.req={leaf:t.bool(),i:t.below(3),at:t.below(NK),j:t.below(3)};else if('i' in z){if(t.bool())z.i=t.below(4);else z.g=t.below(5);}break;
      case 4:if('a' in z){if(t.bool())z.a=t.below(z.z+1);else z.z=t.below(6);}break;
      default:if(z.b){z.b=new Map(z.b);const q=t.below(NK);if(z.b.has(q)&&t.bool())z.b.delete(q);else z.b.set(q,w.msg(t));}else if(z.sealed)z.sealed=w.rbuf(t);}
    return z;};
  // twisted model of the state after the step
  const twistM=(t,m,s)=>{const n=s.m2,dv=new Map(n.dv),bd=new Map(n.bd);let root=n.root;const ks=[...dv.keys()],bs=[...bd.keys()];
    switch(t.below(7)){
      case 0:if(ks.length)dv.delete(t.pick(ks));break;
      case 1:if(bs.length)bd.delete(t.pick(bs));break;
      case 2:if(bs.length){bd.set(t.pick(bs),w.rbuf(t));}break;
      case 3:{if(ks.length)root=dv.get(t.pick(ks));break;}
      case 4:if(ks.length){const k=t.pick(ks),o=dv.get(k),y=Object.assign({},o);if(o.buf.length&&t.bool())y.buf=o.buf.slice(1),y.ofs=o.ofs.map(v=>Math.min(v,y.buf.length));else y.ofs=o.ofs.map(v=>t.below(o.buf.length+1));dv.set(k,y);}break;
      case 5:{const k=t.below(N);if(!dv.has(k)&&ks.length)dv.set(k,Object.assign({},dv.get(t.pick(ks)),{at:k}));break;}
      default:{root=m.root;break;}}
    return Object.assign({},n,{root,dv,bd,raw:n.raw});};
  // a consistent step that uses an address already in use, or stores a buffer with the wrong content
  const wrong=(t,m,mode,accept)=>{const d=t.bool();dirt=d;odd=!d&&t.bool();const od=odd;let s;try{s=step(t,m,mode);}catch(e){if(e instanceof TypeError&&od)return null;throw e;}finally{dirt=odd=false;}if(!s||od&&s.req)return s;if(d||!(s.b||s.sealed))return d?s:null;
    const b=new Map(s.b||s.sealed),q=t.below(NK);if(b.has(q)&&t.bool())b.delete(q);else b.set(q,w.msg(t));const z=Object.assign({},s,s.b?{b}:{sealed:b}),bd=new Map(s.m2.bd);bd.set(s.two[1],b);z.m2=Object.assign({},s.m2,{bd});return z;};
  const addrsOf=s=>[...(s.two||[]),...(s.three||[]),...(s.pa||[]),...(s.one!==undefined?[s.one]:[])];
  // a receipt line per node on the way down
  const receipt=(m,key,l)=>{const L=linked(m);return Rc(w.key(key),L,l.map(x=>Line(at(L,x.n),x.r)));};
  // entries on disk are never changed in place
  const argAddrs=a=>{const r=new Set();for(const x of a){if(!x)continue;if(x.$ty&&(x.$ty.name==='TwoAddrs'||x.$ty.name==='SplitAddrs'))for(const f of x.$f||Object.keys(x))if(f[0]==='_')r.add(w.ak(x[f]));if(x.$ty&&x.$ty.name==='Address')r.add(w.ak(x));if(Array.isArray(x))for(const y of x)if(y&&y.$ty&&y.$ty.name==='Address')r.add(w.ak(y));}return r;};
  const frame=(pre,a,post,name)=>{const ad=argAddrs(a.slice(1));if(!/noop|initial|query|put|freeze/.test(name))for(const k of [...pre._dv._entries,...pre._buffer_dv._entries])if(ad.has(w.ak(k)))return `the address ${show(k)} is already in use`;for(const [x,y,n] of [[pre._dv._entries,post._dv._entries,'node'],[pre._buffer_dv._entries,post._buffer_dv._entries,'buffer']])for(const k of y){if(ad.has(w.ak(k)))continue;if(!x.has(k)){if(n==='node')return 'a node appeared at an address the step does not name';continue;}if(!eq(x.get(k),y.get(k)))return `the ${n} at ${show(k)} was changed in place`;}return null;};
  Object.assign(K,{wrong,BN,DV,LBt,St,LB,A,un,node,buf,linked,build,reach,readv,walkv,okv,ranking,free,step,path,args,twist,twistM,addrsOf,receipt,frame,argAddrs,Path,Rc,Line,ptr});
  return K;
}
const linkedInit=t=>({mem:new Map(),lsn:t.below(3),root:null,dv:new Map(),bd:new Map()});
const filteredAs=w=>{const P=w.P,Q='betree::FilteredBetree_v::';return {Path:ty(P,Q+'Path'),Rc:ty(P,Q+'QueryReceipt'),Line:ty(P,Q+'QueryReceiptLine')};};
function linked({REPO}){
  const w=world(REPO),T=pivots(w),K=linkedModel(w,T),F=filteredView(w),FA=filteredAs(w);const LB=K.LB;const ei=fn(w.P,'betree::LinkedBetree_v::empty_image');
  const lines=(m,key)=>T.lines(m.root,key,T.active);const SK=w.M('LinkedBetreeVars');const Steps=n=>SK.Step.variants.get(n).K;
  // freshness and retention, decided from the values of the state before and after
  const strong=(name,a,pre,post)=>{if(!/flush|grow|split|compact/.test(name))return true;const ad=K.argAddrs(a.slice(1));for(const x of ad){for(const d of [pre._linked._dv._entries,pre._linked._buffer_dv._entries])for(const k of d)if(w.ak(k)===x)return false;}
    try{let y=true;K.walkv(post._linked,(q,n)=>{for(const b of n._buffers._addrs)if(!post._linked._buffer_dv._entries.has(b))y=false;});return y;}catch(e){if(e instanceof Bad)return true;throw e;}};
  const o={name:'LinkedBetreeVars',LB,build:K.build,read:s=>K.readv(s._linked),readv:K.readv,ok:s=>K.okv(s._linked),len:22,odd:5,init:linkedInit,lines,cross:T.cross,tree:m=>K.linked(m),receipt:K.receipt,
    frame:(n,pre,a,post)=>K.frame(pre._linked,a,post._linked,n),
    fit:(n,a,pre,post)=>{const f=strong(n,a,pre,post);if(/^internal_(flush|grow|split|compact)/.test(n)){const st=new (Steps(n))(...a.slice(1));let q;try{q=pre.m_strong_step(st);}catch(e){if(e instanceof V.DafnyFail||e instanceof V.Unsup||e instanceof TypeError||e instanceof RangeError)return f;throw e;}check(q===f,()=>`strong_step of ${n} ${show(a)} from ${show(pre)} to ${show(post)} is ${q}`);}return f;},
    legal(t,op,s,got){if(!op.s)return;const st=new (Steps(op.name))(...op.args.slice(1));const q=s.m_strong_step(st);check(q===true,()=>`strong_step of ${op.name} ${show(op.args)} from ${show(s)} is ${q}`);},
    op(t,m){
      const x=common(w,t,m,o);if(x)return x;const s=K.step(t,m,'linked');if(!s)return null;const pre=K.linked(m);
      return {name:s.name,args:[LB.Internal,...K.args(pre,s,K.linked(s.m2),'linked')],m2:s.m2,s,alt:tt=>{if(tt.bool()){const z=K.wrong(tt,m,'linked');if(!z)return null;const r=[LB.Internal,...K.args(pre,z,K.linked(z.m2),'linked')];r.nm=z.name;return r;}const z=tt.below(3)?K.twist(tt,m,s):s,n=tt.below(3)?s.m2:K.twistM(tt,m,s);return [LB.Internal,...K.args(tt.below(6)?pre:K.linked(n),z,K.linked(n),'linked')];}};},
    interp(t,s,m,op){
      const i=s.m_i();check(eq(i._memtable,s._memtable)&&eq(i._root,F.node(m.root)),()=>`the view of ${show(s)} as a filtered tree is ${show(i)}`);
      if(op.name==='freeze_as'){const l=op.args[0].m_i();check(eq(l._stamped_betree,w.h.St(F.node(m.root),m.lsn)),()=>`the view of ${show(op.args[0])}`);}
      if(op.name==='query'){const r=op.args[1],q=r.m_i();check(eq(q,FA.Rc(r._key,F.node(m.root),lines(m,r._key._0).map(x=>FA.Line(F.node(x.n),x.r)))),()=>`the view of ${show(r)} is ${show(q)}`);}
      if(op.s&&op.s.p){const p=op.args[2],q=p.m_i();check(eq(q._key,p._key)&&q._depth===p._depth,()=>`the view of ${show(p)} is ${show(q)}`);
        const z=K.path(s._linked,T.path(t,m.root));const on=z.m_addrs_on_path(),want=[];let n=m.root;for(let d=0;d<z._depth;d++){want.push(K.A(n.at));n=n.kid[w.route(n.piv,z._key._0)];}check(eq(on,want)&&eq(z.m_target(),K.LBt(K.ptr(n),s._linked._dv,s._linked._buffer_dv)),()=>`the addresses on ${show(z)} are ${show(on)}`);}
      const {ns,bs}=K.reach(m.root);const ra=s._linked.m_reachable_betree_addrs(),rb=s._linked.m_reachable_buffer_addrs();
      check(eq(ra,DSet.from([...ns.keys()].map(K.A))),()=>`the reachable nodes of ${show(s)} are ${show(ra)}`);check(eq(DSet.from(w.ADDRS.filter(a=>rb.has(a))),DSet.from([...bs.keys()].map(K.A))),()=>`the reachable buffers of ${show(s)}`);
      if(t.below(6)===0)check(eq(ei(),w.h.St(K.LBt(None,K.DV(DMap.of([])),w.BD(DMap.of([]))),0)),'the empty image');},
    restart:m=>[K.build(m)]};
  return drive(w,o);
}
function likes({REPO}){return wrapped(REPO,'LikesBetree','allocation_layer::LikesBetree_v','likes_noop','internal_compact','likes',a=>a);}
function allocation({REPO}){return wrapped(REPO,'AllocationBetree','allocation_layer::AllocationBetree_v','au_likes_noop','internal_compact_complete','au',a=>a._au);}
// machines that count references on top of the linked tree
function wrapped(REPO,name,mod,noop,compact,mode,cnt){
  const w=world(REPO,ALLOC),T=pivots(w),K=linkedModel(w,T);const LB=w.lab(name,mod),St=w.St(name),Ms=V.DMs;const lines=(m,key)=>T.lines(m.root,key,T.active);
  const L=l=>LB.Label?LB.Label(l):new LB(l);
  const count=root=>{const a=[],b=[];const go=n=>{if(n===null)return;a.push(cnt(K.A(n.at)));for(const x of n.buf)b.push(cnt(K.A(x.at)));n.kid.forEach(go);};go(root);return [Ms.from(a),Ms.from(b)];};
  const build=m=>St(K.build(m),...count(m.root));
  const countv=l=>{const a=[],b=[];K.walkv(l,(p,n)=>{a.push(cnt(p));for(const x of n._buffers._addrs)b.push(cnt(x));});return [Ms.from(a),Ms.from(b)];};
  const okc=s=>{const y=K.okv(s._betree._linked);if(y)return y;const [a,b]=countv(s._betree._linked),ks=[...Object.keys(s)].filter(k=>k[0]==='_'&&k!=='_betree');return eq(s[ks[0]],a)?eq(s[ks[1]],b)?null:'the buffer counts are wrong':'the node counts are wrong';};
  let rcpts=[];w.setParams((M,tr,p,pre,post,lbl)=>M==='LinkedBetreeVars'&&p==='receipt'?rcpts:M==='LinkedBetreeVars'?[]:null);
  const o={name,LB:K.LB,core:s=>s._betree,unl:l=>l._linked_lbl,build,read:s=>K.readv(s._linked),readv:K.readv,ok:okc,len:20,odd:4,init:linkedInit,lines,cross:T.cross,tree:m=>K.linked(m),receipt:K.receipt,
    frame:(n,pre,a,post)=>{const x=K.frame(pre._betree._linked,a,post._betree._linked,n);if(x||mode!=='au'||n===noop||/noop/.test(n))return x;
      const ks=Object.keys(post).filter(k=>k[0]==='_'&&k!=='_betree');const live=k=>{const s=new Set();for(const e of post[k].keys?post[k].keys():post[k])s.add(e);return s;};
      for(const [d,k] of [['_dv',ks[0]],['_buffer_dv',ks[1]]]){const s=live(k);for(const z of pre._betree._linked[d]._entries)if(s.has(z._au)&&!post._betree._linked[d]._entries.has(z))return `the page ${show(z)} of an allocation unit in use was dropped`;}return null;},
    op(t,m){
      const x=common(w,t,m,o);
      if(x){if(x.name==='internal_noop')return {name:'internal_noop',args:[L(K.LB.Internal)],m2:m};
        rcpts=x.name==='query'?[x.args[1]]:[];const st=K.build(x.m2);
        return {name:noop,args:[L(x.args[0]),st],m2:x.m2,alt:tt=>{if(x.name==='query'&&x.alt){const a=x.alt(tt);if(!a)return null;rcpts=[a[1],x.args[1]];return [L(a[0]),tt.below(4)?st:K.build(K.twistM(tt,m,{m2:m}))];}const n=Object.assign({},x.m2,tt.bool()?{lsn:x.m2.lsn+1}:{mem:w.rbuf(tt)});return [L(tt.below(3)?x.args[0]:K.LB.Internal),K.build(tt.below(3)?n:K.twistM(tt,m,{m2:x.m2}))];}};}
      const s=K.step(t,m,mode);if(!s)return null;const pre=K.linked(m);const nm=s.name==='internal_compact'?compact:s.name;
      return {name:nm,args:[L(K.LB.Internal),...K.args(pre,s,K.build(s.m2),'state')],m2:s.m2,s,alt:tt=>{if(tt.bool()){const z=K.wrong(tt,m,mode);if(!z)return null;const r=[L(K.LB.Internal),...K.args(pre,z,K.build(z.m2),'state')];r.nm=z.name==='internal_compact'?compact:z.name;return r;}const z=tt.below(3)?K.twist(tt,m,s):s,n=tt.below(3)?s.m2:K.twistM(tt,m,s);return [L(K.LB.Internal),...K.args(tt.below(6)?pre:K.linked(n),z,K.build(n),'state')];}};},
    interp(t,s,m,op){
      if(mode==='likes'){const i=s.m_i();check(eq(i,K.build(m)),()=>`the view of ${show(s)} as a linked tree is ${show(i)}`);}
      else{const i=s.m_i();const a=Ms.from([...K.reach(m.root).ns.keys()].map(K.A));const b=[];const go=n=>{if(n){n.buf.forEach(x=>b.push(K.A(x.at)));n.kid.forEach(go);}};go(m.root);check(eq(i._betree,K.build(m))&&eq(i._betree_likes,a)&&eq(i._buffer_likes,Ms.from(b)),()=>`the view of ${show(s)} as a likes tree is ${show(i)}`);}
      const l=op.args[0].m_i();check(eq(mode==='likes'?l:l._linked_lbl,op.args[0]._linked_lbl),()=>`the view of ${show(op.args[0])}`);},
    restart:m=>[K.build(m)]};
  return drive(w,o);
}

// ---------------------------------------------------------------- the pieces: buffers, pivots, offsets, domains, memtables
function pieces({REPO}){
  const w=world(REPO),P=w.P,h=w.h,B='betree::';const g=(q,n)=>fn(P,B+q+'::'+n);
  const d2p=g('PivotTable_v','domain_to_pivots'),tot=g('Domain_v','total_domain'),ebo=g('BufferOffsets_v','empty_bufer_offsets'),uss=g('Utils_v','union_set_of_sets'),uqs=g('Utils_v','union_seq_of_sets'),ak=g('Buffer_v','all_keys'),tk=g('Buffer_v','total_keys');
  const dm=(a,z)=>w.Dom.Domain(w.el(a),w.el(z));
  const is=(x,y,m)=>check(eq(x,y),()=>`${m()} is ${show(x)}, expected ${show(y)}`);
  const kset=ks=>DSet.from(ks.map(w.key));const fin=s=>s instanceof DSet?s:DSet.from(w.KEYS.filter(k=>s.has(k)));
  return (t,c)=>{
    w.ready();let nt=false;
    // pivots
    const pv=[];for(let k=t.below(3);k<NK;k++)if(t.below(3)===0||pv.length===0)pv.push(k);if(t.bool())pv.push(MAX);else if(pv.length<2)pv.push(MAX);
    const p=w.pts(pv);const inc=a=>a.length>=2&&a.every((x,i)=>(i===a.length-1||x!==MAX)&&(i===0||a[i-1]<x));
    is(p.m_wf(),true,()=>show(p)+'.wf()');is(p.m_num_ranges(),pv.length-1,()=>'num_ranges');is(p.m_len(),pv.length,()=>'len');
    const odd=pv.slice();{const i=t.below(odd.length);if(t.bool())odd[i]=t.below(NK+1)===NK?MAX:t.below(NK);else if(t.bool())odd.splice(i,1);else odd.splice(i,0,t.below(NK));}
    is(w.pts(odd).m_wf(),inc(odd),()=>`wf of the pivots ${show(w.pts(odd))}`);
    for(let k=0;k<NK;k++){const inn=k>=pv[0]&&k<pv[pv.length-1];is(p.m_bounded_key(w.key(k)),inn,()=>`bounded_key(${k}) of ${show(p)}`);if(inn){nt=true;is(p.m_route(w.key(k)),w.route(pv,k),()=>`route(${k}) of ${show(p)}`);}}
    {const i=t.below(pv.length+1),e=t.below(NK+1)===0?MAX:t.below(NK);const ok=e!==MAX&&(i===0?e<pv[0]:pv[i-1]<e)&&(i===pv.length||e<pv[i]);is(p.m_can_insert(i,w.el(e)),ok,()=>`can_insert(${i}, ${e}) of ${show(p)}`);if(ok){const q=[...pv.slice(0,i),e,...pv.slice(i)];is(p.m_insert(i,w.el(e)),w.pts(q),()=>`insert(${i}, ${e}) of ${show(p)}`);}}
    {const i=t.below(pv.length-1);is(p.m_update(i,w.el(3)),w.pts(pv.map((x,j)=>j===i?3:x)),()=>'update');const a=t.below(pv.length),z=a+t.below(pv.length-a+1);is(p.m_subrange(a,z),w.pts(pv.slice(a,z)),()=>'subrange');
      const ks=p.m_pivot_range_keyset(i);is(fin(ks),kset([...Array(NK).keys()].filter(k=>k>=pv[i]&&k<pv[i+1])),()=>`pivot_range_keyset(${i}) of ${show(p)}`);}
    // domains
    const rd=()=>{const a=t.below(NK+1),z=t.below(NK+1);return [a===NK?MAX:a,z===NK?MAX:z];};const [a,z]=rd(),[a2,z2]=rd();const D=dm(a,z),D2=dm(a2,z2);
    is(D.m_wf(),a<z&&a!==MAX,()=>show(D)+'.wf()');is(w.Dom.EmptyDomain.m_wf(),true,()=>'wf of the empty domain');
    for(let k=0;k<NK;k++){is(D.m_contains(w.key(k)),a<=k&&k<z,()=>`${show(D)} contains ${k}`);is(w.Dom.EmptyDomain.m_contains(w.key(k)),false,()=>'the empty domain contains');}
    is(D.m_includes(D2),a<=a2&&z2<=z,()=>`${show(D)} includes ${show(D2)}`);is(D.m_includes(w.Dom.EmptyDomain),false,()=>'includes the empty domain');is(fin(D.m_key_set()),kset([...Array(NK).keys()].filter(k=>a<=k&&k<z)),()=>`the keys of ${show(D)}`);is(d2p(D),w.pts([a,z]),()=>`the pivots of ${show(D)}`);
    is(tot(),dm(0,MAX),()=>'the total domain');
    // offsets
    const of=t.list(1,5,()=>t.below(7)),O=w.BO(of.slice());const i=t.below(of.length),v=t.below(8);
    is(O.m_len(),of.length,()=>'len');is(O.m_dup(i),w.BO([...of.slice(0,i+1),...of.slice(i)]),()=>`dup(${i}) of ${show(O)}`);is(O.m_update(i,v),w.BO(of.map((x,j)=>j===i?v:x)),()=>`update of ${show(O)}`);
    is(O.m_all_lte(v),of.every(x=>x<=v),()=>`all_lte(${v}) of ${show(O)}`);is(O.m_all_gte(v),of.every(x=>x>=v),()=>`all_gte(${v}) of ${show(O)}`);
    const mn=Math.min(...of),sh=t.below(mn+1);is(O.m_shift_left(sh),w.BO(of.map(x=>x-sh)),()=>`shift_left(${sh}) of ${show(O)}`);
    {const s=t.below(6),e=s+1+t.below(4);is(O.m_adjust_compact(s,e),w.BO(of.map(x=>adj(x,s,e))),()=>`adjust_compact(${s}, ${e}) of ${show(O)}`);const x=t.below(of.length+1),y=x+t.below(of.length-x+1);is(O.m_slice(x,y),w.BO(of.slice(x,y)),()=>'slice');}
    is(ebo(),w.BO([]),()=>'no offsets');
    // buffers
    const bs=t.list(0,5,()=>w.rbuf(t)),S=w.BS(bs.map(w.buf));const b0=w.rbuf(t),b1=w.rbuf(t),B0=w.buf(b0),B1=w.buf(b1);
    const mrg=(x,y)=>{const r=new Map(x);for(const [k,m] of y)r.set(k,r.has(k)?w.m2(r.get(k),m):m);return r;};
    is(B0.m_merge(B1),w.buf(mrg(b0,b1)),()=>`${show(B0)} merged with ${show(B1)}`);is(w.SB.empty?w.SB.empty():fn(P,B+'Buffer_v::SimpleBuffer::empty')(),w.buf(new Map()),()=>'the empty buffer');
    const acc=t.list(0,5,()=>t.below(NK));is(B0.m_apply_filter(kset(acc)),w.buf(new Map([...b0].filter(([k])=>acc.includes(k)))),()=>`${show(B0)} filtered by ${show(acc)}`);
    {const k=t.below(NK),m=w.msg(t);is(B0.m_insert(w.key(k),m),w.buf(new Map([...b0,[k,m]])),()=>'insert');}
    for(let k=0;k<NK;k++){is(B0.m_contains(w.key(k)),b0.has(k),()=>`${show(B0)} contains ${k}`);is(B0.m_query(w.key(k)),b0.get(k)||w.nop,()=>`query(${k}) of ${show(B0)}`);
      const dk=w.BD(DMap.of([[w.ADDRS[0],B0],[w.ADDRS[1],B1]]));is(B0.m_linked_query(dk,w.ADDRS[0],w.key(k)),b0.get(k)||w.nop,()=>'linked_query');is(B0.m_linked_contains(dk,w.ADDRS[0],w.key(k)),b0.has(k),()=>'linked_contains');}
    is(B0.m_i(w.BD(DMap.of([])),w.ADDRS[0]),B0,()=>'i');
    const st=t.below(bs.length+1);
    const off=[...Array(NK)].map(()=>t.below(bs.length+2)),OMv=w.OM(DMap.of(off.map((x,k)=>[w.key(k),x])));is(OMv.m_is_total(),true,()=>'is_total');{const m=DMap.of(off.slice(1).map((x,k)=>[w.key(k),x]));is(w.OM(m).m_is_total(),false,()=>'is_total of a partial map');}
    const foldk=(k,from,ok)=>bs.map((b,i)=>[b,i]).slice(from).filter(([b,i])=>b.has(k)&&ok(k,i)).map(([b])=>b.get(k)).reduce((x,y)=>x===null?y:w.m2(x,y),null);
    const folded=(from,ok)=>{const r=new Map();for(let k=0;k<NK;k++){const m=foldk(k,from,ok);if(m)r.set(k,m);}return r;};
    is(S.m_len(),bs.length,()=>'len');is(S.m_i(),w.buf(folded(0,()=>true)),()=>`the buffers ${show(S)} as one`);is(S.m_i_from(st),w.buf(folded(st,()=>true)),()=>`the buffers ${show(S)} from ${st} as one`);
    is(S.m_i_filtered(OMv),w.buf(folded(0,(k,i)=>off[k]<=i)),()=>`the buffers ${show(S)} filtered by ${show(off)}`);is(S.m_i_filtered_from(OMv,st),w.buf(folded(st,(k,i)=>off[k]<=i)),()=>`the buffers ${show(S)} from ${st} filtered by ${show(off)}`);
    for(let k=0;k<NK;k++){const K=w.key(k),m=foldk(k,st,()=>true);is(S.m_query_from(K,st),w.m2(w.nop,m||w.nop),()=>`query_from(${k}, ${st}) of ${show(S)}`);is(S.m_query(K),foldk(k,0,()=>true)||w.nop,()=>`query(${k}) of ${show(S)}`);
      const j=t.below(bs.length+2);is(S.m_key_in_buffer(st,K,j),st<=j&&j<bs.length&&bs[j].has(k),()=>`key_in_buffer(${st}, ${k}, ${j})`);is(S.m_key_in_buffer_filtered(OMv,st,K,j),st<=j&&j<bs.length&&bs[j].has(k)&&off[k]<=j,()=>`key_in_buffer_filtered(${st}, ${k}, ${j})`);
      is(OMv.m_get(K),off[k],()=>'get');is(OMv.m_active_keys(v).has(K),off[k]<=v,()=>`active_keys(${v})`);}
    {const dc=OMv.m_decrement(v);for(let k=0;k<NK;k++)is(dc._offsets.get(w.key(k)),Math.max(0,off[k]-v),()=>`decrement(${v}) of ${off[k]}`);}
    {const x=t.below(bs.length+1),y=x+t.below(bs.length-x+1);is(S.m_slice(x,y),w.BS(bs.slice(x,y).map(w.buf)),()=>'slice');if(bs.length)is(S.m_drop_first(),w.BS(bs.slice(1).map(w.buf)),()=>'drop_first');is(S.m_apply_filter(kset(acc)),w.BS(bs.map(b=>w.buf(new Map([...b].filter(([k])=>acc.includes(k)))))),()=>'apply_filter');
      const e=w.BS([B0,B1]);is(S.m_extend(e),w.BS([...bs,b0,b1].map(w.buf)),()=>'extend');if(bs.length){const s=t.below(bs.length),n=s+1+t.below(bs.length-s);is(S.m_update_subrange(s,n,B0),w.BS([...bs.slice(0,s),b0,...bs.slice(n)].map(w.buf)),()=>`update_subrange(${s}, ${n})`);}}
    // linked sequences and buffer disks
    {const n=bs.length,perm=[...Array(n+3).keys()].map(i=>w.ADDRS[i]);const ad=perm.slice(0,n),dk=w.BD(DMap.of(ad.map((x,i)=>[x,w.buf(bs[i])]))),ls=w.LS(ad);
      is(dk.m_valid_buffers(ls),true,()=>'valid_buffers');is(dk.m_valid_buffers(w.LS([...ad,perm[n]])),false,()=>'valid_buffers with a dangling address');is(dk.m_i_buffer_seq(ls),S,()=>'i_buffer_seq');
      for(let k=0;k<NK;k++){const K=w.key(k);is(dk.m_query_from(ls,K,st),foldk(k,st,()=>true)||w.nop,()=>`query_from(${k}, ${st}) on the disk`);const j=t.below(n+2);is(dk.m_key_in_buffer(ls,st,K,j),st<=j&&j<n&&bs[j].has(k),()=>'key_in_buffer on the disk');is(dk.m_key_in_buffer_filtered(ls,OMv,st,K,j),st<=j&&j<n&&bs[j].has(k)&&off[k]<=j,()=>'key_in_buffer_filtered on the disk');if(n){is(dk.m_queryable_contains(ad[0],K),bs[0].has(k),()=>'queryable_contains');}is(dk.m_queryable_contains(perm[n],K),false,()=>'queryable_contains of a missing buffer');}
      is(dk.m_repr(),DSet.from(ad),()=>'repr');const m=dk.m_modify_disk(perm[n],B0);is(m,w.BD(DMap.of([...ad.map((x,i)=>[x,w.buf(bs[i])]),[perm[n],B0]])),()=>'modify_disk');is(m.m_is_sub_disk(dk),false,()=>'is_sub_disk of a smaller disk');is(dk.m_is_sub_disk(m),true,()=>'is_sub_disk');
      is(dk.m_is_fresh(DSet.from([perm[n],perm[n+1]])),true,()=>'is_fresh');if(n)is(dk.m_is_fresh(DSet.from([perm[n],ad[t.below(n)]])),false,()=>'is_fresh of a used address');
      if(n){const j=t.below(n),nb=mrg(bs[j],b0),ch=dk.m_modify_disk(ad[j],w.buf(nb)),sm=eq(w.buf(nb),w.buf(bs[j]));is(ch.m_agrees_with(dk),sm,()=>'agrees_with');is(dk.m_is_sub_disk(ch),sm,()=>'is_sub_disk of a changed disk');const mg=dk.m_merge_disk(ch);is(mg,ch,()=>'merge_disk');}is(dk.m_agrees_with(m),true,()=>'agrees_with a larger disk');
      is(ls.m_len(),n,()=>'len');const x=t.below(n+1),y=x+t.below(n-x+1);is(ls.m_slice(x,y),w.LS(ad.slice(x,y)),()=>'slice');is(ls.m_extend(w.LS([perm[n]])),w.LS(perm.slice(0,n+1)),()=>'extend');if(n){const s=t.below(n),q=s+1+t.below(n-s);is(ls.m_update_subrange(s,q,perm[n]),w.LS([...ad.slice(0,s),perm[n],...ad.slice(q)]),()=>'update_subrange');is(ls.m_contains(ad[s]),true,()=>'contains');}is(ls.m_contains(perm[n]),false,()=>'contains');}
    // memtables
    {const lsn=t.below(5),mm={mem:b0,lsn},M=w.mem(mm),kms=t.list(0,5,()=>h.km(t));const x=w.put(mm,kms);is(M.m_apply_puts(h.mk(lsn,kms)),w.mem(x),()=>`${show(M)} after ${show(kms)}`);if(kms.length)is(M.m_apply_put(kms[0]),w.mem(w.put(mm,kms.slice(0,1))),()=>'apply_put');is(M.m_drain(),w.mem({mem:new Map(),lsn}),()=>'drain');is(M.m_is_empty(),b0.size===0,()=>`is_empty of ${show(M)}`);for(let k=0;k<NK;k++){is(M.m_query(w.key(k)),b0.get(k)||w.nop,()=>'query');is(M.m_contains(w.key(k)),b0.has(k),()=>'contains');}is(fn(P,B+'Memtable_v::Memtable::empty_memtable')(lsn),w.mem({mem:new Map(),lsn}),()=>'empty_memtable');}
    // sets
    {const ss=t.list(0,4,()=>t.list(0,3,()=>t.below(6)));const u=DSet.from(ss.flat());is(uss(DSet.from(ss.map(x=>DSet.from(x)))),u,()=>`the union of ${show(ss)}`);is(uqs(ss.map(x=>DSet.from(x))),u,()=>`the union of the sequence ${show(ss)}`);}
    is(tk(kset([...Array(NK).keys()])),true,()=>'total_keys');is(tk(kset([...Array(NK-1).keys()])),false,()=>'total_keys without the last key');for(const k of w.KEYS)is(ak().has(k),true,()=>'all_keys');
    c.nontrivial(nt&&bs.length>1&&of.length>1);c.sample(show(S).slice(0,200));
  };
}
Object.assign(exports,{world,linkedModel,pivots,drive,common,filteredView,pivotView,pagedView,compacted,adj,gcs,NK,MAX,inRange,Bad,bad,soft,show,isN});
exports.props={V04:{rule:'a history with at least four steps that ends with a tree; for pieces, at least two buffers and offsets and a key inside the pivots',parts:{pieces,paged:{make:paged,weight:2},pivot:{make:pivot,weight:2},filtered:{make:filtered,weight:3},linked:{make:linked,weight:4},likes:{make:likes,weight:3},allocation:{make:allocation,weight:3}},quick:30,thorough:600,
  assumptions:['keys 0-6, values 0-4, trees of up to four levels, histories of up to 26 steps']}};
