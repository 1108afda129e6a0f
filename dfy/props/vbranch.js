'use strict';
// V05: the B+ trees (branches) that hold the buffers of the Splinter trees: the functional tree, the tree on disk pages, its construction from a
// private allocator, and the tree of trees that uses them. One independent sorted-map model drives all of them.
const L=require('../vlib.js');const {V,$,check,DMap,DSet,ty,fn,eq,Some,None,init}=L;
const vb=require('./vbetree.js');const {show,isN,soft,Bad,bad}=vb;
const ALLOC=['spec','abstract_system','betree','disk','allocation_layer'];
const NK=10;
const last=a=>a[a.length-1];
const sorted=a=>a.every((x,i)=>!i||a[i-1]<x);
function branches(w){
  const P=w.P,PQ='betree::PivotBranch_v::',LQ='betree::LinkedBranch_v::';const B={};
  const PN=ty(P,PQ+'Node'),PP=ty(P,PQ+'Path'),PS=ty(P,PQ+'SplitArg'),LN=ty(P,LQ+'Node'),DV=ty(P,LQ+'DiskView'),LBr=ty(P,LQ+'LinkedBranch'),LP=ty(P,LQ+'Path'),LS=ty(P,LQ+'SplitArg');
  const A=i=>w.ADDRS[i],K=a=>a.map(w.key);const un=a=>w.ADDRS.findIndex(x=>eq(x,a));
  const ids=new Map(w.ADDRS.map((a,i)=>[w.ak(a),i]));const id=a=>ids.has(w.ak(a))?ids.get(w.ak(a)):-1;
  Object.assign(B,{PN,PP,PS,LN,DV,LBr,LP,LS,A,K,id,un});
  // ---- the model: {ks,ms,at} or {piv,kid,at}
  B.isL=n=>n.ks!==undefined;
  B.route=(s,k)=>{let r=-1;for(let i=0;i<s.length;i++)if(s[i]<=k)r=i;return r;};
  B.get=(n,k)=>{while(!B.isL(n))n=n.kid[B.route(n.piv,k)+1];const i=n.ks.indexOf(k);return i<0?null:n.ms[i];};
  B.rows=n=>{const r=new Map();B.walk(n,x=>{if(B.isL(x))x.ks.forEach((k,i)=>r.set(k,x.ms[i]));});return r;};
  B.walk=(n,f)=>{f(n);if(!B.isL(n))n.kid.forEach(x=>B.walk(x,f));};
  B.all=n=>B.isL(n)?n.ks.slice():[...n.piv,...n.kid.flatMap(B.all)];
  B.depth=(n,k)=>{let d=0;while(!B.isL(n)){n=n.kid[B.route(n.piv,k)+1];d++;}return d;};
  B.at=(n,k,d)=>{while(d-->0)n=n.kid[B.route(n.piv,k)+1];return n;};
  B.put=(n,k,d,f)=>{if(d===0)return f(n);const j=B.route(n.piv,k)+1;return Object.assign({},n,{kid:n.kid.map((x,i)=>i===j?B.put(x,k,d-1,f):x)});};
  B.size=n=>{let c=0;B.walk(n,()=>c++);return c;};
  B.insLeaf=(n,k,m)=>{const i=n.ks.indexOf(k);if(i>=0)return Object.assign({},n,{ms:n.ms.map((x,j)=>j===i?m:x)});const j=B.route(n.ks,k)+1;return Object.assign({},n,{ks:[...n.ks.slice(0,j),k,...n.ks.slice(j)],ms:[...n.ms.slice(0,j),m,...n.ms.slice(j)]});};
  // split of a child: s={leaf,pivot,j}
  B.halves=(n,s,a)=>s.leaf?(()=>{const c=n.ks.filter(k=>k<s.pivot).length;return [{ks:n.ks.slice(0,c),ms:n.ms.slice(0,c),at:n.at},{ks:n.ks.slice(c),ms:n.ms.slice(c),at:a}];})():[{piv:n.piv.slice(0,s.j),kid:n.kid.slice(0,s.j+1),at:n.at},{piv:n.piv.slice(s.j+1),kid:n.kid.slice(s.j+1),at:a}];
  B.splitKid=(n,s,a)=>{const i=B.route(n.piv,s.pivot)+1,[l,r]=B.halves(n.kid[i],s,a);return Object.assign({},n,{piv:[...n.piv.slice(0,i),s.pivot,...n.piv.slice(i)],kid:[...n.kid.slice(0,i),l,r,...n.kid.slice(i+1)]});};
  B.splitOk=(n,s)=>s.leaf?B.isL(n)&&(c=>c>0&&c<n.ks.length)(n.ks.filter(k=>k<s.pivot).length):!B.isL(n)&&s.j>=0&&s.j<n.piv.length&&n.piv[s.j]===s.pivot;
  B.splits=n=>{const r=[];if(B.isL(n))return r;n.kid.forEach((x,i)=>{const lo=i?n.piv[i-1]:-1,hi=i<n.piv.length?n.piv[i]:w.lim.nk;for(let k=Math.max(lo,0);k<hi;k++){const s={leaf:true,pivot:k,j:0};if(B.isL(x)&&B.splitOk(x,s))r.push(s);}if(!B.isL(x))x.piv.forEach((p,j)=>r.push({leaf:false,pivot:p,j}));});return r;};
  // ---- values
  const pm=new WeakMap();B.pn=n=>{let r=pm.get(n);if(!r){r=B.isL(n)?PN.Leaf(K(n.ks),n.ms.slice()):PN.Index(K(n.piv),n.kid.map(B.pn));pm.set(n,r);}return r;};
  B.flat=(n,aux,sum)=>{const m=new Map();B.walk(n,x=>m.set(x.at,B.isL(x)?{ks:x.ks,ms:x.ms}:{piv:x.piv,kids:x.kid.map(y=>y.at),aux:x===n&&aux!==undefined?aux:null}));if(aux!==undefined&&aux!==null)m.set(aux,{sum});return m;};
  B.ln=f=>f.sum?LN.Auxiliary(DSet.from(f.sum)):f.ks?LN.Leaf(K(f.ks),f.ms.slice()):LN.Index(K(f.piv),f.kids.map(A),f.aux===null?None:Some(A(f.aux)));
  B.lbf=(root,m)=>LBr(A(root),DV(DMap.of([...m].map(([a,f])=>[A(a),B.ln(f)]))));
  B.lb=(n,junk,aux,sum)=>{const m=B.flat(n,aux,sum);if(junk)for(const [a,f] of junk)if(!m.has(a))m.set(a,f);return B.lbf(n.at,m);};
  B.ps=s=>s.leaf?PS.SplitLeaf(w.key(s.pivot)):PS.SplitIndex(w.key(s.pivot),s.j);B.ls=s=>s.leaf?LS.SplitLeaf(w.key(s.pivot)):LS.SplitIndex(w.key(s.pivot),s.j);
  // ---- judgements on flat disks
  const F={};B.F=F;
  F.of=d=>{const m=new Map();for(const a of d._entries){const n=d._entries.get(a);m.set(id(a),n.$cn==='Leaf'?{ks:n._keys.map(k=>k._0),ms:n._msgs}:n.$cn==='Index'?{piv:n._pivots.map(k=>k._0),kids:n._children.map(id),aux:isN(n._aux_ptr)?null:id(n._aux_ptr._0)}:{sum:n._0});}return m;};
  F.diskWf=m=>{for(const f of m.values()){if(f.ks&&(f.ks.length===0||f.ks.length!==f.ms.length))return false;if(f.piv){if(f.piv.length!==f.kids.length-1)return false;for(const c of f.kids)if(!m.has(c)||m.get(c).sum)return false;}}return true;};
  F.wf=(r,m)=>F.diskWf(m)&&m.has(r)&&!m.get(r).sum;
  F.reach=(r,m)=>{const st=new Map();let cyc=false;const go=a=>{if(st.has(a)){if(st.get(a)<0)cyc=true;return st.get(a);}st.set(a,-1);let z=0;const f=m.get(a);if(f&&f.kids)for(const c of f.kids)z=Math.max(z,go(c)+1);st.set(a,z);return z;};go(r);return cyc?null:st;};
  F.keys=(r,m)=>{const f=m.get(r);return f.ks?f.ks.slice():[...f.piv,...f.kids.flatMap(c=>F.keys(c,m))];};
  F.inv=(r,m)=>{if(!F.wf(r,m))return false;const st=F.reach(r,m);if(!st)return false;for(const a of st.keys()){const f=m.get(a);if(!sorted(f.ks||f.piv))return false;if(f.kids)for(let i=0;i<f.kids.length;i++)for(const k of F.keys(f.kids[i],m))if(i<f.piv.length&&!(k<f.piv[i])||i>0&&!(f.piv[i-1]<=k))return false;}return true;};
  F.get=(r,m,k)=>{let a=r,d=0;for(;;){const f=m.get(a);if(!f||f.sum||++d>60)bad('broken branch');if(f.ks){const i=f.ks.indexOf(k);return i<0?null:f.ms[i];}const j=B.route(f.piv,k)+1;if(j>=f.kids.length)bad('broken branch');a=f.kids[j];}};
  // rankings: exactly what is reachable from the root (the smallest witness)
  const rk=new WeakMap();
  B.ranks=self=>{const d=self&&self._disk_view;if(!d||!d._entries)return null;let r=rk.get(self);if(r===undefined){r=[];try{const m=F.of(d),st=F.reach(id(self._root),m);if(st)r=[DMap.of([...st].filter(e=>e[0]>=0).map(([a,z])=>[A(a),z]))];}catch(e){if(!(e instanceof TypeError))throw e;}rk.set(self,r);}return r;};
  // ---- random operations on a tree: {op, n2, ...}
  B.grow=(t,lim)=>{const x=[0,1,2,3,4,5,6,7,8,9].slice(0,lim);return x;};
  B.op=(t,n,fresh)=>{
    const k=t.below(10),key=t.below(w.lim.nk);
    if(k<3){const d=B.depth(n,key),m=w.msg(t);return {op:'insert',key,m,depth:d,n2:B.put(n,key,d,x=>B.insLeaf(x,key,m))};}
    if(k<5){const d=B.depth(n,key),leaf=B.at(n,key,d),hi=B.hi(n,key);const lo=last(leaf.ks);const ks=[];for(let z=lo+1;z<hi;z++)if(t.bool())ks.push(z);if(!ks.length)return null;const ms=ks.map(()=>w.msg(t));return {op:'append',ks,ms,key:ks[0],depth:d,n2:B.put(n,key,d,x=>Object.assign({},x,{ks:[...x.ks,...ks],ms:[...x.ms,...ms]}))};}
    if(fresh===null)return null;
    if(k===5){if(B.depth(n,key)>=4)return null;return {op:'grow',a:fresh,n2:{piv:[],kid:[n],at:fresh}};}
    const dm=B.depth(n,key);if(dm===0)return B.isL(n)?{op:'grow',a:fresh,n2:{piv:[],kid:[n],at:fresh}}:null;
    const c=[];for(let z=0;z<w.lim.nk;z++){const dz=B.depth(n,z);for(let d=0;d<dz;d++)for(const s of B.splits(B.at(n,z,d)))if(s.pivot===z)c.push([z,d,s]);}
    if(!c.length)return null;const [z,d,s]=t.pick(c);return {op:'split',key:z,depth:d,s,a:fresh,n2:B.put(n,z,d,x=>B.splitKid(x,s,fresh))};};
  B.hi=(n,k)=>{let h=w.lim.nk;while(!B.isL(n)){const j=B.route(n.piv,k)+1;if(j<n.piv.length)h=Math.min(h,n.piv[j]);n=n.kid[j];}return h;};
  // would every key of the list end in the same place along the path
  B.equiv=(n,k,d,o)=>{for(let i=0;;i++){if(B.route(B.isL(n)?n.ks:n.piv,k)!==B.route(B.isL(n)?n.ks:n.piv,o))return false;if(i>=d)return true;n=n.kid[B.route(n.piv,k)+1];}};
  return B;
}
const is=(x,y,m)=>check(eq(x,y),()=>`${m()} is ${show(x)}, expected ${show(y)}`);
function mkWorld(REPO){
  const w=vb.world(REPO,ALLOC,{nk:NK});const B=branches(w);
  w.memo(B.DV(DMap.of([])),'wf','entries_wf','no_dangling_address','valid_ranking');w.memo(B.LBr(w.ADDRS[0],B.DV(DMap.of([]))),'wf','acyclic','the_ranking','inv','representation');w.memo(B.PN.Leaf([],[]),'wf','all_keys','children_keys','i');
  w.ranksOf=self=>self&&self._disk_view?B.ranks(self):self&&self._branch?B.ranks(self._branch):null;
  return {w,B};
}
const startLeaf=(w,t,at)=>{const ks=[];for(let k=0;k<w.lim.nk;k++)if(t.below(3)===0)ks.push(k);if(!ks.length)ks.push(t.below(w.lim.nk));return {ks,ms:ks.map(()=>w.msg(t)),at};};
// junk pages that belong to something else
const junkPages=(B,w,t,used)=>{const j=new Map();const free=[];for(let i=0;i<w.ADDRS.length;i++)if(!used.has(i))free.push(i);const n=t.below(3);for(let i=0;i<n;i++){const a=free.splice(t.below(free.length),1)[0];j.set(a,i&&t.bool()?{piv:[],kids:[[...j.keys()][0]],aux:null}:t.below(4)===0&&!j.size?{sum:[t.below(4)]}:{ks:[t.below(NK)],ms:[w.msg(t)]});}
  for(const f of j.values())if(f.kids&&j.get(f.kids[0]).sum){f.kids=undefined;f.piv=undefined;f.ks=[1];f.ms=[w.msg(t)];}return j;};
// ---------------------------------------------------------------- the functional tree and its view as a map
function tree({REPO}){
  const {w,B}=mkWorld(REPO);
  return (t,c)=>{
    w.ready();let n=startLeaf(w,t,0),next=1;const len=t.size(2,14);let k=0;
    const P=(v,key,d)=>B.PP(v,w.key(key),d);
    const look=(v,m)=>{
      is(v.m_wf(),true,()=>show(v)+'.wf()');const rows=B.rows(m);
      for(let z=0;z<NK;z++){is(v.m_query(w.key(z)),rows.get(z)||w.nop,()=>`query(${z}) of ${show(v)}`);}
      const al=v.m_all_keys(),all=new Set(B.all(m));for(let z=0;z<NK;z++)is(al.has(w.key(z)),all.has(z),()=>`all_keys() of ${show(v)} at ${z}`);
      const b=v.m_i();const bm=new Map();for(let z=0;z<NK;z++)if(b._map.has(w.key(z)))bm.set(z,b._map.get(w.key(z)));check(bm.size===rows.size&&[...rows].every(([z,x])=>bm.has(z)&&eq(bm.get(z),x)),()=>`the map of ${show(v)}`);
      const pv=v.m_get_pivots();for(let z=0;z<NK;z++)is(pv.has(w.key(z)),!B.isL(m)&&m.piv.includes(z),()=>`get_pivots of ${show(v)}`);
      for(let z=0;z<NK;z++)is(v.m_route(w.key(z)),B.route(B.isL(m)?m.ks:m.piv,z),()=>`route(${z}) of ${show(v)}`);
      is(v.m_get_keys_or_pivots(),B.K(B.isL(m)?m.ks:m.piv),()=>'get_keys_or_pivots');};
    look(B.pn(n),n);
    for(let i=0;i<len;i++){
      const o=B.op(t,n,next);if(!o)continue;k++;c.label(o.op);const v=B.pn(n),want=B.pn(o.n2);let got;
      if(o.op==='insert')got=v.m_insert(w.key(o.key),o.m,P(v,o.key,o.depth));
      else if(o.op==='append')got=v.m_append(B.K(o.ks),o.ms,P(v,o.key,o.depth));
      else if(o.op==='grow'){got=v.m_grow();next++;}
      else{got=v.m_split(P(v,o.key,o.depth),B.ps(o.s));next++;}
      is(got,want,()=>`${o.op} ${show([o.key,o.depth,o.ks,o.s&&B.ps(o.s)])} of ${show(v)}`);look(got,o.n2);
      if(o.op==='append'){const q=v.m_append_via_insert(B.K(o.ks),o.ms,P(v,o.key,o.depth));is(q,want,()=>`append_via_insert of ${show(v)}`);}
      // paths
      {const key=t.below(NK),d=t.below(B.depth(n,key)+2),p=P(v,key,d),ok=d<=B.depth(n,key);is(soft(()=>p.m_valid())||false,ok,()=>show(p)+'.valid()');
        if(ok){const g=B.at(n,key,d);is(p.m_target(),B.pn(g),()=>show(p)+'.target()');if(d)is(p.m_subpath(),P(B.pn(B.at(n,key,1)),key,d-1),()=>'subpath');const o2=t.below(NK);is(p.m_path_equiv(w.key(o2)),B.equiv(n,key,d,o2),()=>`path_equiv(${o2}) of ${show(p)}`);
          const rep={ks:[key],ms:[w.msg(t)],at:99};is(p.m_substitute(B.pn(rep)),B.pn(B.put(n,key,d,()=>rep)),()=>'substitute');}}
      // splits that are or are not possible
      {const s={leaf:t.bool(),pivot:t.below(NK),j:t.below(4)-(t.below(5)===0?1:0)};const all=[];B.walk(n,x=>all.push(x));const x=t.pick(all);if(!s.leaf&&!B.isL(x)&&t.bool()&&x.piv.length)s.pivot=t.pick(x.piv);
        is(B.ps(s).m_wf(B.pn(x)),B.splitOk(x,s),()=>`${show(B.ps(s))}.wf of ${show(B.pn(x))}`);is(B.ps(s).m_get_pivot(),w.key(s.pivot),()=>'get_pivot');
        const can=!B.isL(x)&&B.splitOk(x.kid[B.route(x.piv,s.pivot)+1],s);is(B.pn(x).m_can_split_child_of_index(B.ps(s)),can,()=>`can_split_child_of_index ${show(B.ps(s))} of ${show(B.pn(x))}`);
        if(B.splitOk(x,s)){const [l,r]=B.halves(x,s,7);const q=B.pn(x).m_split_node(B.ps(s));is([q._0,q._1],[B.pn(l),B.pn(r)],()=>`split_node ${show(B.ps(s))} of ${show(B.pn(x))}`);}
        if(!B.isL(x)){const a=t.below(x.kid.length),z=a+1+t.below(x.kid.length-a);is(B.pn(x).m_sub_index(a,z),B.pn({piv:x.piv.slice(a,z-1),kid:x.kid.slice(a,z),at:0}),()=>'sub_index');}}
      // trees that are or are not well formed
      {const bent=bend(B,w,t,o.n2);if(bent){const y=B.pn(bent);const ok=wfTree(B,bent);is(soft(()=>y.m_wf())||false,ok,()=>`wf() of ${show(y)}`);c.label(ok?'bent well formed':'bent ill formed');}}
      n=o.n2;if(B.size(n)>16)break;
    }
    c.nontrivial(k>=3&&!B.isL(n));c.sample(show(B.pn(n)).slice(0,200));
  };
}
const wfTree=(B,n)=>B.isL(n)?n.ks.length>0&&n.ks.length===n.ms.length&&sorted(n.ks):n.piv.length===n.kid.length-1&&sorted(n.piv)&&n.kid.every(x=>wfTree(B,x))&&n.kid.every((x,i)=>B.all(x).every(k=>(i>=n.piv.length||k<n.piv[i])&&(i===0||n.piv[i-1]<=k)));
// one small change anywhere in a tree
function bend(B,w,t,n){
  const all=[];B.walk(n,x=>all.push(x));const z=t.pick(all);const y=Object.assign({},z);const alter=l=>{l=l.slice();const i=t.below(l.length+1);const k=t.below(3);if(k===0&&i<l.length)l[i]=t.below(w.lim.nk);else if(k===1&&i<l.length)l.splice(i,1);else if(i<l.length&&l.length>1&&t.bool()){const j=t.below(l.length);[l[i],l[j]]=[l[j],l[i]];}else l.splice(i,0,t.below(w.lim.nk));return l;};
  if(B.isL(z)){y.ks=alter(z.ks);if(t.bool()||y.ks.length!==z.ks.length&&t.below(3))y.ms=y.ks.map((_,i)=>z.ms[i]||w.msg(t));}
  else if(t.below(3)){y.piv=alter(z.piv);}else{y.kid=z.kid.slice();const i=t.below(y.kid.length);if(t.bool()){const j=t.below(y.kid.length);[y.kid[i],y.kid[j]]=[y.kid[j],y.kid[i]];}else if(y.kid.length>1){y.kid.splice(i,1);if(t.bool())y.piv=z.piv.filter((_,j)=>j!==Math.min(i,z.piv.length-1));}}
  const go=x=>x===z?y:B.isL(x)?x:Object.assign({},x,{kid:x.kid.map(go)});return go(n);
}
// ---------------------------------------------------------------- the tree on disk pages
function linked({REPO}){
  const {w,B}=mkWorld(REPO);const {F}=B;
  const P=(v,key,d)=>B.LP(v,w.key(key),d);
  return (t,c)=>{
    w.ready();const used=new Set();let n=startLeaf(w,t,t.below(w.ADDRS.length));used.add(n.at);let junk=junkPages(B,w,t,used);for(const a of junk.keys())used.add(a);const len=t.size(2,12);let k=0;
    const look=(v,m,h)=>{const fl=B.flat(m);const st=F.reach(m.at,fl);
      is(v.m_wf(),true,()=>show(v)+'.wf()');is(v.m_inv(),true,()=>show(v)+'.inv()');is(v.m_acyclic(),true,()=>'acyclic');
      const rows=B.rows(m);for(let z=0;z<NK;z++)is(v.m_query(w.key(z)),rows.get(z)||w.nop,()=>`query(${z}) of ${show(v)}`);
      const reps=v.m_representation(),want=DSet.from([...fl.keys()].map(B.A));check(w.ADDRS.every(a=>reps.has(a)===want.has(a)),()=>`representation of ${show(v)}`);
      is(v.m_tight_disk_view(),h.size===0,()=>`tight_disk_view of ${show(v)}`);is(v.m_i(),B.pn(m),()=>`the view of ${show(v)}`);};
    const val=m=>B.lb(m,junk);look(val(n),n,junk);
    for(let i=0;i<len;i++){
      const free=[];for(let j=0;j<w.ADDRS.length;j++)if(!used.has(j))free.push(j);const a=t.pick(free);
      const o=B.op(t,n,a);if(!o)continue;k++;c.label(o.op);const v=val(n);let got,can;const want=val(o.n2);const p=()=>P(v,o.key,o.depth);
      if(o.op==='insert'){can=v.m_can_insert(w.key(o.key),o.m,p());got=v.m_insert(w.key(o.key),o.m,p());}
      else if(o.op==='append'){can=v.m_can_append(B.K(o.ks),o.ms,p());got=v.m_append(B.K(o.ks),o.ms,p());}
      else if(o.op==='grow'){can=v.m_can_grow(B.A(a));got=v.m_grow(B.A(a));}
      else{can=v.m_can_split(B.A(a),p(),B.ls(o.s));got=v.m_split(B.A(a),p(),B.ls(o.s));}
      check(can===true,()=>`can_${o.op} ${show([o.key,o.depth,o.ks,o.s&&B.ls(o.s)])} of ${show(v)} is ${can}`);
      is(got,want,()=>`${o.op} ${show([o.key,o.depth,o.ks,o.s&&B.ls(o.s),B.A(a)])} of ${show(v)}`);look(got,o.n2,junk);
      // requests that must be refused: judged on the model
      {const other=t.below(6)===0;const pb=other?(junk.size?B.lb(n,null):B.lb(o.n2,junk)):v;const kk=t.below(NK),dd=t.below(B.depth(n,kk)+2);const base=other&&!junk.size?o.n2:n;const valid=dd<=B.depth(base,kk);const same=!other||eq(pb,v);const q=P(pb,kk,dd);const tg=valid?B.at(base,kk,dd):null;
        is(soft(()=>q.m_valid())||false,valid,()=>show(q)+'.valid()');
        if(valid){is(q.m_target(),B.LBr(B.A(tg.at),pb._disk_view),()=>`target of ${show(q)}`);const o2=t.below(NK);is(q.m_path_equiv(w.key(o2)),B.equiv(base,kk,dd,o2),()=>`path_equiv ${o2} of ${show(q)}`);is(q.m_i(),B.PP(B.pn(base),w.key(kk),dd),()=>`the view of ${show(q)}`);}
        const k2=t.below(5)?kk:t.below(NK);is(soft(()=>v.m_can_insert(w.key(k2),w.nop,q))||false,valid&&same&&k2===kk&&B.isL(tg),()=>`can_insert(${k2}) along ${show(q)}`);
        let ks=t.list(0,3,()=>t.below(NK));if(t.below(4))ks=[...new Set(ks)].sort((x,y)=>x-y);if(t.below(3)&&ks.length)ks[0]=kk;const ms=ks.map(()=>w.nop);if(t.below(8)===0)ms.push(w.nop);
        const wantA=ks.length>0&&ms.length===ks.length&&sorted(ks)&&valid&&same&&B.isL(tg)&&last(tg.ks)<ks[0]&&kk===ks[0]&&B.equiv(base,kk,dd,last(ks));is(soft(()=>v.m_can_append(B.K(ks),ms,q))||false,wantA,()=>`can_append ${show(ks)} along ${show(q)}`);
        const s={leaf:t.bool(),pivot:t.below(4)?kk:t.below(NK),j:t.below(3)};const fa=t.below(3)?a:t.below(w.ADDRS.length);const fresh=!used.has(fa);
        const wantS=valid&&same&&s.pivot===kk&&!B.isL(tg)&&B.splitOk(tg.kid[B.route(tg.piv,s.pivot)+1],s)&&fresh;is(soft(()=>v.m_can_split(B.A(fa),q,B.ls(s)))||false,wantS,()=>`can_split at ${show(B.A(fa))} by ${show(B.ls(s))} along ${show(q)}`);
        is(v.m_can_grow(B.A(fa)),fresh,()=>`can_grow at ${show(B.A(fa))} of ${show(v)}`);is(B.ls(s).m_i(),B.ps(s),()=>'the view of a split');c.label(wantA||wantS?'near miss accepted':'near miss rejected');}
      // damaged disks
      {const m=B.flat(o.n2);for(const [z,f] of junk)m.set(z,f);const ks=[...m.keys()];let root=o.n2.at;const z=t.pick(ks),f=Object.assign({},m.get(z));
        switch(t.below(7)){
          case 0:m.delete(z);break;
          case 1:if(f.kids){f.kids=f.kids.slice();f.kids[t.below(f.kids.length)]=t.pick(ks);m.set(z,f);}break;
          case 2:if(f.piv&&f.piv.length){f.piv=f.piv.slice();f.piv[t.below(f.piv.length)]=t.below(NK);m.set(z,f);}break;
          case 3:if(f.ks){f.ks=f.ks.slice();f.ks[t.below(f.ks.length)]=t.below(NK);m.set(z,f);}break;
          case 4:if(f.ks){f.ks=f.ks.slice(1);if(t.bool())f.ms=f.ms.slice(1);m.set(z,f);}else if(f.piv){f.piv=[...f.piv,t.below(NK)];m.set(z,f);}break;
          case 5:m.set(z,{sum:[1]});break;
          default:root=t.below(4)?t.pick(ks):t.below(w.ADDRS.length);}
        const y=B.lbf(root,m),iv=F.inv(root,m),wf=F.wf(root,m);is(y.m_wf(),wf,()=>`wf() of ${show(y)}`);is(y._disk_view.m_wf(),F.diskWf(m),()=>`wf() of the disk of ${show(y)}`);is(soft(()=>y.m_inv())||false,iv,()=>`inv() of ${show(y)}`);c.label(iv?'damage harmless':'damage noticed');
        if(wf)is(y.m_acyclic(),F.reach(root,m)!==null,()=>`acyclic() of ${show(y)}`);}
      // whole disks
      if(t.below(3)===0){const d1=v._disk_view,d2=want._disk_view;const ag=[...d1._entries].every(x=>!d2._entries.has(x)||eq(d1._entries.get(x),d2._entries.get(x)));is(d1.m_agrees_with_disk(d2),ag,()=>'agrees_with_disk');is(d1.m_is_sub_disk(d2),ag&&[...d1._entries].every(x=>d2._entries.has(x)),()=>'is_sub_disk');
        const mg=d1.m_merge_disk(d2),rm=d2.m_remove_disk(d1);is(mg,B.DV(DMap.of([...new Map([...[...d1._entries].map(x=>[B.id(x),d1._entries.get(x)]),...[...d2._entries].map(x=>[B.id(x),d2._entries.get(x)])])].map(([x,y])=>[B.A(x),y]))),()=>'merge_disk');is(rm,B.DV(DMap.of([...d2._entries].filter(x=>!d1._entries.has(x)).map(x=>[x,d2._entries.get(x)]))),()=>'remove_disk');
        const ch=[...d2._entries].filter(x=>!d1._entries.has(x)||!eq(d1._entries.get(x),d2._entries.get(x)));const ex=DSet.from(t.bool()?ch:ch.slice(1));is(d1.m_same_except(d2,ex),ch.every(x=>ex.has(x))&&[...d1._entries].every(x=>d2._entries.has(x)||ex.has(x)),()=>'same_except');}
      n=o.n2;B.walk(n,x=>used.add(x.at));if(B.size(n)>12)break;
    }
    c.nontrivial(k>=3&&!B.isL(n));c.sample(show(val(n)).slice(0,200));
  };
}
// ---------------------------------------------------------------- building a branch from a private allocator
// model: {sealed, n: tree|null, aux, sum, al: Map(au -> Set(page)), curr}
function builder(w,B){
  const P=w.P,Q='allocation_layer::';const AB=ty(P,Q+'AllocationBranch_v::AllocationBranch'),Ev=ty(P,Q+'AllocationBranch_v::BuildEvent'),MA=ty(P,Q+'MiniAllocator_v::MiniAllocator'),PA=ty(P,Q+'MiniAllocator_v::PageAllocator');
  const {PAGES}=w.lim;const auOf=i=>Math.floor(i/PAGES),X={AB,Ev,auOf};
  const next=fn(P,Q+'AllocationBranch_v::AllocationBranch::build_next');
  X.aus=l=>DSet.from([...l]);
  X.ma=m=>MA(DMap.of([...m.al].map(([au,s])=>[au,PA(DSet.from([]),DSet.from([...s].map(B.A)),au)])),m.curr===null?None:Some(m.curr));
  X.val=m=>AB(m.sealed,m.n?Some(B.lb(m.n,null,m.sealed&&!B.isL(m.n)?m.aux:undefined,m.sum)):None,X.ma(m));
  X.reserved=m=>[...m.al].filter(e=>e[1].size).map(e=>e[0]).sort((a,b)=>a-b);X.removable=m=>[...m.al].filter(e=>!e[1].size).map(e=>e[0]);
  X.free=m=>{const r=[];for(const [au,s] of m.al)for(let p=0;p<PAGES;p++)if(!s.has(au*PAGES+p))r.push(au*PAGES+p);return r;};
  const alloc=(m,a)=>{const al=new Map(m.al);const s=new Set(al.get(auOf(a)));s.add(a);al.set(auOf(a),s);return {al,curr:s.size===PAGES?null:auOf(a)};};
  const prune=(o,aus)=>{const al=new Map([...o.al].filter(e=>!aus.includes(e[0])));return {al,curr:o.curr!==null&&aus.includes(o.curr)?null:o.curr};};
  X.fresh=()=>({sealed:false,n:null,aux:null,sum:null,al:new Map(),curr:null});
  X.start=aus=>Object.assign(X.fresh(),{al:new Map(aus.map(a=>[a,new Set()]))});
  // an event is allowed exactly when the model says so; the model also gives the only possible result (null = refused)
  X.apply=(m,e,al,de)=>{
    if(m.sealed)return null;if(e.k==='fill'){if(de.length||al.some(a=>m.al.has(a)))return null;const x=new Map(m.al);for(const a of al)x.set(a,new Set());return Object.assign({},m,{al:x});}
    if(al.length||e.k!=='seal'&&de.length)return null;const can=a=>m.al.has(auOf(a))&&!m.al.get(auOf(a)).has(a);
    if(e.k==='init'){if(X.reserved(m).length||!can(e.a)||!e.ks.length||e.ks.length!==e.ms.length||!sorted(e.ks))return null;return Object.assign({},m,{n:{ks:e.ks,ms:e.ms,at:e.a}},alloc(m,e.a));}
    if(!m.n)return null;
    const path=()=>e.depth<=B.depth(m.n,e.key)?B.at(m.n,e.key,e.depth):null;
    if(e.k==='append'){const g=path();if(!e.own||!g||!B.isL(g)||!e.ks.length||e.ks.length!==e.ms.length||!sorted(e.ks)||!(last(g.ks)<e.ks[0])||e.key!==e.ks[0]||!B.equiv(m.n,e.key,e.depth,last(e.ks)))return null;return Object.assign({},m,{n:B.put(m.n,e.key,e.depth,x=>Object.assign({},x,{ks:[...x.ks,...e.ks],ms:[...x.ms,...e.ms]}))});}
    if(e.k==='split'){const g=path();if(!e.own||!can(e.a)||!g||B.isL(g)||e.s.pivot!==e.key||!B.splitOk(g.kid[B.route(g.piv,e.key)+1],e.s))return null;return Object.assign({},m,{n:B.put(m.n,e.key,e.depth,x=>B.splitKid(x,e.s,e.a))},alloc(m,e.a));}
    const idx=!B.isL(m.n);if((e.a!==null)!==idx)return null;if(idx&&(!can(e.a)||de.includes(auOf(e.a))))return null;const rm=X.removable(m);if(rm.length!==de.length||rm.some(a=>!de.includes(a)))return null;
    const o=idx?alloc(m,e.a):{al:m.al,curr:m.curr};return Object.assign({},m,{sealed:true,aux:idx?e.a:null,sum:idx?X.reserved(m):null},prune(o,de));};
  X.ev=(m,e)=>{const path=()=>B.LP(e.own?X.val(m)._branch._0:B.lb(e.other,null),w.key(e.key),e.depth);
    switch(e.k){case 'fill':return Ev.AllocFill;case 'init':return Ev.Initialize(B.A(e.a),B.K(e.ks),e.ms);case 'append':return Ev.Append(B.K(e.ks),e.ms,path());case 'split':return Ev.Split(B.A(e.a),path(),B.ls(e.s));default:return Ev.Seal(e.a===null?None:Some(B.A(e.a)));}};
  X.next=(pre,post,e,al,de)=>soft(()=>next(pre,post,e,DSet.from(al),DSet.from(de)))===true;
  // a random event that is possible
  X.pick=(t,m,newAus)=>{const k=t.below(12);const fr=X.free(m);
    if(m.sealed)return null;
    if(k===0||!fr.length){const l=newAus();return l.length?[{k:'fill'},l,[]]:null;}
    if(!m.n){const x=startLeaf(w,t,0);const ks=t.bool()?x.ks.slice(0,3):x.ks;return [{k:'init',a:t.pick(fr),ks,ms:ks.map((_,i)=>x.ms[i])},[],[]];}
    if(k===1){const idx=!B.isL(m.n);const de=X.removable(m);const c=fr.filter(a=>!de.includes(auOf(a)));if(idx&&!c.length)return null;return [{k:'seal',a:idx?t.pick(c):null},[],de];}
    const o=B.op(t,m.n,t.pick(fr));if(!o||o.op==='insert'||o.op==='grow')return null;return [Object.assign({k:o.op,own:true},o),[],[]];};
  // a branch with an index at its root: any state that satisfies the invariant (the code has no event that adds a level)
  X.tall=(t,m)=>{let fr=X.free(m);if(fr.length<4)return m;const put=(x,a)=>{const o=Object.assign({},x,alloc(x,a));return o;};let a=t.pick(fr),y=put(m,a);y.n=startLeaf(w,t,a);const n=2+t.below(8);for(let i=0;i<n;i++){fr=X.free(y);if(fr.length<2)break;a=t.pick(fr);const o=B.op(t,y.n,i===0?a:a);if(!o)continue;if(o.op==='grow'||o.op==='split')y=put(y,a);y=Object.assign({},y,{n:o.n2});}return y;};
  // a random event that may or may not be possible
  X.odd=(t,m,e,al,de)=>{let z=Object.assign({},e);const any=()=>t.below(w.ADDRS.length);const near=()=>{const l=[...X.free(m),...[...m.al.values()].flatMap(s=>[...s])];return l.length&&t.below(4)?t.pick(l):any();};
    switch(t.below(6)){
      case 0:if('a' in z&&z.k!=='grow')z.a=z.a===null||z.k==='seal'&&t.below(4)===0?(z.a===null?near():null):near();break;
      case 1:if(z.ks){const i=t.below(z.ks.length);z.ks=z.ks.slice();if(t.bool())z.ks[i]=t.below(w.lim.nk);else if(t.bool())z.ks.splice(i,1);else z.ks.push(t.below(w.lim.nk));if(t.bool())z.ms=z.ks.map(()=>w.nop);}break;
      case 2:if('key' in z){if(t.bool())z.key=t.below(w.lim.nk);else z.depth=t.below(z.depth+2);}break;
      case 3:if(z.s)z.s={leaf:t.bool(),pivot:t.below(3)?z.key:t.below(w.lim.nk),j:t.below(3)};break;
      case 4:{const l=de.slice();const i=t.below(w.lim.AUS);if(l.includes(i))l.splice(l.indexOf(i),1);else l.push(i);de=t.bool()||!m.al.size?l:[...new Set([...de,t.pick([...m.al.keys()])])];break;}
      default:{const i=t.below(w.lim.AUS);al=al.includes(i)?al.filter(x=>x!==i):[...al,i];}}
    return [z,al,de];};
  return X;
}
function build({REPO}){
  const {w,B}=mkWorld(REPO);const X=builder(w,B),{F}=B;
  return (t,c)=>{
    w.ready();const aus=l=>{const r=[];for(let i=t.size(1,2);i>0;i--){const f=[...Array(w.lim.AUS).keys()].filter(a=>!l.has(a)&&!r.includes(a));if(f.length)r.push(t.pick(f));}return r;};
    let m=X.start(aus(new Map()));is(X.AB.new?X.val(m):X.val(m),X.val(m),()=>'');const mk=fn(w.P,'allocation_layer::AllocationBranch_v::AllocationBranch::new')(DSet.from([...m.al.keys()]));is(mk,X.val(m),()=>'a new branch');
    if(t.below(3))m=X.tall(t,X.start(aus(new Map()).concat(t.bool()?[]:[])));const len=t.size(3,16);let k=0;const past=[];
    for(let i=0;i<len;i++){
      const pre=X.val(m);
      const e=X.pick(t,m,()=>aus(m.al));
      if(e){const m2=X.apply(m,...e);check(m2!==null,()=>'the model refuses its own event '+show(X.ev(m,e[0])));const ev=X.ev(m,e[0]),post=X.val(m2);k++;c.label(e[0].k);c.log(()=>show([ev,e[1],e[2]]));
        check(X.next(pre,post,ev,e[1],e[2]),()=>`build_next refuses ${show(ev)} with ${show(e.slice(1))} from ${show(pre)} to ${show(post)}`);
        // the same step must not lead anywhere else, and related requests are judged by the model
        for(let j=0;j<4;j++){const z=X.odd(t,m,...e);if(z[0].s&&!z[0].s.leaf&&z[0].s.j<0)continue;if(z[0].own&&t.below(8)===0&&m2.n){z[0].own=false;z[0].other=m2.n===m.n?{ks:[0],ms:[w.nop],at:0}:m2.n;}
          const y=X.apply(m,...z);const evz=X.ev(m,z[0]);const goal=y&&t.below(3)?y:t.bool()?m2:m;const want=y!==null&&eq(X.val(y),X.val(goal));
          const got=X.next(pre,X.val(goal),evz,z[1],z[2]);check(got===want,()=>`build_next is ${got} for ${show(evz)} with ${show(z.slice(1))} from ${show(pre)} to ${show(X.val(goal))}`);c.label(want?'odd accepted':'odd refused');}
        m=m2;}
      else if(m.sealed||t.below(4)===0){ // nothing can be built on a sealed branch
        for(const e2 of past.slice(-3)){const y=X.apply(m,...e2);let ev;try{ev=X.ev(m,e2[0]);}catch(q){continue;}if(y===null)check(!X.next(X.val(m),X.val(m),ev,e2[1],e2[2]),()=>`build_next allows ${show(ev)} from ${show(X.val(m))}`);}}
      if(e)past.push(e);
      const v=X.val(m);is(soft(()=>v.m_inv()),true,()=>`inv() of ${show(v)}`);is(v.m_branch_sealed(),m.sealed,()=>'branch_sealed');
      // what the allocator says
      const ma=v._mini_allocator;const dom=x=>[...Array(w.lim.AUS).keys()].filter(a=>x.has(a));is(dom(ma.m_reserved_aus()),X.reserved(m),()=>'reserved_aus');is(dom(ma.m_removable_aus()),X.removable(m).sort((a,b)=>a-b),()=>'removable_aus');is(dom(ma.m_all_aus()),[...m.al.keys()].sort((a,b)=>a-b),()=>'all_aus');
      if(m.n){const rows=B.rows(m.n);const q=t.below(NK);is(v.m_branch_query(w.key(q)),rows.get(q)||w.nop,()=>`query ${q} of ${show(v)}`);
        if(m.sealed){const lb=v._branch._0;is(lb.m_valid_sealed_branch(),true,()=>`valid_sealed_branch of ${show(lb)}`);is(lb.m_tight_disk_view_with_summary(),true,()=>'tight_disk_view_with_summary');is(dom(lb.m_get_summary()),[...m.al.keys()].sort((a,b)=>a-b),()=>`get_summary of ${show(lb)}`);
          const fr=lb.m_full_repr(),all=new Set(B.flat(m.n,B.isL(m.n)?undefined:m.aux,m.sum).keys());w.ADDRS.forEach((a,i)=>is(fr.has(a),all.has(i),()=>`full_repr of ${show(lb)} at ${show(a)}`));
          // as a buffer: what is stored under a key, and whether anything is
          const bd=w.BD(lb._disk_view._entries),nd=lb._disk_view._entries.get(lb._root);for(let z=0;z<NK;z++){is(nd.m_linked_query(bd,lb._root,w.key(z)),rows.get(z)||w.nop,()=>`linked_query ${z} of ${show(lb)}`);is(nd.m_linked_contains(bd,lb._root,w.key(z)),rows.has(z),()=>`linked_contains ${z} of ${show(lb)}`);}
          const sb=nd.m_i(bd,lb._root);is(DMap.of(w.KEYS.filter(z=>sb._map.has(z)).map(z=>[z,sb._map.get(z)])),DMap.of([...rows].map(([z,x])=>[w.key(z),x])),()=>`the buffer of ${show(lb)}`);}
        // damaged branches
        const dm=damage(B,X,w,t,m);if(dm){const y=dm.v;const want=judge(B,X,w,y);is(soft(()=>y.m_inv())===true,want,()=>`inv() of ${show(y)}`);c.label(want?'damage harmless':'damage noticed');}}
    }
    c.nontrivial(k>=3&&m.n!==null&&!B.isL(m.n));c.sample(show(X.val(m)).slice(0,200));
  };
}
// one change to the pages or the allocator of a branch
function damage(B,X,w,t,m){
  const aux=m.sealed&&!B.isL(m.n);const f=B.flat(m.n,aux?m.aux:undefined,m.sum);const ks=[...f.keys()];let root=m.n.at;const z=t.pick(ks),g=Object.assign({},f.get(z));const y=Object.assign({},m,{al:new Map(m.al)});
  switch(t.below(8)){
    case 0:f.delete(z);break;
    case 1:if(g.aux!==undefined&&g.aux!==null){g.aux=t.bool()?null:t.pick(ks);f.set(z,g);}else if(g.sum){g.sum=t.bool()?g.sum.slice(1):[...g.sum,t.below(w.lim.AUS)];f.set(z,g);}break;
    case 2:{const a=t.below(w.ADDRS.length);if(!f.has(a))f.set(a,t.bool()?{ks:[1],ms:[w.nop]}:{sum:[1]});break;}
    case 3:{const au=t.pick([...y.al.keys()]);const s=new Set(y.al.get(au));if(s.size&&t.bool())s.delete([...s][0]);else s.add(au*w.lim.PAGES+t.below(w.lim.PAGES));y.al.set(au,s);break;}
    case 4:{const au=t.below(w.lim.AUS);if(y.al.has(au)&&au!==y.curr)y.al.delete(au);else if(!y.al.has(au))y.al.set(au,new Set());break;}
    case 5:if(g.ks){g.ks=g.ks.slice();g.ks[t.below(g.ks.length)]=t.below(NK);f.set(z,g);}else if(g.piv&&g.piv.length){g.piv=g.piv.slice();g.piv[t.below(g.piv.length)]=t.below(NK);f.set(z,g);}break;
    case 6:y.sealed=!y.sealed;break;
    default:root=t.pick(ks);}
  const ma=X.ma(y);return {v:X.AB(y.sealed,Some(B.lbf(root,f)),ma)};
}
// the invariant of a branch, decided from its value
function judge(B,X,w,v){
  const {F}=B,lb=v._branch._0,m=F.of(lb._disk_view),r=B.id(lb._root);const al=new Map([...v._mini_allocator._allocs].map(au=>[au,new Set([...v._mini_allocator._allocs.get(au)._reserved].map(B.id))]));
  if(!F.inv(r,m))return false;const reach=new Set(F.reach(r,m).keys()),root=m.get(r);const dom=new Set(m.keys());const same=(a,b)=>a.size===b.size&&[...a].every(x=>b.has(x));
  if(!v._sealed)return same(dom,new Set([...al.values()].flatMap(s=>[...s])))&&same(dom,reach);
  let sum;if(root.piv){if(root.aux===null||!m.has(root.aux)||!m.get(root.aux).sum)return false;sum=new Set(m.get(root.aux).sum);reach.add(root.aux);}else sum=new Set([X.auOf(r)]);
  if(!same(dom,reach)||!same(sum,new Set(al.keys())))return false;for(const a of reach)if(!sum.has(X.auOf(a)))return false;return true;
}
Object.assign(exports,{branches,mkWorld,startLeaf,builder});
exports.props={V05:{rule:'at least three operations that end with an index at the root',parts:{tree:{make:tree,weight:2},linked:{make:linked,weight:3},build:{make:build,weight:3}},quick:30,thorough:600,
  assumptions:['keys 0-9, up to 16 nodes, up to 14 operations']}};
