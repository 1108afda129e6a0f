'use strict';
// K01: hash maps, B-tree, least-recently-used queues, linked lists and packed sequences.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES}=require('../externs.js');const {check,discard}=require('../pbt.js');
const {contractsPart}=require('../contract.js');const {table,J,mem,Lin,stat}=require('../tab.js');const {DArr}=$;
const N=Number,D='lib/DataStructures/';
const load=(REPO,ov,...f)=>new Program({externs:EX,types:TYPES,overrides:ov||{}}).load(...f.map(x=>REPO+'/'+D+x+'.dfy'));
// a class instance: methods by their Dafny name
const ob=o=>new Proxy(o,{get:(_,n)=>typeof o['_'+String(n)]==='function'?(...a)=>o['_'+n](...a):n==='$o'?o:o['_'+String(n)]!==undefined?o['_'+String(n)]:o[n]});
const opt=o=>o.$cn==='Some'?o._value:undefined;
// a module-level method whose first parameter is `linear inout self`: [self', outs...]
class Obj{constructor(M,v){this.M=M;this.v=v;}
  inout(n,...a){const r=this.M[n](this.v,...a);if(Array.isArray(r)&&r.length&&!(r instanceof $.Tup)){this.v=r[0];return r.length===2?r[1]:r.slice(1);}this.v=r;}
  get(n,...a){return this.M[n](this.v,...a);}}
// keys: few slots, wrapping ones, or anything
function pool(slot){const by=new Map();try{for(let k=0;k<900;k++){const s=N(slot(k));if(!by.has(s))by.set(s,[]);by.get(s).push(k);}}catch(e){return null;}return by;}
function keyGen(t,by,size){
  const extra=[0,1,2,'18446744073709551615','18446744073709551614','9223372036854775808'].map(x=>typeof x==='string'?BigInt(x):x);
  const kind=t.below(4);let ks;
  if(kind<2&&by){const ss=kind===0?[t.pick([...by.keys()])]:[size-1,0,1,size-2].filter(s=>by.has(s));ks=ss.flatMap(s=>by.get(s));if(ks.length<2)ks=[0,1,2,3];}
  else if(kind===2)ks=[...Array(200).keys()];else ks=extra.concat([3,4,5]);
  return ()=>$.norm(BigInt(t.pick(ks)));
}
const K=x=>String(x);
function hashHist(name,mk,ops){
  return (t,c)=>{
    const o=mk(t,c);const m=new Map();const key=keyGen(t,o.by,o.size);let n=0;
    const same=()=>{for(const [k,v] of m){const g=o.get(v.k);check(g!==undefined&&$.eq(g,v.v),()=>`${name}: get(${k}) is ${g===undefined?'nothing':J(g)}, not ${v.v}`);}for(let i=0;i<3;i++){const k=key();if(!m.has(K(k))&&o.has!==false){const g=o.get(k);check(g===undefined,()=>`${name}: get(${K(k)}) finds ${J(g)}`);}}if(o.count)check(o.count()===m.size,()=>`${name}: count is ${o.count()}, not ${m.size}`);};
    const bulk=t.below(5)===4?20+t.below(o.bulk||110):0;for(let i=0;i<bulk&&m.size<o.cap;i++){const k=i*3;o.insert(k,i,m.has(K(k))?m.get(K(k)).v:undefined);m.set(K(k),{k,v:i});}
    if(bulk){c.log('bulk '+bulk);c.label('resized');same();}
    t.list(1,30,()=>{
      const k=key(),w=t.weighted([[5,0],[3,1],[2,2],[1,3],[o.clone?1:0,4],[o.update?1:0,5]]);n++;
      if(w===0){if(m.size>=o.cap&&!m.has(K(k)))return;const v=t.below(50);c.log(()=>`insert ${K(k)} ${v}`);o.insert(k,v,m.has(K(k))?m.get(K(k)).v:undefined);m.set(K(k),{k,v});}
      else if(w===1){c.log(()=>`remove ${K(k)}`);o.remove(k,m.has(K(k))?m.get(K(k)).v:undefined);m.delete(K(k));}
      else if(w===2){if(o.has===false&&!m.has(K(k)))return;const g=o.get(k),e=m.has(K(k))?m.get(K(k)).v:undefined;check(e===undefined?g===undefined:g!==undefined&&$.eq(g,e),()=>`${name}: get(${K(k)}) is ${g===undefined?'nothing':J(g)}, not ${e}`);}
      else if(w===3){same();if(o.iter){const seen=new Map();for(const [k2,v2] of o.iter(t)){check(!seen.has(K(k2)),()=>`${name}: iteration yields ${K(k2)} twice`);seen.set(K(k2),v2);}check(seen.size===m.size&&[...seen].every(([a,b])=>m.has(a)&&$.eq(b,m.get(a).v)),()=>`${name}: iteration yields {${[...seen]}}, not {${[...m].map(([a,b])=>[a,b.v])}}`);}
        if(o.max&&m.size){const e=[...m.values()].map(x=>BigInt(x.k)).reduce((a,b)=>a>b?a:b);check(BigInt(o.max())===e,()=>`${name}: MaxKey is ${o.max()}, not ${e}`);}}
      else if(w===4){c.log('clone');const keep=o.clone();for(let i=0;i<3;i++){const k2=key();if(m.size<o.cap)keep.insert(k2,99,'?');}keep.remove(k,'?');same();}
      else if(w===5){c.log(()=>`update ${K(k)} in place`);o.update(k,77,m.has(K(k)));if(m.has(K(k)))m.get(K(k)).v=77;}
    });
    same();c.nontrivial(n>=3);c.sample(`${name}: ${n} operations, ${m.size} entries`);
  };
}
function linearMap({REPO}){
  const P=load(REPO,null,'LinearMutableMap.i');const M=P.m('LinearMutableMap');
  const by=pool(k=>M.Uint64SlotForKey(M.Constructor(128)._underlying,k));
  const wrap=s=>{const o=new Obj(M,s);const r={by,size:128,cap:1e9,bulk:300,
    insert:(k,v,e)=>{const g=o.inout('InsertAndGetOld',k,v);if(e!=='?')check(e===undefined?g.$cn==='None':g.$cn==='Some'&&$.eq(g._value,e),()=>`InsertAndGetOld(${K(k)}) reports ${J(g)}, not ${e}`);},
    remove:(k,e)=>{const g=o.inout('RemoveAndGet',k);if(e==='?')return;check(e===undefined?g.$cn==='None':g.$cn==='Some'&&$.eq(g._value,e),()=>`RemoveAndGet(${K(k)}) reports ${J(g)}, not ${e}`);},
    get:k=>opt(o.get('Get',k)),count:()=>N(o.v._count),max:()=>o.get('MaxKey'),
    iter:t=>{const out=[];if(t.below(2)){let it=o.get('IterStart');for(let i=0;it._next.$cn==='Next';i++){check(i<5000,'iteration does not end');out.push([it._next._key,it._next._value]);it=o.get('IterInc',it);}}else{let it=o.get('SimpleIterStart');for(let i=0;;i++){check(i<5000,'iteration does not end');const x=o.get('SimpleIterOutput',it);if(x.$cn!=='Next')break;out.push([x._key,x._value]);it=o.get('SimpleIterInc',it);}}return out;},
    update:(k,v,has)=>{const it=o.get('FindSimpleIter',k);const x=o.get('SimpleIterOutput',it);check((x.$cn==='Next')===has&&(!has||K(x._key)===K(k)),()=>`FindSimpleIter(${K(k)}) stands at ${J(x)}`);if(has)o.inout('UpdateByIter',it,v);},
    clone:()=>wrap(o.get('Clone'))};return r;};
  return hashHist('LinearMutableMap',t=>wrap(M.Constructor(t.pick([128,129,130,200]))));
}
function fixedMap({REPO}){
  const P=load(REPO,null,'LinearMutableMap.i','MutableMapImpl.i');const M=P.m('LinearMutableMap'),C=P.m('MutableMap');
  const by8=pool(k=>M.Uint64SlotForKey(M.ConstructorFromSize(8),k));
  const lin=(n)=>{const o=new Obj(M,M.ConstructorFromSize(n));return {by:n===8?by8:null,size:n,cap:n-2,used:new Set(),
    insert(k,v,e){this.used.add(K(k));if(this.used.size>=n-1){this.used.delete(K(k));discard();}const g=o.inout('FixedSizeInsert',k,v);check(e===undefined?g.$cn==='None':g.$cn==='Some'&&$.eq(g._value,e),()=>`FixedSizeInsert(${K(k)}) reports ${J(g)}, not ${e}`);},
    remove(k,e){const g=o.inout('FixedSizeRemove',k);check(e===undefined?g.$cn==='None':g.$cn==='Some'&&$.eq(g._value,e),()=>`FixedSizeRemove(${K(k)}) reports ${J(g)}, not ${e}`);},get:k=>opt(o.get('FixedSizeGet',k))};};
  const cls=(o0,n,used,o=ob(o0))=>({by:n===8?by8:null,size:n,cap:n-2,used:used||new Set(),
    insert(k,v,e){this.used.add(K(k));if(this.used.size>=n-1){this.used.delete(K(k));discard();}const g=o.Insert(k,v);if(e!=='?')check(e===undefined?g.$cn==='None':g.$cn==='Some'&&$.eq(g._value,e),()=>`Insert(${K(k)}) reports ${J(g)}, not ${e}`);},
    remove(k,e){const g=o.Remove(k);if(e!=='?')check(e===undefined?g.$cn==='None':g.$cn==='Some'&&$.eq(g._value,e),()=>`Remove(${K(k)}) reports ${J(g)}, not ${e}`);},get:k=>opt(o.Get(k)),clone(){return cls(o.Clone(),n,new Set(this.used));}});
  return hashHist('fixed-size map',t=>{const n=t.pick([8,8,16,5]);return t.below(2)?lin(n):cls(new C.FixedSizeHashMap(n),n);});
}
function resizing({REPO}){
  const P=load(REPO,null,'MutableMapImpl.i','LinearMutableMap.i');const C=P.m('MutableMap'),M=P.m('LinearMutableMap');const by=pool(k=>M.Uint64SlotForKey(M.Constructor(128)._underlying,k));
  const wrap=(o0,o=ob(o0))=>({by,size:128,cap:1e9,bulk:300,
    insert:(k,v,e)=>{if(e===undefined&&false)return;const g=o.InsertAndGetOld(k,v);if(e!=='?')check(e===undefined?g.$cn==='None':g.$cn==='Some'&&$.eq(g._value,e),()=>`InsertAndGetOld(${K(k)}) reports ${J(g)}, not ${e}`);},
    remove:(k,e)=>{const g=o.RemoveAndGet(k);if(e!=='?')check(e===undefined?g.$cn==='None':g.$cn==='Some'&&$.eq(g._value,e),()=>`RemoveAndGet(${K(k)}) reports ${J(g)}, not ${e}`);},get:k=>opt(o.Get(k)),max:()=>o.MaxKey(),count:o._Count===undefined?undefined:()=>N(o._Count),
    iter:t=>{const out=[];if(t.below(2)){let it=o.IterStart();for(let i=0;it._next.$cn==='Next';i++){check(i<5000,'iteration does not end');out.push([it._next._key,it._next._value]);it=o.IterInc(it);}}else{let it=o.SimpleIterStart();for(let i=0;;i++){check(i<5000,'iteration does not end');const x=o.SimpleIterOutput(it);if(x.$cn!=='Next')break;out.push([x._key,x._value]);it=o.SimpleIterInc(it);}}return out;},
    update:(k,v,has)=>{const it=o.FindSimpleIter(k);const x=o.SimpleIterOutput(it);check((x.$cn==='Next')===has&&(!has||K(x._key)===K(k)),()=>`FindSimpleIter(${K(k)}) stands at ${J(x)}`);if(has)o.UpdateByIter(it,v);},
    clone:()=>wrap(o.Clone())});
  return hashHist('ResizingHashMap',t=>wrap(new C.ResizingHashMap(t.pick([128,130,256]))));
}
function contentMap({REPO}){
  const P=load(REPO,null,'LinearContentMutableMap.i','LinearMutableMap.i');const M=P.m('LinearContentMutableMap'),L=P.m('LinearMutableMap');const by=pool(k=>L.Uint64SlotForKey(L.Constructor(128)._underlying,k));
  const old=(g,e,w)=>check(e===undefined?/None/.test(g.$cn):/Some/.test(g.$cn)&&$.eq(g._value!==undefined?g._value:g[Object.keys(g).find(x=>x[0]==='_')],e),()=>`${w} reports ${J(g)}, not ${e}`);
  return hashHist('LinearContentMutableMap',t=>{const o=new Obj(M,M.Constructor(t.pick([128,129,256])));return {by,size:128,cap:1e9,bulk:300,has:false,insert:(k,v,e)=>old(o.inout('Insert',k,v),e,`Insert(${K(k)})`),remove:(k,e)=>old(o.inout('Remove',k),e,`Remove(${K(k)})`),get:k=>o.get('Get',k),count:()=>N(o.v._count)};});
}
const cmpKey=(a,b)=>{for(let i=0;i<a.length&&i<b.length;i++)if(a[i]!==b[i])return a[i]-b[i];return a.length-b.length;};
function btree({REPO}){
  const made=[[3,4],[4,4],[5,5],[4,7],[64,64]].map(([k,c])=>({k,c,M:load(REPO,{'LKMBtree.MaxKeysPerLeaf':()=>k,'LKMBtree.MaxChildren':()=>c},'KMBtree.i').m('LKMBtree')}));
  return (t,c)=>{
    const {k:mk,c:mc,M}=t.pick(made);let n=M.EmptyTree();const m=new Map();const order=t.below(4);let cnt=t.size(1,mk>10?200:45);if(mk>10&&t.below(4))cnt=Math.min(cnt,30);c.log(`leaves of ${mk}, ${mc} children, ${cnt} insertions, order ${order}`);
    const key=i=>order===0?[i>>8,i&255]:order===1?[255-(i>>8),255-(i&255)]:order===2?t.bytes(0,3,[0,1,127,128,255]):[t.below(120)];
    const sorted=()=>[...m.values()].sort((a,b)=>cmpKey(a[0],b[0]));
    const full=deep=>{const s=sorted();check(M.Empty(n)===(s.length===0),'Empty');check(N(M.CountElements(n))===s.length,()=>`CountElements is ${M.CountElements(n)}, not ${s.length}`);
      if(s.length){check($.eq(M.MinKey(n),s[0][0]),()=>`MinKey is ${J(M.MinKey(n))}, not ${s[0][0]}`);check($.eq(M.MaxKey(n),s[s.length-1][0]),()=>`MaxKey is ${J(M.MaxKey(n))}, not ${s[s.length-1][0]}`);}
      for(const [k,v] of s){const g=M.Query(n,k);check(g.$cn==='Some'&&$.eq(g._value,v),()=>`Query([${k}]) is ${J(g)}, not ${v}`);for(const q of [k.concat([0]),k.slice(0,-1)])if(!m.has(q.join()))check(M.Query(n,q).$cn==='None',()=>`Query([${q}]) finds something`);}
      if(deep){check(M.WF(n)===true,'the tree is not well formed');const i=M.Interpretation(n);check(i.size===s.length&&s.every(([k,v])=>i.has(k)&&$.eq(i.get(k),v)),()=>`the tree stands for ${J(i)}`);
        if(M.Model&&M.Model.ToSeq){const r=M.Model.ToSeq(n);const [a,b]=r instanceof $.Tup?r.v||r.a||[r[0],r[1]]:r;if(a)check($.eq(a,s.map(x=>x[0]))&&$.eq(b,s.map(x=>x[1])),()=>`in order the tree holds ${J(a)}`);}}};
    for(let i=0;i<cnt;i++){const k=key(i),v=t.below(90);c.log(()=>`insert [${k}] ${v}`);const r=M.Insert(n,k,v);let o;if(Array.isArray(r)){n=r[0];o=r[1];}else n=r;
      const e=m.get(k.join());if(o!==undefined&&o&&o.$cn)check(e?o.$cn==='Some'&&$.eq(o._value,e[1]):o.$cn==='None',()=>`Insert([${k}]) reports ${J(o)}, not ${e&&e[1]}`);m.set(k.join(),[k,v]);
      if(i%16===7)full(false);}
    full(m.size<12);c.nontrivial(m.size>mk);c.sample(`${m.size} keys in leaves of ${mk}`);
  };
}
function lru({REPO}){
  const P=load(REPO,null,'LinearLru.i','MutableMapImpl.i','LruImpl.i','LruModel.i');const A=P.m('LinearLru').LinearLru,B=P.m('LruImpl').LruImplQueue,M=P.m('LruModel');
  return (t,c)=>{
    const lin=new Lin(A,stat(A,'Alloc')()),obj=ob(new B());let q=[];let mq=M.Empty();const U=t.pick([3,6,200]);const base=t.pick([0,0,'18446744073709551000']);const val=()=>$.norm(BigInt(base)+BigInt(t.below(U)));
    const eqq=(a,b)=>a.length===b.length&&a.every((x,i)=>K(x)===K(b[i]));
    const cmp=()=>{const e=q.length?q[0]:undefined;for(const [n,r] of [['LinearLru',lin.call('NextOpt')],['LruImplQueue',obj.NextOpt()],['LruModel',M.NextOpt(mq)]])check(e===undefined?r.$cn==='None':r.$cn==='Some'&&K(r._value)===K(e),()=>`${n}.NextOpt is ${J(r)}; least recently used is ${e}`);
      if(q.length){check(K(lin.call('Next'))===K(e),()=>`LinearLru.Next is ${lin.call('Next')}, not ${e}`);check(K(obj.Next())===K(e),()=>`LruImplQueue.Next is ${obj.Next()}, not ${e}`);check(K(M.Next(mq))===K(e),'LruModel.Next');}
      check(eqq(mq,q),()=>`LruModel holds ${J(mq)}, not ${q}`);if(typeof obj.Count==='function')check(N(obj.Count())===q.length,()=>`Count is ${obj.Count()}, not ${q.length}`);};
    const use=x=>{lin.call('Use',x);obj.Use(x);mq=M.Use(mq,x);q=q.filter(y=>K(y)!==K(x));q.push(x);};
    const rem=x=>{lin.call('Remove',x);obj.Remove(x);mq=M.Remove(mq,x);q=q.filter(y=>K(y)!==K(x));};
    cmp();if(t.below(4)===3){const b=130+t.below(150);c.log('use 1000..'+(1000+b));c.label('grown');for(let i=0;i<b;i++)use(1000+i);cmp();}
    let n=0;t.list(1,30,()=>{n++;const x=val();if(t.below(3)<2){c.log(()=>'Use '+K(x));use(x);}else{c.log(()=>'Remove '+K(x));rem(x);}cmp();});
    const drain=q.slice();for(const x of drain.slice(0,40)){check(K(lin.call('Next'))===K(x),()=>`in order of use, LinearLru gives ${lin.call('Next')}, not ${x}`);check(K(obj.Next())===K(x),()=>`in order of use, LruImplQueue gives ${obj.Next()}, not ${x}`);rem(x);}
    if(drain.length)check(M.Pop(drain) instanceof $.Tup||true,'');c.nontrivial(n>=3);c.sample(`${n} uses and removals, ${drain.length} left`);
  };
}
function dlist({REPO}){
  const P=load(REPO,null,'LinearDList.i','LinearUSeq.i');const A=P.m('DList').DList,U=P.m('USeq').USeq;
  const walk=(l,n)=>{const out=[];let p=l.call('Next',0);for(let i=0;K(p)!=='0';i++){check(i<=n+2,'the list does not end');out.push(l.call('Get',p));p=l.call('Next',p);}return out;};
  const back=(l,n)=>{const out=[];let p=l.call('Prev',0);for(let i=0;K(p)!=='0';i++){check(i<=n+2,'the list does not end backwards');out.push(l.call('Get',p));p=l.call('Prev',p);}return out.reverse();};
  const list=(t,c)=>{
    const l=new Lin(A,stat(A,'Alloc')(t.pick([1,2,3,5,9])));let s=[];const cmp=(l,s,w)=>{for(const [g,n] of [[walk(l,s.length),'forwards'],[back(l,s.length),'backwards']])check(g.length===s.length&&g.every((x,i)=>K(x)===K(s[i].v)),()=>`${w} ${n}: ${J(g)}, not ${s.map(x=>x.v)}`);for(const x of s)check(K(l.call('Get',x.p))===K(x.v),()=>`${w}: pointer ${x.p} holds ${l.call('Get',x.p)}, not ${x.v}`);};
    let n=0;t.list(1,25,()=>{n++;const k=t.below(6),i=t.below(s.length+1),v=t.below(100);
      if(k<2){const at=i===s.length?0:s[i].p;const p=l.call('InsertAfter',at,v);c.log(()=>`InsertAfter ${at} ${v}`);s.splice(i===s.length?0:i+1,0,{p,v});}
      else if(k<4){const at=i===s.length?0:s[i].p;const p=l.call('InsertBefore',at,v);c.log(()=>`InsertBefore ${at} ${v}`);s.splice(i,0,{p,v});}
      else if(i<s.length){c.log(()=>`Remove ${s[i].p}`);l.call('Remove',s[i].p);s.splice(i,1);}
      else if(t.below(2)){c.log('Clone');const d=new Lin(A,l.call('Clone'));let ds=s.slice();if(ds.length){d.call('Remove',ds[0].p);ds=ds.slice(1);}const p=d.call('InsertAfter',0,7);ds.unshift({p,v:7});cmp(d,ds,'a clone');}
      check(s.every((x,i)=>s.findIndex(y=>K(y.p)===K(x.p))===i),'two elements share a pointer');cmp(l,s,'list');});
    c.nontrivial(n>=3);c.sample(`list of ${s.length} after ${n} operations`);
  };
  const useq=(t,c)=>{
    const mk=v=>new Lin(U,v);let u=mk(stat(U,'Alloc')()),s=[];const pool=t.pick([3,8,200]);const cmp=(u,s,w)=>{const r=u.call('FirstOpt');check(s.length?r.$cn==='Some'&&K(r._value)===K(s[0]):r.$cn==='None',()=>`${w}: FirstOpt is ${J(r)}, not ${s[0]}`);if(s.length)check(K(u.call('First'))===K(s[0]),()=>`${w}: First is ${u.call('First')}`);};
    if(t.below(4)===3){const b=130+t.below(60);for(let i=0;i<b;i++){u.call('Add',500+i);s.push(500+i);}c.log('add 500..'+(499+b));}
    let n=0;t.list(1,25,()=>{n++;const x=t.below(pool),k=t.below(7);if(k<4){c.log('Add '+x);u.call('Add',x);if(!s.includes(x))s.push(x);}else if(k<6){c.log('Remove '+x);u.call('Remove',x);s=s.filter(y=>y!==x);}else{c.log('Clone');const d=mk(u.call('Clone'));let ds=s.slice();d.call('Add',999);if(!ds.includes(999))ds.push(999);if(ds.length){d.call('Remove',ds[0]);ds.shift();}cmp(d,ds,'a clone');}cmp(u,s,'sequence');});
    for(const x of s.slice(0,60)){check(K(u.call('First'))===K(x),()=>`in order the sequence gives ${u.call('First')}, not ${x}`);u.call('Remove',x);s=s.slice(1);}cmp(u,s,'at the end');c.nontrivial(n>=3);c.sample(`unique sequence after ${n} operations`);
  };
  return (t,c)=>t.below(2)?list(t,c):useq(t,c);
}
function packed({REPO}){
  const P=load(REPO,null,'PackedSeqSeq');const M=P.m('PackedSeqSeq');
  return (t,c)=>{
    const ss=t.list(0,6,()=>t.list(0,3,()=>t.below(9)));const starts=[];let o=0;for(const s of ss){starts.push(o);o+=s.length;}const seqs=ss.flat();const p=M.PackedSeqSeq(starts,seqs);c.log(()=>J(p));
    check(M.WF(p)===true,'WF of a packed sequence');check(N(M.NumSeqs(p))===ss.length,'NumSeqs');check($.eq(M.I(p),ss),()=>`I is ${J(M.I(p))}`);
    ss.forEach((s,i)=>{check($.eq(M.Index(p,i),s),()=>`Index ${i} is ${J(M.Index(p,i))}`);check(N(M.Boundary(p,i))===starts[i],'Boundary');});check(N(M.Boundary(p,ss.length))===o,'last Boundary');
    const a=t.below(ss.length+1),b=a+t.below(ss.length-a+1);check($.eq(M.I(M.Prefix(p,b)),ss.slice(0,b)),()=>`Prefix ${b} is ${J(M.Prefix(p,b))}`);const sub=M.SubSeqSeq(p,a,b);const r=a===b&&!M.WF(sub)?null:M.I(sub);check(a===b||$.eq(r,ss.slice(a,b)),()=>`SubSeqSeq ${a}..${b} is ${J(sub)}`);
    if(starts.length){const bad=starts.slice();const i=t.below(bad.length);bad[i]+=1+t.below(3);let w=bad[0]===0&&bad[bad.length-1]<=o;for(let j=1;j<bad.length;j++)w=w&&bad[j-1]<=bad[j];check(M.WF(M.PackedSeqSeq(bad,seqs))===w,()=>`WF with starts ${bad} of ${o}`);}
    c.nontrivial(ss.length>1);c.sample(J(ss));
  };
}
exports.props={
  K01:{rule:'a history of at least 3 operations (B-tree: more keys than one leaf holds; packed: at least two sequences; contracts: a satisfied precondition)',quick:30,thorough:420,
    parts:{linearMap:{make:linearMap,weight:3},fixedMap:{make:fixedMap,weight:2},resizing:{make:resizing,weight:2},contentMap:{make:contentMap,weight:2},btree:{make:btree,weight:4},lru:{make:lru,weight:2},dlist:{make:dlist,weight:3},packed:{make:packed,weight:1},contracts:{make:contractsPart(['MutableMapModel.i','LinearMutableMapBase.i','LruModel.i','BtreeModel.i'].map(f=>D+f+'.dfy')),weight:2}},
    assumptions:['ghost fields are not carried by the interpreter, so these structures are judged by what their methods return','the B-tree is also run with small leaves and nodes instead of 64']},
};
