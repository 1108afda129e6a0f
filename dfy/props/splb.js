'use strict';
// D03: the tree layers of the Dafny Splinter model: paged, pivot and filtered Bε-trees.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES}=require('../externs.js');const {check,discard}=require('../pbt.js');
const {DMap,DSet}=$;const {machine,upd,perturb,Pool}=require('../sm.js');const N=Number,eq=$.eq;const show=x=>$.show?$.show(x).slice(0,600):String(x);
const KEYS=[[],[0],[1],[1,0],[2],[3]],VALS=[[],[7],[9]];
const cmpk=(a,b)=>{for(let i=0;i<a.length&&i<b.length;i++)if(a[i]!==b[i])return a[i]-b[i];return a.length-b.length;};
const cache=new Map();
function world(REPO){
  if(cache.has(REPO))return cache.get(REPO);
  const d=REPO+'/Splinter/Betree/';const P=new Program({externs:EX,types:TYPES,guess:true}).load(d+'FilteredBetreeRefinement.i.dfy',d+'PivotBetreeRefinement.i.dfy',d+'PagedBetreeRefinement.i.dfy');
  const m=n=>P.m(n);const W={P,H:m('MsgHistoryMod'),V:m('ValueMessage'),S:m('StampedMod'),A:m('AbstractMap'),B:m('BufferMod'),BS:m('BufferSeqMod'),MT:m('MemtableMod'),BO:m('BufferOffsetsMod'),OM:m('OffsetMapMod'),D:m('DomainMod'),SR:m('SplitRequestMod'),U:m('Upperbounded_Lexicographic_Byte_Order'),
    GB:m('PagedBetree'),PB:m('PivotBetree'),FB:m('FilteredBetree'),GR:m('PagedBetreeRefinement'),PR:m('PivotBetreeRefinement'),FR:m('FilteredBetreeRefinement')};
  W.step=null;W.setup=()=>{$.universes.length=0;$.universes.push(u=>{if(u&&(u.k==='int'||u.k==='nat'))return [...Array(26).keys()];if(u&&u.k==='dt'){if(/\.Step$/.test(u.cell.qname||''))return W.step?[W.step]:[];if(/\.?Element$/.test(u.cell.qname||""))return [...KEYS.map(W.E),W.E(null)];return null;}return KEYS;});};
  W.E=k=>k===null?W.U.Max_Element:W.U.Element(k);W.un=e=>e.$cn==='Max_Element'?null:Array.from(e._e);
  W.lt=(a,b)=>a===null?false:b===null?true:cmpk(a,b)<0; // keys, null = above all
  W.hist=(a,ms)=>W.H.MsgHistory(DMap.of(ms.map((x,i)=>[a+i,x])),a,a+ms.length);
  W.hok=h=>{const a=N(h._seqStart),b=N(h._seqEnd);if(a>b||h._msgs.size!==b-a)return false;for(let i=a;i<b;i++)if(!h._msgs.has(i))return false;return true;};
  W.msgs=h=>{const r=[];for(let i=N(h._seqStart);i<N(h._seqEnd);i++)r.push(h._msgs.get(i));return r;};
  W.def=v=>W.V.Define(v);W.nop=W.V.Update(W.V.NopDelta?(typeof W.V.NopDelta==='function'?W.V.NopDelta():W.V.NopDelta):null);
  W.merge=(nw,old)=>nw.$cn==='Define'?nw:old;
  W.msg=t=>t.below(5)===4?W.nop:W.def(t.pick(VALS));
  W.buf=l=>W.B.Buffer(DMap.of(l));W.bl=b=>[...b._mapp].map(k=>[k,b._mapp.get(k)]);
  W.keep=(b,f)=>W.buf(W.bl(b).filter(([k])=>f(k)));
  W.bget=(b,k)=>b._mapp.has(k)?b._mapp.get(k):W.nop;
  W.over=(nw,old)=>{const r=W.bl(old).filter(([k])=>!nw._mapp.has(k));for(const [k,v] of W.bl(nw))r.push([k,old._mapp.has(k)?W.merge(v,old._mapp.get(k)):v]);return W.buf(r);};
  W.seq=a=>W.BS.BufferSeq(a);
  W.flat=a=>a.reduce((x,b)=>W.over(b,x),W.buf([]));
  W.rbuf=t=>W.buf(DMap.of([...Array(t.below(4))].map(()=>[t.pick(KEYS),W.msg(t)])).size?[...new Set([...Array(t.below(4))].map(()=>t.below(KEYS.length)))].map(i=>[KEYS[i],W.msg(t)]):[]);
  cache.set(REPO,W);return W;}
function layer(W,kind){
  const {E,un,lt,buf,seq,bget,over,merge,keep,flat,hist,hok,msgs}=W;const M=kind==='pivot'?W.PB:W.FB,fil=kind==='filtered';const Nil=M.Nil;
  const L={M,kind,fil};
  const node=(b,pt,ch,of)=>fil?M.BetreeNode(seq(b),pt.map(E),ch,W.BO.BufferOffsets(of)):M.BetreeNode(seq(b),pt.map(E),ch);L.node=node;
  const nil=n=>n.$cn==='Nil',bufs=n=>Array.from(n._buffers._buffers),pts=n=>Array.from(n._pivotTable).map(un),kids=n=>Array.from(n._children),offs=n=>Array.from(n._flushedOffsets._offsets).map(N);Object.assign(L,{nil,bufs,pts,kids,offs});
  const lte=(a,b)=>!lt(b,a);const inD=(k,a,b)=>lte(a,k)&&lt(k,b);
  const local=n=>{if(nil(n))return true;const p=pts(n),c=kids(n);if(p.length<2)return false;for(let i=0;i+1<p.length;i++){if(p[i]===null||!lt(p[i],p[i+1]))return false;}if(c.length!==p.length-1)return false;return !fil||offs(n).length===c.length&&offs(n).every(x=>x>=0&&x<=bufs(n).length);};
  const dom=n=>{const p=pts(n);return [p[0],p[p.length-1]];};const sameD=(a,b)=>eq(E(a[0]),E(b[0]))&&eq(E(a[1]),E(b[1]));
  const ok=n=>{if(!local(n))return false;if(nil(n))return true;const p=pts(n),c=kids(n);return c.every((x,i)=>ok(x)&&(nil(x)||sameD(dom(x),[p[i],p[i+1]])));};L.ok=ok;L.dom=dom;
  const rt=(p,k)=>{let r=-1;for(let i=0;i+1<p.length;i++)if(inD(k,p[i],p[i+1]))r=i;return r;};const inN=(n,k)=>!nil(n)&&ok(n)&&rt(pts(n),k)>=0;
  const leaf=n=>!nil(n)&&kids(n).length===1&&nil(kids(n)[0])&&(!fil||offs(n).length===1&&offs(n)[0]===0);const index=n=>!nil(n)&&kids(n).every(c=>!nil(c));L.leaf=leaf;L.index=index;
  const act=(n,k)=>{const p=pts(n),i=rt(p,k);return fil?bufs(n).slice(offs(n)[i]):bufs(n);};
  const seen=(n,k)=>act(n,k).reduce((a,b)=>merge(bget(b,k),a),W.nop);L.seen=seen;
  L.read=(n,k)=>nil(n)?W.def([]):merge(seen(n,k),L.read(kids(n)[rt(pts(n),k)],k));
  const empty=(a,b)=>node([],[a,b],[Nil],[0]);const promote=(n,a,b)=>nil(n)?empty(a,b):n;
  const mk=(n,o)=>node(o.b||bufs(n),o.p||pts(n),o.c||kids(n),fil?(o.o||offs(n)):null);L.mk=mk;
  const ext=(n,bs)=>mk(n,{b:[...bufs(n),...bs]});
  L.push=(r,mt)=>ext(promote(r,[],null),[mt._buffer]);
  // along a path
  L.target=p=>{let n=p._node,d=N(p._depth);if(!inN(n,p._key))return null;while(d>0){if(!index(n))return null;n=kids(n)[rt(pts(n),p._key)];if(!inN(n,p._key))return null;d--;}return n;};
  const subst=(n,k,d,x)=>{if(d===0)return x;const c=kids(n),i=rt(pts(n),k);c[i]=subst(c[i],k,d-1,x);return mk(n,{c});};L.subst=(p,x)=>subst(p._node,p._key,N(p._depth),x);
  const cutB=(n,a,b)=>fil?bufs(n):bufs(n).map(x=>keep(x,k=>inD(k,a,b)));
  L.split=(n,r)=>{const i=N(r._childIdx),c=kids(n);if(!(i<c.length))return null;const x=c[i];if(nil(x))return null;const p=pts(n);let a,b,key;const [lo,hi]=dom(x);
    if(r.$cn==='SplitLeaf'){key=Array.from(r._splitKey);if(!leaf(x)||!inD(key,lo,hi)||cmpk(key,lo)===0)return null;a=node(cutB(x,lo,key),[lo,key],[Nil],[0]);b=node(cutB(x,key,hi),[key,hi],[Nil],[0]);}
    else{const j=N(r._childPivotIdx),q=pts(x);if(!index(x)||!(0<j&&j<q.length-1))return null;key=q[j];a=node(cutB(x,lo,key),q.slice(0,j+1),kids(x).slice(0,j),fil?offs(x).slice(0,j):null);b=node(cutB(x,key,hi),q.slice(j),kids(x).slice(j),fil?offs(x).slice(j):null);}
    return mk(n,{p:[...p.slice(0,i+1),key,...p.slice(i+1)],c:[...c.slice(0,i),a,b,...c.slice(i+1)],o:fil?[...offs(n).slice(0,i+1),...offs(n).slice(i)]:null});};
  L.flush=(n,i,gc)=>{const c=kids(n),p=pts(n);if(!(i<c.length))return null;const B=bufs(n);if(!fil){const d=k=>inD(k,p[i],p[i+1]);c[i]=ext(promote(c[i],p[i],p[i+1]),B.map(x=>keep(x,d)));return mk(n,{c,b:B.map(x=>keep(x,k=>!d(k)))});}
    const o=offs(n);const moved=B.slice(o[i]);o[i]=B.length;if(!o.every(x=>gc<=x))return null;c[i]=ext(promote(c[i],p[i],p[i+1]),moved);return node(B.slice(gc),p,c,o.map(x=>x-gc));};
  L.merged=(n,a,b)=>{const B=bufs(n),p=pts(n),o=offs(n);return flat(B.slice(a,b).map((x,i)=>keep(x,k=>{const r=rt(p,k);return (r<0?B.length:o[r])<=a+i;})));};
  L.compact=(n,st)=>{const B=bufs(n);if(!fil){const nb=Array.from(st._compactedBuffers._buffers);return eq(flat(nb),flat(B))?mk(n,{b:nb}):null;}
    const a=N(st._compactStart),b=N(st._compactEnd);if(!(a<b&&b<=B.length))return null;if(!eq(L.merged(n,a,b),st._compactedBuffer))return null;return node([...B.slice(0,a),st._compactedBuffer,...B.slice(b)],pts(n),kids(n),offs(n).map(x=>x<=a?x:x<b?a:x-(b-a)+1));};
  L.receipt=(r,k)=>{const ln=[];let n=r;const go=n=>{if(nil(n)){const z=M.QueryReceiptLine(n,W.def([]));ln.unshift(z);return z._result;}if(!inN(n,k))return null;const x=go(kids(n)[rt(pts(n),k)]);const z=M.QueryReceiptLine(n,merge(seen(n,k),x));ln.unshift(z);return z._result;};return ok(n)&&go(n)?M.QueryReceipt(k,r,ln):null;};
  L.mget=(s,k)=>bget(s._memtable._buffer,k);
  L.puts=(mt,h)=>{let l=W.bl(mt._buffer);for(const x of msgs(h)){const o=l.find(y=>eq(y[0],x._key));const v=merge(x._message,o?o[1]:W.nop);l=[...l.filter(y=>!eq(y[0],x._key)),[x._key,v]];}return W.MT.Memtable(buf(l),N(h._seqEnd));};
  L.posts=(s,l,st)=>{const x=s._root,lsn=N(s._memtable._seqEnd),int=l.$cn==='InternalLabel';const at=p=>{if(!eq(p._node,x))return null;return L.target(p);};const set=(p,y)=>y===null?[]:[upd(s,{root:L.subst(p,y)})];
    switch(st.$cn){
      case 'QueryStep':{if(l.$cn!=='QueryLabel'||N(l._endLsn)!==lsn||!ok(x))return [];const r=L.receipt(x,l._key);if(!r||!eq(r,st._receipt))return [];return eq(W.def(l._value),merge(L.mget(s,l._key),r._lines[0]._result))?[s]:[];}
      case 'PutStep':return l.$cn==='PutLabel'&&hok(l._puts)&&N(l._puts._seqStart)===lsn?[upd(s,{memtable:L.puts(s._memtable,l._puts)})]:[];
      case 'QueryEndLsnStep':return l.$cn==='QueryEndLsnLabel'&&N(l._endLsn)===lsn?[s]:[];
      case 'FreezeAsStep':return l.$cn==='FreezeAsLabel'&&ok(x)&&s._memtable._buffer._mapp.size===0&&eq(l._stampedBetree._value,x)&&N(l._stampedBetree._seqEnd)===lsn?[s]:[];
      case 'InternalGrowStep':return int&&ok(x)?[upd(s,{root:node([],[[],null],[x],[0])})]:[];
      case 'InternalFlushMemtableStep':return int&&ok(x)?[upd(s,{memtable:W.MT.Memtable(buf([]),lsn),root:L.push(x,s._memtable)})]:[];
      case 'InternalSplitStep':{if(!int)return [];const n=at(st._path);return n?set(st._path,L.split(n,st._request)):[];}
      case 'InternalFlushStep':{if(!int)return [];const n=at(st._path);return n?set(st._path,L.flush(n,N(st._childIdx),fil?N(st._bufferGCCount):0)):[];}
      case 'InternalCompactStep':{if(!int)return [];const n=at(st._path);return n?set(st._path,L.compact(n,st)):[];}
      case 'InternalNoOpStep':return int&&ok(x)?[s]:[];}
    return [];};
  L.ref=(s,n,l,st)=>L.posts(s,l,st).some(y=>eq(y,n));
  // a random tree
  L.tree=(t,lo,hi,d)=>{if(t.below(5)===4&&d<3)return Nil;const mid=KEYS.filter(k=>lt(lo,k)&&lt(k,hi)&&t.below(3)===0);const p=[lo,...mid,hi];const b=[...Array(t.below(3))].map(()=>W.rbuf(t));
    const lf=d<=0||t.below(3)===2;const c=lf?(t.below(2)?p.slice(1).map(()=>Nil):null):p.slice(1).map((_,i)=>L.tree(t,p[i],p[i+1],d-1));if(c===null)return node(b,[lo,hi],[Nil],[0]);const o=c.map(()=>t.below(b.length+1));if(lf&&c.length===1&&t.below(2))o[0]=0;return node(b,p,c,o);};
  L.depth=n=>nil(n)?0:1+Math.max(...kids(n).map(L.depth));
  L.size=n=>nil(n)?0:1+bufs(n).length+kids(n).reduce((a,c)=>a+L.size(c),0);
  L.path=(t,x)=>{const k=t.pick(KEYS);let n=x,d=0;if(nil(x))return null;while(index(n)&&t.below(3)&&d<3){n=kids(n)[rt(pts(n),k)];d++;}return M.Path(x,k,d);};
  const S=M;
  L.next=(t,s)=>{const go=(l,st)=>{const p=L.posts(s,l,st);return p.length?{n:p[0],l,step:st}:null;};const x=s._root,lsn=N(s._memtable._seqEnd),I=S.InternalLabel;
    for(let q=0;q<24;q++){let r=null;switch(t.weighted([[5,'put'],[4,'qry'],[.6,'end'],[1.5,'fre'],[1,'grow'],[3.5,'mem'],[4,'split'],[6,'flush'],[4,'comp'],[.4,'no']])){
      case 'put':{const n=t.below(4);if(lsn+n<20)r=go(S.PutLabel(hist(lsn,[...Array(n)].map(()=>W.H.KeyedMessage(t.pick(KEYS),W.msg(t))))),S.PutStep);break;}
      case 'qry':{const k=t.pick(KEYS),rc=L.receipt(x,k);if(rc)r=go(S.QueryLabel(lsn,k,merge(L.mget(s,k),rc._lines[0]._result)._value),S.QueryStep(rc));break;}
      case 'end':r=go(S.QueryEndLsnLabel(lsn),S.QueryEndLsnStep);break;
      case 'fre':r=go(S.FreezeAsLabel(W.S.Stamped(x,lsn)),S.FreezeAsStep);break;
      case 'grow':if(L.depth(x)<3)r=go(I,S.InternalGrowStep);break;
      case 'mem':if(L.size(x)<26)r=go(I,S.InternalFlushMemtableStep);break;
      case 'no':r=go(I,S.InternalNoOpStep);break;
      case 'split':{const p=L.path(t,x);if(!p||L.size(x)>26)break;const n=L.target(p);if(!n)break;const i=t.below(kids(n).length),c=kids(n)[i];if(nil(c))break;r=go(I,S.InternalSplitStep(p,leaf(c)?W.SR.SplitLeaf(i,t.pick(KEYS)):W.SR.SplitIndex(i,t.below(pts(c).length))));break;}
      case 'flush':{const p=L.path(t,x);if(!p)break;const n=L.target(p);if(!n||L.depth(x)>3&&t.bool()||L.size(x)>30)break;const i=t.below(kids(n).length);const o=fil?offs(n):[];if(fil)o[i]=bufs(n).length;r=go(I,fil?S.InternalFlushStep(p,i,t.below(Math.min(...o)+1)):S.InternalFlushStep(p,i));break;}
      case 'comp':{const p=L.path(t,x);if(!p)break;const n=L.target(p);if(!n)break;const B=bufs(n);if(fil){if(!B.length)break;const a=t.below(B.length),b=a+1+t.below(B.length-a);r=go(I,S.InternalCompactStep(p,a,b,L.merged(n,a,b)));}
        else{const w=flat(B);const nb=t.below(3)===0&&B.length>1?[flat(B.slice(0,1)),flat(B.slice(1))]:t.bool()?[w]:[keep(w,k=>k.length===0),keep(w,k=>k.length>0)];r=go(I,S.InternalCompactStep(p,seq(nb)));}break;}}
      if(r)return r;}
    return go(I,S.InternalNoOpStep);};
  L.tricks=(t,s)=>{const x=s._root,lsn=N(s._memtable._seqEnd),I=S.InternalLabel,out=[];if(!ok(x))return out;const put=(n,l,step)=>out.push({n,l,step});
    put(s,S.FreezeAsLabel(W.S.Stamped(x,lsn)),S.FreezeAsStep);put(s,S.FreezeAsLabel(W.S.Stamped(x,lsn+1)),S.FreezeAsStep);
    const k=t.pick(KEYS),rc=L.receipt(x,k);if(rc)for(const v of [...VALS,t.pick(VALS)]){put(s,S.QueryLabel(lsn,k,v),S.QueryStep(rc));if(rc._lines.length>1){const ls=rc._lines.slice();const i=t.below(ls.length);const y=upd(ls[i],{result:W.def(v)});ls[i]=y;put(s,S.QueryLabel(lsn,k,v),S.QueryStep(upd(rc,{lines:ls})));const cut=rc._lines.slice(0,-1);put(s,S.QueryLabel(lsn,k,v),S.QueryStep(upd(rc,{lines:cut})));put(s,S.QueryLabel(lsn,k,v),S.QueryStep(upd(rc,{lines:rc._lines.slice(1)})));
        // a receipt that reads as if the lower part of the tree held something else
        const up=rc._lines.map((z,j)=>j===rc._lines.length-1?upd(z,{result:W.def(v)}):z);for(let j=up.length-2;j>=0;j--)up[j]=upd(up[j],{result:merge(seen(up[j]._node,k),up[j+1]._result)});put(s,S.QueryLabel(lsn,k,merge(L.mget(s,k),up[0]._result)._value||[]),S.QueryStep(upd(rc,{lines:up})));}}
    const p0=L.path(t,x);if(p0){for(const p of [p0,upd(p0,{depth:N(p0._depth)+1})]){const n=L.target(p)||L.target(p0);if(!n)continue;
        for(let i=0;i<=kids(n).length;i++){for(const r of [W.SR.SplitLeaf(i,t.pick(KEYS)),W.SR.SplitIndex(i,t.below(4))])put(L.target(p)&&L.split(n,r)?upd(s,{root:L.subst(p,L.split(n,r))}):s,I,S.InternalSplitStep(p,r));
          if(fil){const g=t.below(bufs(n).length+2);const y=i<kids(n).length&&L.target(p)?(()=>{const o=offs(n),c=kids(n),P=pts(n),B=bufs(n);c[i]=ext(promote(c[i],P[i],P[i+1]),B.slice(o[i]));o[i]=B.length;return upd(s,{root:L.subst(p,node(B.slice(g),P,c,o.map(z=>Math.max(0,z-g))))});})():s;put(y,I,S.InternalFlushStep(p,i,g));}
          else put(s,I,S.InternalFlushStep(p,i));}
        const B=bufs(n);if(fil&&B.length&&L.target(p)){const a=t.below(B.length),b=t.below(B.length+1);if(a<=b){for(const c of [flat(B.slice(a,b)),L.merged(n,a,b),W.rbuf(t)])put(upd(s,{root:L.subst(p,node([...B.slice(0,a),c,...B.slice(b)],pts(n),kids(n),offs(n).map(z=>z<=a?z:z<b?a:z-(b-a)+1)))}),I,S.InternalCompactStep(p,a,b,c));}}
        if(!fil&&L.target(p)){const w=t.bool()?B.slice().reverse():[...B.slice(1),...B.slice(0,1)];for(const nb of [w,[flat(B),...B.slice(0,1)],B.slice(1)])put(upd(s,{root:L.subst(p,mk(n,{b:nb}))}),I,S.InternalCompactStep(p,seq(nb)));}}}
    return out;};
  return L;}
function make(kind){return ({REPO})=>{
  const W=world(REPO),L=layer(W,kind),LP=layer(W,'pivot');const {M}=L;const R=kind==='pivot'?W.PR:W.FR;const {GB,GR,PB,A}=W;
  const run=(s,n,l,st)=>M.NextStep(s,n,l,st)===true;
  const hn=h=>N(h._seqStart)>=0&&N(h._seqEnd)>=0&&N(h._seqEnd)<25&&[...h._msgs].every(k=>N(k)>=0&&N(k)<25);
  const isK=k=>KEYS.some(x=>eq(x,k));const tn=n=>L.nil(n)||L.bufs(n).every(b=>[...b._mapp].every(isK))&&L.pts(n).every(p=>p===null||isK(p))&&L.kids(n).every(tn)&&(!L.fil||L.offs(n).every(x=>x>=0));
  const typed=s=>{try{return N(s._memtable._seqEnd)>=0&&N(s._memtable._seqEnd)<25&&[...s._memtable._buffer._mapp].every(isK)&&tn(s._root);}catch(e){if(e instanceof TypeError)return false;throw e;}};
  const init=t=>{W.setup();const r=t.below(4)?L.tree(t,[],null,2):M.Nil;const z=W.S.Stamped(r,t.below(4));const s=M.Variables(W.MT.Memtable(W.buf([]),z._seqEnd),r);check(L.ok(r),'harness: bad tree');check(M.Init(s,z)===true,()=>`Init rejects ${show(z)}`);
    const pool=new Pool();pool.walk(s,'S');for(let i=0;i<2;i++){const y=perturb(t,s,'S',pool);if(typed(y)&&!eq(y,s))check(M.Init(y,z)!==true,()=>`Init accepts ${show(y)} for ${show(z)}`);}
    return s;};
  // the pivot tree a filtered tree stands for, and the paged tree a pivot tree stands for
  const lower=n=>{if(!L.fil)return n;if(L.nil(n))return PB.Nil;const p=L.pts(n),o=L.offs(n);const at=k=>{for(let i=0;i+1<p.length;i++)if(!W.lt(k,p[i])&&W.lt(k,p[i+1]))return i;return -1;};return LP.node(L.bufs(n).map((b,j)=>W.keep(b,k=>{const i=at(k);return i>=0&&o[i]<=j;})),p,L.kids(n).map(lower));};
  const sees=s=>KEYS.map(k=>W.merge(L.mget(s,k),L.nil(s._root)?W.def([]):L.read(s._root,k)));
  const pst=st=>{switch(st.$cn){case 'QueryStep':return PB.QueryStep(LP.receipt(lower(st._receipt._root),st._receipt._key));case 'InternalSplitStep':return PB.InternalSplitStep(ip(st._path),st._request);case 'InternalFlushStep':return PB.InternalFlushStep(ip(st._path),st._childIdx);
    case 'InternalCompactStep':{const n=LP.bufs(lower(L.target(st._path)));return PB.InternalCompactStep(ip(st._path),W.seq([...n.slice(0,N(st._compactStart)),st._compactedBuffer,...n.slice(N(st._compactEnd))]));}}return PB[st.$cn];};
  const ip=p=>PB.Path(lower(p._node),p._key,p._depth);
  const after=(s,n,l,st,t,c)=>{
    W.step=st;check(M.Next(s,n,l)===true,()=>`Next does not contain ${st.$cn}`);check(R.Inv(n)===true,()=>`Inv fails after ${st.$cn}: ${show(n)}`);
    const a=sees(s),b=sees(n);let want=a;if(l.$cn==='PutLabel'){want=a.slice();for(const x of W.msgs(l._puts)){const i=KEYS.findIndex(k=>eq(k,x._key));want[i]=W.merge(x._message,want[i]);}}
    check(eq(want,b),()=>`${st.$cn} from ${show(s)} changes what a reader sees from ${show(a)} to ${show(b)}`);
    // receipts that add up but do not describe the path of the key
    const maybe=f=>{try{return f()===true;}catch(e){if(e instanceof $.DafnyFail)return false;throw e;}};
    if(st.$cn==='QueryStep'&&t.below(2)){const k=l._key,root=s._root,rl=Array.from(st._receipt._lines),o=L.receipt(L.tree(t,[],null,2),k),ol=o?Array.from(o._lines):[];
      const sum=ls=>{const z=ls.slice();for(let j=z.length-1;j>=0;j--)z[j]=upd(z[j],{result:j===z.length-1||L.nil(z[j]._node)?W.def([]):W.merge(L.seen(z[j]._node,k),z[j+1]._result)});return z;};
      const cutAt=t.below(rl.length),out=[];if(cutAt)out.push(rl.slice(0,cutAt));out.push([...rl,rl[rl.length-1]],rl.filter((_,j)=>j!==cutAt));for(let j=0;j<rl.length;j++)out.push([...rl.slice(0,j),...ol.slice(Math.min(j,ol.length-1))]);
      for(const ls of out.filter(x=>x.length)){const f=sum(ls),v=W.merge(L.mget(s,k),f[0]._result)._value,rc=M.QueryReceipt(k,root,f),want=eq(rc,L.receipt(root,k));c.label(want?'receipt':'forged receipt');
        const g=maybe(()=>M.NextStep(s,s,M.QueryLabel(l._endLsn,k,v),M.QueryStep(rc)));check(g===want,()=>`${g?'accepts':'refuses'} the answer ${show(v)} for ${show(k)} by the receipt ${show(rc)} of ${show(s)}`);
        if(!L.fil&&ls.every(x=>L.ok(x._node))){const G=W.GB,I=x=>G.QueryReceiptLine(W.PR.INode(x._node),x._result),gr=G.QueryReceipt(k,W.PR.INode(root),f.map(I)),w=eq(gr,G.QueryReceipt(k,W.PR.INode(root),Array.from(L.receipt(root,k)._lines).map(I)));const gg=W.PR.I(s);
          const h=maybe(()=>G.NextStep(gg,gg,G.QueryLabel(l._endLsn,k,v),G.QueryStep(gr)));check(h===w,()=>`the paged tree ${h?'accepts':'refuses'} the answer ${show(v)} for ${show(k)} by the receipt ${show(gr)}`);}}}
    // one layer up
    let ps=s,pn=n,pl=l,pt=st;
    if(L.fil){const low=x=>PB.Variables(x._memtable,lower(x._root));ps=low(s);pn=low(n);check(eq(R.I(s),ps)&&eq(R.I(n),pn),()=>`I of ${show(n)} is ${show(R.I(n))}, not ${show(pn)}`);
      pl=R.ILbl(l);const wl=l.$cn==='FreezeAsLabel'?PB.FreezeAsLabel(W.S.Stamped(lower(l._stampedBetree._value),l._stampedBetree._seqEnd)):l.$cn==='PutLabel'?PB.PutLabel(l._puts):l.$cn==='QueryLabel'?PB.QueryLabel(l._endLsn,l._key,l._value):l.$cn==='QueryEndLsnLabel'?PB.QueryEndLsnLabel(l._endLsn):PB.InternalLabel;check(eq(pl,wl),()=>`label ${show(l)} becomes ${show(pl)}`);
      pt=R.IStepDefn(st);check(eq(pt,pst(st)),()=>`step ${show(st)} becomes ${show(pt)}`);if(st.$cn==='InternalFlushStep'){
        // a flush leaves no trace of a buffer it emptied here, and an empty one there: the trees agree but for empty buffers
        const bare=x=>LP.nil(x)?x:LP.node(LP.bufs(x).filter(b=>b._mapp.size>0),LP.pts(x),LP.kids(x).map(bare));
        const q=LP.posts(ps,pl,pt);check(q.length===1&&eq(q[0]._memtable,pn._memtable)&&eq(bare(q[0]._root),bare(pn._root)),()=>`${st.$cn} from ${show(s)} to ${show(n)} is no flush of the pivot tree`);pn=q[0];}
      check(PB.NextStep(ps,pn,pl,pt)===true,()=>`${st.$cn} of the filtered tree is no step of the pivot tree`);
      if(!L.nil(n._root))for(let i=0;i<L.bufs(n._root).length;i++)for(let j=0;j<L.kids(n._root).length;j++){const p=L.pts(n._root),on=L.offs(n._root)[j]<=i;const g=n._root._ActiveBufferKeysForChild(j,i);for(const k of KEYS)check(g.has(k)===(on&&!W.lt(k,p[j])&&W.lt(k,p[j+1])),()=>`ActiveBufferKeysForChild(${j},${i}) of ${show(n._root)}`);}}
    // which trees are well formed
    {const pool=new Pool();for(const z of [s,n])pool.walk(z,'S');for(let i=0;i<2;i++){const y=perturb(t,n,'S',pool);if(typed(y)){c.label(L.ok(y._root)?'perturbed tree, well formed':'perturbed tree, ill formed');check((y._WF()===true)===L.ok(y._root),()=>`WF of ${show(y)} is not ${L.ok(y._root)}`);}}}
    // the map it stands for
    const PR=W.PR,gs=PR.I(ps),gn=PR.I(pn);const am=x=>{const y=GR.I(x);return KEYS.map(k=>y._stampedMap._value.get(k));};
    if(t.below(2)){const x=am(gs),y=am(gn);check(eq(x,a)&&eq(y,b),()=>`the map of ${show(n)} is ${show(y)}, not ${show(b)}`);check(N(GR.I(gn)._stampedMap._seqEnd)===N(n._memtable._seqEnd),'end of the map');
      if(t.below(3)===0){const z=W.S.Stamped(gn._root,t.below(3)),i=GB.Variables(W.MT.Memtable(W.buf([]),z._seqEnd),gn._root);check(GB.Init(i,z)===true,()=>`the paged tree refuses to start from ${show(n)}`);for(const y of [upd(i,{root:gs._root}),gn,upd(i,{memtable:upd(i._memtable,{seqEnd:N(z._seqEnd)+1})}),upd(i,{memtable:n._memtable})])check(GB.Init(y,z)===eq(y,i),()=>`the paged tree starts from ${show(n)} as something else`);}
      const gl=PR.ILbl(pl),al=GR.ILbl(gl);check(A.Next(GR.I(gs),GR.I(gn),al)===true,()=>`${st.$cn} with ${show(l)} is no step of the abstract map`);
      if(l.$cn==='FreezeAsLabel')check(eq(KEYS.map(k=>al._stampedMap._value.get(k)),a),'the frozen tree stands for another map');
      check(maybe(()=>GB.NextStep(gs,gn,GB.InternalLabel,GB.InternalNoOpStep))===eq(gs,gn),()=>`the paged tree idles from ${show(s)} to ${show(n)}`);
      const gt=PR.IStep(pt);check(GB.NextStep(gs,gn,gl,gt)===true,()=>`${st.$cn} is no step of the paged tree`);
      // other outcomes are not steps of the paged tree
      if(!L.fil){const pool=new Pool();for(const z of [s,n])pool.walk(z,'S');for(let i=0;i<2;i++){const z=perturb(t,n,'S',pool);if(typed(z)&&L.ok(z._root)&&!eq(z,n)){const gz=PR.I(z);let g;try{g=GB.NextStep(gs,gz,gl,gt);}catch(e){if(e instanceof $.DafnyFail)continue;throw e;}check(g===eq(gz,gn),()=>`the paged tree ${g?'accepts':'refuses'} ${st.$cn} from ${show(s)} to ${show(z)}`);}}
        const gp=[];if(gl.$cn==='QueryLabel')for(const v of VALS)gp.push([GB.QueryLabel(gl._endLsn,gl._key,v),v]);for(const [q,v] of gp)check(GB.NextStep(gs,gn,q,gt)===eq(v,l._value),()=>`the paged tree answers ${show(q)}`);
        if(gl.$cn==='PutLabel'||gl.$cn==='QueryEndLsnLabel'||gl.$cn==='InternalLabel')for(const q of [GB.InternalLabel,GB.QueryEndLsnLabel(N(n._memtable._seqEnd)+1)])if(q.$cn!==gl.$cn||q.$cn==='QueryEndLsnLabel')check(GB.NextStep(gs,gn,q,gt)!==true,()=>`the paged tree takes ${gt.$cn} as ${show(q)}`);
        check(GB.NextStep(gs,gn,GB.FreezeAsLabel(W.S.Stamped(gs._root,s._memtable._seqEnd)),GB.FreezeAsStep)===(eq(gs,gn)&&s._memtable._buffer._mapp.size===0),()=>`the paged tree freezes ${show(s)}`);}}
  };
  return machine({setup:W.setup,init,valid:typed,next:L.next,ref:L.ref,run,perturbs:4,len:16,partial:true,tricks:L.tricks,seedPool:p=>{for(const v of VALS)p.add('Define_value',v);for(const k of KEYS)p.add('KeyedMessage_key',k);for(const l of [M.InternalLabel,M.QueryEndLsnLabel(3)])p.add('L',l);for(const k of [M.PutStep,M.InternalNoOpStep,M.FreezeAsStep,M.InternalGrowStep,M.InternalFlushMemtableStep])p.add('P',k);},after});
};}
// buffers, tables of offsets and key ranges, one function at a time
function parts({REPO}){
  const W=world(REPO);const {B,BS,BO,OM,D,MT}=W;
  return (t,c)=>{W.setup();const bs=[...Array(t.below(5))].map(()=>W.rbuf(t)),S=W.seq(bs),k=t.pick(KEYS),n=bs.length;c.nontrivial(n>1);
    const i=t.below(n+1),j=i+t.below(n-i+1);check(eq(S._Slice(i,j),W.seq(bs.slice(i,j))),'Slice');check(N(S._Length())===n,'Length');
    const q=a=>a.reduce((x,b)=>W.merge(W.bget(b,k),x),W.nop);check(eq(S._QueryFrom(k,i),q(bs.slice(i))),()=>`QueryFrom(${k},${i}) of ${show(S)}`);check(eq(S._Query(k),q(bs)),'Query');check(eq(S._I(),W.flat(bs)),()=>`I of ${show(S)} is ${show(S._I())}`);
    const T=[...Array(t.below(3))].map(()=>W.rbuf(t));check(eq(S._Extend(W.seq(T)),W.seq([...bs,...T])),'Extend');
    const om=KEYS.map(()=>t.below(n+2)),at=x=>om[KEYS.findIndex(y=>eq(y,x))];const im=OM.OffsetMap(new $.IMap(()=>true,x=>at(x),KEYS));
    check(eq(S._IFiltered(im),W.flat(bs.map((b,z)=>W.keep(b,x=>at(x)<=z)))),()=>`IFiltered of ${show(S)} with ${om}`);
    const d=t.below(4),dm=im._Decrement(d);for(const x of KEYS)check(N(dm._offsets.get(x))===Math.max(0,at(x)-d),()=>`Decrement(${d}) of ${om}`);for(const x of KEYS){check(im._FilterForBottom().has(x)===(at(x)===0),'FilterForBottom');check(N(im._Get(x))===at(x),'OffsetMap.Get');}
    const acc=KEYS.filter(()=>t.bool());const dom=D.Domain(W.E(t.pick(KEYS)),W.E(t.below(4)?t.pick(KEYS):null)),lo=W.un(dom._start),hi=W.un(dom._end);for(const x of KEYS){const w=!W.lt(x,lo)&&W.lt(x,hi);check(dom._Contains(x)===w&&dom._KeySet().has(x)===w,()=>`${show(dom)} contains ${x}`);}check(dom._WF()===W.lt(lo,hi),()=>`WF of ${show(dom)}`);
    check(eq(S._ApplyFilter(dom._KeySet()),W.seq(bs.map(b=>W.keep(b,x=>!W.lt(x,lo)&&W.lt(x,hi))))),'ApplyFilter');
    const os=[...Array(1+t.below(4))].map(()=>t.below(n+1)),O=BO.BufferOffsets(os),m=os.length,z=t.below(m);const arr=x=>Array.from(x._offsets).map(N).join();
    check(N(O._Get(z))===os[z]&&N(O._Size())===m,'Get');check(O._BoundedBy(i)===os.every(x=>x<=i),()=>`${os} bounded by ${i}`);check(arr(O._Slice(0,z))===os.slice(0,z).join(),'offsets slice');check(arr(O._Split(z))===[...os.slice(0,z+1),...os.slice(z)].join(),()=>`Split(${z}) of ${os}`);
    const cg=os.every(x=>d<=x);check(O._CanCollectGarbage(d)===cg,()=>`CanCollectGarbage(${d}) of ${os}`);if(cg)check(arr(O._CollectGarbage(d))===os.map(x=>x-d).join(),()=>`CollectGarbage(${d}) of ${os}`);check(arr(O._AdvanceIndex(z,n))===os.map((x,y)=>y===z?n:x).join(),'AdvanceIndex');
    if(i<j)check(arr(O._OffSetsAfterCompact(i,j))===os.map(x=>x<=i?x:x<j?i:x-(j-i)+1).join(),()=>`OffSetsAfterCompact(${i},${j}) of ${os}`);
    if(n>1){const x=bs[0],y=bs[1];check(eq(x._Merge(y),W.over(x,y)),()=>`${show(x)} merged over ${show(y)}`);check(eq(x._Query(k),W.bget(x,k)),'Buffer.Query');}
    const mt=MT.Memtable(W.rbuf(t),t.below(5)),h=W.hist(N(mt._seqEnd),[...Array(t.below(4))].map(()=>W.H.KeyedMessage(t.pick(KEYS),W.msg(t))));const L=layer(W,'pivot');check(eq(mt._ApplyPuts(h),L.puts(mt,h)),()=>`${show(mt)} with ${show(h)}`);check(mt._IsEmpty()===(mt._buffer._mapp.size===0)&&eq(mt._Drain(),MT.Memtable(W.buf([]),mt._seqEnd))&&eq(mt._Query(k),W.bget(mt._buffer,k)),'memtable');
    c.sample(show(S).slice(0,100));};}
exports.props={D03:{rule:'a history of at least two steps; at least two buffers',parts:{pivot:{make:make('pivot'),weight:2},filtered:{make:make('filtered'),weight:2},parts:{make:parts,weight:.6}},quick:40,thorough:400,
  assumptions:['six keys, trees of depth up to five, log sequence numbers below 25']}};
