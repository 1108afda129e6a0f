'use strict';
// P03: the block cache over a disk that may lose what was being written: the machine, the disk, and the graphs they stand for.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES}=require('../externs.js');const {check}=require('../pbt.js');
const {DMap,DSet,IMap}=$;const {machine,upd,perturb,Pool}=require('../sm.js');const N=Number,eq=$.eq,key=$.key;const show=x=>$.show?$.show(x).slice(0,600):String(x);
const cache=new Map();
const REFS=[0,1,2,3,4,5,6,7];
function world(REPO){
  if(cache.has(REPO))return cache.get(REPO);
  const P=new Program({externs:EX,types:TYPES,guess:true}).load(REPO+'/BlockCacheSystem/BetreeSystem_Refines_StatesViewPivotBetree.i.dfy');
  const m=n=>P.m(n);
  const W={P,C:m('BlockCache'),D:m('BlockDisk'),S:m('BlockSystem'),G:m('PivotBetreeGraph'),T:m('SectorType'),L:m('DiskLayout'),V:m('ViewOp'),U:m('UI'),O:m('Options'),A:m('AsyncSectorDiskModelTypes'),R:m('BlockSystem_Refines_StatesView'),BL:m('BucketsLib'),UB:m('Upperbounded_Lexicographic_Byte_Order'),VM:m('ValueMessage'),BS:m('BetreeSystem'),BC:m('BetreeCache'),RV:m('BetreeSystem_Refines_StatesViewPivotBetree'),SP:m('PivotBetreeSpec')};
  const {L,O,G,BL,UB,VM}=W;W.some=x=>O.Some(x);W.none=O.None;W.un=x=>x.$cn==='None'?null:x._value;
  const NB=2*1024*1024;
  const sup=2*4096,jb=64*1024*4096,itl=24*1024*1024;const it1=sup+jb,it2=it1+itl;const min=Math.ceil((it2+itl)/NB);
  W.nb=[0,1,2,3,4,5,6].map(i=>(min+i)*NB);W.it=[it1,it2];
  W.loc=(a,l)=>L.Location(a,l);
  W.okNode=l=>N(l._addr)%NB===0&&N(l._addr)>=min*NB&&N(l._len)<=NB;
  W.okIT=l=>(N(l._addr)===it1||N(l._addr)===it2)&&N(l._len)>0&&N(l._len)<=itl;
  W.over=(a,b)=>N(a._addr)+N(a._len)>N(b._addr)&&N(b._addr)+N(b._len)>N(a._addr);
  W.nodeLocs=[...W.nb.flatMap(a=>[W.loc(a,100),W.loc(a,4096)]),W.loc(W.nb[0],NB)];
  W.itLocs=W.it.flatMap(a=>[W.loc(a,8),W.loc(a,4096),W.loc(a,itl)]);
  W.badLocs=[W.loc(W.nb[0]+4096,100),W.loc(W.nb[0]-NB,100),W.loc(W.nb[1],NB+1),W.loc(it1,0),W.loc(it1+4096,8),W.loc(it2,itl+1),W.loc(0,4096),W.loc(sup,4096)];
  W.locs=[...W.nodeLocs,...W.itLocs,...W.badLocs];
  W.setup=()=>{$.universes.length=0;$.universes.push(u=>{if(!u)return null;if(u.k==='dt'&&/Location$/.test(u.cell.qname||''))return W.locs;if(u.k==='dt'&&/\.Step$/.test(u.cell.qname||''))return W.steps||[];if(u.k==='seq')return W.paths||null;if(u.name==='uint64')return REFS;if(u.k==='im')return [];return null;});};
  // nodes: a leaf with a tag, or an inner node with children
  const memo=new Map();
  W.node=(ch,tag)=>{const kk=ch.join()+'/'+tag;let n=memo.get(kk);if(!n){const c=Math.max(1,ch.length);const pt=[...Array(c)].map((_,i)=>UB.Element(i?[i]:[])).concat([UB.Max_Element]);
    n=G.Node(pt,[...Array(c)].map(()=>W.none),ch.length?W.some(ch):W.none,[...Array(c)].map((_,i)=>i?BL.Bucket([],[]):BL.Bucket([[0]],[VM.Define([tag])])));memo.set(kk,n);}return n;};
  W.kids=n=>n._children.$cn==='Some'?[...new Set(Array.from(n._children._value).map(N))]:[];
  W.im=ps=>new IMap(()=>false,null,{k:'im'},new Map(ps.map(([k,v])=>[key(k),[k,v]])));
  W.pairs=m=>[...m.ov?m.ov.values():m.m.values()].map(e=>[e[0],e[1]]);
  W.imset=(m,k,v)=>W.im([...W.pairs(m).filter(([x])=>!eq(x,k)),[k,v]]);W.imdel=(m,k)=>W.im(W.pairs(m).filter(([x])=>!eq(x,k)));
  W.mdel=(m,k)=>DMap.of(W.pairs(m).filter(([x])=>!eq(x,k)));
  // tables
  W.table=(locs,graph)=>W.T.IndirectionTable(DMap.of(locs),DMap.of(graph));
  const vals=m=>W.pairs(m).map(p=>p[1]);W.vals=vals;
  W.graphOk=it=>it._graph.has(0)&&vals(it._graph).every(s=>Array.from(s).every(r=>it._graph.has(r)));
  W.complete=it=>vals(it._locs).every(W.okNode)&&eq(it._graph._Keys,it._locs._Keys)&&W.graphOk(it);
  W.distinct=it=>{const a=vals(it._locs).map(l=>N(l._addr));return new Set(a).size===a.length;};
  W.okAlloc=(s,loc)=>{const a=N(loc._addr);const t=[s._persistentIndirectionTable,s._ephemeralIndirectionTable];if(s._frozenIndirectionTable.$cn==='Some')t.push(s._frozenIndirectionTable._value);return t.every(x=>vals(x._locs).every(l=>N(l._addr)!==a))&&vals(s._outstandingBlockWrites).every(w=>N(w._loc._addr)!==a);};
  // graphs, as maps ref -> node; null when something is missing
  W.gDisk=(it,nodes)=>{if(!W.complete(it))return null;const g=new Map();for(const [r,l] of W.pairs(it._locs)){if(!nodes.has(l))return null;g.set(N(r),nodes.get(l));}return g;};
  W.gCache=(it,nodes,c)=>{for(const l of vals(it._locs))if(!nodes.has(l))return null;const g=new Map();for(const r of it._graph){if(it._locs.has(r))g.set(N(r),nodes.get(it._locs.get(r)));else if(c.has(r))g.set(N(r),c.get(r));else return null;}return g;};
  const setEq=(a,b)=>{const x=new Set(a),y=new Set(b);return x.size===y.size&&[...x].every(v=>y.has(v));};W.setEq=setEq;
  W.succOk=(it,g)=>eq(it._graph._Keys,DSet.from(g.keys()))&&W.pairs(it._graph).every(([r,s])=>setEq(Array.from(s).map(N),W.kids(g.get(N(r)))));
  W.closed=g=>[...g.values()].every(n=>W.kids(n).every(r=>g.has(r)));
  W.atLoc=(s,loc)=>{const d=s._disk;if(!W.okIT(loc)||!d._indirectionTables.has(loc))return null;const it=d._indirectionTables.get(loc);const g=W.gDisk(it,d._nodes);return g&&W.succOk(it,g)&&W.closed(g)?g:null;};
  W.view=s=>{ // what the state stands for
    const m=s._machine,d=s._disk,v={disk:new Map(),per:null,frl:null,fr:null,eph:null};
    for(const l of W.locs){const g=W.atLoc(s,l);if(g)v.disk.set(key(l),g);}
    if(m.$cn==='Ready'){v.per=m._persistentIndirectionTableLoc;if(m._frozenIndirectionTableLoc.$cn==='Some'&&m._outstandingIndirectionTableWrite.$cn==='None')v.frl=m._frozenIndirectionTableLoc._value;
      if(m._frozenIndirectionTable.$cn==='Some')v.fr=W.gCache(m._frozenIndirectionTable._value,d._nodes,m._cache);v.eph=W.gCache(m._ephemeralIndirectionTable,d._nodes,m._cache);}
    else if(m.$cn==='LoadingIndirectionTable'){v.per=m._indirectionTableLoc;const it=W.okIT(v.per)&&d._indirectionTables.has(v.per)?d._indirectionTables.get(v.per):null;v.eph=it?W.gDisk(it,d._nodes):null;}
    return v;};
  W.gEq=(a,b)=>a===null||b===null?a===b:a.size===b.size&&[...a].every(([r,n])=>b.has(r)&&eq(b.get(r),n));
  W.im2g=x=>x===null?null:new Map(W.keysOf(x).map(r=>[N(r),x.get(r)]));
  W.keysOf=x=>[...x];
  W.gs=g=>g===null?'nothing':'{'+[...g].sort((a,b)=>a[0]-b[0]).map(([r,n])=>r+':'+W.kids(n)+'#'+Array.from(n._buckets)[0]._msgs.map(q=>q.$cn==='Define'?Array.from(q._value):'?')).join(' ')+'}';
  cache.set(REPO,W);return W;
}
const ALL=['StatesInternalOp','JournalInternalOp','FreezeOp','CleanUpOp','CrashOp'];
function makeMachine(W){
  const {C,D,S,V,U,some,none,un}=W;const isS=x=>x.$cn==='Some';
  const Z=(m,k,v)=>m.set(k,v);
  const noDisk=D.NoDiskOp,internal=V.StatesInternalOp;
  const sub=(m,o)=>upd(m,o);
  // ---- the cache: the one successor of each step (or null), given everything the operations carry
  const post=(s,l,step)=>{
    const dop=l._0,vop=l._1,k=step.$cn,R=s.$cn==='Ready',no=null;
    const I=vop.$cn==='StatesInternalOp',nd=dop.$cn==='NoDiskOp';
    const fz=R&&isS(s._frozenIndirectionTable)?s._frozenIndirectionTable._value:null;
    const guarded=r=>!(fz&&fz._graph.has(r))||fz._locs.has(r);
    const assign=(it,r,loc)=>it._graph.has(r)&&!it._locs.has(r)?upd(it,{locs:Z(it._locs,r,loc)}):it;
    switch(k){
      case 'WriteBackNodeReqStep':{const r=step._ref;if(!I||dop.$cn!=='ReqWriteNodeOp'||!R||!s._cache.has(r))return no;const w=dop._reqWriteNode;if(!W.okNode(w._loc)||!eq(w._node,s._cache.get(r))||isS(s._outstandingIndirectionTableWrite)||!W.okAlloc(s,w._loc))return no;
        return sub(s,{ephemeralIndirectionTable:assign(s._ephemeralIndirectionTable,r,w._loc),frozenIndirectionTable:fz?some(assign(fz,r,w._loc)):none,outstandingBlockWrites:Z(s._outstandingBlockWrites,dop._id,C.OutstandingWrite(r,w._loc))});}
      case 'WriteBackNodeRespStep':if(!I||dop.$cn!=='RespWriteNodeOp'||!R||!s._outstandingBlockWrites.has(dop._id))return no;return sub(s,{outstandingBlockWrites:W.mdel(s._outstandingBlockWrites,dop._id)});
      case 'WriteBackIndirectionTableReqStep':{if(!I||dop.$cn!=='ReqWriteIndirectionTableOp'||!R||!fz)return no;const w=dop._reqWriteIndirectionTable;if(!W.okIT(w._loc)||!eq(w._indirectionTable,fz)||![...fz._graph].every(r=>fz._locs.has(r))||s._outstandingBlockWrites.size||isS(s._frozenIndirectionTableLoc)||W.over(w._loc,s._persistentIndirectionTableLoc))return no;
        return sub(s,{outstandingIndirectionTableWrite:some(dop._id),frozenIndirectionTableLoc:some(w._loc)});}
      case 'WriteBackIndirectionTableRespStep':if(!R||vop.$cn!=='SendFrozenLocOp'||!eq(some(vop._loc),s._frozenIndirectionTableLoc)||dop.$cn!=='RespWriteIndirectionTableOp'||!eq(s._outstandingIndirectionTableWrite,some(dop._id)))return no;return sub(s,{outstandingIndirectionTableWrite:none});
      case 'UnallocStep':{const r=step._ref;if(vop.$cn!=='AdvanceOp'||vop._uiop.$cn!=='NoOp'||!nd||!R)return no;const e=s._ephemeralIndirectionTable;if(!e._graph.has(r)||N(r)===0||W.vals(e._graph).some(q=>Array.from(q).some(x=>eq(x,r)))||!guarded(r)||W.vals(s._outstandingBlockReads).some(x=>eq(x._ref,r)))return no;
        return sub(s,{ephemeralIndirectionTable:upd(e,{locs:W.mdel(e._locs,r),graph:W.mdel(e._graph,r)}),cache:W.mdel(s._cache,r)});}
      case 'PageInNodeReqStep':{const r=step._ref;if(!I||dop.$cn!=='ReqReadNodeOp'||!R)return no;const e=s._ephemeralIndirectionTable;if(!e._graph.has(r)||!e._locs.has(r)||s._cache.has(r)||!eq(e._locs.get(r),dop._loc)||W.vals(s._outstandingBlockReads).some(x=>eq(x._ref,r)))return no;return sub(s,{outstandingBlockReads:Z(s._outstandingBlockReads,dop._id,C.OutstandingRead(r))});}
      case 'PageInNodeRespStep':{if(!I||dop.$cn!=='RespReadNodeOp'||!R||!s._outstandingBlockReads.has(dop._id))return no;const r=s._outstandingBlockReads.get(dop._id)._ref;const g=s._ephemeralIndirectionTable._graph;if(s._cache.has(r)||!isS(dop._node)||!g.has(r)||!W.setEq(Array.from(g.get(r)).map(N),W.kids(dop._node._value)))return no;return sub(s,{cache:Z(s._cache,r,dop._node._value),outstandingBlockReads:W.mdel(s._outstandingBlockReads,dop._id)});}
      case 'PageInIndirectionTableReqStep':if(!I||dop.$cn!=='ReqReadIndirectionTableOp'||s.$cn!=='LoadingIndirectionTable'||isS(s._indirectionTableRead)||!eq(dop._loc,s._indirectionTableLoc))return no;return sub(s,{indirectionTableRead:some(dop._id)});
      case 'PageInIndirectionTableRespStep':{if(!I||dop.$cn!=='RespReadIndirectionTableOp'||s.$cn!=='LoadingIndirectionTable'||!isS(dop._indirectionTable)||!eq(s._indirectionTableRead,some(dop._id)))return no;const it=dop._indirectionTable._value;if(!W.complete(it)||!W.distinct(it))return no;const e=DMap.of([]);return C.Ready(it,none,it,s._indirectionTableLoc,none,none,e,e,e);}
      case 'ReceiveLocStep':if(!nd||vop.$cn!=='SendPersistentLocOp'||!W.okIT(vop._loc)||s.$cn!=='Unready')return no;return C.LoadingIndirectionTable(vop._loc,none);
      case 'EvictStep':{const r=step._ref;if(!I||!R||!nd||!s._cache.has(r))return no;const e=s._ephemeralIndirectionTable;if(e._graph.has(r)&&(!e._locs.has(r)||W.vals(s._outstandingBlockWrites).some(w=>eq(w._ref,r)&&eq(w._loc,e._locs.get(r)))))return no;if(!guarded(r))return no;return sub(s,{cache:W.mdel(s._cache,r)});}
      case 'FreezeStep':if(vop.$cn!=='FreezeOp'||!R||!nd||isS(s._outstandingIndirectionTableWrite))return no;return sub(s,{frozenIndirectionTable:some(s._ephemeralIndirectionTable),frozenIndirectionTableLoc:none});
      case 'CleanUpStep':if(vop.$cn!=='CleanUpOp'||!R||!nd||isS(s._outstandingIndirectionTableWrite)||!isS(s._frozenIndirectionTableLoc)||!fz)return no;return sub(s,{persistentIndirectionTable:fz,persistentIndirectionTableLoc:s._frozenIndirectionTableLoc._value,frozenIndirectionTable:none,frozenIndirectionTableLoc:none});
      case 'NoOpStep':{if(!['StatesInternalOp','JournalInternalOp','PushSyncOp','PopSyncOp'].includes(vop.$cn))return no;const d=dop.$cn;
        const ok=nd||d==='RespReadIndirectionTableOp'||d==='RespReadNodeOp'||d==='RespWriteIndirectionTableOp'&&!(R&&eq(s._outstandingIndirectionTableWrite,some(dop._id)))||d==='RespWriteNodeOp'&&!(R&&s._outstandingBlockWrites.has(dop._id));return ok?s:no;}
    }
    return undefined;
  };
  // transactions: the successor up to the order of successor lists
  const runOps=(s,n,ops)=>{
    if(s.$cn!=='Ready')return null;const path=[s];let x=s;const fz=isS(s._frozenIndirectionTable)?s._frozenIndirectionTable._value:null;const ng=n.$cn==='Ready'?n._ephemeralIndirectionTable._graph:null;
    for(const o of ops){const r=o._ref,b=o._node,e=x._ephemeralIndirectionTable;const ks=W.kids(b);
      if(!ks.every(q=>e._graph.has(q)))return null;
      if(o.$cn==='WriteOp'){if(!x._cache.has(r)||!e._graph.has(r)||fz&&fz._graph.has(r)&&!fz._locs.has(r))return null;}else if(x._cache.has(r)||e._graph.has(r))return null;
      const sl=ng&&ng.has(r)&&W.setEq(Array.from(ng.get(r)).map(N),ks)?ng.get(r):ks;
      x=upd(x,{cache:Z(x._cache,r,b),ephemeralIndirectionTable:upd(e,{locs:o.$cn==='WriteOp'?W.mdel(e._locs,r):e._locs,graph:Z(e._graph,r,sl)})});path.push(x);}
    return path;};
  const refM=(s,n,l,step)=>{
    if(step.$cn==='TransactionStep'){if(l._1.$cn!=='AdvanceOp'||l._0.$cn!=='NoDiskOp'||s.$cn!=='Ready')return false;const p=runOps(s,n,Array.from(step._ops));return p!==null&&eq(p[p.length-1],n);}
    const p=post(s,l,step);return p!==null&&eq(p,n);};
  const same=(d,n,skip)=>['reqReadIndirectionTables','reqReadNodes','reqWriteIndirectionTables','reqWriteNodes','indirectionTables','nodes'].every(f=>f===skip||eq(d['_'+f],n['_'+f]));
  const refD=(d,n,dop)=>{
    const id=dop._id,k=dop.$cn;
    const add=(f,loc,also)=>!d['_'+f].has(id)&&eq(n['_'+f],Z(d['_'+f],id,loc))&&['reqReadIndirectionTables','reqReadNodes','reqWriteIndirectionTables','reqWriteNodes','indirectionTables','nodes'].every(g=>g===f||g===also||eq(d['_'+g],n['_'+g]));
    const ack=(f)=>d['_'+f].has(id)&&eq(n['_'+f],W.mdel(d['_'+f],id))&&same(d,n,f);
    const wr=(a,b,loc,v)=>b.has(loc)&&eq(b.get(loc),v)&&W.pairs(a).every(([x,y])=>W.over(x,loc)||b.has(x)&&eq(b.get(x),y));
    switch(k){
      case 'NoDiskOp':return same(d,n,'');
      case 'ReqReadIndirectionTableOp':return add('reqReadIndirectionTables',dop._loc);case 'ReqReadNodeOp':return add('reqReadNodes',dop._loc);
      case 'ReqWriteIndirectionTableOp':{const w=dop._reqWriteIndirectionTable;return add('reqWriteIndirectionTables',w._loc,'indirectionTables')&&wr(d._indirectionTables,n._indirectionTables,w._loc,w._indirectionTable);}
      case 'ReqWriteNodeOp':{const w=dop._reqWriteNode;return add('reqWriteNodes',w._loc,'nodes')&&wr(d._nodes,n._nodes,w._loc,w._node);}
      case 'RespReadIndirectionTableOp':{if(!ack('reqReadIndirectionTables'))return false;const loc=d._reqReadIndirectionTables.get(id),x=un(dop._indirectionTable);return x===null||d._indirectionTables.has(loc)&&eq(d._indirectionTables.get(loc),x);}
      case 'RespReadNodeOp':{if(!ack('reqReadNodes'))return false;const loc=d._reqReadNodes.get(id),x=un(dop._node);return x===null||d._nodes.has(loc)&&eq(d._nodes.get(loc),x);}
      case 'RespWriteIndirectionTableOp':return ack('reqWriteIndirectionTables');case 'RespWriteNodeOp':return ack('reqWriteNodes');
    }};
  const refCrash=(d,n)=>{
    for(const f of ['reqReadIndirectionTables','reqReadNodes','reqWriteIndirectionTables','reqWriteNodes'])if(n['_'+f].size)return false;
    const keep=(a,b,rq)=>W.pairs(a).every(([x,y])=>W.vals(rq).some(l=>W.over(l,x))||b.has(x)&&eq(b.get(x),y));
    return keep(d._indirectionTables,n._indirectionTables,d._reqWriteIndirectionTables)&&keep(d._nodes,n._nodes,d._reqWriteNodes);};
  const ref=(s,n,l,step)=>{
    if(step.$cn==='CrashStep')return l.$cn==='CrashOp'&&n._machine.$cn==='Unready'&&refCrash(s._disk,n._disk);
    const ll={_0:step._dop,_1:l};
    if(!refM(s._machine,n._machine,ll,step._machineStep)||!refD(s._disk,n._disk,step._dop))return false;
    return l.$cn!=='SendPersistentLocOp'||W.atLoc(s,l._loc)!==null;};
  const run=(s,n,l,step)=>{W.paths=null;if(step.$cn==='MachineStep'&&step._machineStep.$cn==='TransactionStep'){const p=runOps(s._machine,n._machine,Array.from(step._machineStep._ops));W.paths=p?[[...p.slice(0,-1),n._machine]]:[];}
    return S.NextStep(s,n,l,step);};
  // ---- generating steps
  const init=t=>{const loc=t.pick(W.itLocs);const nl=t.pick(W.nodeLocs);const tab=W.table([[0,nl]],[[0,[]]]);
    const junk=t.bool()?[[t.pick(W.nodeLocs.filter(x=>!W.over(x,nl))),W.node(t.bool()?[1]:[],9)]]:[];const jt=t.bool()?[[t.pick(W.itLocs.filter(x=>!W.over(x,loc))),W.table([[0,t.pick(W.nodeLocs)]],[[0,t.bool()?[]:[1]]])]]:[];
    const d=D.Variables(DMap.of([]),DMap.of([]),DMap.of([]),DMap.of([]),W.im([[loc,tab],...jt]),W.im([[nl,W.node([],1)],...junk]));
    W.start=loc;W.safe=[loc];return W.A.AsyncSectorDiskModelVariables(C.Unready,d);};
  const sys=(m,d)=>W.A.AsyncSectorDiskModelVariables(m,d);
  const diskPost=(t,d,dop)=>{
    const id=dop._id,Y=(f,v)=>upd(d,{[f]:v});
    switch(dop.$cn){
      case 'NoDiskOp':return d;
      case 'ReqReadIndirectionTableOp':return Y('reqReadIndirectionTables',Z(d._reqReadIndirectionTables,id,dop._loc));case 'ReqReadNodeOp':return Y('reqReadNodes',Z(d._reqReadNodes,id,dop._loc));
      case 'ReqWriteIndirectionTableOp':{const w=dop._reqWriteIndirectionTable;let m=d._indirectionTables;for(const [x] of W.pairs(m))if(!eq(x,w._loc)&&W.over(x,w._loc)&&t.bool())m=W.imdel(m,x);return upd(d,{reqWriteIndirectionTables:Z(d._reqWriteIndirectionTables,id,w._loc),indirectionTables:W.imset(m,w._loc,w._indirectionTable)});}
      case 'ReqWriteNodeOp':{const w=dop._reqWriteNode;let m=d._nodes;for(const [x] of W.pairs(m))if(!eq(x,w._loc)&&W.over(x,w._loc)){if(t.bool())m=W.imdel(m,x);else if(t.bool())m=W.imset(m,x,W.node([],8));}return upd(d,{reqWriteNodes:Z(d._reqWriteNodes,id,w._loc),nodes:W.imset(m,w._loc,w._node)});}
      case 'RespReadIndirectionTableOp':return Y('reqReadIndirectionTables',W.mdel(d._reqReadIndirectionTables,id));case 'RespReadNodeOp':return Y('reqReadNodes',W.mdel(d._reqReadNodes,id));
      case 'RespWriteIndirectionTableOp':return Y('reqWriteIndirectionTables',W.mdel(d._reqWriteIndirectionTables,id));case 'RespWriteNodeOp':return Y('reqWriteNodes',W.mdel(d._reqWriteNodes,id));
    }};
  const crashDisk=(t,d)=>{
    const hav=(m,rq,junk)=>{let r=m;for(const [x] of W.pairs(m))if(W.vals(rq).some(l=>W.over(l,x))){const k=t.below(3);if(k===0)r=W.imdel(r,x);else if(k===1)r=W.imset(r,x,junk());}return r;};
    const e=DMap.of([]);return D.Variables(e,e,e,e,hav(d._indirectionTables,d._reqWriteIndirectionTables,()=>W.table([[0,t.pick(W.nodeLocs)]],[[0,[]]])),hav(d._nodes,d._reqWriteNodes,()=>W.node(t.bool()?[2]:[],7)));};
  const fid=(t,m)=>{const f=[0,1,2,3,4].filter(i=>!m.has(i));return f.length?t.pick(f):null;};
  const mk=(s,t,dop,vop,ms,mp)=>{const m=mp||post(s._machine,{_0:dop,_1:vop},ms);if(!m)return null;if(refD===null)return null;return {n:sys(m,diskPost(t,s._disk,dop)),l:vop,step:S.MachineStep(dop,ms),name:ms.$cn};};
  const pickKids=(t,g,not)=>{const a=[...g].map(N).filter(r=>r!==0);const k=[];const c=t.below(4);for(let i=0;i<c;i++)if(a.length)k.push(t.pick(a));return [...new Set(k)];};
  const nexts=(t,s)=>{
    const m=s._machine,d=s._disk,out=[];const R=m.$cn==='Ready';
    const k=R?t.weighted([[5,'txn'],[7,'wb'],[5,'ack'],[4,'it'],[3,'freeze'],[4,'clean'],[3,'evict'],[4,'pagein'],[3,'unalloc'],[1,'noop'],[m._frozenIndirectionTableLoc.$cn==='Some'?2:0.6,'crash']]):m.$cn==='Unready'?t.weighted([[8,'recv'],[1,'noop'],[1,'crash']]):t.weighted([[8,'load'],[1,'noop'],[1,'crash']]);
    if(k==='crash')return {n:sys(C.Unready,crashDisk(t,d)),l:V.CrashOp,step:S.CrashStep,name:'CrashStep'};
    if(k==='recv'){const a=W.locs.filter(l=>W.atLoc(s,l));const c=W.safe.filter(l=>W.atLoc(s,l));if(!a.length)return null;const l=c.length&&t.below(8)?t.pick(c):t.pick(a);return mk(s,t,noDisk,V.SendPersistentLocOp(l),C.ReceiveLocStep);}
    if(k==='load'){if(!isS(m._indirectionTableRead)){const id=fid(t,d._reqReadIndirectionTables);return id===null?null:mk(s,t,D.ReqReadIndirectionTableOp(id,m._indirectionTableLoc),internal,C.PageInIndirectionTableReqStep);}
      const id=m._indirectionTableRead._value;const x=d._reqReadIndirectionTables.has(id)?d._indirectionTables.has(d._reqReadIndirectionTables.get(id))?d._indirectionTables.get(d._reqReadIndirectionTables.get(id)):null:null;if(x===null)return null;return W.complete(x)&&W.distinct(x)?mk(s,t,D.RespReadIndirectionTableOp(id,some(x)),internal,C.PageInIndirectionTableRespStep):null;}
    if(k==='noop'){
      const a=[noDisk];for(const id of d._reqReadNodes){const l=d._reqReadNodes.get(id);a.push(D.RespReadNodeOp(id,none));if(d._nodes.has(l))a.push(D.RespReadNodeOp(id,some(d._nodes.get(l))));}for(const id of d._reqReadIndirectionTables)a.push(D.RespReadIndirectionTableOp(id,none));
      for(const id of d._reqWriteNodes)if(!R||!m._outstandingBlockWrites.has(id))a.push(D.RespWriteNodeOp(id));for(const id of d._reqWriteIndirectionTables)if(!R||!eq(m._outstandingIndirectionTableWrite,some(id)))a.push(D.RespWriteIndirectionTableOp(id));
      return mk(s,t,t.pick(a),t.pick([internal,V.JournalInternalOp,V.PushSyncOp(t.below(3)),V.PopSyncOp(t.below(3))]),C.NoOpStep);}
    const e=m._ephemeralIndirectionTable;
    if(k==='txn'){
      const ops=[];let x=m;const c=t.below(8)===7?0:1+t.below(3);
      for(let i=0;i<c;i++){const g=x._ephemeralIndirectionTable._graph;const fz=isS(m._frozenIndirectionTable)?m._frozenIndirectionTable._value:null;const w=[...x._cache].filter(r=>g.has(r)&&!(fz&&fz._graph.has(r)&&!fz._locs.has(r)));const f=REFS.filter(r=>!g.has(r)&&!x._cache.has(r));
        const al=f.length>1&&t.bool()||!w.length;if(al&&!f.length)break;const r=al?t.pick(f):t.pick(w);const o=(al?W.G.AllocOp:W.G.WriteOp)(r,W.node(pickKids(t,g),1+t.below(6)));const p=runOps(m,m,[...ops,o]);if(!p)break;ops.push(o);x=p[p.length-1];}
      const uo=t.pick([U.NoOp,U.PutOp([1],[1])]);let q=x;if(q!==m&&t.below(4)===3){const ee=q._ephemeralIndirectionTable;const r=t.pick(ops)._ref;q=upd(q,{ephemeralIndirectionTable:upd(ee,{graph:Z(ee._graph,r,[...Array.from(ee._graph.get(r))].reverse())})});}
      return mk(s,t,noDisk,V.AdvanceOp(uo,t.bool()),C.TransactionStep(ops),q);}
    if(k==='wb'){const id=fid(t,new Set([...d._reqWriteNodes,...m._outstandingBlockWrites].map(N)));const cs=[...m._cache].filter(r=>t.below(5)===4||e._graph.has(r)&&!e._locs.has(r));const ls=W.nodeLocs.filter(l=>W.okAlloc(m,l));if(id===null||!cs.length||!ls.length)return null;const r=t.pick(cs);return mk(s,t,D.ReqWriteNodeOp(id,D.ReqWriteNode(t.pick(ls),m._cache.get(r))),internal,C.WriteBackNodeReqStep(r));}
    if(k==='ack'){if(isS(m._outstandingIndirectionTableWrite)&&t.bool()){const id=m._outstandingIndirectionTableWrite._value;if(!d._reqWriteIndirectionTables.has(id))return null;return mk(s,t,D.RespWriteIndirectionTableOp(id),V.SendFrozenLocOp(un(m._frozenIndirectionTableLoc)),C.WriteBackIndirectionTableRespStep);}
      const a=[...m._outstandingBlockWrites].filter(i=>d._reqWriteNodes.has(i));return a.length?mk(s,t,D.RespWriteNodeOp(t.pick(a)),internal,C.WriteBackNodeRespStep):null;}
    if(k==='it'){if(!isS(m._frozenIndirectionTable))return null;const ls=W.itLocs.filter(l=>!W.over(l,m._persistentIndirectionTableLoc));const id=fid(t,d._reqWriteIndirectionTables);return id===null?null:mk(s,t,D.ReqWriteIndirectionTableOp(id,D.ReqWriteIndirectionTable(t.pick(ls),m._frozenIndirectionTable._value)),internal,C.WriteBackIndirectionTableReqStep);}
    if(k==='freeze')return mk(s,t,noDisk,V.FreezeOp,C.FreezeStep);
    if(k==='clean')return mk(s,t,noDisk,V.CleanUpOp,C.CleanUpStep);
    if(k==='evict'){const a=[...m._cache];return a.length?mk(s,t,noDisk,internal,C.EvictStep(t.pick(a))):null;}
    if(k==='pagein'){const rs=[...m._outstandingBlockReads].filter(i=>d._reqReadNodes.has(i));if(rs.length&&t.bool()){const id=t.pick(rs),l=d._reqReadNodes.get(id);if(!d._nodes.has(l))return null;return mk(s,t,D.RespReadNodeOp(id,some(d._nodes.get(l))),internal,C.PageInNodeRespStep);}
      const a=[...e._locs].filter(r=>!m._cache.has(r));const id=fid(t,new Set([...d._reqReadNodes,...m._outstandingBlockReads].map(N)));if(!a.length||id===null)return null;const r=t.pick(a);return mk(s,t,D.ReqReadNodeOp(id,e._locs.get(r)),internal,C.PageInNodeReqStep(r));}
    if(k==='unalloc'){const a=[...e._graph].filter(r=>N(r)!==0);return a.length?mk(s,t,noDisk,V.AdvanceOp(U.NoOp,t.bool()),C.UnallocStep(t.pick(a))):null;}
    return null;};
  const next=(t,s)=>{for(let i=0;i<12;i++){const r=nexts(t,s);if(r)return r;}return null;};
  return {post,runOps,ref,run,init,next,nexts,crashDisk,sys,mk,noDisk,internal,refD,refM};
}
// what a step may do to the trees the state stands for
function semantics(W,v,w,l,step,how){
  const g=W.gs;const same=(a,b,what)=>check(W.gEq(a,b),()=>`${how}: the ${what} tree was ${g(a)} and is ${g(b)}`);
  const k=step.$cn==='CrashStep'?'CrashStep':step._machineStep.$cn;
  const kept=(loc,what)=>{if(loc===null)return;const a=v.disk.get(key(loc))||null,b=w.disk.get(key(loc))||null;check(a!==null,()=>`${how}: nothing readable at the ${what} location`);same(a,b,what+' on-disk');};
  if(v.per===null)for(const [kk,a] of v.disk)check(W.gEq(a,w.disk.get(kk)||null),()=>`${how}: an on-disk tree ${g(a)} is lost before loading`);
  kept(v.per,'persistent');kept(v.frl,'frozen');
  if(k==='CrashStep'){check(w.eph===null&&w.per===null&&w.fr===null,how+': something survives in memory');return;}
  if(k==='TransactionStep'){const e=v.eph?new Map(v.eph):null;if(e)for(const o of Array.from(step._machineStep._ops))e.set(N(o._ref),o._node);same(e,w.eph,'working');}
  else if(k==='UnallocStep'){const e=new Map(v.eph);e.delete(N(step._machineStep._ref));same(e,w.eph,'working');}
  else if(k==='ReceiveLocStep'){same(v.disk.get(key(l._loc))||null,w.eph,'working');check(eq(w.per,l._loc),how+': another location');}
  else if(v.per!==null||k!=='NoOpStep')same(v.eph,w.eph,'working');
  if(k==='FreezeStep'){same(v.eph,w.fr,'frozen');check(w.frl===null,how+': a frozen location');}
  else if(k==='CleanUpStep'){check(w.fr===null&&w.frl===null,how+': still frozen');check(eq(w.per,v.frl),how+': the persistent location is not the frozen one');}
  else{same(v.fr,w.fr,'frozen');
    if(k==='WriteBackIndirectionTableRespStep'){check(w.frl!==null&&eq(w.frl,l._loc),how+': another frozen location');same(v.fr,w.disk.get(key(l._loc))||null,'announced');}
    else if(!(v.frl===null&&w.frl===null))check(v.frl!==null&&w.frl!==null&&eq(v.frl,w.frl),how+': the frozen location changes');}
  if(k!=='CleanUpStep'&&k!=='ReceiveLocStep')check(v.per===null?w.per===null:w.per!==null&&eq(v.per,w.per),how+': the persistent location changes');
}
function codeView(W,s){
  const {R,un}=W;const dm=R.DiskGraphMap(s);const disk=new Map();for(const l of W.locs)if(dm.has(l))disk.set(key(l),W.im2g(dm.get(l)));
  const f=un(R.FrozenGraph(s)),e=un(R.EphemeralGraph(s));return {disk,per:un(R.PersistentLoc(s)),frl:un(R.FrozenLoc(s)),fr:f&&W.im2g(f),eph:e&&W.im2g(e)};
}
function sameView(W,a,b,how){
  const g=W.gs;check(a.disk.size===b.disk.size&&[...a.disk].every(([k,x])=>b.disk.has(k)&&W.gEq(x,b.disk.get(k))),()=>`${how}: the on-disk trees are ${[...b.disk.values()].map(g).join(' ')}, should be ${[...a.disk.values()].map(g).join(' ')}`);
  for(const f of ['fr','eph'])check(W.gEq(a[f],b[f]),()=>`${how}: the ${f==='fr'?'frozen':'working'} tree is ${g(b[f])}, should be ${g(a[f])}`);
  for(const f of ['per','frl'])check(a[f]===null?b[f]===null:b[f]!==null&&eq(a[f],b[f]),()=>`${how}: the ${f==='per'?'persistent':'frozen'} location is ${show(b[f])}, should be ${show(a[f])}`);
}
function steps({REPO}){
  const W=world(REPO);const M=makeMachine(W);const {S}=W;
  const truth=new WeakMap(),views=new WeakMap();const view=s=>{let v=views.get(s);if(!v)views.set(s,v=W.view(s));return v;};
  const inv=s=>{try{return S.Inv(s)===true;}catch(e){if(e instanceof $.DafnyFail)return false;throw e;}};
  return machine({setup:W.setup,init:t=>{W.setup();const s=M.init(t);
      // states that are nearly initial
      const isI=x=>{const d=x._disk;if(x._machine.$cn!=='Unready'||d._reqReadIndirectionTables.size||d._reqReadNodes.size||d._reqWriteIndirectionTables.size||d._reqWriteNodes.size)return false;const g=W.atLoc(x,W.start);return !!g&&g.size===1&&g.has(0)&&!W.kids(g.get(0)).length;};
      const d=s._disk,L=W.start,nl=t.pick(W.nodeLocs);const x=t.pick([s,upd(s,{machine:W.C.LoadingIndirectionTable(L,W.none)}),...['reqReadIndirectionTables','reqReadNodes','reqWriteIndirectionTables','reqWriteNodes'].map(f=>upd(s,{disk:upd(d,{[f]:DMap.of([[1,f.endsWith('Nodes')?nl:L]])})})),
        upd(s,{disk:upd(d,{nodes:W.im([[nl,W.node([],1)]])})}),upd(s,{disk:upd(d,{indirectionTables:W.im([[L,W.table([[0,nl],[1,nl]],[[0,[1]],[1,[]]])]])})}),upd(s,{disk:upd(d,{indirectionTables:W.im([[L,W.table([[0,nl]],[[0,[0]]])]]),nodes:W.im([[nl,W.node([0],1)]])})}),upd(s,{disk:upd(d,{indirectionTables:W.im([[t.pick(W.itLocs),W.table([[0,nl]],[[0,[]]])]]),nodes:W.im([[nl,W.node([],1)]])})})]);
      check((W.S.Init(x,L)===true)===isI(x),()=>`Init ${isI(x)?'rejects':'accepts'} ${show(x)} for ${show(L)}`);return s;},next:M.next,ref:M.ref,run:M.run,perturbs:5,len:60,partial:true,
    isInit:null,runInit:s=>{const ok=S.Init(s,W.start)===true;check(inv(s),'the invariant rejects the initial state');return ok;},
    seedPool:(pool,t)=>{for(const l of W.locs){pool.add('Locationaddr',l._addr);pool.add('Locationlen',l._len);for(const p of ['ReqReadNodeOploc','ReqReadIndirectionTableOploc','OutstandingWriteloc','SendPersistentLocOploc','SendFrozenLocOploc','ReqWriteNodeloc','ReqWriteIndirectionTableloc','Readypersistentindirectiontableloc','LoadingIndirectionTableindirectionTableLoc','ReadypersistentIndirectionTableLoc'])if(t.below(3)===0)pool.add(p,l);}
      for(const o of [W.V.StatesInternalOp,W.V.JournalInternalOp,W.V.FreezeOp,W.V.CleanUpOp,W.V.CrashOp,W.V.AdvanceOp(W.U.NoOp,false),W.V.AdvanceOp(W.U.PutOp([1],[1]),false),W.V.SendFrozenLocOp(W.itLocs[0]),W.V.SendFrozenLocOp(W.itLocs[3]),W.V.SendPersistentLocOp(W.itLocs[1]),W.V.PushSyncOp(1)])pool.add('L',o);
      for(const o of [W.D.NoDiskOp,W.D.RespWriteNodeOp(0),W.D.RespWriteNodeOp(1),W.D.RespWriteIndirectionTableOp(0),W.D.RespReadNodeOp(0,W.none)])pool.add('MachineStepdop',o);
      for(const o of [W.C.FreezeStep,W.C.CleanUpStep,W.C.NoOpStep,W.C.ReceiveLocStep,...[0,1,2,3].flatMap(r=>[W.C.EvictStep(r),W.C.UnallocStep(r)])])pool.add('MachineStepmachineStep',o);},
    tricks:(t,s)=>tricks(W,M,t,s),
    after:(s,n,l,step,t,c)=>{
      const v=view(s),w=view(n),k=step.$cn==='CrashStep'?'CrashStep':step._machineStep.$cn;c.label(k);
      if(k==='CrashStep')W.safe=[v.per,v.frl].filter(x=>x!==null).concat(v.per===null?W.safe:[]);
      const how=k;sameView(W,w,codeView(W,n),'after '+how);semantics(W,v,w,l,step,how);
      check(inv(n),()=>`the invariant fails after ${how}: ${show(n)}`);
      if(t.below(3)===2)refine(W,s,n,l,step,k);
      // the invariant is kept from any state that satisfies it
      if(t.below(2)){const pool=new Pool();for(const x of [s,n])pool.walk(x,'S');pool.walk(W.nodeLocs[t.below(8)],'Locationx');let x=perturb(t,n,'S',pool);if(t.bool())x=perturb(t,x,'S',pool);
        if(inv(x)){c.label('perturbed state satisfies the invariant');let tr=null;try{tr=M.next(t,x);}catch(e){if(!(e instanceof $.DafnyFail))throw e;}
          if(tr&&M.run(x,tr.n,tr.l,tr.step)===true){const kk=tr.name;check(inv(tr.n),()=>`${kk} from ${show(x)} breaks the invariant: ${show(tr.n)}`);semantics(W,W.view(x),W.view(tr.n),tr.l,tr.step,kk+' from a possible state');}}}
    }});
}
// whole steps that are likely wrong
function tricks(W,M,t,s){
  const {C,D,S,V,U,some,none,un}=W;const m=s._machine,d=s._disk,out=[];const isS=x=>x.$cn==='Some';
  const put=(mp,dop,vop,ms)=>{let dn;try{dn=diskForce(W,d,dop);}catch(e){return;}out.push({n:M.sys(mp,dn),l:vop,step:S.MachineStep(dop,ms)});};
  if(m.$cn==='Ready'){
    const e=m._ephemeralIndirectionTable;const ids=[0,1,2,3,4];const id=t.pick(ids);
    const r=t.pick([...m._cache].concat([...e._graph],[0]));
    if(t.bool()&&m._cache.has(r)){const loc=t.pick(W.locs.concat(W.vals(e._locs)));const as=it=>it._graph.has(r)&&!it._locs.has(r)?upd(it,{locs:it._locs.set(r,loc)}):it;
      put(upd(m,{ephemeralIndirectionTable:as(e),frozenIndirectionTable:isS(m._frozenIndirectionTable)?some(as(m._frozenIndirectionTable._value)):none,outstandingBlockWrites:m._outstandingBlockWrites.set(id,C.OutstandingWrite(r,loc))}),D.ReqWriteNodeOp(id,D.ReqWriteNode(loc,m._cache.get(r))),V.StatesInternalOp,C.WriteBackNodeReqStep(r));}
    if(isS(m._frozenIndirectionTable)){const loc=t.pick(W.itLocs.concat(W.badLocs));put(upd(m,{outstandingIndirectionTableWrite:some(id),frozenIndirectionTableLoc:some(loc)}),D.ReqWriteIndirectionTableOp(id,D.ReqWriteIndirectionTable(loc,m._frozenIndirectionTable._value)),V.StatesInternalOp,C.WriteBackIndirectionTableReqStep);}
    if(isS(m._frozenIndirectionTableLoc)){const i=isS(m._outstandingIndirectionTableWrite)?m._outstandingIndirectionTableWrite._value:id;
      put(upd(m,{outstandingIndirectionTableWrite:none}),D.RespWriteIndirectionTableOp(t.bool()?i:id),V.SendFrozenLocOp(t.below(3)?m._frozenIndirectionTableLoc._value:t.pick(W.itLocs)),C.WriteBackIndirectionTableRespStep);}
    put(upd(m,{frozenIndirectionTable:some(e),frozenIndirectionTableLoc:none}),D.NoDiskOp,V.FreezeOp,C.FreezeStep);
    if(isS(m._frozenIndirectionTable))put(upd(m,{persistentIndirectionTable:m._frozenIndirectionTable._value,persistentIndirectionTableLoc:isS(m._frozenIndirectionTableLoc)?m._frozenIndirectionTableLoc._value:m._persistentIndirectionTableLoc,frozenIndirectionTable:none,frozenIndirectionTableLoc:none}),D.NoDiskOp,V.CleanUpOp,C.CleanUpStep);
    if(m._cache.has(r))put(upd(m,{cache:W.mdel(m._cache,r)}),D.NoDiskOp,V.StatesInternalOp,C.EvictStep(r));
    const g=t.pick([...e._graph]);put(upd(m,{ephemeralIndirectionTable:upd(e,{locs:W.mdel(e._locs,g),graph:W.mdel(e._graph,g)}),cache:W.mdel(m._cache,g)}),D.NoDiskOp,V.AdvanceOp(t.below(3)?U.NoOp:U.PutOp([1],[1]),false),C.UnallocStep(g));
    const q=t.pick([...e._graph]);const loc=e._locs.has(q)?e._locs.get(q):t.pick(W.nodeLocs);put(upd(m,{outstandingBlockReads:m._outstandingBlockReads.set(id,C.OutstandingRead(q))}),D.ReqReadNodeOp(id,t.below(4)?loc:t.pick(W.nodeLocs)),V.StatesInternalOp,C.PageInNodeReqStep(q));
    for(const i of m._outstandingBlockReads){const rr=m._outstandingBlockReads.get(i)._ref;const l=d._reqReadNodes.has(i)?d._reqReadNodes.get(i):null;const nd=t.bool()&&l&&d._nodes.has(l)?d._nodes.get(l):W.node(t.bool()?[]:[1],3);put(upd(m,{cache:m._cache.set(rr,nd),outstandingBlockReads:W.mdel(m._outstandingBlockReads,i)}),D.RespReadNodeOp(i,some(nd)),V.StatesInternalOp,C.PageInNodeRespStep);
      if(t.below(4)===0)out.push({s:M.sys(upd(m,{cache:m._cache.set(rr,W.node([],6))}),d),n:M.sys(upd(m,{cache:m._cache.set(rr,nd),outstandingBlockReads:W.mdel(m._outstandingBlockReads,i)}),diskForce(W,d,D.RespReadNodeOp(i,some(nd)))),l:V.StatesInternalOp,step:S.MachineStep(D.RespReadNodeOp(i,some(nd)),C.PageInNodeRespStep)});}
    // a transaction that writes or allocates without a right to
    const al=t.bool();const tr=t.pick(REFS),nd=W.node(t.bool()?[]:[t.pick(REFS)],5);const ms=C.TransactionStep([(al?W.G.AllocOp:W.G.WriteOp)(tr,nd)]);
    put(upd(m,{cache:m._cache.set(tr,nd),ephemeralIndirectionTable:upd(e,{locs:al&&t.bool()?e._locs:W.mdel(e._locs,tr),graph:e._graph.set(tr,W.kids(nd))})}),D.NoDiskOp,V.AdvanceOp(U.NoOp,false),ms);
    // an answer to something this cache waits for, ignored
    for(const dop of [...[...d._reqWriteNodes].map(i=>D.RespWriteNodeOp(i)),...[...d._reqWriteIndirectionTables].map(i=>D.RespWriteIndirectionTableOp(i))])put(m,dop,V.StatesInternalOp,C.NoOpStep);
    for(const i of d._reqReadNodes)put(m,D.RespReadNodeOp(i,some(t.pick(W.pairs(d._nodes))[1])),V.StatesInternalOp,C.NoOpStep);
    for(const vop of [V.FreezeOp,V.CleanUpOp,V.AdvanceOp(U.NoOp,false),V.CrashOp])if(t.below(4)===0)put(m,D.NoDiskOp,vop,C.NoOpStep);
  }
  if(m.$cn==='Unready'){const l=t.pick(W.locs);put(C.LoadingIndirectionTable(l,none),D.NoDiskOp,V.SendPersistentLocOp(t.bool()?l:t.pick(W.locs)),C.ReceiveLocStep);}
  if(m.$cn==='LoadingIndirectionTable'){const id=t.below(3);put(upd(m,{indirectionTableRead:some(id)}),D.ReqReadIndirectionTableOp(id,t.bool()?m._indirectionTableLoc:t.pick(W.itLocs)),V.StatesInternalOp,C.PageInIndirectionTableReqStep);
    const a=W.vals(d._indirectionTables).concat([W.table([[0,W.nodeLocs[0]],[1,W.nodeLocs[1]]],[[0,[1]],[1,[]]]),W.table([[0,W.nodeLocs[0]],[1,W.nodeLocs[4]]],[[0,[1]],[1,[2]]]),W.table([[1,W.nodeLocs[4]]],[[1,[]]]),W.table([[0,W.badLocs[0]]],[[0,[]]]),W.table([[0,W.nodeLocs[0]]],[[0,[]],[1,[]]]),W.table([[0,W.nodeLocs[0]],[1,W.nodeLocs[2]]],[[0,[]]])]);
    const it=t.pick(a);const e=DMap.of([]);for(const l of W.itLocs){const s2=M.sys(isS(m._indirectionTableRead)?m:upd(m,{indirectionTableRead:some(0)}),upd(d,{reqReadIndirectionTables:DMap.of([[isS(m._indirectionTableRead)?m._indirectionTableRead._value:0,m._indirectionTableLoc]]),indirectionTables:W.imset(d._indirectionTables,m._indirectionTableLoc,it)}));const i=isS(m._indirectionTableRead)?m._indirectionTableRead._value:0;
      out.push({s:s2,n:M.sys(C.Ready(it,none,it,m._indirectionTableLoc,none,none,e,e,e),upd(s2._disk,{reqReadIndirectionTables:DMap.of([])})),l:V.StatesInternalOp,step:S.MachineStep(D.RespReadIndirectionTableOp(i,some(it)),C.PageInIndirectionTableRespStep)});break;}
  }
  // after a crash, something that was not being written is gone or changed
  const dn=M.crashDisk(t,d);const x=t.pick(W.pairs(d._nodes))[0],y=t.pick(W.pairs(d._indirectionTables))[0];
  out.push({n:M.sys(C.Unready,upd(dn,{nodes:t.bool()?W.imdel(dn._nodes,x):W.imset(dn._nodes,x,W.node([],6))})),l:V.CrashOp,step:S.CrashStep});
  out.push({n:M.sys(C.Unready,upd(dn,{indirectionTables:t.bool()?W.imdel(dn._indirectionTables,y):W.imset(dn._indirectionTables,y,W.table([[0,W.nodeLocs[2]]],[[0,[]]]))})),l:V.CrashOp,step:S.CrashStep});
  out.push({n:M.sys(t.bool()?m:C.Unready,upd(dn,t.pick([{reqWriteNodes:d._reqWriteNodes},{reqReadNodes:d._reqReadNodes},{reqWriteIndirectionTables:d._reqWriteIndirectionTables},{reqReadIndirectionTables:d._reqReadIndirectionTables}]))),l:V.CrashOp,step:S.CrashStep});
  return out;
}
function diskForce(W,d,dop){const id=dop._id,Y=(f,v)=>upd(d,{[f]:v});switch(dop.$cn){case 'NoDiskOp':return d;case 'ReqReadIndirectionTableOp':return Y('reqReadIndirectionTables',d._reqReadIndirectionTables.set(id,dop._loc));case 'ReqReadNodeOp':return Y('reqReadNodes',d._reqReadNodes.set(id,dop._loc));
  case 'ReqWriteIndirectionTableOp':return upd(d,{reqWriteIndirectionTables:d._reqWriteIndirectionTables.set(id,dop._reqWriteIndirectionTable._loc),indirectionTables:W.imset(d._indirectionTables,dop._reqWriteIndirectionTable._loc,dop._reqWriteIndirectionTable._indirectionTable)});
  case 'ReqWriteNodeOp':return upd(d,{reqWriteNodes:d._reqWriteNodes.set(id,dop._reqWriteNode._loc),nodes:W.imset(d._nodes,dop._reqWriteNode._loc,dop._reqWriteNode._node)});
  case 'RespReadIndirectionTableOp':return Y('reqReadIndirectionTables',W.mdel(d._reqReadIndirectionTables,id));case 'RespReadNodeOp':return Y('reqReadNodes',W.mdel(d._reqReadNodes,id));case 'RespWriteIndirectionTableOp':return Y('reqWriteIndirectionTables',W.mdel(d._reqWriteIndirectionTables,id));case 'RespWriteNodeOp':return Y('reqWriteNodes',W.mdel(d._reqWriteNodes,id));}}
function refine(W,s,n,l,step,k){}
const {contractsPart}=require('../contract.js');
exports.world=world;exports.makeMachine=makeMachine;
exports.props={P03:{rule:'a history of at least two steps; a satisfied precondition',parts:{cache:{make:steps,weight:3},contracts:{make:contractsPart(['BlockCache','BlockDisk','BlockSystem','DiskLayout','BlockSystem_Refines_StatesView'].map(f=>'BlockCacheSystem/'+f+'.i.dfy')),weight:1}},quick:25,thorough:600,assumptions:['eight node references, seven node addresses, two table addresses; nodes with up to three children']}};
