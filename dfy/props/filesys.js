'use strict';
// F01: the specification of the file system: names, metadata and data under every operation.
const $=require('../rt.js');const {Program}=require('../compile.js');const {EX,TYPES}=require('../externs.js');const {check}=require('../pbt.js');
const {IMap}=$;const {upd}=require('../sm.js');const N=Number,eq=$.eq,J=JSON.stringify;const show=x=>$.show?$.show(x).slice(0,500):String(x);
const NAMES=[[97],[98]];const ALL=[[]];for(let d=0,l=[[]];d<3;d++){l=l.flatMap(p=>NAMES.map(n=>[...p,n]));ALL.push(...l);}
const IDS=7;
const under=(d,p)=>d.length<p.length&&J(p.slice(0,d.length))===J(d),parent=p=>p.slice(0,-1);
const lex=(a,b)=>{for(let i=0;i<a.length&&i<b.length;i++)if(a[i]!==b[i])return a[i]-b[i];return a.length-b.length;};
const cache=new Map();
function world(REPO){if(cache.has(REPO))return cache.get(REPO);
  const P=new Program({externs:EX,types:TYPES,guess:true}).load(REPO+'/Filesys/FileSystem.s.dfy',REPO+'/Filesys/FileSystemInv.i.dfy');
  const W={P,S:P.m('PathSpec'),F:P.m('FSTypes'),FS:P.m('FileSystem'),I:P.m('FileSystemInv'),O:P.m('Options'),paths:ALL,step:null};const {S,F,FS}=W;
  W.setup=()=>{$.universes.length=0;$.universes.push(u=>{if(!u)return null;if(u.k==='seq')return W.paths;if(u.k==='dt'){const q=u.cell.qname||'';if(/\.?ID$/.test(q))return [S.Nonexistent,...[...Array(IDS).keys()].map(i=>S.ID(i))];if(/\.?Step$/.test(q))return W.step?[W.step]:[];}return null;});};
  W.T=n=>F.Time(n);
  // a file system: path -> inode number, inode number -> metadata and bytes
  W.empty=()=>({p:new Map([['[]',0]]),m:new Map([[0,F.MetaData(F.Directory,755,0,0,W.T(0),W.T(0),W.T(0))]]),d:new Map()});
  W.copy=s=>({p:new Map(s.p),m:new Map(s.m),d:new Map(s.d)});
  const live=s=>[...s.p].filter(e=>e[1]!==null&&s.m.has(e[1])).map(e=>JSON.parse(e[0]));
  W.live=live;W.at=(s,p)=>{const i=s.p.get(J(p));return i===undefined?null:i;};
  W.meta=(s,p)=>{const i=W.at(s,p);return i!==null&&s.m.get(i)||null;};
  W.isDir=(s,p)=>{const m=W.meta(s,p);return !!m&&m._ftype.$cn==='Directory';};W.isFile=(s,p)=>{const m=W.meta(s,p);return !!m&&m._ftype.$cn==='File';};
  W.links=(s,i)=>[...s.p].filter(e=>e[1]===i).length;W.kids=(s,p)=>[...s.p].map(e=>JSON.parse(e[0])).filter(q=>under(p,q));
  W.fs=s=>{const id=i=>i===null||i===undefined?S.Nonexistent:S.ID(i);const num=x=>x.$cn==='ID'?N(x._id):null;
    return FS.FileSys(new IMap(()=>true,p=>id(s.p.get(J(p))),{k:'seq'}),new IMap(()=>true,x=>{const i=num(x);return i!==null&&s.m.get(i)||F.EmptyMetaData;},{k:'dt',cell:{qname:'ID'}}),new IMap(()=>true,x=>{const i=num(x);return i!==null&&s.d.get(i)||[];},{k:'dt',cell:{qname:'ID'}}));};
  W.same=(a,b)=>{const f=(x,y)=>{for(const k of new Set([...x.keys(),...y.keys()])){const u=x.get(k),v=y.get(k);if(u===undefined||v===undefined){if((u===undefined?v:u)!==undefined&&!(Array.isArray(u||v)&&!(u||v).length))return false;}else if(!eq(u,v))return false;}return true;};return f(a.p,b.p)&&f(a.m,b.m)&&f(a.d,b.d);};
  const touch=(n,s,p,t)=>{const i=W.at(s,p);if(i!==null&&n.m.has(i))n.m.set(i,upd(s.m.get(i),{mtime:t,ctime:t}));};
  // drops a name; the last name takes the inode with it
  const drop=(n,s,p,t)=>{const i=W.at(s,p);if(i===null)return;if(W.links(s,i)<=1){n.m.delete(i);n.d.delete(i);}else if(n.m.has(i))n.m.set(i,upd(s.m.get(i),{ctime:t}));};
  // [may the operation happen, what it leaves]; the second part is a guess where it may not
  W.apply=(s,st)=>{const n=W.copy(s);const p=st._path||st._source||st._dir,m=p&&W.meta(s,p),i=p?W.at(s,p):null;let ok=!!m;
    const fresh=q=>q.length>0&&W.at(s,q)===null&&W.isDir(s,parent(q));
    switch(st.$cn){
      case 'GetAttrStep':return [ok&&eq(m,st._attr),n];
      case 'ReadLinkStep':return [ok&&m._ftype.$cn==='SymLink'&&eq(m._ftype._source,st._link_path),n];
      case 'CreateStep':{const x=st._m,j=st._id.$cn==='ID'?N(st._id._id):null;ok=fresh(p)&&x.$cn==='MetaData'&&eq(x._atime,x._mtime)&&eq(x._atime,x._ctime)&&j!==null&&W.links(s,j)===0&&!s.m.has(j)&&!(s.d.get(j)||[]).length;
        if(j!==null)n.p.set(J(p),j);if(j!==null&&x.$cn==='MetaData'){n.m.set(j,x);touch(n,s,parent(p),x._mtime);}return [ok,n];}
      case 'DeleteStep':ok=ok&&p.length>0&&!(W.isDir(s,p)&&W.kids(s,p).length);n.p.delete(J(p));drop(n,s,p,st._ctime);if(p.length)touch(n,s,parent(p),st._ctime);return [ok,n];
      case 'RenameStep':{const q=st._dest,y=W.meta(s,q);ok=ok&&J(p)!==J(q)&&!under(p,q)&&!under(q,p)&&(!!y||fresh(q));if(ok&&y){ok=W.isDir(s,p)===W.isDir(s,q)&&!(W.isDir(s,q)&&W.kids(s,q).length);}
        const mv=[...s.p].map(e=>[JSON.parse(e[0]),e[1]]).filter(e=>J(e[0])===J(p)||under(p,e[0]));const q2=[...s.p].map(e=>JSON.parse(e[0])).filter(r=>J(r)===J(q)||under(q,r));
        for(const r of q2)n.p.delete(J(r));for(const [r] of mv)n.p.delete(J(r));for(const [r,j] of mv){const z=[...q,...r.slice(p.length)];if(!(J(z)===J(p)||under(p,z)))n.p.set(J(z),j);}
        if(m)n.m.set(i,upd(m,{ctime:st._ctime}));drop(n,s,q,st._ctime);if(p.length)touch(n,s,parent(p),st._ctime);if(q.length)touch(n,s,parent(q),st._ctime);return [ok,n];}
      case 'LinkStep':{const q=st._dest;ok=ok&&!W.isDir(s,p)&&fresh(q);if(i!==null)n.p.set(J(q),i);if(m)n.m.set(i,upd(m,{ctime:st._ctime}));if(q.length)touch(n,s,parent(q),st._ctime);return [ok,n];}
      case 'ChangeAttrStep':if(m)n.m.set(i,upd(m,{perm:st._perm,uid:st._uid,gid:st._gid,ctime:st._ctime}));return [ok,n];
      case 'TruncateStep':{const z=N(st._size);ok=W.isFile(s,p)&&z>=0;if(m)n.m.set(i,upd(m,{mtime:st._time,ctime:st._time}));const b=i!==null&&s.d.get(i)||[];if(i!==null&&z>=0)n.d.set(i,Array.from({length:z},(_,k)=>k<b.length?b[k]:0));return [ok,n];}
      case 'ReadStep':{const b=i!==null&&s.d.get(i)||[],o=N(st._offset),z=N(st._size);return [W.isFile(s,p)&&o>=0&&z>=0&&o+z<=b.length&&eq(b.slice(o,o+z),st._data),n];}
      case 'WriteStep':{const b=(i!==null&&s.d.get(i)||[]).slice(),o=N(st._offset),x=st._data;ok=W.isFile(s,p)&&N(st._size)===x.length&&o>=0&&o<=b.length;if(m)n.m.set(i,upd(m,{atime:st._time,mtime:st._time,ctime:st._time}));if(i!==null&&o>=0){while(b.length<o)b.push(0);for(let k=0;k<x.length;k++)b[o+k]=x[k];n.d.set(i,b);}return [ok,n];}
      case 'UpdateTimeStep':if(m)n.m.set(i,upd(m,{atime:st._atime,mtime:st._mtime,ctime:st._ctime}));return [ok,n];
      case 'ReadDirStep':{if(!W.isDir(s,p))return [false,n];const from=st._start.$cn==='Some'?st._start._value:null;const ent=q=>q.length===p.length+1&&under(p,q);if(from&&!ent(from))return [false,n];const r=st._results;
        for(let k=0;k<r.length;k++){const q=r[k]._path,x=W.meta(s,q);if(!ent(q)||!x||!eq(r[k]._id,S.ID(W.at(s,q)))||!eq(r[k]._ftype,x._ftype))return [false,n];if(from&&lex(q.slice(-1)[0],from.slice(-1)[0])<0)return [false,n];if(k&&lex(r[k-1]._path.slice(-1)[0],q.slice(-1)[0])>=0)return [false,n];}
        const need=live(s).filter(q=>ent(q)&&(!from||lex(q.slice(-1)[0],from.slice(-1)[0])>=0)&&(st._done||!r.length||lex(q.slice(-1)[0],r[r.length-1]._path.slice(-1)[0])<=0));return [need.every(q=>r.some(x=>eq(x._path,q))),n];}
      case 'StutterStep':return [true,n];}
    throw new Error('harness: '+st.$cn);};
  W.inv=s=>{for(const p of live(s)){if(W.isDir(s,p)&&W.links(s,W.at(s,p))!==1)return false;if(p.length&&!W.isDir(s,parent(p)))return false;}return true;};
  cache.set(REPO,W);return W;}
const DATA=[0,1,200];
function tree({REPO}){const W=world(REPO);const {S,F,FS,O,I}=W;
  return (t,c)=>{W.setup();W.paths=ALL;let s=W.empty();const hist=[];
    check(FS.Init(W.fs(s))===true,'Init rejects the empty file system');
    const time=()=>W.T(t.below(4)),anyp=()=>{const l=W.live(s);const r=t.below(4);if(r<2)return t.pick(l);if(r===2){const p=t.pick(l);return p.length<4?[...p,t.pick(NAMES)]:p;}return t.pick(ALL);};
    const file=()=>{const l=W.live(s).filter(p=>W.isFile(s,p));return l.length&&t.below(4)?t.pick(l):anyp();};
    const newp=()=>{const l=W.live(s).filter(p=>W.isDir(s,p)&&p.length<4);const p=t.pick(l);return [...p,t.pick(NAMES)];};
    const ftype=()=>t.pick([F.File,F.Directory,F.Directory,F.File,F.SymLink([[97]]),F.SymLink([[98],[97]]),F.FIFOFile,F.CharFile(t.below(2),1)]);
    const entries=(p,from,done)=>{const z=W.live(s).filter(q=>q.length===p.length+1&&under(p,q)&&(!from||lex(q.slice(-1)[0],from.slice(-1)[0])>=0)).sort((a,b)=>lex(a.slice(-1)[0],b.slice(-1)[0])).map(q=>F.DirEntry(S.ID(W.at(s,q)),q,W.meta(s,q)._ftype));return done?z:z.slice(0,t.below(z.length+1));};
    const gen=()=>{switch(t.weighted([[6,'create'],[2,'delete'],[5,'rename'],[2,'link'],[1,'attr'],[1.5,'trunc'],[1.5,'read'],[3,'write'],[1,'time'],[3,'dir'],[.7,'get'],[1.5,'readlink'],[.2,'no']])){
      case 'create':{const p=t.below(5)?newp():anyp(),a=time(),b=t.below(8)===7?time():a,d=t.below(12)===11?time():a;const free=[...Array(IDS).keys()].filter(i=>!W.links(s,i));const j=t.below(6)?(free.length?t.pick(free):0):t.below(IDS);return FS.CreateStep(p,t.below(20)===19?S.Nonexistent:S.ID(j),t.below(15)===14?F.EmptyMetaData:F.MetaData(ftype(),t.below(3),t.below(2),t.below(2),a,b,d));}
      case 'delete':return FS.DeleteStep(anyp(),time());
      case 'rename':{const p=anyp(),r=t.below(6);return FS.RenameStep(p,r===0?p:r===1?[...p,t.pick(NAMES)].slice(0,4):r===2?anyp():newp(),time());}
      case 'link':return FS.LinkStep(file(),t.below(4)?newp():anyp(),time());
      case 'attr':return FS.ChangeAttrStep(anyp(),t.below(3),t.below(3),t.below(3),time());
      case 'trunc':return FS.TruncateStep(file(),t.below(7)-(t.below(9)===8?1:0),time());
      case 'read':{const p=file(),b=s.d.get(W.at(s,p))||[],o=t.below(b.length+1),z=t.below(b.length-o+2),d=b.slice(o,o+z);return FS.ReadStep(p,o,z,t.below(5)===4?[...d,t.pick(DATA)]:d);}
      case 'write':{const p=file(),b=s.d.get(W.at(s,p))||[],d=t.bytes(0,3,DATA);return FS.WriteStep(p,t.below(b.length+2)-(t.below(12)===11?1:0),d.length+(t.below(10)===9?1:0),d,time());}
      case 'time':return FS.UpdateTimeStep(anyp(),time(),time(),time());
      case 'dir':{const l=W.live(s).filter(p=>W.isDir(s,p));const p=t.below(6)?t.pick(l):anyp(),from=t.below(3)===0?[...p,t.pick(NAMES)]:null,done=t.bool();let r=entries(p,from,done);const k=t.below(6);
        if(k===0)r=r.slice(1);if(k===1)r=r.slice().reverse();if(k===2)r=[...r,...r.slice(-1)];if(from&&t.below(3)===0)r=entries(p,null,done);if(t.below(8)===7){const q=t.pick(W.live(s)),e=F.DirEntry(S.ID(W.at(s,q)),q,W.meta(s,q)._ftype);r=t.bool()?[e,...r.slice(t.below(2))]:[...r.slice(0,t.below(r.length+1)),e];}if(k===3&&r.length){r=r.slice();r[0]=t.pick([upd(r[0],{id:S.ID(t.below(IDS))}),upd(r[0],{ftype:ftype()}),upd(r[0],{path:anyp()})]);}
        return FS.ReadDirStep(p,from?O.Some(t.below(8)===7?anyp():from):O.None,r,done);}
      case 'get':{const p=anyp(),m=W.meta(s,p)||F.EmptyMetaData;return FS.GetAttrStep(p,t.below(3)===0&&m.$cn==='MetaData'?upd(m,t.pick([{perm:9},{mtime:time()},{ftype:ftype()}])):m);}
      case 'readlink':{const l=W.live(s).filter(p=>W.meta(s,p)._ftype.$cn==='SymLink');const p=l.length&&t.below(5)?t.pick(l):anyp(),m=W.meta(s,p);return FS.ReadLinkStep(p,m&&m._ftype.$cn==='SymLink'&&t.below(3)?m._ftype._source:t.pick(ALL));}
      default:return FS.StutterStep;}};
    // a state that differs a little
    const twist=x=>{const n=W.copy(x);const ps=[...n.p.keys()],ms=[...n.m.keys()];switch(t.below(7)){
      case 0:{const k=t.pick(ps);n.p.set(k,t.below(IDS));break;}case 1:n.p.delete(t.pick(ps));break;case 2:n.p.set(J(anyp()),t.below(IDS));break;
      case 3:case 4:{if(!ms.length)break;const k=t.pick(ms),m=n.m.get(k);n.m.set(k,upd(m,t.pick([{atime:time()},{mtime:time()},{ctime:time()},{perm:t.below(3)},{uid:t.below(3)},{gid:t.below(3)},{ftype:ftype()}])));break;}
      case 5:{if(ms.length){const k=t.pick(ms);if(k!==0)n.m.delete(k);}break;}
      case 6:{const k=t.below(IDS),b=(n.d.get(k)||[]).slice();if(b.length&&t.bool())b.pop();else if(b.length&&t.bool())b[0]=(b[0]+1)%256;else b.push(t.pick(DATA));n.d.set(k,b);break;}}return n;};
    const setp=(...xs)=>{const m=new Map(ALL.map(p=>[J(p),p]));for(const x of xs)for(const k of x.p.keys())m.set(k,JSON.parse(k));W.paths=[...m.values()];};
    const judge=(a,b,st,want)=>{setp(a,b);if(st._dest)for(const k of [...a.p.keys()]){const r=JSON.parse(k);if(under(st._source,r)){const z=[...st._dest,...r.slice(st._source.length)];if(!W.paths.some(y=>J(y)===J(z)))W.paths.push(z);}}
      const g=FS.NextStep(W.fs(a),W.fs(b),st)===true;check(g===want,()=>`${show(st)} from ${str(a)} to ${str(b)} is ${g?'accepted':'refused'}`);return g;};
    const str=x=>J([...x.p].map(([k,v])=>k.replace(/97/g,'a').replace(/98/g,'b')+':'+v))+' '+[...x.m].map(([k,v])=>k+'='+v._ftype.$cn+(x.d.get(k)||[]).length).join(' ');
    let k=0;const len=3+t.below(14);
    for(let q=0;q<len;q++){const st=gen();const [ok,n]=W.apply(s,st);judge(s,n,st,ok);c.label(st.$cn+(ok?'':' refused'));
      if(!ok&&t.bool()&&!W.same(s,n))judge(s,s,st,false);
      if(ok)for(let j=0;j<2;j++){const y=twist(n);if(!W.same(y,n))judge(s,y,st,false);}
      if(ok&&!W.same(s,n))judge(s,s,st,false);
      if(ok){W.step=st;setp(s,n);check(FS.Next(W.fs(s),W.fs(n))===true,()=>`Next does not contain ${show(st)}`);s=n;k++;c.log(()=>`${show(st)} -> ${str(s)}`);hist.push(st.$cn.replace('Step',''));
        setp(s);check(W.inv(s),()=>`harness: the tree is broken: ${str(s)}`);check(I.Inv(W.fs(s))===true,()=>`Inv fails of ${str(s)}`);
        const y=twist(s);if([...y.p].every(e=>e[1]===null||y.m.has(e[1]))){setp(y);const f=W.fs(y);const w=W.inv(y);check((I.Inv(f)===true)===w,()=>`Inv ${w?'rejects':'accepts'} ${str(y)}`);}
        {const f=W.fs(s),nm=upd(f,{meta_map:f._meta_map.set(S.Nonexistent,W.meta(s,[]))}),nd=upd(f,{data_map:f._data_map.set(S.Nonexistent,[1])});setp(s);for(const g of [nm,nd]){check(I.Inv(g)!==true,()=>`Inv accepts metadata or data of no inode in ${str(s)}`);check(FS.NextStep(f,g,st)!==true,()=>`${show(st)} may change what belongs to no inode`);}}
          const z=twist(W.empty());setp(z);check((FS.Init(W.fs(z))===true)===W.same(z,W.empty()),()=>`Init accepts ${str(z)}`);}}
    c.nontrivial(k>3);c.sample(hist.join(' '));
  };
}
exports.props={F01:{rule:'a history of at least four operations that happen',parts:{tree:{make:tree,weight:1}},quick:20,thorough:300,assumptions:['paths over two names, at most seven inodes']}};
