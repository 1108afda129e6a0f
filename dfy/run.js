'use strict';
// node run.js PROP TIER SEED EVIDENCE REPLAYDIR      |  node run.js --replay FILE  |  node run.js --list
const fs=require('fs'),path=require('path'),cp=require('child_process');
const {Rng,Tape,runOnce,shrink,failMsg,hashTape}=require('./pbt.js');
const REPO=process.env.REPO||'/repo';
function registry(){const r={};for(const f of fs.readdirSync(path.join(__dirname,'props')).sort())if(f.endsWith('.js'))Object.assign(r,require('./props/'+f).props);return r;}
function findings(id){const f=path.join(__dirname,'..','known','findings.txt');if(!fs.existsSync(f))return [];
  return fs.readFileSync(f,'utf8').split('\n').map(l=>/^finding: property=(\S+) part=(\S+) match=(\/.*\/) (.*)$/.exec(l)).filter(m=>m&&m[1]===id).map(m=>({part:m[2],re:new RegExp(m[3].slice(1,-1)),text:m[4]}));}
const only=process.env.PART?process.env.PART.split(','):null;
function parts(p){return Object.entries(p.parts).filter(([n])=>!only||only.includes(n)).map(([name,x])=>Object.assign({name,weight:1},typeof x==='function'?{make:x}:x));}
function worker(){
  const [id,tier,seed,w,W,budget]=[process.argv[3],process.argv[4],+process.argv[5],+process.argv[6],+process.argv[7],+process.argv[8]];
  const p=registry()[id];const known=findings(id);const t0=Date.now();
  const st={eval:0,nt:0,discard:0,skip:0,labels:{},samples:[],skips:{},parts:{},known:{}};const seen=new Set();
  const ps=parts(p).map(x=>{try{return Object.assign(x,{run:x.make({tier,REPO}),t:0,n:0});}catch(e){st.skips[x.name+': '+String(e.message).slice(0,200)]=1;if(process.env.DEV)console.error(e);return null;}}).filter(x=>x);
  let i=0;
  const finish=v=>{for(const x of ps)st.parts[x.name]={cases:x.n,ms:Math.round(x.t)};if(process.send)process.send({st,seen:[...seen],v},()=>process.exit(0));else process.exit(0);};
  if(!ps.length)return finish(null);
  const end=t0+budget;
  while(Date.now()<end){
    // the part furthest behind its share of time
    let x=ps[0];for(const y of ps)if(y.t/y.weight<x.t/x.weight)x=y;
    const rng=new Rng((seed*1000003+w)*1000003+x.n*W*97+hash(x.name));
    const tape=new Tape(rng);const a=performance.now();
    const r=runOnce(x.run,tape);x.n++;st.eval++;
    if(r.kind==='fail'){
      const m=failMsg(r.err);const k=known.find(k=>(k.part==='*'||k.part===x.name)&&k.re.test(m));
      if(k){st.known[k.text]=(st.known[k.text]||0)+1;}
      else{
        const same=t=>(tp,c)=>x.run(tp,c);
        const s=shrink((tp,c)=>{try{x.run(tp,c);}catch(e){const mm=failMsg(e);if(known.some(k=>(k.part==='*'||k.part===x.name)&&k.re.test(mm))){const {Discard}=require('./pbt.js');throw new Discard();}throw e;}},tape.out,+process.env.SHRINK_MS||12000);
        const f=runOnce(x.run,new Tape(s.tape,true));
        return finish({part:x.name,msg:failMsg(f.err||r.err),first:m,tape:s.tape,log:f.c.lines.slice(-120),desc:f.c.desc,stack:process.env.DEV?(f.err||r.err).stack:undefined,shrinks:s.tries});
      }
    }else if(r.kind==='discard')st.discard++;
    else if(r.kind==='skip'){st.skip++;const m=x.name+': '+String(r.err.message).slice(0,160);st.skips[m]=(st.skips[m]||0)+1;if(process.env.DEV&&st.skips[m]===1)console.error(r.err.stack.slice(0,1500));}
    if(r.kind==='ok'){if(r.c.nt){const h=hashTape(tape.out)+hash(x.name);if(seen.size<250000&&!seen.has(h)){seen.add(h);st.nt++;}}
      for(const l of r.c.labels)st.labels[l]=(st.labels[l]||0)+1;
      if(r.c.nt&&r.c.desc!==null&&(st.samples.length<8||x.n<3))if(st.samples.length<16)st.samples.push(x.name+': '+r.c.desc.slice(0,400));}
    x.t+=performance.now()-a+0.01;
  }
  finish(null);
}
function hash(s){let h=0;for(const c of s)h=(h*31+c.charCodeAt(0))>>>0;return h;}
async function main(){
  const a=process.argv.slice(2);
  if(a[0]==='--list'){const r=registry();for(const k in r)console.log(k,Object.keys(r[k].parts).join(','));return;}
  if(a[0]==='--replay'){
    const f=JSON.parse(fs.readFileSync(a[1]));const p=registry()[f.property];const x=parts(p).find(y=>y.name===f.part);const run=x.make({tier:'quick',REPO});
    const r=runOnce(run,new Tape(f.tape,true));for(const l of r.c.lines)console.log('  '+l);
    if(r.kind==='fail'){console.log(failMsg(r.err));process.exit(1);}console.log('no violation ('+r.kind+')'+(r.err?': '+r.err.stack:''));return;
  }
  const [id,tier,seed,ev,rd]=a;const p=registry()[id];if(!p){console.error('unknown property '+id);process.exit(3);}
  const t0=Date.now();const budget=(+process.env.BUDGET||(tier==='thorough'?p.thorough||480:p.quick||25))*1000;const W=+process.env.WORKERS||6;
  const res=[];let viol=null;const kids=[];
  await Promise.all([...Array(W).keys()].map(w=>new Promise(done=>{
    const k=cp.fork(__filename,['--worker',id,tier,seed,String(w),String(W),String(budget)],{execArgv:['--stack-size=6500','--max-old-space-size=3000'],stdio:['ignore','inherit','inherit','ipc']});kids.push(k);
    let got=false;
    k.on('message',m=>{got=true;res.push(m);if(m.v&&!viol){viol=m.v;for(const o of kids)if(o!==k)o.kill('SIGKILL');}});
    k.on('exit',(c,s)=>{if(!got&&!viol)res.push({st:{eval:0,nt:0,discard:0,skip:0,labels:{},samples:[],skips:{['worker ended '+c+'/'+s]:1},parts:{},known:{}},seen:[],v:null});done();});
    setTimeout(()=>{if(!got){k.kill('SIGKILL');}},budget+(tier==='thorough'?240000:90000)).unref();
  })));
  const sum={eval:0,discard:0,skip:0,labels:{},skips:{},parts:{},known:{}};const seen=new Set();const samples=[];
  for(const {st,seen:s} of res){sum.eval+=st.eval;sum.discard+=st.discard;sum.skip+=st.skip;for(const h of s)seen.add(h);for(const k of ['labels','skips','known'])for(const l in st[k])sum[k][l]=(sum[k][l]||0)+st[k][l];
    for(const l in st.parts){const q=sum.parts[l]||(sum.parts[l]={cases:0,ms:0});q.cases+=st.parts[l].cases;q.ms+=st.parts[l].ms;}
    for(const x of st.samples)if(samples.length<24)samples.push(x);}
  const e={property:id,tier,seed:+seed,level:'exploration',coverage:{evaluations:sum.eval,distinct_nontrivial:seen.size,rule:p.rule,samples:samples.length?samples:['(none)'],parts:sum.parts,classes:sum.labels,discarded:sum.discard,inconclusive:sum.skip,inconclusive_reasons:sum.skips},
    assumptions:p.assumptions||[],wall_s:(Date.now()-t0)/1000,violations:viol?1:0};
  if(ev)fs.writeFileSync(ev,JSON.stringify(e)+'\n');
  for(const k in sum.known)console.log(`KNOWN-FINDING: property=${id} ${k}`);
  if(viol){
    fs.mkdirSync(rd||'/tmp',{recursive:true});const f=path.join(rd||'/tmp',id+'-replay.json');fs.writeFileSync(f,JSON.stringify(Object.assign({property:id},viol),null,1)+'\n');
    for(const l of viol.log.slice(-60))console.log('  '+l);
    console.log(`${id}/${viol.part}: ${viol.msg}`);if(viol.stack)console.log(viol.stack);
    console.log(`VIOLATION property=${id} replay=${f}`);process.exit(1);
  }
  console.log(`${id}: ${sum.eval} cases, ${seen.size} distinct non-trivial, ${sum.discard} discarded, ${sum.skip} inconclusive, no violation`);
  for(const s in sum.skips)console.log(`  inconclusive ${sum.skips[s]}x ${s}`);
}
if(process.argv[2]==='--worker')worker();else main();
