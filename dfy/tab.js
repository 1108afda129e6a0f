'use strict';
// Differential tables: each case calls one function of the code on generated arguments and compares with an
// independent JavaScript definition.   entries: {name: t => ({args, want | ok(result), nt?, f?})}
const $=require('./rt.js');const {check,discard}=require('./pbt.js');const {memberCells}=require('./compile.js');
const J=x=>$.show?$.show(x):String(x);
function table(entries,o={}){
  const names=Object.keys(entries);
  return (t,c)=>{
    const n=names[t.below(names.length)];const e=entries[n](t);if(!e)discard();
    c.label(n);c.nontrivial(e.nt===undefined||!!e.nt);
    c.log(()=>`${n}(${e.args.map(J).join(', ')})`);c.sample(`${n}(${e.args.map(J).join(', ')})`.slice(0,200));
    const f=e.f||o.mod[n];if(typeof f!=='function')throw new $.Unsup('no function '+n);
    const before=e.frozen?e.args.map($.key):null;
    const r=f(...e.args);
    if('want' in e)check($.eq(r,e.want),()=>`${n}(${e.args.map(J).join(', ')}) is ${J(r)}, not ${J(e.want)}`);
    if(e.ok){const m=e.ok(r);check(m===true,()=>`${n}(${e.args.map(J).join(', ')}) is ${J(r)}: ${m||'wrong'}`);}
    if(before)check(e.args.every((a,i)=>$.key(a)===before[i]),()=>n+' changed its arguments');
  };
}
// members of a datatype as functions of the value
const mem=C=>new Proxy({},{get:(_,n)=>{const m=memberCells(C.$cell).get(n);return m?(self,...a)=>m.f.apply(self,a):undefined;}});
// a linear datatype value with its methods: inout methods replace the value and return their other results
class Lin{
  constructor(C,v){this.C=C;this.v=v;}
  call(n,...a){const m=memberCells(this.C.$cell).get(n);if(!m)throw new $.Unsup('no member '+n);const d=m.decl;
    const r=m.f.apply(this.v,a);
    const inSelf=d.mods&&d.mods.has('inout');if(!inSelf)return r;
    const k=1+d.params.filter(p=>p.inout).length+(d.outs||[]).length;
    if(k===1){this.v=r;return undefined;}
    this.v=r[0];return k===2?r[1]:r.slice(1);}
}
// a static member of a datatype
const stat=(C,n)=>(...a)=>{const m=memberCells(C.$cell).get(n);if(!m)throw new $.Unsup('no member '+n);return m.f(...a);};
module.exports={table,J,mem,Lin,stat};
