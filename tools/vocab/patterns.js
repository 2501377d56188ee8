// Dates as every locale writes them, out of the ICU of node: patterns (sequences of parts) with the words that stand in them.
const fs=require('fs'); const locs=JSON.parse(fs.readFileSync(process.argv[2])); const out=[];
const styles=[['full','full'],['long','long'],['medium','medium'],['short','short']].map(([n,s])=>({name:n,o:{dateStyle:s}}));
const combos=[
 {name:'wdMy',o:{weekday:'long',day:'numeric',month:'long',year:'numeric'}},
 {name:'sdMy',o:{weekday:'short',day:'numeric',month:'short',year:'numeric'}},
 {name:'dM',o:{day:'numeric',month:'long'}},{name:'dMs',o:{day:'numeric',month:'short'}},
 {name:'My',o:{month:'long',year:'numeric'}},{name:'Mys',o:{month:'short',year:'numeric'}},
 {name:'wdM',o:{weekday:'long',day:'numeric',month:'long'}},
 {name:'ymd',o:{year:'numeric',month:'numeric',day:'numeric'}},
 {name:'yMMdd',o:{year:'numeric',month:'2-digit',day:'2-digit'}}];
const times=[['',{}],['t24',{hour:'2-digit',minute:'2-digit',hourCycle:'h23'}],['s24',{hour:'2-digit',minute:'2-digit',second:'2-digit',hourCycle:'h23'}],['t12',{hour:'numeric',minute:'2-digit',hourCycle:'h12'}]];
const ts=(y,m,d,h,mi,s)=>new Date(Date.UTC(y,m-1,d,h,mi,s));
for(const l of locs){
 let ok=false; try{ ok=Intl.DateTimeFormat.supportedLocalesOf([l]).length>0 }catch(e){}
 if(!ok) continue;
 for(const st of [...styles,...combos]) for(const [tn,to] of times){
  let f; try{
   let o;
   if(st.o.dateStyle&&tn) o={dateStyle:st.o.dateStyle,timeStyle:tn=='s24'?'medium':'short',hourCycle:tn=='t12'?'h12':'h23'};
   else o={...st.o,...to};
   f=new Intl.DateTimeFormat(l,{...o,calendar:'gregory',numberingSystem:'latn',timeZone:'UTC'});
  }catch(e){continue}
  if(f.resolvedOptions().locale.split('-')[0]!=l.split('-')[0]) continue;
  const shape=(dt)=>f.formatToParts(dt);
  const p=shape(ts(2014,3,5,15,7,9));
  const pat=[], words={};
  let bad=false;
  p.forEach((x,i)=>{
   if(x.type=='literal') pat.push(['lit',x.value]);
   else if(x.type=='day') pat.push(['d',x.value.length]);
   else if(x.type=='year') pat.push(['y',x.value.length]);
   else if(x.type=='hour') pat.push(['h',x.value.length]);
   else if(x.type=='minute') pat.push(['mi',x.value.length]);
   else if(x.type=='second') pat.push(['s',x.value.length]);
   else if(x.type=='month'){ if(/^\d+$/.test(x.value)) pat.push(['mo',x.value.length]); else { pat.push(['M',i]); words.M=[]; for(let m=1;m<=12;m++){ const q=shape(ts(2014,m,5,15,7,9)); if(q.length!=p.length){bad=true;break} words.M.push(q[i].value);} } }
   else if(x.type=='weekday'){ pat.push(['W',i]); words.W=[]; for(let k=0;k<7;k++){ const q=shape(ts(2014,3,3+k,15,7,9)); if(q.length!=p.length){bad=true;break} words.W.push(q[i].value);} }
   else if(x.type=='dayPeriod'){ pat.push(['P',i]); words.P=[]; for(const h of [9,21]){ const q=shape(ts(2014,3,5,h,7,9)); if(q.length!=p.length){bad=true;break} words.P.push(q[i].value);} }
   else bad=true;
  });
  if(!bad) out.push({loc:l,style:st.name+tn,pat,words});
 }
}
fs.writeFileSync(process.argv[3],JSON.stringify(out));
console.log(out.length);
