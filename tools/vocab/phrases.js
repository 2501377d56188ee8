// Month and weekday names and relative phrases of every locale, out of the ICU of node.
const fs=require('fs'); const locs=JSON.parse(fs.readFileSync(process.argv[2])); const out={};
for (const l of locs){
 let f; try{ f=Intl.RelativeTimeFormat.supportedLocalesOf([l]); }catch(e){f=[]}
 if(!f.length) continue;
 const o=out[l]={rel:[],names:[]};
 for (const style of ['long','short']) for (const numeric of ['always','auto']){
  const r=new Intl.RelativeTimeFormat(l,{numeric,style,numberingSystem:'latn'});
  if(r.resolvedOptions().locale.split('-')[0]!=l.split('-')[0]) continue;
  const ks=[]; if(numeric=='auto') ks.push(-2,-1,0,1,2); else for(let k=1;k<=60;k++) ks.push(-k,k);
  for (const u of ['year','month','week','day','hour','minute','second']) for (const k of ks){
   let t=r.format(k,u); o.rel.push([style,numeric,u,k,t]); }
 }
 const opt={calendar:'gregory',numberingSystem:'latn',timeZone:'UTC'};
 for (const st of ['long','short']) {
  for (let m=0;m<12;m++){ const d=new Date(Date.UTC(2014,m,15));
   for (const q of [{day:'numeric',month:st,year:'numeric'},{month:st}]) {
    const p=new Intl.DateTimeFormat(l,Object.assign({},opt,q)).formatToParts(d).filter(x=>x.type=='month').map(x=>x.value).join('');
    o.names.push([st,'month',m+1,p]); } }
  for (let k=1;k<=7;k++){ const d=new Date(Date.UTC(2014,8,k));
   const p=new Intl.DateTimeFormat(l,Object.assign({},opt,{weekday:st})).formatToParts(d).filter(x=>x.type=='weekday').map(x=>x.value).join('');
   o.names.push([st,'day',k,p]); }
 }}
fs.writeFileSync(process.argv[3],JSON.stringify(out));
