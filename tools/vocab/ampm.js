// The words for the two halves of the day of every locale, out of the ICU of node.
const fs=require('fs'); const locs=JSON.parse(fs.readFileSync(process.argv[2])); const out=[];
for (const l of locs){
 let f; try{ f=Intl.DateTimeFormat.supportedLocalesOf([l]); }catch(e){f=[]}
 if(!f.length) continue;
 const d=new Intl.DateTimeFormat(l,{hour:'numeric',hourCycle:'h12',calendar:'gregory',numberingSystem:'latn',timeZone:'UTC'});
 if(d.resolvedOptions().locale.split('-')[0]!=l.split('-')[0]) continue;
 for (const [v,h] of [[1,9],[2,21]]) { const p=d.formatToParts(new Date(Date.UTC(2014,1,15,h))).filter(x=>x.type=='dayPeriod').map(x=>x.value).join('');
  if(p) out.push([l,v,p]); }
}
fs.writeFileSync(process.argv[3],JSON.stringify(out));
