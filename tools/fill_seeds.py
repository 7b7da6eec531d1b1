import json,glob,re
missed={'B11':'large inventories added','B17':'Chernoff tail tests added','B19':'near-equal parameters added','B20':'serial correlation tests added','B21':'fractional reaches added','B24':'non-ASCII encodings added','B31':'repeated identical releases added','B37':'publishers sharing a name added','B38':'spend functions of the contents added','B40':'configurations using the global generator added','B41':'seed 0 added','B42':'fine grids added','B43':'large cases added','B44':'many training points added','B45':'long histories added','B46':'many frequencies added'}
rows=["| bug | property | what it breaks | caught by |","|---|---|---|---|"]
for p in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=p.split('/')[-2]; m=json.load(open(p))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['property']} quick"+(f" (missed at first; {missed[i]})" if i in missed else "")+" |")
s=open('/verif/DESIGN.md').read()
s=s[:s.index('<!-- SEEDS -->')]+'<!-- SEEDS -->\n'+'\n'.join(rows)+'\n'
open('/verif/DESIGN.md','w').write(s)
