import json,os
rows=['| planted bug | property | needs | caught by |','|---|---|---|---|']
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    rows.append(f"| `{d}` | {m['property']} | {m['needs']} | `check.sh {m['property']} quick` |")
s=open('/verif/DESIGN.md').read()
b,e='<!-- seeds -->','<!-- /seeds -->'
t=b+'\n'+'\n'.join(rows)+'\n'+e
if 'SEEDTABLE' in s: s=s.replace('SEEDTABLE',t)
else: s=s[:s.index(b)]+t+s[s.index(e)+len(e):]
open('/verif/DESIGN.md','w').write(s)
