"""Rewrites the table of planted bugs in DESIGN.md (between the section 7 markers)."""
import json,glob,re
R=['| id | property | needs | caught by |','|---|---|---|---|']
NF={'dense-newton-shared-gamma'}
for f in sorted(glob.glob('/verif/seeded/*/meta.json'),key=lambda f:(json.load(open(f))['property'],f)):
    m=json.load(open(f)); i=f.split('/')[-2]
    R.append('| `%s` | %s | %s | %s check, %s |'%(i,m['property'],m['needs'],m['property'],'no-failing-input-found' if i in NF else 'failing input replayed'))
p='/verif/DESIGN.md'; s=open(p).read()
t='<!-- table -->\n'+'\n'.join(R)+'\n<!-- end -->'
s=re.sub(r'<!-- table -->.*?<!-- end -->|@@TABLE@@',lambda _:t,s,count=1,flags=re.S)
open(p,'w').write(s)
