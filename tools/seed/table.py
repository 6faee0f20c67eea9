# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seed/caught.json
import json,os,re
v=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','..')
c=json.load(open(os.path.join(v,'tools/seed/caught.json')))
rows=['| planted bug | needs | caught by |','|---|---|---|']
for d in sorted(os.listdir(os.path.join(v,'seeded'))):
    m=json.load(open(os.path.join(v,'seeded',d,'meta.json')))
    rows.append(f"| {d} | {m['needs']} | {c.get(d, m['property'])} |")
p=os.path.join(v,'DESIGN.md'); s=open(p).read()
b,e='<!-- planted -->','<!-- /planted -->'
s=s[:s.index(b)+len(b)]+'\n'+'\n'.join(rows)+'\n'+s[s.index(e):]
open(p,'w').write(s)
