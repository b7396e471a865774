# writes /verif/DESIGN.md; the table of planted bugs is generated from seeded/*/meta.json
import json, glob, os
V="/verif"
head=open("/verif/tools/design_head.md").read()
rows={}
for f in sorted(glob.glob(V+"/seeded/*/meta.json")):
    m=json.load(open(f)); rows.setdefault(m["property"],[]).append((os.path.basename(os.path.dirname(f)), m["what_it_breaks"]))
t="| property | planted bug | what it breaks |\n|---|---|---|\n"
for p in sorted(rows):
    for i,w in rows[p]: t+="| %s | `%s` | %s |\n"%(p,i,w.replace("|","\\|"))
open(V+"/DESIGN.md","w").write(head.replace("@@SEEDS@@",t))
