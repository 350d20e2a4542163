"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed={}
p=os.path.join(root,"DESIGN.md"); s=open(p).read()
mark="<!-- table -->"
head=s.split(mark)[0]
rows=["| id | caught by | needs |","|---|---|---|"]
for i in sorted(os.listdir(os.path.join(root,"seeded"))):
    m=json.load(open(os.path.join(root,"seeded",i,"meta.json")))
    rows.append("| %s | %s | %s |"%(i,missed.get(i,m["property"]),m["needs"].replace("|","\\|").replace("\n"," ")))
open(p,"w").write(head+mark+"\n"+"\n".join(rows)+"\n")
