#!/usr/bin/env python3
"""Table of planted changes for DESIGN.md (printed; pasted between the markers)."""
import json, glob, os, re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| planted change | property | what it needs to manifest |","|---|---|---|"]
for m in sorted(glob.glob(R+"/seeded/*/meta.json"), key=lambda m:(json.load(open(m))["property"],m)):
    d=json.load(open(m)); rows.append("| %s | %s | %s |"%(os.path.basename(os.path.dirname(m)),d["property"],str(d["needs"]).replace("|","/").replace("\n"," ")))
t="\n".join(rows)
p=R+"/DESIGN.md"; s=open(p).read()
s=re.sub(r"<!-- planted -->.*?<!-- /planted -->",lambda _:"<!-- planted -->\n"+t+"\n<!-- /planted -->",s,flags=re.S)
open(p,"w").write(s)
