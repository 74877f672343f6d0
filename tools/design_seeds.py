#!/usr/bin/env python3
"""Rewrites the table of seeded bugs in DESIGN.md."""
import os,json,re
base=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
rows=["<!-- seeds -->","| bug | property | needs |","|---|---|---|"]
for i in sorted(os.listdir(base+"/seeded")):
    m=json.load(open(base+f"/seeded/{i}/meta.json")); rows.append(f"| {i} | {m['property']} | {m['needs']} |")
rows.append("<!-- /seeds -->")
s=open(base+"/DESIGN.md").read()
s=re.sub(r"<!-- seeds -->.*<!-- /seeds -->",lambda _:"\n".join(rows),s,flags=re.S)
open(base+"/DESIGN.md","w").write(s)
