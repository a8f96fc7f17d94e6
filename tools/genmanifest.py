#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table below; properties without a row are listed as not applicable.
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI="abstract interpretation of the SSA form (linear-inequality domain, trace partitioning, inductive loop invariants)"
C={}   # id -> (technique, level, note)
NA={}  # id -> reason
exec(open(os.path.join(here,"tools","claims.py")).read())
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":[],"not_applicable":[],"notes":"See DESIGN.md. All checks are static: they load /repo's current source, type-check it, and decide on its SSA form."}
for p in props:
    i=p["id"]
    if i in C:
        t,l,n=C[i]
        m["checks"].append({"property":i,"quick_cmd":f"bash /verif/check.sh {i} quick","thorough_cmd":f"bash /verif/check.sh {i} thorough","evidence_file":f"/verif/evidence/{i}.json","technique":t,"level":l,"level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"no check yet")})
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
print(len(m["checks"]),"checks",len(m["not_applicable"]),"not applicable")
