#!/usr/bin/env python3
# Writes MANIFEST.json from the table below.
import json,os,re
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
VOS="the real program (all of src/ and third-party/, entered through main) executed on an in-memory operating system"
TRUST=" Trusts the virtual operating system (mc/vfs.cpp, mc/shim.cpp) to behave like Linux/glibc for the calls used, and the independently written reference model/decoder (mc/spec.cpp, mc/repo.cpp)."
C={}
def c(i,tech,level,note): C[i]=(tech,level,note+TRUST)
MC="explicit-state model checking of the implementation: "
exec(open(os.path.join(R,"tools","manifest_table.py")).read())
props=[json.loads(l)["id"] for l in open(os.path.join(R,"properties.jsonl"))]
src=""
d=os.path.join(R,"mc","checks")
for f in os.listdir(d): src+=open(os.path.join(d,f)).read()
lv=dict(re.findall(r'MC_CHECK\((C\d+), "(\w+)"\)',src))
M={"version":1,"setup_cmd":"tools/build.sh","checks":[],"not_applicable":[],
   "notes":"No hooks are needed in /repo: the program's libc calls are redirected at link time. See DESIGN.md."}
for p in props:
    if p in C:
        t,l,n=C[p]
        assert lv.get(p)==l,(p,l,lv.get(p))
        M["checks"].append({"property":p,"quick_cmd":"./run.sh "+p,"thorough_cmd":"VERIF_TIER=thorough ./run.sh "+p,"technique":t,"level":l,"level_note":n})
    else: M["not_applicable"].append({"property":p,"reason":"check not built yet"})
json.dump(M,open(os.path.join(R,"MANIFEST.json"),"w"),indent=1); print(len(M["checks"]),"checks")
