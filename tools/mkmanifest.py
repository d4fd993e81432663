#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with at least one harness is claimed."""
import json,re,glob,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
have={}
for f in glob.glob(root+'/harness/**/*.go',recursive=True):
    for m in re.finditer(r'^//verif:harness (P\d\d)(.*)$',open(f).read(),re.M):
        have.setdefault(m.group(1),[]).append(m.group(2))
notes=json.load(open(root+'/tools/levels.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have:
        n=notes.get(i,{})
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "technique":n.get("technique","bounded symbolic execution of the Go SSA, decided by SMT"),
          "level":"model_checking",
          "level_note":n.get("note","Bounded: holds for every input and schedule within the bounds stated in the evidence file; trusts go/ssa, the interpreter, the environment models in /verif/vm and the SMT solvers.")})
    else:
        na.append({"property":i,"reason":notes.get(i,{}).get("na","check not built yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write('\n')
print(len(checks),'claimed',len(na),'not claimed')
