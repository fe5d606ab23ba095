#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl and the list of claimed properties below.
import json,os
D=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims=json.load(open(D+"/tools/claims.json"))
props=[json.loads(l) for l in open(D+"/properties.jsonl")]
checks=[];na=[]
for p in props:
    i=p["id"]
    c=claims["claimed"].get(i)
    if c:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":"contract-based deductive verification (gvc: weakest-precondition style VCs from go/ssa of the real code, discharged by z3/cvc5)","level":"proof","level_note":c})
    else:
        na.append({"property":i,"reason":claims["not_applicable"].get(i,"not yet under contract")})
json.dump({"version":1,"setup_cmd":"bash ./setup.sh","checks":checks,"not_applicable":na,"notes":claims["notes"]},open(D+"/MANIFEST.json","w"),indent=1)
