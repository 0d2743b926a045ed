#!/usr/bin/env python3
# Regenerates MANIFEST.json from the list of built checks.
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
THR="stateless model checking of the real code: exhaustive delay-bounded schedule exploration (interposed threads, atomics, futexes)"
ENV="stateless model checking of the real code over a simulated network: exhaustive enumeration of bounded environment behaviours and inputs against a reference model"
SEQ="explicit-state enumeration of all bounded inputs / operation sequences, each executed on the real code and compared with a reference model"
BUILT={}
exec(open('/verif/tools/built.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in BUILT:
        t,note=BUILT[i]
        checks.append({"property":i,"quick_cmd":f"VERIF_TIER=quick ./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","technique":t,"level":"model_checking","level_note":note,"evidence_file":f"evidence/{i}.json"})
    else:
        na.append({"property":i,"reason":NA.get(i,"check not built yet")})
json.dump({"version":1,"setup_cmd":"./mc/build.sh","checks":checks,"not_applicable":na,"notes":"No hooks in /repo: the checker interposes the OS below the real code. See DESIGN.md."},open('/verif/MANIFEST.json','w'),indent=1)
