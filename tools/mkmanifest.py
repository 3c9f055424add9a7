import json,sys
sys.path.insert(0,'/verif')
from props import PROPS, NA
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks=[]
for i in ids:
    if i in NA: continue
    P=PROPS[i]
    checks.append({"property":i,"quick_cmd":"python3 check.py %s"%i,"thorough_cmd":"VERIF_TIER=thorough python3 check.py %s"%i,"evidence_file":"evidence/%s.json"%i,
      "technique":"contract-based deductive verification of the LLVM IR of /repo's source (own VC generator, z3); bounded executable contracts where the verifier does not reach","level":P['level'],
      "level_note":P['note']})
m={"version":1,"setup_cmd":"python3 tools/setup.py","checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"No hooks in /repo: contracts are sidecar files bound to functions, loops and source variables through the debug information of the IR compiled from the current tree on every run. Genuine defects found and repaired are listed in KNOWN_FINDINGS.txt."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
