import json,sys
sys.path[:0]=['/verif/vc','/verif/contracts']
import registry
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in registry.PROPS:
        P=registry.PROPS[i]
        checks.append(dict(property=i,quick_cmd=f'python3-vt vc/check.py {i}',thorough_cmd=f'VERIF_TIER=thorough python3-vt vc/check.py {i}',evidence_file=f'evidence/{i}.json',
            technique=P.get('technique','contract-based deductive verification of the real functions (verification conditions generated from /repo, discharged by z3 and polynomial certificates)'),
            level=P.get('level','proof'),level_note=P.get('note','')))
    else: na.append(dict(property=i,reason=registry.NA.get(i,'no contract within reach decides it yet')))
m=dict(version=1,setup_cmd='bash tools/setup.sh',checks=checks,not_applicable=na,notes='see DESIGN.md')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
