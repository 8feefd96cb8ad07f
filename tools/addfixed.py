"""addfixed.py PROPERTY COMMIT WHAT - records a repaired defect in known_findings.json."""
import json, sys
p = '/verif/known_findings.json'
k = json.load(open(p))
pid, h, m = sys.argv[1:4]
k["findings"].append({"property": pid, "status": "fixed", "what": f"fixed: property={pid} {h} {m}"})
open(p, 'w').write('{\n "findings": [\n' + ',\n'.join('  ' + json.dumps(f) for f in k["findings"]) + '\n ]\n}\n')
