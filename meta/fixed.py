"""meta/fixed.py <property> <commit> <what failed>: records a defect that has been repaired."""
import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
prop, commit, what = sys.argv[1:4]
d['findings'].append({'property': prop, 'status': 'fixed', 'commit': commit, 'what': f'fixed: property={prop} {commit} {what}'})
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
