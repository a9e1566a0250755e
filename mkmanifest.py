"""Writes MANIFEST.json from vf/scope.py."""
import json, os
from vf import scope

here = os.path.dirname(os.path.abspath(__file__))
m = dict(version=1, setup_cmd='bash setup.sh',
         checks=[dict(property=p, quick_cmd='python3-vt check.py ' + p, thorough_cmd='python3-vt check.py ' + p,
                      technique=s['technique'], level=s['level'], level_note=s['note']) for p, s in sorted(scope.SCOPE.items())],
         not_applicable=[], notes=scope.NOTES)
for c in m['checks']:
    t = scope.SCOPE[c['property']].get('theorems')
    if t:
        c['theorems'] = t
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
