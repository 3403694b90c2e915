"""Writes MANIFEST.json.  CLAIMS: property -> (technique, level note)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(H, 'tools', 'claims.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in CLAIMS:
        t, n = CLAIMS[p]
        checks.append(dict(property=p, quick_cmd=f'bash check.sh {p} quick', thorough_cmd=f'bash check.sh {p} thorough',
                           evidence_file=f'evidence/{p}.json', technique=t, level='model_checking', level_note=n))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='TLA+ specifications in spec/, checked and executed with TLC; bound to the code by replay and trace validation (vf/). No hooks in /repo: everything is observed through the public API.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
