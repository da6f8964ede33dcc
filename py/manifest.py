"""Writes MANIFEST.json from the plans."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
from plans import PLAN
NOTE = plans.NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = [dict(property=p, quick_cmd='VERIF_TIER=quick ./check ' + p, thorough_cmd='VERIF_TIER=thorough ./check ' + p,
               evidence_file='evidence/%s.json' % p,
               technique='TLA+ specification checked with TLC; ' + NOTE[p][0], level='model_checking', level_note=NOTE[p][1])
          for p in props if p in PLAN]
na = [dict(property=p, reason='check not built yet') for p in props if p not in PLAN]
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
