"""Collects the costs of the last runs from evidence/ for DESIGN.md."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(os.path.join(HERE, 'evidence', 'P*.json'))):
    e = json.load(open(f))
    c = e['coverage']
    out[e['property']] = dict(wall=round(e['wall_s']), paths=c['states'], checks=c['checks_decided'], queries=c['solver_queries'],
                              solver=round(c['solver_s']), native=c['traces_validated_against_impl'])
json.dump(out, open(os.path.join(HERE, 'tools', 'cost.json'), 'w'), indent=1)
