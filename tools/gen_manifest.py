#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from properties.jsonl and checks/*.py"""
import json, os, sys, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/tools/not_applicable.json')) if os.path.exists(V + '/tools/not_applicable.json') else {}
checks, na = [], []
for p in props:
    i = p['id']; f = V + '/checks/%s.py' % i
    if os.path.exists(f) and i not in NA:
        spec = importlib.util.spec_from_file_location('c', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        b = '; '.join(h['bounds'] for h in m.H if h.get('bounds'))
        checks.append(dict(property=i, quick_cmd='./run_check.sh %s' % i, thorough_cmd='VERIF_TIER=thorough ./run_check.sh %s' % i, evidence_file='evidence/%s.json' % i,
            technique=getattr(m, 'TECHNIQUE', 'stateless model checking of the real code: exhaustive depth-first enumeration within stated bounds, reference-model oracle'),
            level='model_checking', level_note='Exhaustive within: ' + b + '. Assumes: ' + '; '.join(getattr(m, 'ASSUMPTIONS', ['nothing further']))))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
d = dict(version=1, setup_cmd='python3 -c "import sys; sys.exit(0)"', checks=checks, not_applicable=na,
    notes='Checks compile what they need straight from /repo/trick_source (no hooks, no guard). lib/mc.hh is the explorer, lib/run.py the driver; tools/ has the generators of properties.jsonl and of this file.')
json.dump(d, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
import jsonschema
jsonschema.validate(d, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks', len(na), 'not applicable')
