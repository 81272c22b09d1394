#!/usr/bin/env python3-vt
"""Validate properties, manifest and evidence against the schemas."""
import json, glob, sys
from jsonschema import Draft202012Validator as V
bad = 0
def chk(name, obj, schema):
    global bad
    for e in V(schema).iter_errors(obj):
        bad += 1; print(name, list(e.path), e.message[:300])
L = lambda p: json.load(open(p))
ps = L('/root/.vp/PROPERTIES.schema.json'); ids = []
for l in open('/verif/properties.jsonl'):
    o = json.loads(l); ids.append(o['id']); chk('prop ' + o['id'], o, ps)
m = L('/verif/MANIFEST.json'); chk('manifest', m, L('/root/.vp/MANIFEST.schema.json'))
claimed = [c['property'] for c in m['checks']] + [c['property'] for c in m.get('not_applicable', [])]
if sorted(claimed) != sorted(ids): bad += 1; print('claimed', set(claimed) ^ set(ids))
es = L('/root/.vp/EVIDENCE.schema.json')
for f in sorted(glob.glob('/verif/evidence/*.json')): chk(f, L(f), es)
print('bad:', bad); sys.exit(bad > 0)
