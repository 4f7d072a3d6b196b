#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py and properties.jsonl"""
import json
from checks import PROPS
ps = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {}


def technique(c):
    t = 'TLA+ monitor; TLC validates traces recorded from runs of the real code against it'
    ms = sorted({m['module'] + '.tla' for m in c.get('models', [])})
    if ms:
        t += '; TLC checks the design model%s %s in product with it' % ('s' if len(ms) > 1 else '', ', '.join(ms))
    if c.get('gens'):
        t += '; schedules which TLC generates from %s are replayed into the real code' % ', '.join(sorted({g['module'] + '.tla' for g in c['gens']}))
    return t


checks = []
for p in ps:
    c = PROPS.get(p['id'])
    if not c:
        continue
    checks.append(dict(
        property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'],
        technique=technique(c),
        level='model_checking',
        level_note=c.get('note', 'TLC decides for every recorded run of the real code whether it is a behaviour of the TLA+ specification; '
                         'sampled schedules, not all of them.')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks,
               not_applicable=[dict(property=p['id'], reason=NA[p['id']]) for p in ps if p['id'] not in PROPS]),
          open('/verif/MANIFEST.json', 'w'), indent=1)
