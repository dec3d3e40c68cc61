#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/*.py (one table entry per property)."""
import glob, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
for f in sorted(glob.glob(HERE + '/meta/*.py')):
    g = {}
    exec(compile(open(f).read(), f, 'exec'), g)
    P += g['P']
P.sort(key=lambda p: p['id'])
assert len({p['id'] for p in P}) == len(P)
with open(HERE + '/properties.jsonl', 'w') as o:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        o.write(json.dumps(q) + '\n')
checks, na = [], []
for p in P:
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check.sh ' + p['id'], 'thorough_cmd': './check.sh ' + p['id'],
                   'evidence_file': f"evidence/{p['id']}.json", 'technique': p['technique'], 'level': 'other', 'level_note': p['level_note']})
json.dump({'version': 1, 'setup_cmd': 'bash build.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'One Go program (checker/) loads /repo with go/packages, builds its SSA form and decides one property per run; no hook is needed in /repo, so the hooks field is absent. quick and thorough are the same complete analysis: it has no sampling and no bound to deepen.'},
          open(HERE + '/MANIFEST.json', 'w'), indent=1)
open(HERE + '/MANIFEST.json', 'a').write('\n')
print(len(P), 'properties,', len(checks), 'claimed,', len(na), 'not applicable')
