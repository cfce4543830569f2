#!/usr/bin/env python3
"""Writes tools/seeds.md from seeded/*/meta.json and tools/seed_results.json (which check caught which planted bug)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(root + '/tools/seed_results.json'))
out = ['# Planted bugs and the checks that catch them', '',
       'Result of the quick tier, seed 1, with the patch applied. "late" marks a bug that the check missed when it was',
       'planted and that it catches since it was strengthened; "other checks" were tried besides and also caught it.', '',
       '| bug | property | caught by its check | other checks | needs |', '|---|---|---|---|---|']
for i in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(root + '/seeded/%s/meta.json' % i))
    r = res.get(i, {})
    own = r.get(m['property'])
    out.append('| %s | %s | %s | %s | %s |' % (i, m['property'], {True: 'yes', 'late': 'yes (late)', False: 'NO', None: 'not run'}[own],
        ' '.join(k for k, v in sorted(r.items()) if v and k != m['property']) or '–', m['needs'].replace('|', '\\|').replace('\n', ' ')))
open(root + '/tools/seeds.md', 'w').write('\n'.join(out) + '\n')
