#!/usr/bin/env python3
"""Writes DESIGN.md from design_text.py, the rules in the harness and the planted bugs."""
import glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from design_text import HEAD, P, TAIL
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
rules = {}
for f in sorted(glob.glob(os.path.join(ROOT, 'harness/src/p_*.rs'))):
    s = open(f).read()
    for m in re.finditer(r'Check\s*\{([^{}]*?)rule:\s*"((?:[^"\\]|\\.)*)"', s, re.S):
        name = re.search(r'name:\s*"(\w+)"', m.group(1)).group(1)
        quick = re.search(r'quick:\s*([\d_]+)', m.group(1))
        rules[name] = (quick.group(1).replace('_', '') if quick else '?', os.path.basename(f), m.group(2).replace('\\"', '"'))
out = [HEAD, '## 2. The properties and their checks\n']
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append(P[i][0] + '\n')
    for n in sorted(rules):
        if n.startswith(i.lower() + '_'):
            q, f, r = rules[n]
            out.append('* `%s` (%s, %s cases in the quick tier): %s.' % (n, f, q, r))
    out.append('')
out.append(TAIL)
out.append('## 6. Sensitivity: planted bugs and reverted repairs\n')
out.append('Each bug in `seeded/` was written from the text of its property and the code, keeps the stable tests passing, '
           'and has a demonstration that fails with it only. "caught by" are the sub-checks of its property that report it '
           'in the quick tier with VERIF_SEED=1.\n')
res = {}
rf = os.path.join(ROOT, 'tools/seeded_results.json')
if os.path.exists(rf):
    res = json.load(open(rf))
out.append('| bug | property | needs | caught by |')
out.append('|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded/*/meta.json'))):
    b = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/'), ', '.join(res.get('bugs', {}).get(b, [])) or '(not measured)'))
out.append('')
if res.get('fixes'):
    out.append('Repairs reverted alone in a scratch copy of /repo, and the checks that reported it:\n')
    out.append('| commit | property | caught by |')
    out.append('|---|---|---|')
    for c, v in res['fixes'].items():
        out.append('| %s %s | %s | %s |' % (c, v['title'].replace('|', '/'), v['property'], ', '.join(v['caught']) or 'NOT CAUGHT'))
    out.append('')
out.append(open(os.path.join(ROOT, 'tools/design_notes.md')).read() if os.path.exists(os.path.join(ROOT, 'tools/design_notes.md')) else '')
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out).rstrip() + '\n')
