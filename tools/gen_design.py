#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md from design_head.md, design_tail.md, the texts in
design_text.py, the evidence of the last runs (on the unchanged tree) and the planted bugs."""
import json, os, runpy, glob
V = '/verif'
T = runpy.run_path(V + '/tools/design_text.py')['TEXT']
props = {json.loads(l)['id']: json.loads(l) for l in open(V + '/properties.jsonl')}
out = [open(V + '/tools/design_head.md').read().rstrip() + '\n']
def n(x):
    for u, d in (('M', 10**6), ('k', 10**3)):
        if x >= d: return f'{x/d:.1f} {u}'
    return str(x)
out.append('## 3. The properties, one by one\n')
out.append('Executions, outcomes and times are those of the quick tier on the unchanged tree (8 cores); the '
           'thorough tier uses the same trees with the larger bounds named in them.  "dev" is the bound on deviations '
           '(absent: the full product is enumerated).\n')
for i, p in props.items():
    oracle, why = T[i]
    e = json.load(open(f'{V}/evidence/{i}.json'))
    c = e['coverage']
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Oracle.* {oracle}\n")
    out.append(f"*Why not by tests.* {why}\n")
    if e['assumptions']:
        out.append('*Assumed / not judged.* ' + '; '.join(e['assumptions']) + '.\n')
    out.append('| tree | enumerated | dev | executions | outcomes | s |\n|---|---|---|---|---|---|')
    for t in c['trees']:
        d = t['deviation_bound'] or ''
        out.append(f"| {t['tree']} | {t['enumerates']} | {d} | {n(t['executions'])} | {t['distinct_outcomes']} | {t['wall_ms']/1000:.1f} |")
    out.append('')
out.append(open(V + '/tools/design_tail.md').read().rstrip() + '\n')
out.append('## 7. Planted bugs\n')
out.append('All of these compile, pass the 53 stable tests, and have a demonstration; the check of the property named '
           '(quick tier) reports each of them.  *first missed* marks those the checks did not report when the bug was '
           'planted, and what was added for it.\n')
missed = runpy.run_path(V + '/tools/design_text.py').get('MISSED', {})
out.append('| planted bug | caught by | needs | first missed |\n|---|---|---|---|')
for f in sorted(glob.glob(V + '/seeded/*/meta.json'), key=lambda f: (json.load(open(f))['property'], f)):
    m = json.load(open(f)); b = os.path.basename(os.path.dirname(f))
    out.append(f"| {b} | {m['property']} | {m['needs'].replace('|', '/')} | {missed.get(b, '')} |")
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
