#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, the planted changes (seeded/*/meta.json and tools/caught.json), and the bounds
and counts of the last run of every suite (evidence/*.json)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(V + '/tools/design_head.md').read().rstrip(), '']
caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
metas = sorted(glob.glob(V + '/seeded/*/meta.json'))
out += ['## 5. Planted changes', '',
        'Each was written from the text of a property and the code, confirmed in a scratch copy (compiles, passes the existing',
        'tests, its demonstration fails with it and passes without it), and then run against the checks.', '']
if metas:
    out += ['| change | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
    for m in metas:
        i = m.split('/')[-2]
        d = json.load(open(m))
        c = lambda s: str(s).replace('|', '\\|').replace('\n', ' ')
        out.append(f"| {i} | {d['property']} | {c(d['what_it_breaks'])} | {c(d['needs'])} | {c(caught.get(i, '?'))} |")
    out.append('')
extra = V + '/tools/design_tail.md'
if os.path.exists(extra):
    out += [open(extra).read().rstrip(), '']
out += ['## 6. Suites and bounds (quick tier)', '',
        'Counts are those of the last run before this file was written; evidence/ has those of the last run.', '']
tot = 0
for f in sorted(glob.glob(V + '/evidence/C*.json')):
    d = json.load(open(f))
    if d['tier'] != 'quick':
        continue
    out += [f"**{d['property']}** ({d['level']}, {d['wall_s']:.0f} s)", '']
    tot += d['wall_s']
    for s in d['coverage']['suites']:
        n = s['executions'] or s['cases_done']
        out.append(f"* `{s['suite']}`{' (race build)' if s['variant'] == 'race' else ''}: {s['bound']} - {s['cases_done']} cases, {s['executions']} executions, {s['wall_s']:.0f} s" + (' **not finished**' if s.get('capped') else ''))
    out.append('')
out.append(f'Sum of the quick checks: {tot:.0f} s on 8 cores.')
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
