#!/usr/bin/env python3
"""Runs the check of each planted change's property against a copy with the change; tools/caught.json records what was reported."""
import glob, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); WT = '/tmp/runwt'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
cf = V + '/tools/caught.json'; caught = json.load(open(cf)) if os.path.exists(cf) else {}
if not os.path.isdir(WT): sh(f'cp -a /repo {WT}')
sh(f'git -C {WT} checkout -q -- .; git -C {WT} fetch -q /repo HEAD && git -C {WT} reset -q --hard FETCH_HEAD')
sel = sys.argv[1:]
for d in sorted(glob.glob(V + '/seeded/*/')):
    id = os.path.basename(d[:-1])
    if not os.path.exists(d + 'patch.diff'): continue
    if sel and not any(re.fullmatch(s.replace('*', '.*'), id) for s in sel): continue
    if not sel and caught.get(id, '').startswith('caught'): continue
    m = json.load(open(d + 'meta.json')); sh(f'git -C {WT} checkout -q -- .')
    a = sh(f'git -C {WT} apply {d}patch.diff'); t0 = time.time()
    if a.returncode: print(id, 'does not apply', a.stderr); continue
    r = sh(f'cd {V} && WAYUU_REPO={WT} timeout -k 5 880 python3 check.py {m["property"]}')
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    if r.returncode == 1 and v:
        j = json.load(open(v[0].split('replay=')[1].split()[0])); s = f'caught by {m["property"]} {j["suite"]} ({j["variant"]}): {j.get("msg", "")[:160]}'
    else: s = f'missed (exit {r.returncode})'
    caught[id] = s; json.dump(caught, open(cf, 'w'), indent=1, sort_keys=True); print(id, s, f'{time.time() - t0:.0f}s', flush=True)
sh(f'git -C {WT} checkout -q -- .')
