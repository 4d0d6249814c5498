#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for the planted changes of tools/bugs*.py after confirming each in a scratch copy:
compiles with the repository's build, passes the stable tests, changes lines of the original repository, and the demonstration
tells the two trees apart.  mkseed.py [ID ...]"""
import glob, json, os, re, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/seedwt'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
bugs = []
for f in sorted(glob.glob(V + '/tools/bugs*.py')): bugs += runpy.run_path(f)['BUGS']
sel = sys.argv[1:]
if not os.path.isdir(WT): sh(f'cp -a /repo {WT}')
sh(f'git -C {WT} checkout -q -- .'); sh(f'git -C {WT} fetch -q /repo HEAD && git -C {WT} reset -q --hard FETCH_HEAD')
base = json.load(open('/opt/vp/BASELINE.json'))
ok = 0
for b in bugs:
    id = b['id']; d = f'{V}/seeded/{id}'
    if sel and not any(re.fullmatch(s.replace('*', '.*'), id) for s in sel): continue
    if not sel and os.path.exists(d + '/patch.diff'): continue
    sh(f'git -C {WT} checkout -q -- .')
    bad = None
    for f, o, n in b['edits']:
        t = open(f'{WT}/{f}').read()
        if t.count(o) != 1: bad = f'{f}: {t.count(o)} matches of {o[:50]!r}'; break
        open(f'{WT}/{f}', 'w').write(t.replace(o, n))
    if bad: print(id, 'EDIT', bad); continue
    diff = sh(f'git -C {WT} diff').stdout
    # lines of the base that go away
    own = True
    for f in {e[0] for e in b['edits']}:
        bl = sh(f'git -C /repo blame -s {f}').stdout.splitlines()
        cur = 0
        for l in sh(f'git -C {WT} diff -U0 {f}').stdout.splitlines():
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
            if m:
                a, k = int(m[1]), int(m[2] or 1)
                if any(x.startswith('^') for x in bl[a - 1:a - 1 + k] if k): own = False
    if own: print(id, 'OWN LINES ONLY'); continue
    os.makedirs(d, exist_ok=True)
    for f in ('h.h',): shutil.copy(V + '/tools/demo/' + f, d)
    open(d + '/test.c', 'w').write('#include "h.h"\n' + b['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(open(V + '/tools/demo/demo.sh').read().replace('@FLAGS@', b.get('flags', '')))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    patched = {f: open(f'{WT}/{f}').read() for f, _, _ in b['edits']}
    def demo(): return sh(f'cd {WT} && bash {d}/demo.sh')
    sh(f'git -C {WT} checkout -q -- .')
    rs = [demo() for _ in range(2)]
    if any(r.returncode for r in rs): print(id, 'DEMO FAILS ON CLEAN', [(r.returncode, (r.stdout + r.stderr)[-600:]) for r in rs]); shutil.rmtree(d); continue
    for f, t in patched.items(): open(f'{WT}/{f}', 'w').write(t)
    r = sh(f'cd {WT} && make -s CC=gcc wayuu slib 2>&1 | tail -20; test ${{PIPESTATUS[0]}} = 0', executable='/bin/bash')
    if r.returncode: print(id, 'BUILD', r.stdout[-800:]); shutil.rmtree(d); continue
    rs = [demo() for _ in range(3)]
    if any(r.returncode in (0, 2) for r in rs): print(id, 'DEMO PASSES PATCHED', [(r.returncode, (r.stdout + r.stderr)[-600:]) for r in rs]); shutil.rmtree(d); continue
    open(d + '/patch.diff', 'w').write(diff)
    # stable tests on /repo with the patch (paths are fixed)
    a = sh(f'git -C /repo apply {d}/patch.diff')
    t = sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seedtest.json')
    sh('git -C /repo checkout -q -- . && bash /opt/vp/build.sh')
    try: res = json.load(open('/tmp/seedtest.json'))
    except Exception as e: res = {}
    passed = set(json.dumps(x) for x in res.get('passed', []))
    want = set(json.dumps(x) for x in (base.get('stable') or base.get('passed') or base.get('tests') or []))
    if a.returncode or not want or not want <= passed: print(id, 'TESTS', a.stderr[:200], len(want), len(passed), sorted(want - passed)[:5]); shutil.rmtree(d); continue
    ok += 1; print(id, 'OK', rs[0].stdout.strip()[-100:], flush=True)
sh(f'git -C {WT} checkout -q -- .')
print(ok, 'written')
