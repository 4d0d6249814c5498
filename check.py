#!/usr/bin/env python3
"""Decides one property of scanoss/wayuu: builds /repo's current sources against the exploration engine in mc/ and
enumerates the bounded space of executions of the property's suites.

  check.py C07                 quick tier      (VERIF_TIER / --tier quick|thorough)
  check.py --replay FILE       re-executes one recorded violation
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not run."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('WAYUU_REPO', '/repo')
MC = VERIF + '/mc'
BUILD = VERIF + '/build'
RACE = {'C01', 'C03', 'C04', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C19', 'C21', 'C22', 'C23', 'C26', 'C27'}
SAN = '-fsanitize=address,bounds,vla-bound,integer-divide-by-zero,return,unreachable,null,nonnull-attribute'
SUT_COMMON = ['-std=gnu99', '-g1', '-DWAYUU_DIST', '-U_FORTIFY_SOURCE', '-w', '-fno-omit-frame-pointer', '-ffunction-sections',
              '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types', '-Wno-error=return-type']
SUT = {'asan': SUT_COMMON + ['-O1', '-ftrivial-auto-var-init=pattern', SAN, '-fno-sanitize-recover=all'],
       'race': SUT_COMMON + ['-O0', '-fsanitize=thread', '-fno-builtin', '-fno-pie']}
ENG = {'asan': ['-DMC_ASAN'], 'race': ['-DMC_RACE', '-fno-pie']}
LINK = {'asan': [SAN], 'race': []}
CXX = ['clang++', '-std=c++17', '-O1', '-g1', '-w', '-fno-omit-frame-pointer', '-I', MC, '-I', REPO]


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=cwd)
    if r.returncode:
        raise BuildError(' '.join(cmd)[:300] + '\n' + (r.stdout + r.stderr)[-4000:])
    return r.stdout


def digest(paths, extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def cached(tag, deps, cmd, make):
    """make(out) builds the object; cached by contents of the dependencies and the command"""
    out = f'{BUILD}/{tag}-{digest(deps, cmd)}.o'
    if not os.path.exists(out):
        tmp = f'{out}.{os.getpid()}.tmp.o'
        make(tmp)
        os.replace(tmp, out)
    return out


def compile_cxx(src, variant, tag, deps):
    cmd = CXX + ENG[variant] + ['-c', src]
    return cached(f'{tag}-{variant}', deps, cmd, lambda o: run(cmd + ['-o', o]))


def sut_sources():
    return sorted(glob.glob(REPO + '/*.c'))


def sut_headers():
    return sorted(glob.glob(REPO + '/*.h'))


def compile_c(src, variant):
    cmd = ['clang'] + SUT[variant] + ['-I', REPO, '-c', src] + (['-Dmain=wayuu_main'] if os.path.basename(src) == 'main.c' else [])
    return cached(f'sut-{os.path.basename(src)}-{variant}', [src] + sut_headers(), cmd, lambda o: run(cmd + ['-o', o]))


LDS = 'SECTIONS { sutdata : { *(.data .data.* .bss .bss.* COMMON) } }\n/* group sections included */\n'


def link_sut(objs, eng, variant):
    key = digest(objs + eng, variant + LDS)
    out = f'{BUILD}/sutall-{variant}-{key}.o'
    if os.path.exists(out):
        return out
    tmp = f'{BUILD}/t{os.getpid()}-{variant}'
    open(tmp + '.lds', 'w').write(LDS)
    run(['ld', '-r', '-d', '--force-group-allocation', '-T', tmp + '.lds', '-o', tmp + '.o'] + objs)
    syms = set()
    for e in eng:
        for l in run(['nm', '--defined-only', e]).splitlines():
            n = l.split()[-1]
            if n.startswith('mc_'):
                syms.add(n)
    with open(tmp + '.syms', 'w') as f:
        for s in sorted(syms):
            f.write(f'{s[3:]} {s}\n')
    for l in run(['objdump', '-t', tmp + '.o']).splitlines():
        m = re.search(r'\s(\.(data|bss)\S*)\s+([0-9a-f]+)\s', l)
        if m and int(m.group(3), 16):
            raise BuildError('a variable is not covered by the state image: ' + l)
    run(['objcopy', '--redefine-syms', tmp + '.syms', tmp + '.o', out])
    for x in ('.lds', '.o', '.syms'):
        os.unlink(tmp + x)
    return out


def build(prop, variant):
    os.makedirs(BUILD, exist_ok=True)
    hdr = [MC + '/engine.h']
    suite = f'{MC}/suites/{prop.lower()}.cpp'
    common = sorted(glob.glob(MC + '/suites/*.h'))
    with cf.ThreadPoolExecutor(16) as ex:
        eng = [ex.submit(compile_cxx, MC + '/engine.cpp', variant, 'engine', [MC + '/engine.cpp'] + hdr)]
        if variant == 'race':
            eng.append(ex.submit(compile_cxx, MC + '/tsanrt.cpp', variant, 'tsanrt', [MC + '/tsanrt.cpp'] + hdr))
        su = ex.submit(compile_cxx, suite, variant, prop, [suite] + common + hdr + sut_headers())
        sut = [ex.submit(compile_c, s, variant) for s in sut_sources()]
        eng = [e.result() for e in eng]
        sut = [s.result() for s in sut]
        su = su.result()
    allo = link_sut(sut, eng, variant)
    exe = f'{BUILD}/{prop}-{variant}-{digest([allo, su] + eng, variant)}'
    if not os.path.exists(exe):
        run(['clang++', '-no-pie'] + LINK[variant] + eng + [su, allo, '-lssl', '-lcrypto', '-lpthread', '-ldl', '-o', exe + '.tmp'])
        os.replace(exe + '.tmp', exe)
    tls = any(re.search(r'\.t(data|bss)', l) for l in run(['objdump', '-h', allo]).splitlines())
    return exe, tls


def findings():
    known = {}
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known


def execute(prop, tier, budget):
    t0 = time.time()
    variants = ['asan'] + (['race'] if prop in RACE else [])
    with cf.ThreadPoolExecutor(2) as ex:
        exes = list(ex.map(lambda v: build(prop, v), variants))
    tb = time.time() - t0
    stats = []
    known = ',' + ','.join(k for p, k in findings() if p == prop) + ','
    for v, (exe, tls) in zip(variants, exes):
        env = dict(os.environ, MC_KNOWN=known)
        if tls:
            env['MC_FRESH_THREADS'] = '1'
        left = max(30, budget - (time.time() - t0))
        cmd = [exe, '--property', prop, '--budget', str(left)] + (['--thorough'] if tier == 'thorough' else [])
        r = subprocess.run(cmd, capture_output=True, text=True, env=env)
        if r.returncode not in (0, 1, 3):
            raise BuildError(f'{exe} ended with {r.returncode}\n{r.stdout[-1500:]}\n{r.stderr[-3000:]}')
        if r.stderr.strip():
            sys.stderr.write(r.stderr[-3000:])
        for s in json.loads(r.stdout):
            s['variant'] = v
            stats.append(s)
        if 'MC_ALL' not in os.environ and any(not x['key'] or f",{x['key']}," not in known for s in stats for x in s['violations']):
            break   # decided; MC_ALL=1 runs the other suites too
    return stats, tb


LEVEL_RULE = ('a case is one enumerated configuration, input or history; an execution is one run of the real code under the controlled '
              'scheduler/environment with a fully determined sequence of choices; distinct_nontrivial counts distinct observable outcomes '
              '(hash of responses, handler views, files, logs or returned values) over all executions')


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    if a and a[0] == '--replay':
        d = json.load(open(a[1]))
        exe, tls = build(d['property'], d['variant'])
        if tls:
            os.environ['MC_FRESH_THREADS'] = '1'
        cmd = [exe, '--suite', d['suite'], '--case', str(d['case'])] + (['--thorough'] if d['tier'] == 'thorough' else [])
        if d.get('choices'):
            cmd += ['--choices', ','.join(map(str, d['choices']))]
        if d.get('pcs'):
            cmd += ['--pcs', ','.join(map(str, d['pcs']))]
        return subprocess.run(cmd).returncode
    prop = a[0]
    t0 = time.time()
    man = {c['property']: c for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']} if os.path.exists(VERIF + '/MANIFEST.json') else {}
    level = man.get(prop, {}).get('level', 'model_checking')
    try:
        stats, tb = execute(prop, tier, 800 if tier == 'quick' else 3600 * 3)
    except BuildError as e:
        print(f'ERROR property={prop}: the check could not run:\n{e}')
        return 2
    known = findings()
    rc = 0; nviol = 0; seen_known = set(); err = []
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    rdir = f'{VERIF}/evidence/replay'
    for s in stats:
        for v in s['violations']:
            if v['key'] and (prop, v['key']) in known:
                seen_known.add(v['key'])
                continue
            nviol += 1
            os.makedirs(rdir, exist_ok=True)
            path = f'{rdir}/{prop}-{nviol}.json'
            json.dump(dict(property=prop, suite=s['suite'], variant=s['variant'], tier=tier, case=v['case'], choices=v['choices'],
                           pcs=v.get('pcs', []), key=v['key'], msg=v['msg'], desc=v['desc']), open(path, 'w'), indent=1)
            if nviol <= 5:
                print(f"  suite {s['suite']} case {v['case']} key={v['key'] or '-'}\n    {v['desc']}\n    {v['msg']}")
                print(f'VIOLATION property={prop} replay={path}')
            rc = 1
        if s['harness_error']:
            err.append(f"{s['suite']}: {s['harness_error']}")
    for k in sorted(seen_known):
        print(f'KNOWN-FINDING: property={prop} {known[(prop, k)]}')
    tot = lambda k: sum(s[k] for s in stats)
    samples = []
    for s in stats:
        samples += [f"{s['suite']}: {x}" for x in s['samples'][:3]]
    if level == 'model_checking':
        cov = dict(states=tot('distinct_states'), transitions=tot('steps'), traces_validated_against_impl=tot('executions'), distinct_outcomes=tot('distinct_outcomes'))
    else:
        cov = dict(evaluations=tot('executions'), distinct_nontrivial=tot('distinct_outcomes'), rule=LEVEL_RULE)
    cov.update(samples=samples[:20] or ['none'], exhaustive=not any(s['capped'] for s in stats) and not err,
               explanation='Executions of the real code, enumerated exhaustively within the bound of each suite; there is no separate model, so every execution is a trace of the implementation.',
               suites=[{k: s[k] for k in ('suite', 'variant', 'bound', 'cases', 'cases_done', 'executions', 'steps', 'choice_points', 'max_deviations',
                                          'distinct_outcomes', 'distinct_states', 'capped', 'unconfirmed', 'counters', 'wall_s')} for s in stats])
    if not err or rc:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), violations=nviol,
                       assumptions=['operating system, C library, OpenSSL and the compiler behave as documented; the network, clock, scheduler and TLS record layer are replaced by the engine',
                                    'sequentially consistent memory between scheduling points' + (' (unsynchronised accesses are reported by the race build)' if prop in RACE else '')]),
                  open(f'{VERIF}/evidence/{prop}.json', 'w'), indent=1)
    for s in stats:
        print(f"{prop} {s['suite']} [{s['variant']}]: {s['cases_done']}/{s['cases']} cases, {s['executions']} executions, {s['distinct_outcomes']} outcomes, "
              f"{s['distinct_states']} states, max deviations {s['max_deviations']}, {s['wall_s']} s{' CAPPED' if s['capped'] else ''}{' UNCONFIRMED %d' % s['unconfirmed'] if s['unconfirmed'] else ''} {s['counters']}")
    if err:
        print('HARNESS ERROR ' + '\n'.join(err))
        if not rc:
            return 2
    if not rc:
        print(f'OK property={prop} held on everything explored ({time.time() - t0:.1f} s, build {tb:.1f} s)')
    return rc


if __name__ == '__main__':
    sys.exit(main())
