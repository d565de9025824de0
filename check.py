#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: prove the contracts of one property against /repo's current source

1. extract the functions under contract (clang AST of the current tree), 2. discharge every obligation,
3. build the runtime counterpart of the contracts from the current tree and run it: it replays the models of
failed obligations on the real code, and stands in (bounded) for obligations the verifier could not decide."""
import json, os, re, shutil, subprocess, sys, tempfile, time, signal

VENV = '/opt/veriftools/pyvenv/bin/python3'
if os.environ.get('GEARVC_PY') != '1':
    py = shutil.which('python3-vt') or (VENV if os.path.exists(VENV) else sys.executable)
    os.environ['GEARVC_PY'] = '1'
    os.execv(py, [py] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('GEARVC_REPO', '/repo')
os.environ['GEARVC_REPO'] = REPO


def scan_literals(files):
    out = set()
    for f in files:
        try: s = open(f, errors='replace').read()
        except OSError: continue
        s = re.sub(r'//[^\n]*|/\*.*?\*/|"(\\.|[^"\\])*"', ' ', s, flags=re.S)
        for m in re.finditer(r'(?<![\w.])(\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)', s):
            try: v = float(m.group(1))
            except ValueError: continue
            if 0 < abs(v) < 1e9: out.add(v)
    return sorted(out)


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import importlib
    from contracts.registry import PROPS
    P = PROPS[pid]
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='gearvc-%s-' % pid)
    code = 1
    try:
        code = run(pid, tier, seed, P, scratch, evdir, t0, importlib)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def num(v):
    if v in ('True', 'False'): return 1. if v == 'True' else 0.
    try: return float(v)
    except (TypeError, ValueError): return None


def start_build(pid, P, scratch, inc):
    """a makefile for the driver, built in the background"""
    d = os.path.join(scratch, 'drv'); os.makedirs(d)
    cxx = '/usr/bin/clang++' if os.path.exists('/usr/bin/clang++') else 'clang++'
    flags = '-std=c++17 -O1 -g1 -w -fsanitize=address -fno-omit-frame-pointer -I%s/drivers -I%s -I%s/include -I%s/include/gear %s' % (HERE, inc, REPO, REPO, P.get('cxxflags', ''))
    objs = []
    mk = 'all: drv\n'
    srcs = [os.path.join(HERE, 'drivers', P.get('driver', pid + '.cc'))] + [os.path.join(REPO, 'src', x) for x in P['libs']]
    for k, s in enumerate(srcs):
        o = 'o%d.o' % k; objs.append(o)
        mk += '%s: %s\n\t%s %s -c $< -o $@\n' % (o, s, cxx, flags)
    mk += 'drv: %s\n\t%s -fsanitize=address $^ -ldl -lpthread %s -o $@\n' % (' '.join(objs), cxx, P.get('ldflags', ''))
    open(os.path.join(d, 'Makefile'), 'w').write(mk)
    log = open(os.path.join(d, 'log'), 'w')
    return subprocess.Popen(['make', '-j7', '-s', '-C', d], stdout=log, stderr=subprocess.STDOUT), d


def run(pid, tier, seed, P, scratch, evdir, t0, importlib):
    from gearvc.extract import Program, make_config, ExtractError
    from gearvc import spec
    inc = make_config(scratch)
    bld, bdir = start_build(pid, P, scratch, inc)
    for m in P['mods']: importlib.import_module('contracts.' + m)
    units = spec.UNITS.get(pid, [])
    thorough = tier == 'thorough'
    res, exerr = [], None
    try:
        prog = Program(P['tus'], scratch)
        res = spec.run_units(units, prog, limit=P.get('limit', 240) * (3 if thorough else 1), jobs=6,
                             extra={'timeout_scale': 4 if thorough else 1})
    except ExtractError as e:
        exerr = str(e)
    except Exception as e:                      # the extraction met something it does not know
        exerr = 'extraction: %r' % (e,)
    tproof = time.time() - t0
    obl = sum(len(r['results']) for r in res)
    done = sum(1 for r in res for x in r['results'] if x[1] == 'proved')
    failed, undecided = [], []
    for r in res:
        for x in r['results']:
            name = '%s/%s' % (r['unit'], x[0])
            if x[1] == 'proved': continue
            (failed if x[1] == 'failed' else undecided).append((name, x))
        if r['error']: undecided.append((r['unit'], ('', 'unsupported', '', 0, r['error'] + (' in %s' % r.get('where') if r.get('where') else ''), None)))
        elif not r['results']: undecided.append((r['unit'], ('', 'vacuous', '', 0, 'no obligation generated', None)))
        else:
            for c, ok in r['covers'].items():
                if not ok: undecided.append((r['unit'], ('', 'vacuous', '', 0, 'cover "%s" not reached' % c, None)))
    if exerr: undecided.append(('extraction', ('', 'unsupported', '', 0, exerr, None)))
    # ---- runtime counterpart
    rc = bld.wait()
    drv = os.path.join(bdir, 'drv')
    fails, stat = {}, dict(cases=0, distinct=0, checks=0)
    samples = []
    drverr = None
    if rc != 0:
        drverr = open(os.path.join(bdir, 'log'), errors='replace').read()[-3000:]
    else:
        lits = scan_literals([os.path.join(REPO, 'src', x) for x in P['libs']] + headers(P['libs']))
        hf, mf = os.path.join(scratch, 'hints'), os.path.join(scratch, 'models')
        open(hf, 'w').write('\n'.join('%r' % v for v in lits))
        with open(mf, 'w') as f:
            for n, x in failed + undecided:
                if x[5]:
                    f.write(' '.join('%s %r' % (k, num(v)) for k, v in x[5].items() if num(v) is not None and ' ' not in k) + '\n')
        budget = P.get('budget', 12) * (12 if thorough else 1)
        if failed or undecided: budget = max(budget, P.get('budget', 12) * (12 if thorough else 2))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=3:allocator_may_return_null=1:log_path=%s/asan' % scratch, TMPDIR=scratch)
        ps = []
        for k in range(6):
            wd = os.path.join(scratch, 'run%d' % k); os.makedirs(wd)
            ps.append(subprocess.Popen([drv, '--seed', str(seed + 1000 * k), '--time', str(budget), '--hints', hf, '--models', mf], cwd=wd, env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True))
        dead = time.time() + budget + 60
        for k, p in enumerate(ps):
            try: out = p.communicate(timeout=max(1, dead - time.time()))[0].decode(errors='replace')
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); out = p.communicate()[0].decode(errors='replace')
                out += '\nFAIL hang:driver :: the driver did not finish (seed %d)\n' % (seed + 1000 * k)
            got = False
            for l in out.splitlines():
                if l.startswith('FAIL '):
                    key, _, txt = l[5:].partition(' :: ')
                    fails.setdefault(key, txt); got = True
                elif l.startswith('SAMPLE ') and len(samples) < 4: samples.append(l[7:])
                elif l.startswith('STAT '):
                    w = l.split(); got = True
                    for a, b in zip(w[1::2], w[2::2]):
                        if a in stat: stat[a] += int(b)
            if not got: fails.setdefault('crash:driver', 'driver ended with status %s without output (seed %d)' % (p.returncode, seed + 1000 * k))
    # ---- known findings
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get('status') == 'known' and k['property'] == pid]
    hit = set()

    def is_known(kind, name):
        for k in known:
            for pat in k.get(kind, []):
                if re.fullmatch(pat, name): hit.add(k['id']); return True
        return False
    newfails = {k: v for k, v in fails.items() if not is_known('keys', k)}
    newfailed = [(n, x) for n, x in failed if not is_known('obligations', n)]
    undecided2 = [(n, x) for n, x in undecided if not is_known('obligations', n)]
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    # ---- report
    replay = os.path.join(evdir, 'replay-%s.json' % pid)
    verdict = 0
    if newfails or newfailed:
        verdict = 1
        json.dump({'property': pid, 'failing_inputs': newfails, 'seed': seed, 'driver': 'drivers/' + P.get('driver', pid + '.cc'),
                   'failed_obligations': [{'obligation': n, 'status': x[1], 'backend': x[2], 'detail': str(x[4])[:4000], 'model': x[5]} for n, x in newfailed],
                   'undecided': [{'obligation': n, 'status': x[1], 'detail': str(x[4])[:1500]} for n, x in undecided2]}, open(replay, 'w'), indent=1, default=str)
        for n, x in newfailed[:10]: print('failed obligation: %s [%s, %s]' % (n, x[1], x[2]))
        for k, v in list(newfails.items())[:10]: print('failing input: %s :: %s' % (k, v[:600]))
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if newfails else ' no-failing-input-found'))
    else:
        if os.path.exists(replay): os.unlink(replay)
    for n, x in undecided2: print('undecided (bounded stand-in only): %s: %s %s' % (n, x[1], str(x[4])[:300]))
    if drverr: print('driver could not be built: ' + drverr[-600:])
    back = {}
    for r in res:
        for x in r['results']:
            if x[1] == 'proved': back[x[2]] = back.get(x[2], 0) + 1
    assume = sorted({a for r in res for a in r['assumptions']}) + BASE_ASSUMPTIONS
    funcs = sorted({f for r in res for f in r['funcs']})
    cov = {
        'obligations': obl + len([1 for n, x in undecided if x[1] in ('unsupported', 'vacuous')]), 'discharged': done,
        'checker_cmd': 'python3 check.py %s %s' % (pid, tier),
        'trusted_base': ['z3 %s, z3-new, cvc5 (any one may discharge an obligation)' % __import__('z3').get_version_string(), 'clang AST of the current source', 'gearvc verification condition generator', 'contracts of the C++ standard library in gearvc/stdlib.py'],
        'contracts': [{'unit': r['unit'], 'obligations': len(r['results']), 'discharged': sum(1 for x in r['results'] if x[1] == 'proved'), 'paths': r.get('paths'), 'solver_s': r['solver_s'], 'covers': r['covers'], 'loops': r['loops'], 'undecided': r['error']} for r in res],
        'functions_under_contract': funcs, 'functions_assumed_by_contract': sorted({f for r in res for f in r.get('contracts', [])}),
        'discharged_by': back, 'solver_s': round(sum(r['solver_s'] for r in res), 2), 'proof_wall_s': round(tproof, 2),
        'undecided': [{'obligation': n, 'why': '%s %s' % (x[1], str(x[4])[:400])} for n, x in undecided],
        'failed': [n for n, x in failed],
        'evaluations': stat['checks'], 'distinct_nontrivial': stat['distinct'],
        'rule': 'runtime evaluation of the same postconditions on generated objects and histories (bounded, never counted as proved); distinct by the full drawn input', 'samples': samples or ['none'],
        'bounded_cases': stat['cases'], 'bounded_only': P.get('bounded', []),
        'explanation': P.get('note', '') + (' driver not built: ' + drverr[:500] if drverr else ''),
    }
    level = P.get('level', 'proof')
    json.dump({'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assume,
               'wall_s': round(time.time() - t0, 2), 'violations': len(newfails) + len(newfailed)}, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d of %d obligations discharged, %d undecided, %d bounded cases, %.1f s' % (pid, done, cov['obligations'], len(undecided), stat['cases'], time.time() - t0))
    return verdict


BASE_ASSUMPTIONS = ['double arithmetic is treated as real arithmetic in proofs (the runtime counterpart runs the real arithmetic)',
                    'signed integer overflow does not occur outside the ranges stated in the contracts', 'memory allocation succeeds',
                    'one thread uses an object at a time']


def headers(libs):
    out = []
    for x in libs:
        b = os.path.basename(x)[:-3] + '.h'
        for d in ('include/gear', 'include/gear/gearimpl', 'include/gear/gearxml', 'include/gear/gearsurf', 'include'):
            f = os.path.join(REPO, d, b)
            if os.path.exists(f): out.append(f)
    return out


main()
