"""discharging obligations: z3 (in process), then z3 and cvc5 as external processes on the SMT-LIB text"""
import z3, time, subprocess, tempfile, os, shutil

Z3NEW = shutil.which('z3-new')
Z3OLD = shutil.which('z3')
CVC5 = shutil.which('cvc5')
DEBUG = os.environ.get('GEARVC_SMT')
STAT = {}


def _kinds(es):
    """(has quantifier, has array/uf, has nonlinear real)"""
    seen, st = set(), list(es)
    q = arr = uf = ints = nl = False
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x):
            q = True; st.append(x.body()); continue
        if z3.is_app(x):
            k = x.decl().kind()
            if k in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE): arr = True
            if k == z3.Z3_OP_UNINTERPRETED and x.num_args(): uf = True
            if x.sort().kind() == z3.Z3_INT_SORT: ints = True
            if k == z3.Z3_OP_MUL and sum(1 for c in x.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1: nl = True
            if k == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)): nl = True
            st.extend(x.children())
    return q, arr, uf, ints, nl


def ackermann(fs):
    """replace selects and uninterpreted applications by constants plus congruence (for the nonlinear real core)"""
    fs = [z3.simplify(f, som=False) for f in fs]
    apps = {}
    order = []
    memo = {}

    def go(e):
        i = e.get_id()
        if i in memo: return memo[i][1]
        if not z3.is_app(e):
            memo[i] = (e, e); return e
        ch = [go(c) for c in e.children()]
        k = e.decl().kind()
        if k == z3.Z3_OP_SELECT or (k == z3.Z3_OP_UNINTERPRETED and ch):
            if z3.is_array_sort(e.sort()) if hasattr(z3, 'is_array_sort') else e.sort().kind() == z3.Z3_ARRAY_SORT:
                r = e.decl()(*ch)
            else:
                r0 = e.decl()(*ch)
                key = r0.get_id()
                if key not in apps:
                    apps[key] = (r0, z3.Const('ack!%d' % len(apps), e.sort()), e.decl(), ch)
                    order.append(key)
                r = apps[key][1]
        elif ch:
            r = e.decl()(*ch) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else \
                {z3.Z3_OP_AND: lambda: z3.And(ch), z3.Z3_OP_OR: lambda: z3.Or(ch), z3.Z3_OP_ADD: lambda: z3.Sum(ch), z3.Z3_OP_MUL: lambda: z3.Product(ch)}[k]()
        else: r = e
        memo[i] = (e, r)
        return r
    out = [go(f) for f in fs]
    groups = {}
    for k in order:
        r0, c, d, ch = apps[k]
        if d.kind() == z3.Z3_OP_SELECT: g = ('sel', ch[0].get_id(), len(ch)); args = ch[1:]
        else: g = ('uf', d.name(), len(ch)); args = ch
        groups.setdefault(g, []).append((args, c))
    for g, l in groups.items():
        for i in range(len(l)):
            for j in range(i):
                out.append(z3.Implies(z3.And([a == b for a, b in zip(l[i][0], l[j][0])]), l[i][1] == l[j][1]))
    return out


class LinCache:
    def __init__(self): self.memo, self.forms = {}, {}


def linearize(fs, keepq=False, cache=None):
    """nonlinear subterms replaced by constants (weaker assumptions: unsat is still a proof); None if there are none"""
    memo = cache.memo if cache else {}
    hit = [0]

    def const(e): return z3.is_rational_value(e) or z3.is_int_value(e) or z3.is_algebraic_value(e)

    def go(e):
        i = e.get_id()
        if i in memo: return memo[i][1]
        if not z3.is_app(e):
            memo[i] = (e, e); return e
        k = e.decl().kind()
        nl = False
        if k == z3.Z3_OP_MUL: nl = sum(1 for c in e.children() if not const(c)) > 1
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM): nl = not const(e.arg(1))
        elif k == z3.Z3_OP_POWER: nl = True
        ch = [go(c) for c in e.children()]
        if nl:
            hit[0] += 1
            cs = [c for c in ch if const(c)]
            nc = [c for c in ch if not const(c)]
            if k == z3.Z3_OP_MUL:
                nc.sort(key=lambda c: c.get_id())
                key = z3.Product(nc) if len(nc) > 1 else nc[0]
                kk = ('m', key.get_id())
                if kk not in memo: memo[kk] = (key, z3.FreshConst(e.sort(), 'nl'))
                r = memo[kk][1]
                for c in cs: r = c * r
            else:
                key = e.decl()(*ch)
                kk = ('o', key.get_id())
                if kk not in memo: memo[kk] = (key, z3.FreshConst(e.sort(), 'nl'))
                r = memo[kk][1]
        elif ch:
            if k == z3.Z3_OP_AND: r = z3.And(ch)
            elif k == z3.Z3_OP_OR: r = z3.Or(ch)
            elif k == z3.Z3_OP_ADD: r = z3.Sum(ch)
            elif k == z3.Z3_OP_MUL: r = z3.Product(ch)
            else: r = e.decl()(*ch)
        else: r = e
        memo[i] = (e, r)
        return r
    out = []
    for f in fs:
        if cache and f.get_id() in cache.forms:
            r = cache.forms[f.get_id()][1]
            if r is not None: out.append(r)
            continue
        kd = _kinds([f])
        if kd[0]:
            if keepq and not kd[4]: out.append(f)
            if cache: cache.forms[f.get_id()] = (f, None)
            continue
        r = go(z3.simplify(f, som=True))
        if cache: cache.forms[f.get_id()] = (f, r)
        out.append(r)
    if cache: return out
    return out if hit[0] or keepq else None


def floor_lemmas(fs):
    """instances of valid facts about q = floor(x/y): q <= x/y < q+1, and the order of q*y and m*y for the integers m around"""
    qs, ms = {}, {}
    seen, st = set(), list(fs)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if not z3.is_app(e): continue
        k = e.decl().kind()
        if k == z3.Z3_OP_TO_INT:
            d = e.arg(0)
            if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(d.arg(1)): qs[i] = (e, d)
        if k == z3.Z3_OP_TO_REAL:
            m = e.arg(0)
            c = [x for x in ([m] + (m.children() if z3.is_add(m) else [])) if z3.is_const(x) and not z3.is_int_value(x) or z3.is_select(x)]
            for x in c: ms[x.get_id()] = x
        st.extend(e.children())
    out = []
    if not qs or len(qs) > 12: return out
    R = z3.ToReal
    for q, d in qs.values():
        x, y = d.arg(0), d.arg(1)
        out += [z3.Implies(y > 0, z3.And(R(q) * y <= x, x < (R(q) + 1) * y)), z3.Implies(y != 0, d * y == x)]
        for m in list(ms.values())[:10]:
            out += [z3.Implies(z3.And(y > 0, q >= m + 1), R(q) * y >= (R(m) + 1) * y), z3.Implies(z3.And(y > 0, q <= m - 1), (R(q) + 1) * y <= R(m) * y),
                    z3.Implies(q == m, R(q) * y == R(m) * y)]
        out += [z3.Implies(z3.And(y > 0, x >= 0), q >= 0), z3.Implies(z3.And(y > 0, x < 0), q < 0)]
    return out


def turn_lemmas(fs):
    """case splits of the integers that count full turns: n <= -1, n == 0 or n >= 1 for the sums and differences of the integers multiplied by one constant"""
    by = {}
    seen, st = set(), list(fs)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if not z3.is_app(e): continue
        if e.decl().kind() == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_rational_value(e.arg(0)) and e.arg(1).decl().kind() == z3.Z3_OP_TO_REAL and not z3.is_int_value(e.arg(1).arg(0)):
            c = e.arg(0)
            m = e.arg(1).arg(0)
            by.setdefault(str(abs(c.as_fraction())), {})[m.get_id()] = m
        st.extend(e.children())
    out = []
    import itertools
    for c, ms in by.items():
        if c == '1' or len(ms) > 4: continue
        ms = list(ms.values())
        for co in itertools.product((-1, 0, 1), repeat=len(ms)):
            nz = [x for x in co if x]
            if not nz or nz[0] < 0: continue
            t = z3.Sum([(m if x > 0 else -m) for x, m in zip(co, ms) if x])
            out.append(z3.Or(t <= -1, t == 0, t >= 1))
    return out


def instances(fs, goal):
    """ground instances of the universal facts at the integers the goal is about, the loop positions and their neighbours"""
    def one(f): return z3.is_quantifier(f) and f.num_vars() == 1 and f.var_sort(0).kind() == z3.Z3_INT_SORT
    qs = [f for f in fs if one(f) and f.is_forall()]
    neg = None
    if one(goal) and goal.is_exists(): neg = goal
    elif z3.is_quantifier(goal) or not qs: return []
    ts = {}
    def ints(es, pred):
        seen, st = set(), list(es)
        while st:
            e = st.pop()
            i = e.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_quantifier(e): e = e.body(); st.append(e); continue
            if z3.is_const(e) and not z3.is_int_value(e) and e.sort().kind() == z3.Z3_INT_SORT and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and pred(e.decl().name()): ts[i] = e
            if z3.is_app(e): st.extend(e.children())
    ints([goal], lambda n: True)
    if neg is not None: ints(fs, lambda n: n.startswith('w!'))
    out = []
    tl = [t + d for t in list(ts.values())[:6] for d in (0, -1, 1, -2, 2)] + ([z3.IntVal(0)] if neg is not None else [])
    for t in tl:
        for q in qs[:12]: out.append(z3.simplify(z3.substitute_vars(q.body(), t)))
        if neg is not None: out.append(z3.simplify(z3.Not(z3.substitute_vars(neg.body(), t))))
    return out


def prove(assumptions, goal, timeout_ms, opts=None):
    """-> (unsat|sat|unknown, backend, seconds, model text)"""
    opts = opts or {}
    t0 = time.time()
    goal = z3.simplify(goal)
    if z3.is_true(goal): return 'unsat', 'simplifier', time.time() - t0, None
    fs = list(assumptions) + [z3.Not(goal)]
    inst = instances(assumptions, goal)
    if inst:
        fs = list(assumptions) + inst + [z3.Not(goal)]
        try:
            gs = [f for f in fs if not _kinds([f])[0]]
            r, m = _api(gs, min(2500, timeout_ms))
            if r == 'unsat': return r, 'z3-api', time.time() - t0, None
        except z3.Z3Exception:
            pass
    if _kinds([z3.Not(goal)])[0] is False:
        try:
            q0 = any(_kinds([f])[0] for f in assumptions)
            nf = [f for f in fs if not _kinds([f])[0]] if q0 else fs
            lem = floor_lemmas(nf) + turn_lemmas([z3.simplify(f, som=True) for f in nf])
            gs = linearize(nf + lem)
            if gs is None and lem: gs = nf + lem
            if gs is not None:
                r, m = _api(gs, min(2500, timeout_ms))
                if r == 'unsat': return r, 'z3-api/linear', time.time() - t0, None
            if q0:
                gs = linearize(fs + lem, True)
                r, m = _api(gs, min(2500, timeout_ms))
                if r == 'unsat': return r, 'z3-api/linear', time.time() - t0, None
        except z3.Z3Exception:
            pass
    r, m = _api(fs, min(2500, timeout_ms))
    if r == 'unsat': return r, 'z3-api', time.time() - t0, None
    if r == 'sat': return r, 'z3-api', time.time() - t0, m
    q, arr, uf, ints, nl = _kinds(fs)
    if nl and not q:
        # nonlinear core with functions removed
        try:
            gs = ackermann(fs)
            r, m = _api(gs, timeout_ms, tactic='nl')
            if r == 'unsat': return r, 'z3-api/ackermann', time.time() - t0, None
            if r == 'sat': return r, 'z3-api/ackermann', time.time() - t0, m
        except z3.Z3Exception:
            pass
    r, be = _external(fs, timeout_ms, opts)
    if r == 'unsat': return r, be, time.time() - t0, None
    if r == 'sat':
        r2, m = _api(fs, timeout_ms)
        return 'sat', be, time.time() - t0, m or ''
    if q:
        # with the quantified assumptions dropped an unsat is still a proof
        gs = [f for f in fs if not _kinds([f])[0]]
        if any(f.eq(fs[-1]) for f in gs) and len(gs) < len(fs):
            r, m = _api(gs, 2000)
            if r == 'unsat': return r, 'z3-api', time.time() - t0, None
    return 'unknown', be, time.time() - t0, None


def _api(fs, ms, tactic=None):
    s = z3.Then('simplify', 'solve-eqs', 'smt').solver() if tactic == 'nl' else z3.Solver()
    s.set('timeout', int(ms))
    s.add(fs)
    r = s.check()
    if r == z3.unsat: return 'unsat', None
    if r == z3.sat:
        try:
            m = s.model()
            vals = {}
            for d in m.decls():
                if d.arity() == 0:
                    v = m[d]
                    if z3.is_int_value(v): vals[d.name()] = str(v.as_long())
                    elif z3.is_rational_value(v): vals[d.name()] = v.as_decimal(12).rstrip('?')
                    elif z3.is_algebraic_value(v): vals[d.name()] = v.as_decimal(12).rstrip('?')
                    elif z3.is_true(v) or z3.is_false(v): vals[d.name()] = str(v)
            return 'sat', vals
        except z3.Z3Exception:
            return 'sat', {}
    return 'unknown', None


def _external(fs, ms, opts):
    s = z3.Solver()
    s.add(fs)
    txt = s.to_smt2()
    txt = '\n'.join(l for l in txt.split('\n') if not l.startswith('(set-info'))
    d = opts.get('scratch') or tempfile.gettempdir()
    fd, fn = tempfile.mkstemp(suffix='.smt2', dir=d)
    os.write(fd, txt.encode()); os.close(fd)
    if DEBUG: shutil.copy(fn, os.path.join(DEBUG, os.path.basename(fn)))
    secs = max(1, ms // 1000)
    procs = []
    try:
        if Z3NEW: procs.append(('z3-new', subprocess.Popen([Z3NEW, '-T:%d' % secs, fn], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        if Z3OLD and not opts.get('few'): procs.append(('z3-4.8', subprocess.Popen([Z3OLD, '-T:%d' % secs, fn], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        if CVC5:
            fn2 = fn + '.cvc5'
            with open(fn2, 'w') as f: f.write('(set-logic ALL)\n' + txt)
            procs.append(('cvc5', subprocess.Popen([CVC5, '--tlimit=%d' % ms, '--nl-ext-tplanes', fn2], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        end = time.time() + secs + 2
        left = list(procs)
        while left and time.time() < end:
            for p in list(left):
                if p[1].poll() is not None:
                    out = p[1].stdout.read().strip().split('\n')[0]
                    left.remove(p)
                    if out in ('unsat', 'sat'): return out, p[0]
            time.sleep(0.02)
        return 'unknown', 'portfolio'
    finally:
        for _, p in procs:
            if p.poll() is None: p.kill()
            p.wait(); p.stdout.close()
        for x in (fn, fn + '.cvc5'):
            if os.path.exists(x): os.unlink(x)
