"""loops: unrolled while the guard is decided, otherwise cut by an inferred and then verified invariant

The invariant of a loop consists of
  * closed forms of modified locations as functions of the iteration count k (linear counters, values assigned
    on every iteration, array ranges filled one element per iteration),
  * last-update forms (a group of locations that an iteration either leaves alone or sets to a function of k),
  * what every completed iteration j < k has established (its path condition),
  * contract-supplied formulas (loop_specs).
Every closed form, last-update form and candidate is checked: it must hold on entry and every execution of the
body from a state satisfying the invariant must re-establish it; what fails is dropped until the rest is inductive.
"""
import z3
from .sym import *
from . import types as T


class Leaf:
    def __init__(self, lid, entry):
        self.lid, self.entry = lid, entry
        self.form = 'sym'          # sym | closed | havoc
        self.fn = None
        self.splits = []           # invariant indices split off (arrays)
        self.subs = []             # their elements (leaves again)
        self.restfn = None         # closed form of the rest of the array
        self.done = set()

    def isarr(self): return z3.is_expr(self.entry) and self.entry.sort().kind() == z3.Z3_ARRAY_SORT

    def allclosed(self): return self.form == 'closed' or self.isarr() and self.restfn is not None and all(x.allclosed() for x in self.subs)


def iter_leaves(t, path=()):
    if isinstance(t, dict):
        for k in t: yield from iter_leaves(t[k], path + (k,))
    else: yield path, t


def get_leaf(t, path):
    for p in path: t = t[p]
    return t


def set_leaf(t, path, v):
    if not path: return v
    n = dict(t)
    n[path[0]] = set_leaf(t[path[0]], path[1:], v)
    return n


def state_get(st, lid):
    if lid[0] == 'A': return st.alloc
    t = (st.locals if lid[0] == 'L' else st.heap)[lid[1]]
    return get_leaf(t, lid[2])


def state_set(st, lid, v):
    if lid[0] == 'A': st.alloc = v; return
    d = st.locals if lid[0] == 'L' else st.heap
    d[lid[1]] = set_leaf(d[lid[1]], lid[2], v)


def eq_leaf(a, b):
    if a is b: return True
    if isinstance(a, IterV) and isinstance(b, IterV): return same(a, b) or (a.cont is not None and b.cont is not None and a.cont.root == b.cont.root and a.cont.path == b.cont.path and a.end == b.end and a.idx is not None and b.idx is not None and a.idx.eq(b.idx))
    if z3.is_expr(a) and z3.is_expr(b):
        if a.eq(b): return True
        if a.sort() != b.sort(): return False
        return a.sort().kind() != z3.Z3_ARRAY_SORT and z3.simplify(a).eq(z3.simplify(b))
    return False


def diff(I, S, T2):
    """leaf ids whose value differs between states S and T2 (locations existing in S)"""
    out = []
    for s, t in S.locals.items():
        u = T2.locals.get(s)
        if u is t or u is None: continue
        for p, v in iter_leaves(t):
            try: w = get_leaf(u, p)
            except (KeyError, TypeError): raise Unsupported('loop changes the shape of a variable')
            if not eq_leaf(v, w): out.append(('L', s, p))
    for k, u in T2.heap.items():
        t = S.heap.get(k)
        if t is u: continue
        for p, w in iter_leaves(u):
            if t is not None:
                if not eq_leaf(get_leaf(t, p), w): out.append(('H', k, p))
            else:
                if not (z3.is_const(w) and w.decl().name().startswith('H0!')): out.append(('H', k, p))
    if not z3.simplify(S.alloc).eq(z3.simplify(T2.alloc)): out.append(('A',))
    return out


def heap_default(I, T2, S):
    """materialise in S the untouched heap fields first seen in T2"""
    for k, u in T2.heap.items():
        if k in S.heap: continue
        ok = True
        for p, w in iter_leaves(u):
            if not (z3.is_const(w) and w.decl().name().startswith('H0!')): ok = False
        if ok: S.heap[k] = u
        elif k == '$freed': S.heap[k] = z3.K(IntS, z3.BoolVal(False))
        else:
            if '::' in k:
                d, f = k.rsplit('::', 1)
                S.heap[k] = I.mk(I.field_ty(d, f), 'H0!' + k, (IntS,))
            else:
                S.heap[k] = I.mk(T.parse(k.replace('int32u', 'unsigned int').replace('int32', 'int').replace('real', 'double')), 'H0!' + k, (IntS,))


def peel(a, base):
    """store chain over base -> [(index, value)] innermost first, or None"""
    out = []
    while not a.eq(base):
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            out.append((z3.simplify(a.arg(1)), a.arg(2))); a = a.arg(0)
        else: return None
    out.reverse()
    return out


def dep(e, names):
    """does e mention a constant whose name is in names"""
    if isinstance(e, IterV): e = e.idx
    return bool(free_vars(e) & names)


def fresh_names(e, tag):
    return {x for x in free_vars(e) if tag in x}


def run(I, n, cond, body, inc, pre):
    from .interp import Ret, Brk, Cont, CppThrow, PathEnd
    count = 0
    lit = cond
    while lit is not None and lit.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'): lit = lit['inner'][0]
    forever = lit is None or lit.get('kind') in ('CXXBoolLiteralExpr', 'IntegerLiteral')     # left by break, return or exception only
    while not forever:
        snap, fsnap = I.st.copy(), I._copy_frame(I.frame)
        npos, ndec = I.pos, None
        if cond is not None:
            c = guard(I, cond)
            if c is None: d = None
            else:
                d = I.decided(c)
        else: d = True
        if d is False:
            return
        if d is True and count < I.o['unroll']:
            count += 1
            try:
                if pre is not None: I.stmt(pre)
                I.stmt(body)
            except Cont: pass
            except Brk: return
            if inc is not None: I.ev(inc)
            continue
        I.st, I.frame = snap, fsnap
        break
    if not I.o['loops']: raise Unsupported('loop')
    return invariant(I, n, cond, body, inc, pre)


def guard(I, cond):
    k = len(I.dec) if I.dec is not None else 0
    return z3.simplify(I.truth(cond))


def statekey(st, n):
    ids = [n.get('id') or id(n), st.ctx, st.alloc.get_id()]
    ids += [c.get_id() for c in st.pc]
    for s, t in st.locals.items():
        for p, v in iter_leaves(t):
            ids.append(v.get_id() if z3.is_expr(v) else ('iv', v.idx.get_id() if v.idx is not None else 0) if isinstance(v, IterV) else id(v))
    for k in sorted(st.heap):
        for p, v in iter_leaves(st.heap[k]): ids.append(v.get_id())
    return tuple(ids)


def invariant(I, n, cond, body, inc, pre):
    from .interp import Ret, Brk, Cont, CppThrow, PathEnd
    key = statekey(I.st, n)
    hit = I.cache.get(key)
    if hit is None:
        keep = I.st.copy()
        outs = infer(I, n, cond, body, inc, pre)
        I.cache[key] = (keep, outs)
    else: outs = hit[1]
    outs = [o for o in outs if o[0] != 'again']
    if not outs: raise PathEnd()
    c = I.choose(len(outs))
    kind, val, st, fr = outs[c]
    I.st = st.copy()
    I.frame = I._copy_frame(fr)
    if kind == 'return': raise Ret(val)
    if kind == 'throw': raise val
    return


class Exit(Exception): pass


def infer(I, n, cond, body, inc, pre):
    from .interp import Ret, Brk, Cont, CppThrow
    base = I.st
    frame0 = I.frame
    base.cnt += 1
    tag = '%s.%d' % (base.ctx, base.cnt)
    k = z3.Int('k!' + tag)
    HV = 'hv!' + tag + '!'

    def one():
        if cond is not None:
            c = z3.simplify(I.truth(cond))
            if not I.branch(c): return 'exit'
        if pre is not None: I.stmt(pre)
        try: I.stmt(body)
        except Cont: pass
        if inc is not None: I.ev(inc)
        return 'next'

    def explore(S):
        r = []
        saved = (I.results, I.o.get('quiet_ub'))
        for kind, v, st, fr in I.sub_explore(one, S):
            if kind == 'next' and v == 'exit': r.append(('exit', None, st, fr))
            elif kind == 'next': r.append(('again', None, st, fr))
            elif kind == 'break': r.append(('exit', None, st, fr))
            else: r.append((kind, v, st, fr))
        return r

    nres = len(I.results)
    leaves_ = {}
    facts = []        # functions (k, get) -> list of formulas assumed in the invariant state (verified below)
    groups = []

    def symname(lid): return HV + str(abs(hash(lid)) % 10 ** 8) + '.0'

    def havoc_value(lf):
        """symbolic value of a leaf at iteration k"""
        e = lf.entry
        if lf.form == 'closed': return lf.fn(k)
        if isinstance(e, IterV):
            if e.idx is None: raise Unsupported('loop over iterators found by key')
            return IterV(e.cont, z3.Const(symname(lf.lid), IntS), None, e.end)
        if not z3.is_expr(e): raise Unsupported('loop modifies a host-level value')
        v = lf.restfn(k) if lf.restfn is not None else z3.Const(symname(lf.lid), e.sort())
        for ix, sub in zip(lf.splits, lf.subs): v = z3.Store(v, ix, havoc_value(sub))
        return v

    def build(kk=None):
        S = base.copy()
        S.pc = list(base.pc) + [k >= 0]
        for lid, lf in leaves_.items():
            v = havoc_value(lf)
            state_set(S, lid, v)
            if lid[0] == 'A': S.pc.append(v >= base.alloc)
        return S

    # ---- modified set
    I.o2 = dict(I.o)
    quiet = I.o.get('quiet_ub'), list(I.results)
    I.o['quiet_ub'] = True
    try:
        for rnd in range(8):
            S = build()
            outs = explore(S)
            new = []
            for o in outs:
                if o[0] != 'again': continue
                heap_default(I, o[2], base); heap_default(I, o[2], S)
                for lid in diff(I, S, o[2]):
                    if lid not in leaves_:
                        lf = Leaf(lid, state_get(base, lid))
                        leaves_[lid] = lf; new.append(lid)
            if not new: break
        else: raise Unsupported('loop: modified locations do not stabilise')
        # ---- closed forms, refined until the inductive check passes
        for rnd in range(60):
            S = build()
            outs = explore(S)
            nexts = [o for o in outs if o[0] == 'again']
            for o in nexts:
                for lid in diff(I, S, o[2]):
                    if lid not in leaves_:
                        lf = Leaf(lid, state_get(base, lid))
                        leaves_[lid] = lf
            if not nexts: break
            if not improve(I, S, base, leaves_, nexts, k, HV, symname): break
        # ---- facts
        S = build()
        outs = explore(S)
        nexts = [o for o in outs if o[0] == 'again']
        lastfs = last_updates(I, S, base, leaves_, nexts, k, HV, tag)
        cands = candidates(I, S, base, leaves_, nexts, k, HV, tag, lastfs, n)
        sound, cands = houdini(I, base, S, build, explore, leaves_, k, lastfs, cands, HV)
        # ---- what each finished iteration established
        nc = iteration_fact(I, S, nexts, k, HV, tag)
    finally:
        I.o['quiet_ub'] = quiet[0]
        I.results[:] = quiet[1]
    S = build()
    S = with_facts(I, S, lastfs, [c for c in cands], k, leaves_)
    if nc is not None:
        for f in nc: (S.facts if _q(f) else S.pc).append(f)
    I.loopinfo.append({'function': frame_name(frame0), 'closed': sum(1 for l in leaves_.values() if l.form == 'closed'), 'last_update': len(lastfs),
                       'candidates': [c[0] for c in cands], 'havoc': [str(l.lid) for l in leaves_.values() if not l.allclosed() and not any(l.lid in g['lids'] for g in lastfs)]})
    outs = explore(S)
    return outs


def frame_name(fr):
    f = fr.func if fr else None
    return '%s::%s' % (getattr(f, 'cls', None), getattr(f, 'name', None)) if f is not None else '?'


def _q(f):
    from .interp import has_quant
    return has_quant(f)


def _lin_k(e, k):
    """e = b + c*k with integer c: (b, c) or None"""
    e = z3.simplify(e)
    e0 = z3.simplify(z3.substitute(e, (k, z3.IntVal(0))))
    for c in (1, -1, 0, 2, 3, 4, 5, 6):
        if z3.simplify(e - (e0 + c * k)).eq(z3.IntVal(0)) if e.sort() == IntS else False:
            return e0, c
    return None


def ite_merge(pairs):
    """[(cond, value)] -> ite chain"""
    v = pairs[-1][1]
    for c, x in reversed(pairs[:-1]):
        v = x if x.eq(v) else z3.If(c, x, v)
    return v


def new_pc(S, o, I=None):
    """what the iteration decided (facts that hold anyway left out)"""
    cs = list(o[2].pc[len(S.pc):])
    if I is not None: cs = [c for c in cs if c.get_id() in I.branch_ids]
    return z3.And([z3.BoolVal(True)] + cs)


def improve(I, S, base, leaves_, nexts, k, HV, symname):
    """find one closed form; True if something changed"""
    kn = {k.decl().name()}

    def clean(e):
        """only k and loop-invariant terms"""
        vs = free_vars(e)
        return not any(x.startswith(HV) or ('!' + I.st.ctx + '/') in x and fresh_in(x) for x in vs)

    def fresh_in(x):
        # symbols made while executing the body
        return any(x.split('!')[-1].startswith(o[2].ctx) for o in nexts)

    def one(lf, cur, posts):
        """improve one leaf; posts: its values after the body, one per path"""
        if lf.form == 'closed': return False
        e, lid = lf.entry, lf.lid
        if not lf.isarr():
            if lf.form == 'havoc': return False
            isit = isinstance(e, IterV)
            if isit:
                if any(not isinstance(p, IterV) or p.idx is None for p in posts): raise Unsupported('iterator update in loop')
                c0, cs, e0 = cur.idx, [p.idx for p in posts], e.idx
            else: c0, cs, e0 = cur, posts, e
            fn = scalar_form(I, S, c0, cs, e0, k, clean, nexts, 'd' in lf.done, 'v' in lf.done)
            if fn is None: return False
            lf.fn = (lambda f, ee: (lambda kk: IterV(ee.cont, f(kk), None, ee.end)))(fn[0], e) if isit else fn[0]
            lf.form = 'closed'
            lf.done.add(fn[1])
            return True
        rest = lf.restfn(k) if lf.restfn is not None else z3.Const(symname(lid), e.sort())
        chains = []
        for o, post in zip(nexts, posts):
            ch = peel(post, rest)
            if ch is None: lf.form = 'havoc'; return False
            chains.append((o, ch))
        lf.form = 'sym'
        # indices the loop does not change: split off
        idxs = []
        for o, ch in chains:
            for ix, v in ch:
                if not any(ix.eq(x) for x in lf.splits) and clean(ix) and not dep(ix, kn) and not any(ix.eq(x) for x in idxs): idxs.append(ix)
        if idxs and len(lf.splits) < 8:
            for ix in idxs:
                lf.splits.append(ix)
                lf.subs.append(Leaf((lid, len(lf.splits)), sel(e, ix)))
            return True
        for ix, sub in zip(lf.splits, lf.subs):
            if one(sub, z3.simplify(sel(cur, ix)), [sel(p, ix) for p in posts]): return True
        # moving index
        if 'a' not in lf.done and lf.restfn is None:
            mv = [(o, [(ix, v) for ix, v in ch if not any(ix.eq(x) for x in lf.splits)]) for o, ch in chains]
            if any(c for _, c in mv):
                fn = array_form(I, S, rest, mv, e, k, clean)
                if fn is None and e.sort().range() == BoolS: fn = set_form(I, S, rest, mv, e, k, clean)
                if fn is None: return False
                lf.done.add('a')
                if lf.splits: lf.restfn = fn
                else: lf.fn, lf.form = fn, 'closed'
                return True
            elif lf.splits:
                lf.done.add('a'); lf.restfn = (lambda ee: (lambda kk: ee))(e); return True
        return False

    for lid, lf in leaves_.items():
        if one(lf, state_get(S, lid), [state_get(o[2], lid) for o in nexts]): return True
    return False


def scalar_form(I, S, c0, cs, e0, k, clean, nexts, td, tv):
    """closed form of a scalar: linear in k, or last assigned value"""
    if c0.sort() in (IntS, RealS) and not td:
        d = z3.simplify(cs[0] - c0)
        same_d = all(z3.simplify(z3.simplify(x - c0) - d).eq(z3.simplify(d - d)) for x in cs[1:])
        if same_d and clean(d) and not (k.decl().name() in free_vars(d)):
            kk = (lambda q: z3.ToReal(q)) if c0.sort() == RealS else (lambda q: q)
            return (lambda q: z3.simplify(e0 + kk(q) * d)), 'd'
    if not tv and all(clean(x) for x in cs):
        pcs = [new_pc(S, o, I) for o in nexts]
        v = ite_merge(list(zip(pcs, cs)))
        if len(cs) == 1 or all(x.eq(cs[0]) for x in cs) or all(clean(p) for p in pcs):
            if v.eq(e0): return None
            return (lambda q: z3.If(q == 0, e0, z3.simplify(z3.substitute(v, (k, q - 1))))), 'v'
    return None


def array_form(I, S, rest, chains, entry, k, clean):
    """one element written per iteration at an index linear in k"""
    vals = []
    b = c = None
    for o, ch in chains:
        if ch is None: return None
        if not ch: return None
        ixs = {}
        for ix, v in ch: ixs[ix.get_id()] = (ix, v)
        if len(ixs) != 1: return None
        ix, v = list(ixs.values())[0]
        l = _lin_k(ix, k)
        if l is None or l[1] not in (1, -1) or not clean(l[0]): return None
        if b is None: b, c = l
        elif not z3.simplify(l[0] - b).eq(z3.IntVal(0)) or c != l[1]: return None
        # nested arrays: the written value may itself be a store over the old element
        if not clean(v): return None
        vals.append((new_pc(S, o, I), v))
    if len(vals) > 1 and not all(x[1].eq(vals[0][1]) for x in vals) and not all(clean(p) for p, _ in vals): return None
    v = ite_merge(vals)
    def fn(q):
        j = z3.Int('j!lam')
        at = (j - b) if c == 1 else (b - j)
        val = z3.substitute(v, (k, at))
        return z3.Lambda([j], z3.If(z3.And(at >= 0, at < q), val, sel(entry, j)))
    return fn


def set_form(I, S, rest, chains, entry, k, clean):
    """a set that grows by at most one element per iteration"""
    parts = []
    for o, ch in chains:
        if ch is None: return None
        if not ch: continue
        ixs = {}
        for ix, v in ch: ixs[ix.get_id()] = (ix, v)
        if len(ixs) != 1: return None
        ix, v = list(ixs.values())[0]
        old = z3.simplify(sel(rest, ix))
        if not z3.is_true(z3.simplify(z3.substitute(v, (old, z3.BoolVal(True))))): return None
        c = z3.simplify(z3.substitute(v, (old, z3.BoolVal(False))))
        pc = new_pc(S, o, I) if len(chains) > 1 else z3.BoolVal(True)
        if not clean(ix) or not clean(c) or not clean(pc): return None
        parts.append((ix, z3.And(pc, c)))
    if not parts: return None
    def fn(q):
        r, j = z3.Const('r!lam', entry.sort().domain()), z3.Int('j!set')
        hit = z3.Or([z3.And(z3.substitute(ix, (k, j)) == r, z3.substitute(c, (k, j))) for ix, c in parts])
        return z3.Lambda([r], z3.Or(sel(entry, r), z3.Exists([j], z3.And(j >= 0, j < q, hit))))
    return fn


def leaf_at(lf, lid, q, get):
    return lf.fn(q)


def last_updates(I, S, base, leaves_, nexts, k, HV, tag):
    """groups of scalar locations that an iteration leaves alone or sets to a function of k"""
    out = []
    rem = []
    for lid, lf in leaves_.items():
        if lf.form == 'closed': continue
        if not z3.is_expr(lf.entry) or lf.entry.sort().kind() == z3.Z3_ARRAY_SORT: continue
        rem.append(lid)
    pats = {}
    for lid in rem:
        cur = state_get(S, lid)
        upd = tuple(not eq_leaf(cur, state_get(o[2], lid)) and not (cur.sort() == BoolS and proves_eq(I, o[2], cur, state_get(o[2], lid))) for o in nexts)
        if not any(upd): continue
        ok = True
        for o, u in zip(nexts, upd):
            if u:
                v = state_get(o[2], lid)
                if any(x.startswith(HV) for x in free_vars(v)): ok = False
        if ok: pats.setdefault(upd, []).append(lid)
    for gi, (upd, lids) in enumerate(pats.items()):
        w = z3.Int('w!%s.%d' % (tag, gi))
        names = set()
        ups = [o for o, u in zip(nexts, upd) if u]
        g = {}
        bodyfresh = False
        for lid in lids:
            v = ite_merge([(new_pc(S, o, I), state_get(o[2], lid)) for o in ups])
            g[lid] = v
            if any(is_body_symbol(x, ups) for x in free_vars(v)): bodyfresh = True
        if bodyfresh: continue
        out.append({'lids': lids, 'w': w, 'g': g, 'upd': upd, 'C': z3.Or([new_pc(S, o, I) for o in ups]), 'entry': {l: leaves_[l].entry for l in lids}})
    return out


def is_body_symbol(x, outs):
    t = x.split('!')[-1]
    return any(t.startswith(o[2].ctx + '.') or t.startswith(o[2].ctx + '/') for o in outs)


def group_formula(g, k, vals, w):
    """vals: lid -> term"""
    a = z3.And([w == -1] + [vals[l] == g['entry'][l] for l in g['lids']])
    b = z3.And([w >= 0, w < k] + [vals[l] == z3.substitute(g['g'][l], (g['k'], w)) for l in g['lids']])
    return z3.Or(a, b)


def candidates(I, S, base, leaves_, nexts, k, HV, tag, lastfs, n):
    """[(name, fn(kterm, valuation: lid->term) -> formula)]"""
    out = []
    for gi, g in enumerate(lastfs):
        g['k'] = k
        cond = g['C']
        syms = {l: state_get(S, l) for l in leaves_ if z3.is_expr(state_get(S, l))}
        # no iteration so far would still update
        def mk(g=g, cond=cond, syms=syms, gi=gi):
            def f(kk, val):
                j = z3.Int('j!c')
                body = z3.Not(z3.substitute(cond, *([(k, j)] + [(syms[l], val[l]) for l in g['lids']])))
                return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < kk), body))
            return f
        cond2 = z3.simplify(cond)
        fv = free_vars(cond2)
        own = {state_get(S, l).decl().name() for l in g['lids'] if z3.is_const(state_get(S, l))}
        if not any(x.startswith(HV) and x not in own for x in fv) and not any(is_body_symbol(x, nexts) for x in fv):
            g['condok'] = True
            out.append(('minimal%d' % gi, mk()))
    for lid, lf in leaves_.items():
        if lf.form == 'closed' or isinstance(lf.entry, IterV) or not z3.is_expr(lf.entry): continue
        if lf.entry.sort() in (IntS, RealS):
            e = lf.entry
            out.append(('ge-entry', (lambda l, e: lambda kk, val: val[l] >= e)(lid, e)))
            out.append(('le-entry', (lambda l, e: lambda kk, val: val[l] <= e)(lid, e)))
            out.append(('ge0', (lambda l: lambda kk, val: val[l] >= 0)(lid)))
            if e.sort() == IntS:
                out.append(('le-k', (lambda l, e: lambda kk, val: val[l] <= e + kk)(lid, e)))
                out.append(('lt-k', (lambda l, e: lambda kk, val: z3.Or(val[l] < kk, val[l] == e))(lid, e)))
    for lid, lf in leaves_.items():
        # flags: a value that made the flag true (false) keeps it there
        if lf.form == 'closed' or not z3.is_expr(lf.entry) or lf.entry.sort() != BoolS or not nexts: continue
        cur = state_get(S, lid)
        if not z3.is_const(cur): continue
        post = ite_merge([(new_pc(S, o, I), state_get(o[2], lid)) for o in nexts])
        for nm, v in (('or-flag', False), ('and-flag', True)):
            p = z3.simplify(z3.substitute(post, (cur, z3.BoolVal(v))))
            fv = free_vars(p)
            if any(x.startswith(HV) for x in fv) or any(is_body_symbol(x, nexts) for x in fv): continue
            def flag(kk, val, p=p, v=v, lid=lid):
                j = z3.Int('j!f')
                pj = z3.substitute(p, (k, j))
                return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < kk), z3.Implies(val[lid], pj) if v else z3.Implies(pj, val[lid])))
            out.append((nm, flag))
    for sp in I.loop_specs:
        r = sp(I, n, base, S, leaves_, k)
        if r: out += r
    return out


def valuation(st, leaves_): 
    d = {}
    for l in leaves_:
        try: d[l] = state_get(st, l)
        except KeyError: pass
    return d


def with_facts(I, S, lastfs, cands, k, leaves_):
    val = valuation(S, leaves_)
    for g in lastfs:
        S.pc.append(group_formula(g, k, val, g['w']))
        if g.get('condok'):
            # iterations after the last update did not update
            j = z3.Int('j!c')
            syms = [(val[l], val[l]) for l in g['lids']]
            body = z3.Not(z3.substitute(g['C'], (k, j)))
            S.facts.append(z3.ForAll([j], z3.Implies(z3.And(g['w'] < j, j < k), body)))
    for nm, f in cands:
        fm = f(k, val)
        (S.facts if _q(fm) else S.pc).append(fm)
    return S


def houdini(I, base, S0, build, explore, leaves_, k, lastfs, cands, HV):
    """drop closed forms / candidates that are not inductive"""
    from . import solve
    # entry
    ev = valuation(base, leaves_)
    live = []
    for c in cands:
        f = c[1](z3.IntVal(0), ev)
        r = solve.prove(base.pc + base.facts, f, 1500, {'few': True})
        if r[0] == 'unsat': live.append(c)
    for rnd in range(12):
        S = with_facts(I, build(), lastfs, live, k, leaves_)
        outs = [o for o in explore(S) if o[0] == 'again']
        bad = False
        # closed forms
        for lid, lf in leaves_.items():
            for o in outs: closed_ok(I, o[2], lf, state_get(o[2], lid), k)
        nl = []
        drop = False
        for c in live:
            ok = True
            for o in outs:
                f = c[1](k + 1, valuation(o[2], leaves_))
                r = solve.prove(o[2].pc + o[2].facts, f, 2000, {'few': True})
                if r[0] != 'unsat': ok = False; break
            if ok: nl.append(c)
            else: drop = True
        live = nl
        if not drop: return True, live
    return True, []


def closed_ok(I, st, lf, have, k):
    """the closed forms inside a leaf hold again after the body"""
    def bad(): raise Unsupported('loop invariant: closed form of %s is not inductive' % (lf.lid,))
    if lf.form == 'closed':
        if not proves_eq(I, st, have, lf.fn(k + 1)): bad()
        return
    for ix, sub in zip(lf.splits, lf.subs): closed_ok(I, st, sub, sel(have, ix), k)
    if lf.restfn is not None:
        j = z3.Const('j!ext%d' % len(str(lf.lid)), lf.entry.sort().domain())
        hyp = z3.And([j != ix for ix in lf.splits])
        if not proves_eq(I, st, sel(have, j), sel(lf.restfn(k + 1), j), hyp): bad()


def proves_eq(I, st, a, b, hyp=None):
    from . import solve
    if isinstance(a, IterV): a, b = a.idx, b.idx
    if a.sort().kind() == z3.Z3_ARRAY_SORT:
        # entries written last, then the others
        idx = []
        x = a
        while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE and len(idx) < 8:
            i = x.arg(1)
            if not proves_eq(I, st, sel(a, i), sel(b, i), hyp): return False
            idx.append(i); x = x.arg(0)
        j = z3.FreshConst(a.sort().domain(), 'j!ex')
        h2 = z3.And([j != i for i in idx] + ([hyp] if hyp is not None else []))
        return proves_eq(I, st, sel(x, j), sel(b, j), h2)
    else: g = a == b
    if hyp is not None: g = z3.Implies(hyp, g)
    g = z3.simplify(g)
    if z3.is_true(g): return True
    return solve.prove(st.pc + st.facts, g, 3000, {'few': True})[0] == 'unsat'


def iteration_fact(I, S, nexts, k, HV, tag):
    """for all j<k: the path condition of a completed iteration held at j"""
    if not nexts: return None
    ds = []
    for o in nexts:
        cs = []
        for c in o[2].pc[len(S.pc):]:
            fv = free_vars(c)
            if any(x.startswith(HV) for x in fv) or any(is_body_symbol(x, nexts) for x in fv): continue
            cs.append(c)
        ds.append(z3.And(cs) if cs else z3.BoolVal(True))
    nc = z3.simplify(z3.Or(ds))
    if z3.is_true(nc): return None
    out = []
    j = z3.Int('j!it')
    if k.decl().name() in free_vars(nc):
        out.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.substitute(nc, (k, j)))))
        out.append(z3.Implies(k > 0, z3.substitute(nc, (k, k - 1))))
        out.append(z3.Implies(k > 0, z3.substitute(nc, (k, z3.IntVal(0)))))
    else: out.append(z3.Implies(k > 0, nc))
    return out
