"""symbolic values: trees of z3 terms, lifted trees (struct of arrays), lvalues"""
import z3
from . import types as T

IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    pass


def leaf_sort(ty):
    k = ty.k
    if k == 'int' or k == 'ptr' or k == 'str' or k == 'opaque' or k == 'iter' or k == 'void': return IntS
    if k == 'bool': return BoolS
    if k == 'real': return RealS
    raise Unsupported('no scalar sort for ' + ty.key())


def is_scalar(ty):
    return ty.k in ('int', 'ptr', 'str', 'opaque', 'bool', 'real', 'ref')


class LV:
    """lvalue: root + path"""
    __slots__ = ('root', 'path', 'ty')

    def __init__(self, root, path, ty):
        self.root, self.path, self.ty = root, tuple(path), ty

    def sub(self, step, ty):
        return LV(self.root, self.path + (step,), ty)

    def __repr__(self):
        return 'LV(%s,%s,%s)' % (self.root, self.path, self.ty)


class AddrV:
    """pointer to an lvalue that is not a whole heap object"""
    def __init__(self, lv): self.lv = lv


class IterV:
    """iterator: container lvalue + index term, or map key"""
    def __init__(self, cont, idx=None, key=None, end=False):
        self.cont, self.idx, self.key, self.end = cont, idx, key, end


class FnV:
    def __init__(self, mangled=None, node=None, this=None, closure=None):
        self.mangled, self.node, self.this, self.closure = mangled, node, this, closure


def tmap(f, t):
    if isinstance(t, dict): return {k: tmap(f, v) for k, v in t.items()}
    return f(t)


def tzip(f, a, b):
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            raise Unsupported('value shapes differ: %s / %s' % (list(a)[:4], list(b)[:4] if isinstance(b, dict) else b))
        return {k: tzip(f, a[k], b[k]) for k in a}
    return f(a, b)


def leaves(t, pre=''):
    if isinstance(t, dict):
        for k in t:
            yield from leaves(t[k], pre + '.' + k)
    else:
        yield pre, t


def is_k(a):
    return z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY


def sel(a, i):
    """Select with cheap simplification through Store chains"""
    if is_k(a): return a.arg(0)
    if z3.is_quantifier(a) and a.is_lambda(): return z3.simplify(z3.substitute_vars(a.body(), i))
    n = 0
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and n < 64:
        j = a.arg(1)
        if j.eq(i): return a.arg(2)
        if z3.is_int_value(i) and z3.is_int_value(j):
            if i.as_long() != j.as_long():
                a = a.arg(0); n += 1; continue
            return a.arg(2)
        d = z3.simplify(i - j) if i.sort() == IntS else None
        if d is not None and z3.is_int_value(d):
            if d.as_long() == 0: return a.arg(2)
            a = a.arg(0); n += 1; continue
        break
    if is_k(a): return a.arg(0)
    if z3.is_quantifier(a) and a.is_lambda(): return z3.simplify(z3.substitute_vars(a.body(), i))
    return z3.Select(a, i)


def select(t, i): return tmap(lambda a: sel(a, i), t)
def store(t, i, v):
    def f(a, b):
        if not z3.is_expr(b): raise Unsupported('cannot store a host-level value in memory')
        return z3.Store(a, i, b)
    return tzip(f, t, v)


def ite(c, a, b):
    def f(x, y):
        if not z3.is_expr(x) or not z3.is_expr(y):
            if x is y: return x
            raise Unsupported('cannot merge host-level values')
        if x.eq(y): return x
        return z3.If(c, x, y)
    return tzip(f, a, b)


def teq(a, b):
    cs = []
    tzip(lambda x, y: cs.append(x == y) if not x.eq(y) else None, a, b)
    return z3.And(cs) if cs else z3.BoolVal(True)


def same(a, b):
    """structural identity"""
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    if isinstance(a, IterV) and isinstance(b, IterV):
        return a.cont is b.cont and a.end == b.end and \
            ((a.idx is None and b.idx is None) or (a.idx is not None and b.idx is not None and a.idx.eq(b.idx))) and \
            ((a.key is None and b.key is None) or (a.key is not None and b.key is not None and a.key.eq(b.key)))
    return a is b


def wrap_sort(s, lifts):
    for l in reversed(lifts):
        s = z3.ArraySort(l, s)
    return s


def free_vars(e, acc=None, seen=None):
    acc = acc if acc is not None else set()
    seen = seen if seen is not None else set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.decl().name())
            st.extend(x.children())
    return acc


def setleaf(t, path, v):
    """replace the leaf at a dotted path (as given by leaves)"""
    if not path: return v
    k = next(k for k in t if path == '.' + k or path.startswith('.' + k + '.'))
    n = dict(t)
    n[k] = setleaf(t[k], path[len(k) + 1:], v)
    return n
