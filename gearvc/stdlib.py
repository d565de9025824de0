"""contracts of the standard library used by GEAR (the trusted specifications of external functions)"""
import z3
from fractions import Fraction
from . import types as T
from .types import Ty
from .sym import *
from .interp import CppThrow, PI, PIQ, PathEnd

MAXLEN = 1 << 40


def _val(I, a):
    v = I.ev(a) if isinstance(a, dict) and 'kind' in a else a
    if isinstance(v, LV): v = I.load(v)
    return v


def _vals(I, args):
    return [_val(I, a) for a in args if not (isinstance(a, dict) and a.get('kind') == 'CXXDefaultArgExpr')]


def _once(I, key, f):
    k = ('ax', key)
    if k in I.st.globals: return
    I.st.globals[k] = f          # keep the term alive: ids are only unique among live terms
    if has_q(f): I.st.facts.append(f)
    else: I.st.pc.append(f)


def has_q(f):
    from .interp import has_quant
    return has_quant(f)


def real(v):
    if z3.is_bool(v): return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(v) if v.sort() == IntS else v


# ---------------------------------------------------------------------- mathematics
SIN = z3.Function('sin', RealS, RealS)
COS = z3.Function('cos', RealS, RealS)
SQRT = z3.Function('sqrt', RealS, RealS)
ATAN2 = z3.Function('atan2', RealS, RealS, RealS)
ATAN = z3.Function('atan', RealS, RealS)
ASIN = z3.Function('asin', RealS, RealS)
ACOS = z3.Function('acos', RealS, RealS)
POW = z3.Function('pow', RealS, RealS, RealS)


def _lin(x):
    """linear view: {term: Fraction}, constant under key None"""
    out = {}
    def add(t, c):
        k = None if t is None else t.get_id()
        if k in out: out[k] = (t, out[k][1] + c)
        else: out[k] = (t, c)
    def go(e, c):
        k = e.decl().kind() if z3.is_app(e) else None
        if z3.is_rational_value(e): add(None, c * Fraction(e.numerator_as_long(), e.denominator_as_long())); return
        if k == z3.Z3_OP_ADD:
            for y in e.children(): go(y, c)
            return
        if k == z3.Z3_OP_SUB:
            ch = e.children(); go(ch[0], c)
            for y in ch[1:]: go(y, -c)
            return
        if k == z3.Z3_OP_UMINUS: go(e.arg(0), -c); return
        if k == z3.Z3_OP_MUL:
            cc, rest = Fraction(1), []
            for y in e.children():
                if z3.is_rational_value(y): cc *= Fraction(y.numerator_as_long(), y.denominator_as_long())
                else: rest.append(y)
            if not rest: add(None, c * cc); return
            if len(rest) == 1: go(rest[0], c * cc); return
            r = z3.Product(rest) if len(rest) > 1 else rest[0]
            add(z3.simplify(r), c * cc); return
        if k == z3.Z3_OP_DIV and z3.is_rational_value(e.arg(1)):
            go(e.arg(0), c / Fraction(e.arg(1).numerator_as_long(), e.arg(1).denominator_as_long())); return
        add(e, c)
    go(x, Fraction(1))
    return {k: v for k, v in out.items() if v[1] != 0}


def _find_ite(x):
    st = [x]; n = 0
    while st and n < 200:
        e = st.pop(); n += 1
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_ITE: return e
            if e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS): st.extend(e.children())
    return None


def sincos(I, x, depth=0):
    x = z3.simplify(x)
    t = _find_ite(x) if depth < 6 else None
    if t is not None:
        a = z3.substitute(x, (t, t.arg(1)))
        b = z3.substitute(x, (t, t.arg(2)))
        sa, ca = sincos(I, a, depth + 1)
        sb, cb = sincos(I, b, depth + 1)
        c = t.arg(0)
        return (sa if sa.eq(sb) else z3.If(c, sa, sb)), (ca if ca.eq(cb) else z3.If(c, ca, cb))
    L = _lin(x)
    if I.o.get('trig_atom'):
        # the angle as a whole, up to sign and whole turns
        ts = [(t, co) for t, co in L.values() if not (t is not None and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL and (co / (2 * PIQ)).denominator == 1)]
        if not ts: return z3.RealVal(0), z3.RealVal(1)
        ts.sort(key=lambda q: str(q[0]))
        sg = 1 if ts[0][1] > 0 else -1
        a = z3.simplify(z3.Sum([z3.Q((co * sg).numerator, (co * sg).denominator) * (t if t is not None else 1) for t, co in ts]))
        if z3.is_rational_value(a) and a.as_fraction() == 0: return z3.RealVal(0), z3.RealVal(1)
        s, c = _atom(I, a)
        return (s if sg > 0 else -s), c
    s, c = z3.RealVal(0), z3.RealVal(1)
    def comb(s1, c1, s2, c2): return z3.simplify(s1 * c2 + c1 * s2), z3.simplify(c1 * c2 - s1 * s2)
    first = True
    for k in sorted(L, key=lambda q: str(L[q][0])):
        t, co = L[k]
        if t is None and abs(co) >= PIQ / 2:
            # whole quarter turns of the constant part
            whole = round(co / (PIQ / 2))
            q = whole % 4
            s2, c2 = [(0, 1), (1, 0), (0, -1), (-1, 0)][q]
            s2, c2 = z3.RealVal(s2), z3.RealVal(c2)
            rest = co - whole * PIQ / 2
            if rest != 0:
                s3, c3 = _atom(I, z3.RealVal(str(abs(rest))))
                if rest < 0: s3 = -s3
                s2, c2 = comb(s2, c2, s3, c3)
        elif t is not None and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL and (co / (2 * PIQ)).denominator == 1:
            s2, c2 = z3.RealVal(0), z3.RealVal(1)      # whole turns
        else:
            n, d = co.numerator, co.denominator
            base = z3.RealVal(1) if t is None else t
            if abs(n) > 4 or t is None: base, n = z3.simplify(base * z3.Q(abs(n), d)), (1 if n > 0 else -1)
            else: base = z3.simplify(base * z3.Q(1, d)) if d != 1 else base
            s1, c1 = _atom(I, base)
            s2, c2 = s1, c1
            for _ in range(abs(n) - 1): s2, c2 = comb(s2, c2, s1, c1)
            if n < 0: s2 = -s2
        if first: s, c, first = s2, c2, False
        else: s, c = comb(s, c, s2, c2)
    return s, c


def _atom(I, a):
    s, c = SIN(a), COS(a)
    _once(I, 'sc:%d' % a.get_id(), z3.And(s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1))
    I.st.globals[('keep', a.get_id())] = a
    return s, c


def sqrt(I, x):
    x = z3.simplify(x)
    if z3.is_rational_value(x):
        f = Fraction(x.numerator_as_long(), x.denominator_as_long())
        for r in range(0, 200):
            if f == Fraction(r * r): return z3.RealVal(r)
    r = SQRT(x)
    I.assumption('square roots are taken of non-negative numbers')
    _once(I, 'sqrt:%d' % x.get_id(), z3.And(r >= 0, z3.Implies(x >= 0, r * r == x)))
    I.st.globals[('keep', x.get_id())] = x
    return r


def atan2(I, y, x):
    y, x = z3.simplify(y), z3.simplify(x)
    th = ATAN2(y, x)
    s, c = _atom(I, th)
    r = sqrt(I, x * x + y * y)
    _once(I, 'at:%d' % th.get_id(), z3.And(th > -PI, th <= PI, x == r * c, y == r * s,
                                           z3.Implies(z3.And(y == 0, x > 0), th == 0), z3.Implies(z3.And(y == 0, x < 0), th == PI),
                                           z3.Implies(y > 0, z3.And(th > 0, th < PI)), z3.Implies(y < 0, th < 0)))
    return th


def atan(I, x):
    th = ATAN(z3.simplify(x))
    s, c = _atom(I, th)
    _once(I, 'atn:%d' % th.get_id(), z3.And(th > -PI / 2, th < PI / 2, s == x * c, c > 0, z3.Implies(x >= 0, th >= 0), z3.Implies(x <= 0, th <= 0),
                                            z3.Implies(x > 0, s > 0), z3.Implies(x < 0, s < 0)))
    return th


def floor(x): return z3.ToReal(z3.ToInt(x))
def ceil(x): return -z3.ToReal(z3.ToInt(-x))
def rnd(x): return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + z3.Q(1, 2))), -z3.ToReal(z3.ToInt(-x + z3.Q(1, 2))))
def fabs(x): return z3.If(x >= 0, x, -x)


def fmod(I, x, y):
    I.require('fmod divisor is not zero', y != 0)
    q = x / y
    t = z3.If(q >= 0, z3.ToReal(z3.ToInt(q)), -z3.ToReal(z3.ToInt(-q)))
    return x - y * t


def function(I, nm, args, n):
    ty = I.nty(n)
    if nm in ('sqrt', 'sqrtf'): return sqrt(I, real(_val(I, args[0])))
    if nm in ('sin', 'cos', 'tan'):
        s, c = sincos(I, real(_val(I, args[0])))
        return s if nm == 'sin' else c if nm == 'cos' else s / c
    if nm == 'atan2': return atan2(I, *[real(v) for v in _vals(I, args)])
    if nm == 'atan': return atan(I, real(_val(I, args[0])))
    if nm == 'asin':
        x = real(_val(I, args[0]))
        th = ASIN(z3.simplify(x)); s, c = _atom(I, th)
        _once(I, 'asin:%d' % th.get_id(), z3.Implies(z3.And(x >= -1, x <= 1), z3.And(s == x, c >= 0, th >= -PI / 2, th <= PI / 2)))
        I.assumption('asin and acos are applied to numbers in [-1,1]')
        return th
    if nm == 'acos':
        x = real(_val(I, args[0]))
        th = ACOS(z3.simplify(x)); s, c = _atom(I, th)
        _once(I, 'acos:%d' % th.get_id(), z3.Implies(z3.And(x >= -1, x <= 1), z3.And(c == x, s >= 0, th >= 0, th <= PI)))
        I.assumption('asin and acos are applied to numbers in [-1,1]')
        return th
    if nm in ('fabs', 'fabsf'): return fabs(real(_val(I, args[0])))
    if nm in ('abs', 'labs'):
        v = _val(I, args[0])
        return z3.If(v >= 0, v, -v)
    if nm == 'floor': return floor(real(_val(I, args[0])))
    if nm == 'ceil': return ceil(real(_val(I, args[0])))
    if nm in ('round', 'rint', 'nearbyint'): return rnd(real(_val(I, args[0])))
    if nm == 'trunc':
        v = real(_val(I, args[0])); return z3.If(v >= 0, floor(v), ceil(v))
    if nm == 'lround' or nm == 'lrint':
        v = real(_val(I, args[0])); return z3.ToInt(rnd(v))
    if nm == 'fmod': return fmod(I, *[real(v) for v in _vals(I, args)])
    if nm == 'hypot':
        x, y = [real(v) for v in _vals(I, args)]
        return sqrt(I, x * x + y * y)
    if nm == 'pow':
        x, y = [real(v) for v in _vals(I, args)]
        y = z3.simplify(y); x1 = z3.simplify(x)
        if z3.is_rational_value(x1) and x1.numerator_as_long() == -1 and x1.denominator_as_long() == 1 and z3.is_to_real(y):
            return z3.If(y.arg(0) % 2 == 0, z3.RealVal(1), z3.RealVal(-1))
        if z3.is_rational_value(y):
            f = Fraction(y.numerator_as_long(), y.denominator_as_long())
            if f.denominator == 1 and 0 <= f.numerator <= 4:
                r = z3.RealVal(1)
                for _ in range(f.numerator): r = r * x
                return r
            if f == Fraction(1, 2): return sqrt(I, x)
        return POW(x, y)
    if nm in ('isnan', 'isinf'):
        _vals(I, args); I.assumption('no floating point infinities or NaNs'); return z3.BoolVal(False)
    if nm in ('isfinite',):
        _vals(I, args); I.assumption('no floating point infinities or NaNs'); return z3.BoolVal(True)
    if nm in ('min', 'max', 'epsilon', 'infinity', 'lowest', 'quiet_NaN') and not args:
        if ty.k == 'real':
            dmax = z3.RealVal(str(int(1.7976931348623157e308)))
            if nm == 'max': return dmax
            if nm == 'lowest': return -dmax
            if nm == 'min': return z3.RealVal(str(Fraction(2.2250738585072014e-308)))
            if nm == 'epsilon': return z3.Q(1, 1 << 52)
            inf = z3.Real('INFINITY_')
            _once(I, 'inf', inf > 2 * dmax)
            return inf
        lo, hi = (-(1 << (ty.a - 1)), (1 << (ty.a - 1)) - 1) if ty.b else (0, (1 << ty.a) - 1)
        return z3.IntVal(hi if nm == 'max' else lo)
    if nm in ('min', 'max') and len(args) == 2:
        x, y = _vals(I, args)
        if isinstance(x, dict): raise Unsupported('min/max of objects')
        return z3.If(y < x, y, x) if nm == 'min' else z3.If(x < y, y, x)
    if nm in ('fmin', 'fmax'):
        x, y = [real(v) for v in _vals(I, args)]
        return z3.If(y < x, y, x) if nm == 'fmin' else z3.If(x < y, y, x)
    if nm == 'clamp':
        x, lo, hi = _vals(I, args)
        return z3.If(x < lo, lo, z3.If(hi < x, hi, x))
    if nm in ('move', 'forward'): return I.ev(args[0])
    if nm == 'addressof': return I.lv_to_ptr(I.ev(args[0]))
    if nm == 'swap':
        a, b = I.ev(args[0]), I.ev(args[1])
        u, v = I.read(a), I.read(b)
        I.write(a, v); I.write(b, u); return None
    if nm in ('make_pair',):
        x, y = _vals(I, args)
        return {'first': x, 'second': y}
    if nm == '__assert_fail':
        I.assumption('assert() failure ends the call (debug builds abort)')
        raise CppThrow('$assert')
    if nm in ('abort', 'exit', 'terminate', '_exit'): raise CppThrow('$abort')
    if nm in ('begin', 'end', 'cbegin', 'cend'):
        lv = I.ev(args[0])
        return method(I, lv, lv.ty, nm, [], n)
    if nm == 'find' and len(args) == 3: return find_in_range(I, args)
    if nm in ('distance',):
        a, b = _vals(I, args)
        return b.idx - a.idx
    if nm in ('advance',):
        lv = I.ev(args[0]); it = I.load(lv); k = _val(I, args[1])
        I.write(lv, IterV(it.cont, z3.simplify(it.idx + k))); return None
    if nm in ('next', 'prev'):
        vs = _vals(I, args)
        it = vs[0]; k = vs[1] if len(vs) > 1 else z3.IntVal(1)
        return IterV(it.cont, z3.simplify(it.idx + k if nm == 'next' else it.idx - k))
    if nm in ('min_element', 'max_element') and len(args) == 2:
        a, b = _vals(I, args)
        r = I.fresh('idx', IntS)
        el = I.read(a.cont)['elem']
        if isinstance(el, dict): raise Unsupported(nm)
        I.st.pc.append(z3.And(r >= a.idx, r <= b.idx, z3.Implies(a.idx < b.idx, r < b.idx)))
        j = z3.Int('j!q')
        e = sel(el, j); x = sel(el, r)
        I.st.facts.append(z3.ForAll([j], z3.Implies(z3.And(a.idx <= j, j < b.idx), x <= e if nm == 'min_element' else x >= e)))
        return IterV(a.cont, r)
    if nm == 'fill' and len(args) == 3:
        a, b = _val(I, args[0]), _val(I, args[1])
        v = _val(I, args[2])
        t = I.read(a.cont)
        j = z3.Int('j!f%d' % I.st.cnt); I.st.cnt += 1
        el = tzip(lambda arr, x: z3.Lambda([j], z3.If(z3.And(a.idx <= j, j < b.idx), x, z3.Select(arr, j))), t['elem'], v)
        I.write(a.cont, {'len': t['len'], 'elem': el})
        return None
    if nm in ('accumulate', 'sort', 'unique', 'copy', 'transform', 'for_each', 'find_if', 'lower_bound', 'upper_bound', 'any_of', 'all_of', 'none_of', 'count', 'count_if', 'iota', 'reverse', 'rotate'):
        return algorithm(I, nm, args, n)
    if nm in ('to_string', 'setprecision', 'setw', 'setfill', 'getline', 'getenv', 'endl', 'strtod', 'atoi', 'atof', 'stoi', 'stod', 'strlen'):
        vs = _vals(I, args)
        if nm in ('setprecision', 'setw', 'setfill', 'endl', 'getline'): return z3.IntVal(0)
        vs = [v for v in vs if z3.is_expr(v)]
        if not vs: return I.havoc_tree(ty, nm)
        return z3.Function(nm + str(len(vs)) + vs[0].sort().name(), *[v.sort() for v in vs], leaf_sort(ty))(*vs)
    return NotImplemented


def algorithm(I, nm, args, n):
    if nm in ('copy',) and len(args) == 3:
        a, b, o = _vals(I, args)
        raise Unsupported('std::copy')
    if nm == 'transform' and len(args) == 4:
        h = I.hooks.get('std::transform')
        a, b, o = _vals(I, args[:3])
        if isinstance(a, IterV) and a.cont.ty.k == 'str' and z3.is_expr(a.idx) and b.end and isinstance(o, IterV) and o.cont.root == a.cont.root and o.cont.path == a.cont.path and b.cont.root == a.cont.root:
            I.write(a.cont, z3.Function('each_character_' + fname(args[3]), IntS, IntS)(I.load(a.cont)))
            return o
        if h: return h(I, nm, [a, b, o], args[3])
    if nm == 'for_each' and len(args) == 3 and 'std::for_each' in I.hooks:
        return I.hooks['std::for_each'](I, nm, _vals(I, args[:2]), args[2])
    raise Unsupported('std::' + nm)


def fname(n):
    """the name of a function passed as an argument"""
    while n.get('kind') != 'DeclRefExpr':
        if len(n.get('inner', ())) != 1: raise Unsupported('function argument')
        n = n['inner'][0]
    return n['referencedDecl']['name']


def find_in_range(I, args):
    a, b = _val(I, args[0]), _val(I, args[1])
    v = _val(I, args[2])
    if not isinstance(a, IterV) or a.idx is None: raise Unsupported('std::find')
    el = I.read(a.cont)['elem']
    r = I.fresh('found', IntS)
    I.st.pc.append(z3.And(r >= a.idx, r <= b.idx))
    I.st.pc.append(z3.Implies(r < b.idx, teq(select(el, r), v)))
    j = z3.Int('j!q')
    I.st.facts.append(z3.ForAll([j], z3.Implies(z3.And(a.idx <= j, j < r), z3.Not(teq(select(el, j), v)))))
    if not (z3.is_expr(v)): raise Unsupported('std::find of objects')
    return IterV(a.cont, r)


# ---------------------------------------------------------------------- containers
def _len_fact(I, l):
    l = z3.simplify(l)
    if not z3.is_int_value(l): I.fact(z3.And(l >= 0, l < MAXLEN))


def vec_len(I, lv):
    l = I.read(lv)['len']
    _len_fact(I, l)
    return z3.simplify(l)


def _jv(I):
    I.st.cnt += 1
    return z3.Int('j!%s.%d' % (I.st.ctx, I.st.cnt))


def construct(I, ty, args, n):
    k = ty.k
    args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr' or k not in ('vec', 'str', 'map', 'set', 'opaque')]
    args = [a for a in args if not (I.nty(a).k in ('opaque',) or (I.nty(a).k == 'class' and I.nty(a).a.startswith('allocator')))] if k in ('vec', 'map', 'set', 'str') else args
    if k == 'vec':
        if not args: return I.default(ty)
        v = I.ev(args[0])
        if isinstance(v, tuple) and v[0] == 'initlist': return I.init_list(v[1], ty)
        if isinstance(v, LV): v = I.load(v)
        if isinstance(v, dict) and 'len' in v and len(args) == 1: return v
        if isinstance(v, IterV):
            w = _val(I, args[1])
            src = I.read(v.cont)['elem']
            ln = z3.simplify(w.idx - v.idx)
            if z3.is_int_value(v.idx) and v.idx.as_long() == 0: return {'len': ln, 'elem': src}
            j = _jv(I)
            return {'len': ln, 'elem': tmap(lambda a: z3.Lambda([j], z3.Select(a, j + v.idx)), src)}
        d = _val(I, args[1]) if len(args) > 1 else I.default(ty.a)
        if len(args) == 1 and ty.a.k == 'class' and ty.a.a in I.p.classes:
            tmp = I.local(ty.a, I.uninit(ty.a), 'elem'); I.default_construct(tmp, ty.a); d = I.read(tmp)
        I.require('vector size fits', z3.And(v >= 0))
        return {'len': v, 'elem': tmap(lambda x: z3.K(IntS, x), d)}
    if k == 'str':
        if not args: return z3.IntVal(1)
        v = _val(I, args[0])
        if len(args) == 1:
            I.st.pc.append(v != 0) if not z3.is_int_value(v) else None
            return v
        return I.fresh('str', IntS)
    if k in ('map', 'set'):
        if not args: return I.default(ty)
        v = I.ev(args[0])
        if isinstance(v, tuple): raise Unsupported('initialiser list for ' + ty.key())
        return I.load(v) if isinstance(v, LV) else v
    if k == 'pair':
        if not args: return I.default(ty)
        if len(args) == 1:
            v = _val(I, args[0])
            return {'first': v['first'], 'second': v['second']}
        return {'first': _val(I, args[0]), 'second': _val(I, args[1])}
    if k == 'iter':
        if not args: return IterV(None, z3.IntVal(0))
        return _val(I, args[0])
    if k in ('opaque', 'class'):
        # streams, exceptions, allocators: no modelled state
        return z3.IntVal(0)
    if len(args) == 1: return _val(I, args[0])
    if not args: return I.default(ty)
    raise Unsupported('construction of ' + ty.key())


def _cval(I, a, ty):
    """argument as a value of element type"""
    v = I.as_value(a, ty) if isinstance(a, dict) and 'kind' in a else a
    if isinstance(v, LV): v = I.load(v)
    if ty.k == 'real' and z3.is_expr(v) and v.sort() == IntS: v = z3.ToReal(v)
    return v


def keyat(dom): return z3.Function('keyat_' + dom.sort().name() + str(dom.sort().domain()), dom.sort(), IntS, dom.sort().domain())
def rank(dom): return z3.Function('rank_' + dom.sort().name() + str(dom.sort().domain()), dom.sort(), dom.sort().domain(), IntS)


def map_axioms(I, t):
    dom, size = t['dom'], t['size']
    ka, rk = keyat(dom), rank(dom)
    i, j = z3.Ints('i!q j!q')
    k = z3.Const('k!q', dom.sort().domain())
    key = 'map:%d:%d' % (dom.get_id(), size.get_id())
    _once(I, key + 'a', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < size), z3.And(z3.Select(dom, ka(dom, i)), rk(dom, ka(dom, i)) == i)), patterns=[ka(dom, i)]))
    _once(I, key + 'b', z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(0 <= rk(dom, k), rk(dom, k) < size, ka(dom, rk(dom, k)) == k)), patterns=[rk(dom, k)]))
    _once(I, key + 'c', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < size), ka(dom, i) < ka(dom, j)), patterns=[z3.MultiPattern(ka(dom, i), ka(dom, j))]))
    I.st.pc.append(size >= 0)


def method(I, lv, oty, name, args, n):
    k = oty.k
    if lv is not None and isinstance(lv, LV) and lv.ty.k in ('vec', 'map', 'set', 'str', 'pair'): oty = lv.ty; k = oty.k
    if k == 'vec': return vec_method(I, lv, oty, name, args, n)
    if k in ('map', 'set'): return map_method(I, lv, oty, name, args, n)
    if k == 'str': return str_method(I, lv, name, args, n)
    if k in ('class', 'opaque') and (k == 'opaque' or oty.a not in I.p.classes):
        return I.opaque_call(name, n, args)
    if k == 'iter':
        it = I.load(lv) if isinstance(lv, LV) else lv
        if name == 'base': return it
    raise Unsupported('library method %s of %s' % (name, oty.key()))


def vec_method(I, lv, oty, name, args, n):
    et = oty.a
    if name in ('size', 'length'): return vec_len(I, lv)
    if name == 'empty': return vec_len(I, lv) == 0
    if name in ('push_back', 'emplace_back'):
        if name == 'emplace_back' and len(args) != 1: raise Unsupported('emplace_back')
        v = _cval(I, args[0], et)
        t = I.read(lv)
        _len_fact(I, t['len'])
        I.write(lv, {'len': z3.simplify(t['len'] + 1), 'elem': store(t['elem'], z3.simplify(t['len']), v)})
        return None
    if name in ('at', 'operator[]'):
        i = z3.simplify(_val(I, args[0]))
        l = vec_len(I, lv)
        if name == 'at':
            if not I.branch(z3.And(i >= 0, i < l)): raise CppThrow('out_of_range')
        elif I.o['ub']:
            I.require('vector index in range', z3.And(i >= 0, i < l))
        return lv.sub(('i', i), et)
    if name in ('back', 'front'):
        l = vec_len(I, lv)
        if I.o['ub']: I.require('%s() of a non-empty vector' % name, l > 0)
        return lv.sub(('i', z3.simplify(l - 1) if name == 'back' else z3.IntVal(0)), et)
    if name in ('begin', 'cbegin'): return IterV(lv, z3.IntVal(0))
    if name in ('end', 'cend'): return IterV(lv, vec_len(I, lv))
    if name == 'clear':
        t = I.read(lv)
        I.write(lv, {'len': z3.IntVal(0), 'elem': t['elem']}); return None
    if name == 'resize':
        m = z3.simplify(_val(I, args[0]))
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        if len(args) > 1: d = _cval(I, args[1], et)
        elif et.k == 'class' and et.a in I.p.classes:
            tmp = I.local(et, I.uninit(et), 'elem'); I.default_construct(tmp, et); d = I.read(tmp)
        else: d = I.default(et)
        t = I.read(lv)
        l = vec_len(I, lv)
        I.require('vector size fits', z3.And(m >= 0, m < MAXLEN))
        if z3.is_int_value(l) and l.as_long() == 0: el = tzip(lambda a, x: z3.K(IntS, x), t['elem'], d)
        else:
            j = _jv(I)
            el = tzip(lambda a, x: z3.Lambda([j], z3.If(j >= l, x, z3.Select(a, j))), t['elem'], d)
        I.write(lv, {'len': m, 'elem': el}); return None
    if name == 'assign':
        m, d = _val(I, args[0]), _val(I, args[1])
        if isinstance(m, IterV): raise Unsupported('assign range')
        I.require('vector size fits', z3.And(m >= 0, m < MAXLEN))
        I.write(lv, {'len': m, 'elem': tmap(lambda x: z3.K(IntS, x), d)}); return None
    if name in ('reserve', 'shrink_to_fit', 'capacity', 'max_size'):
        _vals(I, args)
        if name == 'capacity': return I.fresh('cap', IntS)
        return None
    if name == 'pop_back':
        t = I.read(lv)
        if I.o['ub']: I.require('pop_back() of a non-empty vector', vec_len(I, lv) > 0)
        I.write(lv, {'len': z3.simplify(t['len'] - 1), 'elem': t['elem']}); return None
    if name == 'swap':
        o = I.ev(args[0]); a, b = I.read(lv), I.read(o)
        I.write(lv, b); I.write(o, a); return None
    if name == 'erase':
        it = _val(I, args[0])
        t = I.read(lv)
        e = it.idx + 1
        if len(args) > 1: e = _val(I, args[1]).idx
        c = e - it.idx
        j = _jv(I)
        el = tmap(lambda a: z3.Lambda([j], z3.If(j < it.idx, z3.Select(a, j), z3.Select(a, j + c))), t['elem'])
        I.write(lv, {'len': z3.simplify(t['len'] - c), 'elem': el})
        return IterV(lv, it.idx)
    if name == 'insert':
        it = _val(I, args[0])
        t = I.read(lv)
        if len(args) == 2:
            v = _cval(I, args[1], et)
            j = _jv(I)
            el = tzip(lambda a, x: z3.Lambda([j], z3.If(j < it.idx, z3.Select(a, j), z3.If(j == it.idx, x, z3.Select(a, j - 1)))), t['elem'], v)
            I.write(lv, {'len': z3.simplify(t['len'] + 1), 'elem': el})
            return IterV(lv, it.idx)
        a, b = _val(I, args[1]), _val(I, args[2])
        if isinstance(a, IterV):
            src = I.read(a.cont)['elem']
            c = b.idx - a.idx
            j = _jv(I)
            el = tzip(lambda x, s: z3.Lambda([j], z3.If(j < it.idx, z3.Select(x, j), z3.If(j < it.idx + c, z3.Select(s, j - it.idx + a.idx), z3.Select(x, j - c)))), t['elem'], src)
            I.write(lv, {'len': z3.simplify(t['len'] + c), 'elem': el})
            return IterV(lv, it.idx)
        raise Unsupported('vector insert')
    if name == 'operator=':
        I.write(lv, _val(I, args[0])); return lv
    if name == 'data': raise Unsupported('vector data()')
    raise Unsupported('vector method ' + name)


def map_method(I, lv, oty, name, args, n):
    t = I.read(lv)
    if name == 'size':
        I.st.pc.append(t['size'] >= 0); return t['size']
    if name == 'empty':
        I.st.pc.append(t['size'] >= 0)
        kk = z3.Const('k!q', t['dom'].sort().domain())
        if not is_k(t['dom']):
            I.st.facts.append(z3.Implies(t['size'] == 0, z3.ForAll([kk], z3.Not(z3.Select(t['dom'], kk)))))
        return t['size'] == 0
    if name in ('find', 'count', 'contains', 'at', 'operator[]', 'erase'):
        kv = _cval(I, args[0], oty.a)
        if name == 'erase' and isinstance(kv, IterV): kv = key_of(I, kv)
        ind = sel(t['dom'], kv)
        if name == 'count': return z3.If(ind, z3.IntVal(1), z3.IntVal(0))
        if name == 'contains': return ind
        if name == 'erase':
            I.write(lv, dict(t, dom=z3.Store(t['dom'], kv, z3.BoolVal(False)), size=z3.simplify(z3.If(ind, t['size'] - 1, t['size']))))
            return z3.If(ind, z3.IntVal(1), z3.IntVal(0))
        if I.branch(ind):
            if name == 'find': return IterV(lv, key=kv)
            return lv.sub(('k', kv), oty.b)
        if name == 'find': return IterV(lv, end=True)
        if name == 'at': raise CppThrow('out_of_range')
        if oty.b.k == 'class' and oty.b.a in I.p.classes:
            tmp = I.local(oty.b, I.uninit(oty.b), 'elem'); I.default_construct(tmp, oty.b); d = I.read(tmp)
        else: d = I.default(oty.b)
        I.write(lv, {'dom': z3.Store(t['dom'], kv, z3.BoolVal(True)), 'size': z3.simplify(t['size'] + 1), 'val': store(t['val'], kv, d)})
        return lv.sub(('k', kv), oty.b)
    if name in ('begin', 'cbegin'):
        map_axioms(I, t)
        return IterV(lv, z3.IntVal(0))
    if name in ('end', 'cend'): return IterV(lv, end=True)
    if name == 'clear':
        I.write(lv, I.default(oty)); return None
    if name in ('insert', 'emplace'):
        if name == 'emplace' and len(args) == 2: kv, vv = _cval(I, args[0], oty.a), _cval(I, args[1], oty.b)
        else:
            v = _val(I, args[0])
            if isinstance(v, IterV): raise Unsupported('map insert range')
            if oty.k == 'set': kv, vv = v, None
            else: kv, vv = v['first'], v['second']
        ind = sel(t['dom'], kv)
        if I.branch(ind): return {'first': IterV(lv, key=kv), 'second': z3.BoolVal(False)}
        nt = dict(t, dom=z3.Store(t['dom'], kv, z3.BoolVal(True)), size=z3.simplify(t['size'] + 1))
        if vv is not None:
            if oty.b.k == 'real' and vv.sort() == IntS: vv = z3.ToReal(vv)
            nt['val'] = store(t['val'], kv, vv)
        I.write(lv, nt)
        return {'first': IterV(lv, key=kv), 'second': z3.BoolVal(True)}
    if name == 'operator=':
        I.write(lv, _val(I, args[0])); return lv
    if name == 'swap':
        o = I.ev(args[0]); a, b = I.read(lv), I.read(o)
        I.write(lv, b); I.write(o, a); return None
    raise Unsupported('map method ' + name)


def str_method(I, lv, name, args, n):
    v = I.load(lv)
    if name in ('c_str', 'data', 'str'): return v
    if name == 'empty': return v == 1
    if name in ('begin', 'cbegin'): return IterV(lv, z3.IntVal(0))
    if name in ('end', 'cend'): return IterV(lv, end=True)
    f = z3.Function('strlen', IntS, IntS)
    if name in ('size', 'length'):
        I.st.pc.append(z3.And(f(v) >= 0, (f(v) == 0) == (v == 1)))
        return f(v)
    if name in ('clear',):
        I.write(lv, z3.IntVal(1)); return None
    if name in ('operator=', 'assign'):
        I.write(lv, _val(I, args[0])); return lv
    if name in ('append', 'operator+=', 'push_back'):
        w = _val(I, args[0])
        I.write(lv, z3.Function('concat', IntS, IntS, IntS)(v, w)); return lv
    if name in ('find', 'substr', 'compare', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'at', 'operator[]', 'replace', 'erase', 'insert'):
        if name in ('replace', 'erase', 'insert'):
            I.write(lv, I.fresh('str', IntS)); return lv
        vs = [v] + [x for x in _vals(I, args) if z3.is_expr(x)]
        if name == 'compare' and len(vs) == 2: return z3.If(vs[0] == vs[1], z3.IntVal(0), z3.If(vs[0] < vs[1], z3.IntVal(-1), z3.IntVal(1)))
        return z3.Function('str_%s%d' % (name, len(vs)), *[x.sort() for x in vs], IntS)(*vs)
    raise Unsupported('string method ' + name)


def key_of(I, it):
    if it.key is not None: return it.key
    t = I.read(it.cont)
    return keyat(t['dom'])(t['dom'], it.idx)


class MapElem(LV):
    __slots__ = ('key',)


def iter_deref(I, it):
    if isinstance(it, LV): it = I.load(it)
    if not isinstance(it, IterV): raise Unsupported('dereference')
    if it.cont is None: raise Unsupported('dereference of a singular iterator')
    t = it.cont.ty
    if t.k == 'vec':
        if I.o['ub']:
            l = vec_len(I, it.cont)
            I.require('dereferenced iterator is inside the vector', z3.And(it.idx >= 0, it.idx < l))
        return it.cont.sub(('i', it.idx), t.a)
    if it.end:
        I.require('end iterator is not dereferenced', z3.BoolVal(False))
        raise PathEnd()
    if it.key is None:
        tr = I.read(it.cont)
        I.require('dereferenced iterator is inside the map', z3.And(it.idx >= 0, it.idx < tr['size']))
        k = key_of(I, it)
        I.st.pc.append(z3.Select(tr['dom'], k))
    else: k = it.key
    if t.k == 'set': return I.local(t.a, k, 'key')
    e = MapElem(it.cont.root, it.cont.path, Ty('pair', t.a, t.b))
    e.key = k
    return e


def map_elem_member(I, e, name):
    m = e
    if name == 'first': return I.local(m.ty.a, m.key, 'key')
    return LV(m.root, m.path + (('k', m.key),), m.ty.b)


def iter_eq(I, a, b):
    if a.cont is not None and a.cont.ty.k in ('map', 'set'):
        if a.end and b.end: return z3.BoolVal(True)
        if a.end: a, b = b, a
        if b.end:
            if a.key is not None: return z3.BoolVal(False)
            return a.idx == I.read(a.cont)['size']
        if a.key is not None and b.key is not None: return a.key == b.key
        if a.idx is not None and b.idx is not None: return a.idx == b.idx
        return key_of(I, a) == key_of(I, b)
    return a.idx == b.idx


def operator(I, nm, args, n):
    op = nm[len('operator'):]
    if op == '<<' or op == '>>':
        lv = I.ev(args[0])
        ty = lv.ty if isinstance(lv, LV) else I.nty(args[0])
        if ty.k == 'class' and ty.a not in I.p.classes or ty.k == 'opaque':
            if op == '>>':
                tgt = I.ev(args[1])
                if isinstance(tgt, LV): I.write(tgt, I.havoc_tree(tgt.ty, 'read'))
            elif op == '<<' and I.o.get('eval_stream_args'):
                I.ev(args[1])
            return lv if isinstance(lv, LV) else I.local(ty, lv, 'stream')
        raise Unsupported('operator' + op)
    if op == '[]':
        lv = I.ev(args[0])
        if not isinstance(lv, LV): lv = I.local(I.nty(args[0]), lv, 'tmp')
        return method(I, lv, lv.ty, 'operator[]', args[1:], n)
    if op == '*' and len(args) == 1: return iter_deref(I, I.ev(args[0]))
    if op == '->':
        v = I.ev(args[0])
        return I.load(v) if isinstance(v, LV) else v
    if op in ('++', '--'):
        lv = I.ev(args[0])
        it = I.load(lv)
        if isinstance(it, IterV):
            if it.idx is None: raise Unsupported('increment of a map position found by key')
            nv = IterV(it.cont, z3.simplify(it.idx + (1 if op == '++' else -1)))
            I.write(lv, nv)
            return it if len(args) > 1 else lv
        raise Unsupported('operator' + op)
    if op in ('==', '!=', '<', '>', '<=', '>='):
        a, b = _val(I, args[0]), _val(I, args[1])
        if isinstance(a, IterV) and isinstance(b, IterV):
            if op in ('==', '!='):
                r = iter_eq(I, a, b)
                return r if op == '==' else z3.Not(r)
            return I.binop(op, a.idx, b.idx, T.BOOL, T.INT)
        if isinstance(a, dict) or isinstance(b, dict): raise Unsupported('comparison of containers')
        return I.binop(op, a, b, T.BOOL, I.nty(args[0]))
    if op in ('=',):
        lv = I.ev(args[0])
        v = I.as_value(args[1], lv.ty) if isinstance(lv, LV) else None
        if isinstance(v, LV): v = I.load(v)
        if isinstance(v, tuple) and v[0] == 'initlist': v = I.init_list(v[1], lv.ty)
        if I.is_opaque(lv.ty): return lv
        I.write(lv, v); return lv
    if op in ('+', '-', '+=', '-='):
        a = I.ev(args[0]); lv = a
        if isinstance(a, LV): a = I.load(a)
        b = _val(I, args[1])
        if isinstance(a, IterV):
            if isinstance(b, IterV): return a.idx - b.idx
            r = IterV(a.cont, z3.simplify(a.idx + b if op[0] == '+' else a.idx - b))
            if op.endswith('='):
                I.write(lv, r); return lv
            return r
        if op in ('+', '+='):
            r = z3.Function('concat', IntS, IntS, IntS)(a, b)
            I.st.pc.append(r != 0)
            if op == '+=': I.write(lv, r); return lv
            return r
    if op == '!': return z3.Not(z3.Bool('stream_ok'))
    raise Unsupported('operator%s on library types' % op)
