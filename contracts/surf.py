"""C23 measurement surfaces, C24 surface store, C25 three-vectors"""
import os
import z3
from z3 import And, Or, Not, If, Implies
from gearvc.spec import unit
from gearvc.sym import *
from gearvc import types as T
from gearvc.types import Ty
from gearvc import stdlib

HERE = os.path.dirname(os.path.abspath(__file__))
VEC = [os.path.join(HERE, '..', 'harness', 'vec.cc')]
V = 'Vector3D'
PI = stdlib.PI


def vec(E, name):
    return E.I.local(Ty('class', V), E.I.mk(Ty('class', V), name), name)


def xyz(E, v): return [E.call(v, g, const=True) for g in 'xyz']


def loc(E, t, name): return E.I.local(Ty('class', V), t, name)


def make(E, how, *args): return loc(E, E.func('client' + how, *args), how)


def eq3(E, name, v, w): E.prove(name, And(*[a == b for a, b in zip(xyz(E, v), w)]))


@unit('C25', VEC, under=[V])
def cartesian_components(E):
    x, y, z = [E.real(c) for c in 'xyz']
    for how in ('Cartesian', 'CartesianTag', 'Array'):
        v = make(E, how, x, y, z); eq3(E, how, v, (x, y, z))
        E.prove(how + ' indexed', And(*[E.func('clientAt', v, i) == c for i, c in enumerate((x, y, z))]))
        E.prove(how + ' not const', And(*[E.func('client' + g, v) == c for g, c in zip('XYZ', (x, y, z))]))
    E.prove('default', And(*[c == 0 for c in xyz(E, E.new(V, sig=[]))]))
    E.cover('built')


def rep(E, v): return {g: E.call(v, g, const=True) for g in ('x', 'y', 'z', 'phi', 'rho', 'trans', 'trans2', 'r', 'r2', 'theta')}


@unit('C25', VEC, under=[V])
def lengths(E):
    v = vec(E, 'v'); x, y, z = xyz(E, v); q = rep(E, v)
    E.prove('squared lengths', And(q['r2'] == x * x + y * y + z * z, q['trans2'] == x * x + y * y))
    E.prove('length', And(q['r'] >= 0, q['r'] * q['r'] == q['r2']))
    E.prove('transverse length', And(q['rho'] >= 0, q['rho'] * q['rho'] == q['trans2'], q['trans'] == q['rho']))
    E.cover('asked')


@unit('C25', VEC, under=[V])
def angles(E):
    v = vec(E, 'v'); x, y, z = xyz(E, v); q = rep(E, v)
    s, c = stdlib.sincos(E.I, q['phi']); st, ct = stdlib.sincos(E.I, q['theta'])
    E.prove('phi', And(q['phi'] > -PI, q['phi'] <= PI, x == q['rho'] * c, y == q['rho'] * s))
    if E.branch(And(x == 0, y == 0)): E.prove('phi on the axis', q['phi'] == 0)
    E.prove('theta range', And(q['theta'] > -PI, q['theta'] <= PI, Or(q['theta'] >= 0, q['rho'] != 0)))
    E.prove('theta', And(q['rho'] == q['r'] * st, z == q['r'] * ct))
    E.cover('asked')


@unit('C25', VEC, under=[V])
def built_from_cylindrical(E):
    r, p, z = E.real('rho'), E.real('phi'), E.real('z')
    v = make(E, 'Cylindrical', r, p, z); s, c = stdlib.sincos(E.I, p)
    eq3(E, 'components', v, (r * c, r * s, z))
    E.assume(r >= 0); E.prove('rho', E.call(v, 'rho', const=True) == r); E.cover('built')


@unit('C25', VEC, under=[V])
def built_from_spherical(E):
    r, p, t = E.real('r'), E.real('phi'), E.real('theta')
    v = make(E, 'Spherical', r, p, t); s, c = stdlib.sincos(E.I, p); st, ct = stdlib.sincos(E.I, t)
    eq3(E, 'components', v, (r * st * c, r * st * s, r * ct))
    E.assume(r >= 0); E.prove('r', E.call(v, 'r2', const=True) == r * r); E.cover('built')


@unit('C25', VEC, under=[V])
def same_point_from_cylindrical(E):
    v = vec(E, 'v'); q = rep(E, v); x, y, z = xyz(E, v)
    eq3(E, 'the same point', make(E, 'Cylindrical', q['rho'], q['phi'], q['z']), (x, y, z)); E.cover('built')


@unit('C25', VEC, under=[V])
def same_point_from_spherical(E):
    v = vec(E, 'v'); q = rep(E, v); x, y, z = xyz(E, v)
    st, ct = stdlib.sincos(E.I, q['theta'])
    E.lemma('rho by theta', q['rho'] == q['r'] * st)
    eq3(E, 'the same point', make(E, 'Spherical', q['r'], q['phi'], q['theta']), (x, y, z)); E.cover('built')


@unit('C25', VEC, under=[V, 'operator+', 'operator-', 'operator*', 'operator=='])
def algebra(E):
    a, b, s = vec(E, 'a'), vec(E, 'b'), E.real('s')
    A, B = xyz(E, a), xyz(E, b)
    eq3(E, 'sum', make(E, 'Add', a, b), [x + y for x, y in zip(A, B)])
    eq3(E, 'difference', make(E, 'Subtract', a, b), [x - y for x, y in zip(A, B)])
    eq3(E, 'scaled', make(E, 'Scale', s, a), [s * x for x in A])
    E.prove('scalar product', E.call(a, 'dot', b) == sum(x * y for x, y in zip(A, B)))
    eq3(E, 'vector product', loc(E, E.call(a, 'cross', b), 'c'), [A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]])
    E.prove('equality', E.func('clientEqual', a, b) == And(*[x == y for x, y in zip(A, B)]))
    eq3(E, 'first operand kept', a, A); eq3(E, 'second operand kept', b, B)
    E.cover('computed')


@unit('C25', VEC, under=[V])
def unit_vector(E):
    v = vec(E, 'v'); A = xyz(E, v); r = E.call(v, 'r', const=True)
    E.assume(Or(*[a != 0 for a in A])); E.lemma('length', r > 0)
    u = loc(E, E.call(v, 'unit'), 'u'); U = xyz(E, u)
    E.prove('same direction', And(*[u * r == a for u, a in zip(U, A)]))
    E.prove('length 1', E.call(u, 'r2', const=True) == 1)
    E.cover('computed')


@unit('C25', VEC, under=[V])
def components_set(E):
    v = vec(E, 'v'); A = xyz(E, v); i = E.I.choose(3); s = E.real('s')
    E.func('clientSet', v, i, s)
    eq3(E, 'one component changed', v, [s if j == i else a for j, a in enumerate(A)]); E.cover('set')


@unit('C25', VEC, under=[V])
def other_vector_classes(E):
    v = vec(E, 'v'); A = xyz(E, v)
    o = E.I.local(Ty('class', 'OtherVector'), E.func('clientConvert', v), 'o')
    E.prove('converted', And(*[E.call(o, g) == a for g, a in zip('xyz', A)]))
    eq3(E, 'converted back', make(E, 'Other', o), A); E.cover('converted')

# ---------------------------------------------------------------- C23 coordinate systems and boundaries
GS = 'gearsurf/'
CLH = [(GS + 'CartesianCoordinateSystem.cc', f) for f in ('CLHEP::Hep3Vector', 'CLHEP::HepRotation', 'CLHEP::operator')]
SURFTU = CLH + [GS + x for x in ('BoundaryRectangle.cc', 'BoundaryTrapezoid.cc', 'CartesianCoordinateSystem.cc', 'MeasurementSurface.cc')]
CS, BR, BT, MS, H3, HR = 'CartesianCoordinateSystem', 'BoundaryRectangle', 'BoundaryTrapezoid', 'MeasurementSurface', 'Hep3Vector', 'HepRotation'
M9 = ['r' + a + b for a in 'xyz' for b in 'xyz']


def hvec(E, name): return E.I.local(Ty('class', H3), E.I.mk(Ty('class', H3), name), name)
def hat(E, x, y, z):
    v = hvec(E, 'v')
    for f, c in zip(('dx', 'dy', 'dz'), (x, y, z)): E.I.write(E.flv(v, f), c)
    return v
def hget(E, tree): return [E.sfield(tree, f) for f in ('dx', 'dy', 'dz')]
def rd(E, lv): return hget(E, E.I.read(lv))


def mat(E, lv):
    m = [E.field(lv, f) for f in M9]
    return [m[0:3], m[3:6], m[6:9]]


def rotation(E, m, *vs):
    """m is a rotation: its transpose is its inverse; stated for the vectors in question"""
    for v in vs:
        for w in (mul(m, tmul(m, v)), tmul(m, mul(m, v))):
            for x, y in zip(w, v): E.assume(z3.simplify(x, som=True) == z3.simplify(y))


def coords(E):
    E.frame(); t = hvec(E, 'T'); r = E.I.local(Ty('class', HR), E.I.mk(Ty('class', HR), 'R'), 'R'); m = mat(E, r)
    T = rd(E, t)
    o = E.new(CS, t, r)
    return o, T, m


def mul(m, v): return [sum(m[i][k] * v[k] for k in range(3)) for i in range(3)]
def tmul(m, v): return [sum(m[k][i] * v[k] for k in range(3)) for i in range(3)]
def peq(a, b): return And(*[x == y for x, y in zip(a, b)])


@unit('C23', SURFTU, under=[CS])
def coordinate_system(E):
    o, T, m = coords(E); p = hvec(E, 'p'); P = rd(E, p)
    E.prove('origin', peq(rd(E, E.callr(o, 'getOrigin').lv), T))
    g = hget(E, E.call(o, 'getGlobalPoint', p)); l = hget(E, E.call(o, 'getLocalPoint', p))
    E.prove('global is the origin plus the rotated local point', peq(g, [a + b for a, b in zip(T, mul(m, P))]))
    E.prove('local is the back-rotated difference to the origin', peq(l, tmul(m, [a - b for a, b in zip(P, T)])))
    E.prove('point kept', peq(rd(E, p), P))
    for i, a in enumerate('XYZ'): E.prove('local axis ' + a, peq(hget(E, E.call(o, 'getLocal%sAxis' % a)), [m[k][i] for k in range(3)]))
    E.cover('converted')


@unit('C23', SURFTU, under=[CS])
def back_and_forth(E):
    o, T, m = coords(E); p = hvec(E, 'p'); P = rd(E, p)
    D = [a - b for a, b in zip(P, T)]
    rotation(E, m, D, P)
    l = hat(E, *hget(E, E.call(o, 'getLocalPoint', p)))
    for a, b, c in zip(hget(E, E.call(o, 'getGlobalPoint', l)), P, 'xyz'): E.prove('local and back ' + c, z3.simplify(a, som=True) == b)
    g = hat(E, *hget(E, E.call(o, 'getGlobalPoint', p)))
    for a, b, c in zip(hget(E, E.call(o, 'getLocalPoint', g)), P, 'xyz'): E.prove('global and back ' + c, z3.simplify(a, som=True) == b)
    E.cover('converted')


def rotz(E):
    """CLHEP: rotateZ(delta) multiplies the rotation about z by delta from the left"""
    def h(this, args):
        s, c = stdlib.sincos(E.I, args[0])
        m = mat(E, this)
        for j, a in enumerate('xyz'):
            E.I.write(E.flv(this, 'rx' + a), c * m[0][j] - s * m[1][j]); E.I.write(E.flv(this, 'ry' + a), s * m[0][j] + c * m[1][j])
        E.I.assumption('CLHEP: HepRotation::rotateZ(d) is the rotation about z by d applied after the rotation')
        return this
    E.hook('HepRotation::rotateZ', h)


def turned(E, alpha, u, v):
    s, c = stdlib.sincos(E.I, alpha)
    return c * u + s * v, c * v - s * u


def inrect(E, w, l, d, al, p):
    u, v = turned(E, al, p[0], p[1])
    return And(2 * u <= w, -2 * u <= w, 2 * v <= l, -2 * v <= l, p[2] <= d, -p[2] <= d)


def intrap(E, b, t, h, d, al, p):
    u, v = turned(E, al, p[0], p[1])
    wid = b + (t - b) * (v + h / 2) / h
    return And(2 * v <= h, -2 * v <= h, 2 * u <= wid, -2 * u <= wid, p[2] <= d, -p[2] <= d)


@unit('C23', SURFTU, under=[BR])
def rectangle(E):
    rotz(E); w, l, d, al = [E.real(n) for n in ('width', 'length', 'deltaW', 'alpha')]
    E.assume(And(w >= 0, l >= 0))
    o = E.new(BR, w, l, d, al); p = hvec(E, 'p'); P = rd(E, p)
    E.prove('inside exactly within half width and half length', E.call(o, 'isInBoundary', p) == inrect(E, w, l, d, al, P))
    q = E.new(BR, w, l, d)
    E.prove('not turned by default', E.call(q, 'isInBoundary', p) == inrect(E, w, l, d, z3.RealVal(0), P))
    E.cover('asked')


@unit('C23', SURFTU, under=[BT])
def trapezoid(E):
    rotz(E); b, t, h, d, al = [E.real(n) for n in ('bottom', 'top', 'height', 'deltaW', 'alpha')]
    E.assume(And(b >= 0, t >= 0, h > 0))
    o = E.new(BT, b, t, h, d, al); p = hvec(E, 'p'); P = rd(E, p)
    E.prove('inside exactly within the trapezoid', E.call(o, 'isInBoundary', p) == intrap(E, b, t, h, d, al, P))
    E.cover('asked')


def surface(E, bound):
    """a measurement surface with an arbitrary coordinate system and one of the boundaries"""
    E.frame(); cs = E.alloc(CS); E.I.write(cs, E.I.mk(Ty('class', CS), 'cs'))
    ID = E.int('id'); b = None
    if bound is None:
        o = E.new(MS, ID, cs.root[1]) if E.I.choose(2) else E.new(MS, ID, cs.root[1], z3.IntVal(0))
    else:
        b = E.alloc(bound); E.I.write(b, E.I.mk(Ty('class', bound), 'b')); o = E.new(MS, ID, cs.root[1], b.root[1])
    return o, cs, b, ID


def surf_unit(bound):
    def f(E):
        rotz(E); o, cs, b, ID = surface(E, bound)
        p = hvec(E, 'p'); P = rd(E, p)
        E.prove('identifier', E.call(o, 'getID') == ID)
        E.prove('coordinate system', E.call(o, 'getCoordinateSystem') == cs.root[1])
        l = hat(E, *hget(E, E.call(cs, 'getLocalPoint', p)))
        if b is None:
            E.prove('no boundary: every local point is inside', E.call(o, 'isLocalInBoundary', p))
            E.prove('no boundary: every global point is inside', E.call(o, 'isGlobalInBoundary', p))
        else:
            E.prove('local points by the boundary', E.call(o, 'isLocalInBoundary', p) == E.call(b, 'isInBoundary', p))
            E.prove('global points by their local point', E.call(o, 'isGlobalInBoundary', p) == E.call(b, 'isInBoundary', l))
        E.cover('asked')
    return f


unit('C23', SURFTU, under=[MS], name='surface_without_boundary')(surf_unit(None))
unit('C23', SURFTU, under=[MS], name='surface_with_rectangle')(surf_unit(BR))
unit('C23', SURFTU, under=[MS], name='surface_with_trapezoid')(surf_unit(BT))

# ---------------------------------------------------------------- C24 the surface store
STU = [GS + 'MeasurementSurfaceStore.cc', GS + 'MeasurementSurface.cc']
ST, FI = 'MeasurementSurfaceStore', 'MeasurementSurfaceStoreFiller'
FIRST = z3.Function('first surface', IntS, IntS)


def store(E, filled=None):
    """any store; a store that is not filled holds no surface"""
    E.frame(); o = E.alloc(ST); E.I.write(o, E.I.mk(Ty('class', ST), 'store'))
    full = E.call(o, 'isFilled')
    if filled is not None: E.assume(full == z3.BoolVal(filled))
    m = E.field(o, '_measurement_surface_map')
    E.assume(And(m['size'] >= 0))
    if filled is False: E.I.write(E.flv(o, '_measurement_surface_map'), E.I.default(E.flv(o, '_measurement_surface_map').ty))
    return o


def surface_list(E):
    """what the filler gives: any list of existing surfaces"""
    f = E.abstract(FI); name = E.str('filler'); ty = Ty('vec', Ty('ptr', Ty('class', MS)))
    lst = E.I.mk(ty, 'surfaces'); m = lst['len']; E.assume(And(m >= 0, m < (1 << 28)))
    top = E.I.st.alloc
    E.elem_inv(lst, lambda i: Implies(And(i >= 0, i < m), And(E.at(lst, i) > 0, E.at(lst, i) < top)))
    E.vhook('getName', lambda this, a: name)

    def give(this, a):
        E.I.write(a[0], lst); return None
    E.vhook('getMeasurementSurfaces', give)
    return f, name, lst, m


def ident(E):
    """the identifier of a surface as a function of the surface"""
    s = E.int('any surface', 1); t = E.call(E.I.ptr_to_lv(s, Ty('ptr', Ty('class', MS))), 'getID')
    return lambda x: z3.substitute(t, (s, x))


def filling(E, o, lst, m, distinct):
    """ghost: FIRST(id) is the place of the first surface with the identifier; after q surfaces the store has exactly the first q"""
    obj = o.root[1]; ID = ident(E); IDS = lambda j: ID(E.at(lst, j)); F = 'MeasurementSurfaceStore::_measurement_surface_map'
    E.elem_inv(lst, lambda j: Implies(And(j >= 0, j < m), And(E.at(lst, j) > 0, E.at(lst, j) < E.I.st.alloc,
                FIRST(IDS(j)) >= 0, FIRST(IDS(j)) <= j, IDS(FIRST(IDS(j))) == IDS(j), FIRST(IDS(j)) == j if distinct else True)))
    has = lambda q, i: And(FIRST(i) >= 0, FIRST(i) < q, IDS(FIRST(i)) == i)

    def spec(I, n, base, S, leaves, k):
        get = {l[2][0]: l for l in leaves if l[0] == 'H' and l[1] == F and len(l[2]) == 1}
        if 'dom' not in get or 'val' not in get: return []
        dom = lambda val: sel(val[get['dom']], obj); vals = lambda val: sel(val[get['val']], obj)
        i = z3.Int('i!s')
        return [('the first surfaces are there', lambda q, val: z3.ForAll([i], Implies(has(q, i), And(sel(dom(val), i), sel(vals(val), i) == E.at(lst, FIRST(i)))))),
                ('no other surface is there', lambda q, val: z3.ForAll([i], Implies(sel(dom(val), i), has(q, i))))]
    E.I.loop_specs.append(spec)
    return IDS, has


def lookup(E, o, i): return E.try_call(o, 'GetMeasurementSurface', i)


@unit('C24', STU, under=[ST])
def fill_distinct(E):
    o = store(E, False); f, name, lst, m = surface_list(E)
    IDS, has = filling(E, o, lst, m, True)
    k, v = E.attempt(lambda: E.callr(o, 'FillStore', f.root[1]))
    if k == 'throw': return E.fail('surfaces with different identifiers are accepted')
    E.cover('filled')
    E.prove('filled', E.call(o, 'isFilled')); E.prove('by the filler', E.call(o, 'getFillerName') == name)
    i, j = E.int('i'), E.int('j')
    if E.I.choose(2):
        if not E.branch(And(j >= 0, j < m)): return
        E.at(lst, j); k, v = lookup(E, o, IDS(j))
        if k == 'throw': return E.fail('each surface is found by its identifier')
        E.prove('the surface of the identifier', v == E.at(lst, j))
    else:
        E.assume(Not(has(m, i))); k, v = lookup(E, o, i)
        if k == 'throw': E.prove('exception of the library', z3.BoolVal(E.exc_is(v)))
        else: E.fail('an identifier without surface is refused')


@unit('C24', STU, under=[ST], unroll=0)
def fill_duplicate(E):
    o = store(E, False); f, name, lst, m = surface_list(E)
    IDS, has = filling(E, o, lst, m, False)
    a, b = E.int('a'), E.int('b'); E.assume(And(a >= 0, a < b, b < m, IDS(a) == IDS(b)))
    k, v = E.attempt(lambda: E.callr(o, 'FillStore', f.root[1]))
    if k == 'ok': return E.fail('two surfaces with the same identifier are refused')
    E.cover('refused'); E.prove('exception of the library', z3.BoolVal(E.exc_is(v)))
    E.prove('not filled', Not(E.call(o, 'isFilled')))
    k, v = E.try_call(o, 'getFillerName'); E.prove('no filler', z3.BoolVal(k == 'throw'))
    k, v = lookup(E, o, E.int('i')); E.prove('no surface was added', z3.BoolVal(k == 'throw'))


@unit('C24', STU, under=[ST])
def fill_again(E):
    o = store(E, True); f, name, lst, m = surface_list(E); i = E.int('i')
    q, n = lookup(E, o, i), E.call(o, 'getFillerName')
    k, v = E.attempt(lambda: E.callr(o, 'FillStore', f.root[1]))
    if k == 'ok': return E.fail('a filled store is not filled again')
    E.cover('refused'); E.prove('exception of the library', z3.BoolVal(E.exc_is(v)))
    E.prove('still filled', E.call(o, 'isFilled')); E.prove('by the same filler', E.call(o, 'getFillerName') == n)
    r = lookup(E, o, i)
    E.prove('same surfaces', z3.BoolVal(False) if r[0] != q[0] else (r[1] == q[1] if q[0] == 'ok' else z3.BoolVal(True)))


@unit('C24', STU, under=[ST])
def empty_store(E):
    o = E.new(ST); E.prove('not filled', Not(E.call(o, 'isFilled')))
    k, v = E.try_call(o, 'getFillerName'); E.prove('no filler', z3.BoolVal(k == 'throw' and E.exc_is(v)))
    k, v = lookup(E, o, E.int('i')); E.prove('no surface', z3.BoolVal(k == 'throw' and E.exc_is(v)))
    E.cover('asked')


@unit('C24', STU, under=[ST])
def copied_store(E):
    o = store(E); i = E.int('i'); c = E.new(ST, o)
    E.prove('filled alike', E.call(c, 'isFilled') == E.call(o, 'isFilled'))
    q, r = lookup(E, o, i), lookup(E, c, i)
    E.prove('same surfaces', z3.BoolVal(False) if r[0] != q[0] else (r[1] == q[1] if q[0] == 'ok' else z3.BoolVal(True)))
    q, r = E.try_call(o, 'getFillerName'), E.try_call(c, 'getFillerName')
    E.prove('same filler', z3.BoolVal(False) if r[0] != q[0] else (r[1] == q[1] if q[0] == 'ok' else z3.BoolVal(True)))
    E.cover('copied')
