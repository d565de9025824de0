"""contracts of the TPC description: C07 (copies), C08 (frames), C09 (pad queries), C10 (module area), C11 (adding modules), C12 (point queries)"""
import z3
from gearvc.spec import *
from gearvc.types import parse, Ty
from gearvc.sym import *
from gearvc.interp import PI, CppThrow
from gearvc import stdlib
from .registry import TPC, LAY, GLOB
from . import layouts as LY
from .layouts import And, Or, Not, Implies, If, L, setf, havoc, library

M, P, PL = 'TPCModuleImpl', 'TPCParametersImpl', 'PadRowLayout2D'
CAR, POL = 1, 2
KIND = {CAR: 'cartesian', POL: 'polar'}
COMBOS = [(CAR, CAR), (CAR, POL), (POL, CAR), (POL, POL)]
EXT = ('_planeExtent', '_moduleExtent', '_localModuleExtent')
R = z3.RealVal


def trig(E, a):
    """sin and cos of an angle"""
    return stdlib.sincos(E.I, a)


def vec4(E, lv, vals, name):
    f = E.flv(lv, name)
    E.I.write(f, {'len': z3.IntVal(4), 'elem': E.I.mk(f.ty.a, 'ext!' + name, (IntS,))})
    for k, v in enumerate(vals): E.I.write(f.sub(('i', z3.IntVal(k)), f.ty.a), v)


def module(E, mom, lay, name='', local=None):
    """any module that satisfies the class invariant (established by module_ctor, kept by the setters)"""
    E.frame()
    lo = E.abstract(PL)
    o = E.alloc(M)
    E.I.write(o, E.I.mk(Ty('class', M), 'module' + name))
    ang, z, bd, fr = [E.real(x + name) for x in ('angle', 'z', 'border', 'frequency')]
    off = [E.real('offset%d%s' % (k, name)) for k in (0, 1)]
    s, c = trig(E, ang)
    idn = E.int('moduleID' + name)
    zset = E.bool('zset' + name)
    E.assume(Implies(Not(zset), z > 0))
    if mom == POL:
        so, co = trig(E, off[1])
        oc = [off[0] * co, off[0] * so]
    else: oc = off
    E.vhook('getCoordinateType', lambda this, args: z3.IntVal(lay))
    same = And(z3.BoolVal(mom == lay), ang == 0, off[0] == 0, off[1] == 0, z > 0)
    E.assume(Implies(ang == 0, And(s == 0, c == 1)))
    setf(E, o, _padRowLayout=lo.root[1], _readoutFrequency=fr, _zPosition=z, _angle=ang, _cos_angle=c, _sin_angle=s, _momsCoordinateType=z3.IntVal(mom), _moduleID=idn, _border=bd,
         _localIsGlobal=same, _zPositionIsSet=zset)
    E.I.write(E.flv(o, '_offset'), E.vec2(*off)); E.I.write(E.flv(o, '_offset_cartesian'), E.vec2(*oc))
    ext = {}
    for f in EXT:
        ext[f] = [E.real('%s%d%s' % (f, k, name)) for k in range(4)]
        vec4(E, o, ext[f], f)
    m = L(o=o, lay=lo, ang=ang, z=z, border=bd, freq=fr, off=off, oc=oc, s=s, c=c, id=idn, zset=zset, ext=ext, mom=mom, layt=lay)
    return m


def inv(E, o, mom, lay):
    """the class invariant of a module"""
    off, oc = E.field(o, '_offset'), E.field(o, '_offset_cartesian')
    a, b = E.comp(off, 0), E.comp(off, 1)
    x, y = E.comp(oc, 0), E.comp(oc, 1)
    ang = E.field(o, '_angle'); s, c = trig(E, ang)
    z = E.field(o, '_zPosition')
    if mom == POL:
        sb, cb = trig(E, b)
        oo = And(x == a * cb, y == a * sb)
    else: oo = And(x == a, y == b)
    return [('angle', And(E.field(o, '_cos_angle') == c, E.field(o, '_sin_angle') == s)), ('offset', oo),
            ('local is global', E.field(o, '_localIsGlobal') == And(z3.BoolVal(mom == lay), ang == 0, a == 0, b == 0, z > 0)),
            ('default z', Implies(Not(E.field(o, '_zPositionIsSet')), z > 0)),
            ('extents', And([E.field(o, f)['len'] == 4 for f in EXT]))]


def cart(E, kind, a, b):
    """Cartesian coordinates of a point"""
    if kind == CAR: return a, b
    s, c = trig(E, b)
    return a * c, a * s


def glob(m, x, y):
    X = x * m.c - y * m.s + m.oc[0]
    Y = y * m.c + x * m.s + m.oc[1]
    return If(m.z <= 0, -X, X), Y


def loc(m, x, y):
    x = If(m.z <= 0, -x, x) - m.oc[0]
    y = y - m.oc[1]
    return x * m.c + y * m.s, y * m.c - x * m.s


def combos(prop, **kw):
    def deco(fn):
        for mom, lay in COMBOS:
            def g(E, mom=mom, lay=lay): return fn(E, module(E, mom, lay))
            unit(prop, TPC, under=[M], name='%s_%s_in_%s' % (fn.__name__, KIND[lay], KIND[mom]), **kw)(g)
        return fn
    return deco


# ---------------------------------------------------------------- C08
@combos('C08')
def to_global(E, m):
    a, b = E.real('a'), E.real('b')
    if m.layt == POL: E.assume(a >= 0)
    k, v = E.try_call(m.o, 'localToGlobal', a, b)
    if k == 'throw': E.fail('conversion throws'); return
    E.cover('point')
    x, y = cart(E, m.mom, E.comp(v, 0), E.comp(v, 1))
    X, Y = glob(m, *cart(E, m.layt, a, b))
    E.prove('global x', x == X); E.prove('global y', y == Y)
    if m.mom == POL: E.prove('radius not negative', E.comp(v, 0) >= 0)


@combos('C08')
def to_local(E, m):
    a, b = E.real('a'), E.real('b')
    if m.mom == POL: E.assume(a >= 0)
    k, v = E.try_call(m.o, 'globalToLocal', a, b)
    if k == 'throw': E.fail('conversion throws'); return
    E.cover('point')
    x, y = cart(E, m.layt, E.comp(v, 0), E.comp(v, 1))
    X, Y = loc(m, *cart(E, m.mom, a, b))
    E.prove('local x', x == X); E.prove('local y', y == Y)
    if m.layt == POL: E.prove('radius not negative', E.comp(v, 0) >= 0)


@unit('C08', TPC, under=[M])
def rigid(E):
    """the specified motions are inverse to each other and keep distances: with the contracts of localToGlobal and globalToLocal this is the property"""
    m = module(E, CAR, CAR)
    x, y, p, q = [E.real(n) for n in 'xypq']
    X, Y = glob(m, x, y); P_, Q_ = glob(m, p, q)
    bx, by = loc(m, X, Y)
    E.prove('to global and back', And(bx == x, by == y))
    lx, ly = loc(m, x, y); gx, gy = glob(m, lx, ly)
    E.prove('to local and back', And(gx == x, gy == y))
    E.prove('distances stay', (X - P_) * (X - P_) + (Y - Q_) * (Y - Q_) == (x - p) * (x - p) + (y - q) * (y - q))


def extents_hook(E, lay, mom):
    """contract of convertLocalPlaneToGlobalPlaneExtend (proved in C10): changes only the extents; not implemented for Cartesian layouts in polar TPCs"""
    def h(this, args):
        for f in EXT:
            lv = E.flv(LV(this.root, this.path, Ty('class', M)), f)
            E.I.st.cnt += 1
            t = E.I.mk(lv.ty, 'newext!%s%d' % (f, E.I.st.cnt)); E.assume(t['len'] == 4)
            E.I.write(lv, t)
        if mom == POL and lay == CAR: raise CppThrow('NotImplementedException')
        return None
    E.hook(M + '::convertLocalPlaneToGlobalPlaneExtend', h)


SETTERS = {'setOffset': (2, ('_offset', '_offset_cartesian', '_localIsGlobal')), 'setAngle': (1, ('_angle', '_cos_angle', '_sin_angle', '_localIsGlobal')),
           'setZPosition': (1, ('_zPosition', '_zPositionIsSet', '_localIsGlobal')), 'setBorderWidth': (1, ('_border',)), 'setReadoutFrequency': (1, ('_readoutFrequency',))}


def keeps(E, o, before, changed, label):
    """frame: only the named members (and the extents) change"""
    for (f, a), (g, b) in zip(before, E.fields(o)):
        if f in changed or f in EXT: continue
        E.prove('%s leaves %s alone' % (label, f), eqtree(a, b))


def eqtree(a, b):
    return And([x == y for (_, x), (_, y) in zip(leaves(a), leaves(b))])


@combos('C08')
def setters(E, m):
    extents_hook(E, m.layt, m.mom)
    which = E.int('which', 0, len(SETTERS) - 1)
    for i, (name, (n, ch)) in enumerate(SETTERS.items()):
        if not E.branch(which == i): continue
        args = [E.real('arg%d' % k) for k in range(n)]
        before = E.fields(m.o)
        k, v = E.try_call(m.o, name, *args)
        E.cover(name)
        if k == 'throw': E.prove(name + ' throws only where extents are not implemented', z3.BoolVal(m.mom == POL and m.layt == CAR and name not in ('setZPosition', 'setReadoutFrequency')))
        keeps(E, m.o, before, ch, name)
        for nm, f in inv(E, m.o, m.mom, m.layt): E.prove('%s keeps the invariant: %s' % (name, nm), f)
        if name == 'setOffset': E.prove('offset set', And([E.comp(E.call(m.o, 'getOffset'), j) == args[j] for j in (0, 1)]))
        if name == 'setAngle': E.prove('angle set', E.call(m.o, 'getAngle') == args[0])
        if name == 'setZPosition': E.prove('z set', E.call(m.o, 'getZPosition') == args[0])
        if name == 'setBorderWidth': E.prove('border set', E.call(m.o, 'getBorderWidth') == args[0])
        if name == 'setReadoutFrequency': E.prove('frequency set', E.call(m.o, 'getReadoutFrequency') == args[0])
        return


def ctor(E, mom, lay):
    lo = E.abstract(PL)
    E.vhook('getCoordinateType', lambda this, args: z3.IntVal(lay))
    extents_hook(E, lay, mom)
    i, f = E.int('id'), E.real('frequency')
    pe = E.I.new_ref(); tv = parse('vector<double>')
    plane = LV(('H', pe, tv), (), tv)
    t = E.I.mk(tv, 'layoutextent'); E.assume(t['len'] == 4); E.I.write(plane, t)
    E.vhook('getPlaneExtent', lambda this, args: plane)
    k, o = E.attempt(lambda: E.new(M, i, lo.root[1], z3.IntVal(mom), f))
    if k == 'throw': E.fail('construction throws'); return None
    return L(o=o, lay=lo, id=i, freq=f, mom=mom, layt=lay)


for _mom, _lay in COMBOS:
    def _c(E, mom=_mom, lay=_lay):
        m = ctor(E, mom, lay)
        if m is None: return
        E.cover('constructed')
        for nm, f in inv(E, m.o, mom, lay): E.prove('invariant established: ' + nm, f)
        E.prove('no offset, no angle', And(E.comp(E.call(m.o, 'getOffset'), 0) == 0, E.comp(E.call(m.o, 'getOffset'), 1) == 0, E.call(m.o, 'getAngle') == 0, E.call(m.o, 'getBorderWidth') == 0))
        k, v = E.try_call(m.o, 'getZPosition')
        E.prove('no z position', z3.BoolVal(k == 'throw' and 'NoZPosition' in v))
        E.prove('identity', And(E.call(m.o, 'getModuleID') == m.id, E.call(m.o, 'getTPCCoordinateType') == mom, E.call(m.o, 'getCoordinateType') == mom, E.call(m.o, 'getPadLayoutType') == mom,
                                E.call(m.o, 'getReadoutFrequency') == m.freq))
    for _p in ('C08', 'C09'): unit(_p, TPC, under=[M + '::' + M], name='module_ctor_%s_in_%s' % (KIND[_lay], KIND[_mom]))(_c)


# ---------------------------------------------------------------- C09
FORWARD = {'getPadShape': (), 'getNPads': (), 'getNRows': (), 'getRowHeight': ('row',), 'getPadWidth': ('pad',), 'getPadPitch': ('pad',), 'getPadHeight': ('pad',), 'getRowNumber': ('pad',),
           'getPadNumber': ('pad',), 'getPadIndex': ('row', 'pad'), 'getRightNeighbour': ('pad',), 'getLeftNeighbour': ('pad',)}


@combos('C09', abstract_throws=True)
def forwarded(E, m):
    """questions about pads and rows get the answer of the layout, including its exceptions"""
    which = E.int('which', 0, len(FORWARD) + 4)
    for i, (name, args) in enumerate(FORWARD.items()):
        if not E.branch(which == i): continue
        vals = [E.int(a) for a in args]
        k, v = E.try_call(m.o, name, *vals)
        k2, w = E.attempt(lambda: E.virt(m.lay, name, *vals))
        E.cover(name + ' ' + k)
        E.prove(name + ': exceptions as the layout', z3.BoolVal(k == k2))
        if k == 'ok' and k2 == 'ok': E.prove(name + ': answer of the layout', v == w)
        return
    n = len(FORWARD)
    if E.branch(which == n):
        row = E.int('row')
        k, v = E.attempt(lambda: E.callr(m.o, 'getPadsInRow', row))
        fs = E.p.find_method(PL, 'getPadsInRow', 1)
        k2, w = E.attempt(lambda: E.I.abstract_call(fs[0], m.lay, [row]))
        E.prove('getPadsInRow: exceptions as the layout', z3.BoolVal(k == k2))
        if k == 'ok' and k2 == 'ok':
            E.cover('getPadsInRow')
            E.prove('getPadsInRow: list of the layout', eqtree(E.val(v), E.val(w)))
        return
    if E.branch(which == n + 1):
        L0, L1 = localpoint(E, m, '::localToGlobal', 'globalpoint')
        pad = E.int('pad')
        k2, w = E.attempt(lambda: E.virt(m.lay, 'getPadCenter', pad))
        k, v = E.try_call(m.o, 'getPadCenter', pad)
        E.prove('getPadCenter: exceptions as the layout', z3.BoolVal(k == k2))
        if k == 'ok' and k2 == 'ok':
            E.cover('getPadCenter')
            a, b = E.comp(w, 0), E.comp(w, 1)
            E.prove('pad centre in global coordinates', And(E.comp(v, 0) == L0(a, b), E.comp(v, 1) == L1(a, b)))
        return
    if E.branch(which == n + 2):
        E.prove('kind', And(E.call(m.o, 'getPadLayoutImplType') == 100, E.call(m.o, 'getPadLayoutType') == m.mom, E.call(m.o, 'getCoordinateType') == m.mom,
                            E.call(m.o, 'getTPCCoordinateType') == m.mom))
        E.prove('values last set', And(E.call(m.o, 'getModuleID') == m.id, E.call(m.o, 'getReadoutFrequency') == m.freq, E.call(m.o, 'getAngle') == m.ang, E.call(m.o, 'getBorderWidth') == m.border,
                                       E.comp(E.call(m.o, 'getOffset'), 0) == m.off[0], E.comp(E.call(m.o, 'getOffset'), 1) == m.off[1]))
        k, v = E.try_call(m.o, 'getZPosition')
        E.cover('z ' + k)
        if k == 'throw': E.prove('z position never set', And(Not(m.zset), z3.BoolVal('NoZPosition' in v)))
        else: E.prove('z position', And(m.zset, v == m.z))
        E.prove('the layout itself', E.callr(m.o, 'getLocalPadLayout').root[1] == m.lay.root[1])
        return


def localpoint(E, m, fn='::globalToLocal', nm='localpoint'):
    """contract of the conversion of a point (proved in C08): some function of the point"""
    F = [z3.Function('%s%d' % (nm, k), RealS, RealS, RealS) for k in (0, 1)]
    E.hook(M + fn, lambda this, args: E.vec2(F[0](args[0], args[1]), F[1](args[0], args[1])))
    return F


@combos('C09')
def point_queries(E, m):
    F = localpoint(E, m)
    c0, c1 = E.real('c0'), E.real('c1')
    a, b = F[0](c0, c1), F[1](c0, c1)
    start = m.ext['_localModuleExtent'][2]
    pad = E.int('pad'); N = E.int('nearest of the layout')
    D = z3.Function('layoutdistance', IntS, RealS); I_ = z3.Function('layoutinside', IntS, BoolS)

    def near(this, args):
        E.prove('nearest pad asked of the layout for the local point', And(this.root[1] == m.lay.root[1], args[0] == a))
        if m.layt == CAR: E.prove('nearest pad asked at the local coordinates', args[1] == b)
        else: E.prove('nearest pad asked at the local angle, modulo full turns', z3.IsInt((args[1] - b) / (2 * PI)))
        return N

    def at(fn, nm):
        def h(this, args):
            E.prove(nm + ' asked of the layout for the local point', And(this.root[1] == m.lay.root[1], args[0] == a))
            if m.layt == CAR: E.prove(nm + ' asked at the local coordinates', args[1] == b)
            else:
                E.prove(nm + ' asked at the local angle, modulo full turns', z3.IsInt((args[1] - b) / (2 * PI)))
                E.prove(nm + ' asked in the turn that starts with the module', And(args[1] >= start, args[1] < start + 2 * PI))
            return fn(args[2])
        return h
    E.vhook('getNearestPad', near); E.vhook('getDistanceToPad', at(D, 'distance'))
    E.vhook('isInsidePad', at(I_, 'inside'))
    which = E.int('which', 0, 3)
    if E.branch(which == 0): E.prove('nearest pad', E.call(m.o, 'getNearestPad', c0, c1) == N)
    elif E.branch(which == 1): E.prove('inside a pad', E.call(m.o, 'isInsidePad', c0, c1, pad) == I_(pad))
    elif E.branch(which == 2): E.prove('inside any pad', E.call(m.o, 'isInsidePad', c0, c1) == I_(N))
    else: E.prove('distance to a pad', E.call(m.o, 'getDistanceToPad', c0, c1, pad) == D(pad))
    E.cover('queried')


for _n, _f in (('setters', setters),): 
    for _mom, _lay in COMBOS:
        unit('C09', TPC, under=[M], name='setters_%s_in_%s' % (KIND[_lay], KIND[_mom]))(lambda E, mom=_mom, lay=_lay: setters(E, module(E, mom, lay)))


# ---------------------------------------------------------------- C10
def region(E, m):
    """an arbitrary local module extent"""
    e = m.ext['_localModuleExtent']
    E.assume(And(e[0] <= e[1], e[2] <= e[3]))
    if m.layt == POL: E.assume(And(e[0] >= 0, e[3] - e[2] <= 2 * PI))
    return e


@combos('C10', trig_atom=True)
def inside_module(E, m):
    e = region(E, m)
    c0, c1, w = E.real('c0'), E.real('c1'), E.real('w')
    a = E.real('a')
    b = w
    if m.layt == POL:
        t = E.int('turns', -(1 << 30), 1 << 30)
        E.assume(And(w >= e[2], w < e[2] + 2 * PI, a > 0)); b = w + 2 * PI * z3.ToReal(t)
    E.hook(M + '::globalToLocal', lambda this, args: (E.prove('converts the query point', And(args[0] == c0, args[1] == c1)), E.vec2(a, b))[1])
    spec = And(a >= e[0], a <= e[1], w >= e[2], w <= e[3])
    E.prove('inside exactly when in the local extent', E.call(m.o, 'isInsideModule', c0, c1) == spec)
    E.cover('asked')


def segment(E, a, w, e, k):
    """distance of the point (a, w) from the straight edge of the sector at angle e[k]: its foot on the ray, clamped to the radii of the region"""
    s, c = trig(E, w); s2, c2 = trig(E, e[k])
    C, S = c * c2 + s * s2, c * s2 - s * c2
    E.lemma('one %d' % k, And((c * c + s * s - 1) * c2 * c2 == 0, (c * c + s * s - 1) * s2 * s2 == 0))
    E.lemma('unit vector %d' % k, C * C + S * S == 1)
    E.lemma('scaled %d' % k, a * a * (C * C + S * S - 1) == 0)
    proj, perp = a * C, a * S
    D = []
    for r in (e[0], e[1]):
        X = (proj - r) * (proj - r) + perp * perp
        E.lemma('cosine theorem %d' % k, X == a * a + r * r - 2 * r * proj)
        D.append(stdlib.sqrt(E.I, X))
    return If(proj < e[0], D[0], If(proj > e[1], D[1], If(perp >= 0, perp, -perp)))


@combos('C10')
def distance(E, m):
    e = region(E, m)
    c0, c1, w = E.real('c0'), E.real('c1'), E.real('w')
    a = E.real('a'); b = w
    if m.layt == POL:
        t = E.int('turns', -(1 << 30), 1 << 30)
        E.assume(And(w >= e[2], w < e[2] + 2 * PI, a > 0)); b = w + 2 * PI * z3.ToReal(t)
    E.hook(M + '::globalToLocal', lambda this, args: (E.prove('converts the query point', And(args[0] == c0, args[1] == c1)), E.vec2(a, b))[1])
    edge = [segment(E, a, w, e, k) for k in (2, 3)] if m.layt == POL else None
    d = E.call(m.o, 'getDistanceToModule', c0, c1)
    E.cover('asked')
    if m.layt == CAR:
        dx = If(a < e[0], e[0] - a, If(a > e[1], a - e[1], R(0))); dy = If(w < e[2], e[2] - w, If(w > e[3], w - e[3], R(0)))
        E.prove('Euclidean distance to the box', And(d >= 0, d * d == dx * dx + dy * dy))
        E.prove('distance zero exactly inside', (d == 0) == And(a >= e[0], a <= e[1], w >= e[2], w <= e[3]))
        return
    if E.branch(w <= e[3]):
        E.prove('radial distance in the sector', d == If(a < e[0], e[0] - a, If(a > e[1], a - e[1], R(0))))
        return
    E.prove('distance to the nearer straight edge', d == If(edge[0] < edge[1], edge[0], edge[1]))


def conv(E, m):
    """convertLocalPlaneToGlobalPlaneExtend with the contracts of the extent calculations"""
    pl = [E.real('layoutextent%d' % k) for k in range(4)]
    tv = parse('vector<double>')
    plane = LV(('H', E.I.new_ref(), tv), (), tv)
    E.I.write(plane, {'len': z3.IntVal(4), 'elem': E.I.mk(tv.a, 'layoutextent!', (IntS,))})
    for k in range(4): E.I.write(plane.sub(('i', z3.IntVal(k)), tv.a), pl[k])
    E.vhook('getPlaneExtent', lambda this, args: plane)
    E.assume(And(pl[0] <= pl[1], pl[2] <= pl[3], m.border >= 0))
    if m.layt == POL: E.assume(And(pl[0] >= 0, pl[3] - pl[2] <= 2 * PI))
    F = [z3.Function('globalextent%d' % k, RealS, RealS, RealS, RealS, RealS) for k in range(4)]

    def calc(name):
        def h(this, args):
            v = E.val(args[0])
            E.prove('extents are calculated from four values', v['len'] == 4)
            if not name.startswith('calculateGlobalExtent' + {CAR: 'Cartesian', POL: 'Polar'}[m.mom] + {CAR: 'Cartesian', POL: 'Polar'}[m.layt]): E.fail('extents are calculated for the right coordinates')
            x = [E.at(v, k) for k in range(4)]
            E.I.st.cnt += 1
            t = E.I.mk(tv, 'calc!%d' % E.I.st.cnt); E.assume(And([t['len'] == 4] + [E.at(t, k) == F[k](*x) for k in range(4)]))
            return t
        return h
    for n in ('CartesianCartesian', 'CartesianPolar', 'PolarPolar'): E.hook(M + '::calculateGlobalExtent' + n, calc('calculateGlobalExtent' + n))
    return pl, F


def localspec(m, pl):
    """the layout extent enlarged by the border"""
    b = m.border
    if m.layt == CAR: return [pl[0] - b, pl[1] + b, pl[2] - b, pl[3] + b]
    pb = If(pl[0] > 0, b / pl[0], PI + 0 * b)
    gap = (2 * PI - (pl[3] - pl[2])) / 2
    pb = If(pb > gap, gap, pb)
    return [If(b == 0, pl[k], x) for k, x in enumerate((If(pl[0] - b > 0, pl[0] - b, R(0)), pl[1] + b, pl[2] - pb, pl[3] + pb))]


@combos('C10')
def extents(E, m):
    pl, F = conv(E, m)
    before = E.fields(m.o)
    k, v = E.try_call(m.o, 'convertLocalPlaneToGlobalPlaneExtend')
    E.cover('converted')
    keeps(E, m.o, before, (), 'conversion')
    want = localspec(m, pl)
    le = E.call(m.o, 'getLocalModuleExtent')
    for i in range(4): E.prove('local extent %d: layout extent and border' % i, E.at(le, i) == want[i])
    E.prove('four extents', And([E.field(m.o, f)['len'] == 4 for f in EXT]))
    if k == 'throw':
        E.prove('not implemented only for Cartesian layouts in polar TPCs', z3.BoolVal(m.mom == POL and m.layt == CAR and E.exc_is(v)))
        return
    E.prove('implemented', z3.BoolVal(not (m.mom == POL and m.layt == CAR)))
    me, pe = E.call(m.o, 'getModuleExtent'), E.call(m.o, 'getPlaneExtent')
    for i in range(4):
        E.prove('module extent %d from the local module extent' % i, E.at(me, i) == F[i](*[E.at(le, j) for j in range(4)]))
        E.prove('plane extent %d from the layout extent' % i, E.at(pe, i) == F[i](*pl))


def localvec(E, vals):
    tv = parse('vector<double>')
    lv = E.I.local(tv, {'len': z3.IntVal(4), 'elem': E.I.mk(tv.a, 'le!', (IntS,))}, 'le')
    for k, v in enumerate(vals): E.I.write(lv.sub(('i', z3.IntVal(k)), tv.a), v)
    return E.I.read(lv)


@unit('C10', TPC, under=[M + '::calculateGlobalExtentCartesianCartesian', M + '::localToGlobal'])
def box(E):
    m = module(E, CAR, CAR)
    e = [E.real('e%d' % k) for k in range(4)]
    E.assume(And(e[0] <= e[1], e[2] <= e[3]))
    g = E.call(m.o, 'calculateGlobalExtentCartesianCartesian', localvec(E, e))
    E.cover('box')
    E.prove('four values', g['len'] == 4)
    x, y = E.real('x'), E.real('y')
    E.assume(And(x >= e[0], x <= e[1], y >= e[2], y <= e[3]))
    X, Y = glob(m, x, y)
    corners = [glob(m, e[i], e[2 + j]) for i in (0, 1) for j in (0, 1)]
    for k, (co, up) in enumerate(((0, 0), (0, 1), (1, 0), (1, 1))):
        gk = E.at(g, k); vals = [c[co] for c in corners]
        E.prove('extent %d is reached at a corner' % k, Or([gk == v for v in vals]))
        E.prove('extent %d: no corner lies outside' % k, And([(gk >= v if up else gk <= v) for v in vals]))


@unit('C10', TPC, under=[M])
def box_convex(E):
    """a box that contains the four corners of a turned rectangle contains the rectangle"""
    m = module(E, CAR, CAR)
    e = [E.real('e%d' % k) for k in range(4)]
    x, y, g = E.real('x'), E.real('y'), E.real('g')
    E.assume(And(x >= e[0], x <= e[1], y >= e[2], y <= e[3]))
    for co in (0, 1):
        # the coordinate is linear in x and y
        f = lambda x, y: (x * m.c - y * m.s) if co == 0 else (y * m.c + x * m.s)
        v = f(x, y); xs = If((m.c if co == 0 else m.s) > 0, e[1], e[0]); ys = If((-m.s if co == 0 else m.c) > 0, e[3], e[2])
        E.prove('coordinate %d largest at a corner' % co, v <= f(xs, ys))
        xs = If((m.c if co == 0 else m.s) > 0, e[0], e[1]); ys = If((-m.s if co == 0 else m.c) > 0, e[2], e[3])
        E.prove('coordinate %d smallest at a corner' % co, v >= f(xs, ys))


# ---------------------------------------------------------------- C11, C12: the TPC over modules of unknown class
TM = 'TPCModule'
LISTS = {'all': '_TPCModules', 'negative': '_modulesNegativeHalfTPC', 'positive': '_modulesPositiveHalfTPC'}
ZS = z3.Function('has z', IntS, BoolS); ZP = z3.Function('z of', IntS, RealS)
IDF = z3.Function('id of', IntS, IntS); CT = z3.Function('coordinates of', IntS, IntS)
EX = [z3.Function('module extent %d' % k, IntS, RealS) for k in range(4)]
SK = {n: (z3.Function('index in ' + n, IntS, IntS), z3.Function('position in ' + n, IntS, IntS)) for n in ('negative', 'positive')}


def member(half, r): return Or(Not(ZS(r)), ZP(r) <= 0 if half == 'negative' else ZP(r) > 0)


def interface(E):
    """contracts of the module interface, for modules of any class: C08-C10 prove them for TPCModuleImpl"""
    def z(this, args):
        r = this.root[1]
        if E.branch(ZS(r)): return ZP(r)
        raise CppThrow('NoZPositionException')
    E.vhook('getZPosition', z)
    E.vhook('getModuleID', lambda this, args: (E.assume(And(IDF(this.root[1]) >= -(1 << 31), IDF(this.root[1]) < (1 << 31))), IDF(this.root[1]))[1])
    E.vhook('getTPCCoordinateType', lambda this, args: CT(this.root[1]))
    tv = parse('vector<double>')

    def ext(this, args):
        lv = LV(('H', z3.Function('extent list', IntS, IntS)(this.root[1]), tv), (), tv)
        t = E.I.read(lv)
        E.assume(And([t['len'] == 4] + [E.at(t, k) == EX[k](this.root[1]) for k in range(4)]))
        return lv
    E.vhook('getModuleExtent', ext)


def tpc(E):
    """any TPC that satisfies the class invariant (established by tpc_ctor, kept by add_module)"""
    E.frame()
    interface(E)
    o = E.alloc(P)
    E.I.write(o, E.I.mk(Ty('class', P), 'tpc'))
    ls = {k: E.field(o, f) for k, f in LISTS.items()}
    n = {k: ls[k]['len'] for k in ls}
    E.assume(And([And(n[k] >= 0, n[k] < (1 << 28)) for k in n]))
    for k in ls: E.elem_inv(ls[k], lambda i, k=k: Implies(And(i >= 0, i < n[k]), E.at(ls[k], i) > 0))
    E.assume(E.field(o, '_planeExtent')['len'] == 4)
    for f in ('_maxDriftLength', '_cathodePosition', '_driftVelocity'): E.field(o, f)
    ct = E.field(o, '_coordinateType')
    return L(o=o, ls=ls, n=n, drift=E.field(o, '_maxDriftLength'), cath=E.field(o, '_cathodePosition'), vd=E.field(o, '_driftVelocity'), ct=ct, ids=E.field(o, '_moduleIDMap'), ext=[E.at(E.field(o, '_planeExtent'), k) for k in range(4)])


def id_inv(E, ls, ids, i, key):
    """the ID map is the inverse of the IDs of the modules, at index i and key"""
    a = ls['all']; r = E.at(a, i); v = z3.Select(ids['val'], key)
    return And(Implies(And(i >= 0, i < a['len']), And(z3.Select(ids['dom'], IDF(r)), z3.Select(ids['val'], IDF(r)) == i)),
               Implies(z3.Select(ids['dom'], key), And(v >= 0, v < a['len'], IDF(E.at(a, v)) == key)))


def half_inv(E, ls, h, j, i, idx, pos):
    """the list of a half holds exactly the modules of that half: witnesses idx (of a list entry) and pos (of a module)"""
    a, b = ls['all'], ls[h]
    return And(Implies(And(j >= 0, j < b['len']), And(idx >= 0, idx < a['len'], E.at(b, j) == E.at(a, idx), member(h, E.at(b, j)))),
               Implies(And(i >= 0, i < a['len'], member(h, E.at(a, i))), And(pos >= 0, pos < b['len'], E.at(b, pos) == E.at(a, i))))


def now(E, t): return {k: E.field(t.o, f) for k, f in LISTS.items()}


def cathode_spec(E, t, ls, old, drift):
    """midway between the end plates, or one drift length from the only one; unchanged while the first module of a half has no z position"""
    a, b = E.at(ls['negative'], 0), E.at(ls['positive'], 0)
    neg, pos = ls['negative']['len'] > 0, ls['positive']['len'] > 0
    return If(And(neg, pos), If(And(ZS(a), ZS(b)), (ZP(a) + ZP(b)) / 2, old), If(neg, If(ZS(a), ZP(a) + drift, old), If(pos, If(ZS(b), ZP(b) - drift, old), old)))


@unit('C11', TPC, under=[P + '::setCathodePosition'])
def set_cathode(E):
    t = tpc(E); before = E.fields(t.o)
    k, v = E.try_call(t.o, 'setCathodePosition')
    E.prove('no exception', z3.BoolVal(k == 'ok')); E.cover('set')
    E.prove('cathode', E.field(t.o, '_cathodePosition') == cathode_spec(E, t, t.ls, t.cath, t.drift))
    for (f, a), (g, b) in zip(before, E.fields(t.o)):
        if f != '_cathodePosition': E.prove('leaves %s alone' % f, eqtree(a, b))


def cathode_hook(E, t):
    """contract of setCathodePosition (proved by set_cathode)"""
    def h(this, args):
        o = LV(this.root, this.path, Ty('class', P))
        f = E.flv(o, '_cathodePosition')
        E.I.write(f, cathode_spec(E, t, now(E, t), E.I.read(f), E.field(o, '_maxDriftLength')))
    E.hook(P + '::setCathodePosition', h)


@unit('C11', TPC, under=[P + '::addModule'], merge=True)
def add_module(E):
    t = tpc(E); cathode_hook(E, t)
    m = E.int('module', 0, 1 << 20); i, j, key = E.int('i'), E.int('j'), E.int('key')
    E.assume(m < E.I.st.alloc)
    E.assume(And(id_inv(E, t.ls, t.ids, i, key), id_inv(E, t.ls, t.ids, i, IDF(m))))
    for h in SK: E.assume(half_inv(E, t.ls, h, j, i, SK[h][0](j), SK[h][1](i)))
    used = z3.Select(t.ids['dom'], IDF(m))
    E.assume(IDF(m) == IDF(m))
    before = E.fields(t.o)
    k, v = E.try_call(t.o, 'addModule', m)
    ok = And(m > 0, CT(m) == t.ct, Not(used))
    if k == 'throw':
        E.cover('rejected')
        E.prove('rejected only for a reason', Not(ok)); E.prove('library exception', z3.BoolVal(E.exc_is(v)))
        for (f, a), (g, b) in zip(before, E.fields(t.o)): E.prove('rejection leaves %s alone' % f, eqtree(a, b))
        return
    E.cover('accepted')
    E.prove('accepted only when valid', ok)
    ls = now(E, t); ids = E.field(t.o, '_moduleIDMap'); n = t.n['all']
    E.prove('one module more', ls['all']['len'] == n + 1)
    E.prove('order kept', Implies(And(i >= 0, i < n), E.at(ls['all'], i) == E.at(t.ls['all'], i))); E.prove('added last', E.at(ls['all'], n) == m)
    E.prove('IDs', id_inv(E, ls, ids, i, key))
    for h in SK:
        E.prove('half lists: ' + h, half_inv(E, ls, h, j, i, If(j < t.n[h], SK[h][0](j), n), If(i < n, SK[h][1](i), t.n[h])))
    E.prove('cathode', E.field(t.o, '_cathodePosition') == If(ZS(m), cathode_spec(E, t, ls, t.cath, t.drift), t.cath))
    pe = E.field(t.o, '_planeExtent')
    E.prove('four extents', pe['len'] == 4)
    for q in range(4):
        e = EX[q](m); cmp = (e < t.ext[q]) if q % 2 == 0 else (e > t.ext[q])
        E.prove('plane extent %d' % q, E.at(pe, q) == If(n == 0, e, If(cmp, e, t.ext[q])))
    for (f, a), (g, b) in zip(before, E.fields(t.o)):
        if f not in ('_TPCModules', '_modulesNegativeHalfTPC', '_modulesPositiveHalfTPC', '_moduleIDMap', '_cathodePosition', '_planeExtent'): E.prove('leaves %s alone' % f, eqtree(a, b))


@unit('C11', TPC, under=[P + '::' + P])
def tpc_ctor(E):
    d, c = E.real('drift'), E.int('type', 1, 2)
    E.assume(d != -1)
    o = E.new(P, d, c)
    E.cover('constructed')
    E.prove('empty', And(E.call(o, 'getNModules') == 0, E.field(o, '_TPCModules')['len'] == 0, E.field(o, '_modulesNegativeHalfTPC')['len'] == 0, E.field(o, '_modulesPositiveHalfTPC')['len'] == 0,
                         E.field(o, '_moduleIDMap')['size'] == 0, Not(z3.Select(E.field(o, '_moduleIDMap')['dom'], E.int('key')))))
    E.prove('as given', And(E.call(o, 'getMaxDriftLength') == d, E.call(o, 'getCoordinateType') == c))
    E.prove('four extents', E.field(o, '_planeExtent')['len'] == 4)


@unit('C11', TPC, under=[P + '::getModule', P + '::getNModules', P + '::getModules', P + '::getPlaneExtent', P + '::getMaxDriftLength', P + '::getCoordinateType'])
def lookups(E):
    t = tpc(E); key = E.int('key'); n = t.n['all']
    E.assume(id_inv(E, t.ls, t.ids, E.int('i'), key))
    before = E.fields(t.o)
    k, v = E.attempt(lambda: E.callr(t.o, 'getModule', key))
    if k == 'ok':
        E.cover('found')
        r = v.root[1]
        E.prove('module with that ID', And(z3.Select(t.ids['dom'], key), IDF(r) == key, r == E.at(t.ls['all'], z3.Select(t.ids['val'], key))))
    else:
        E.cover('unknown')
        E.prove('exception only for unknown IDs', And(Not(z3.Select(t.ids['dom'], key)), z3.BoolVal(E.exc_is(v))))
    E.prove('number of modules', E.call(t.o, 'getNModules') == n)
    E.prove('list of modules', eqtree(E.call(t.o, 'getModules'), t.ls['all']))
    E.prove('values', And(E.call(t.o, 'getMaxDriftLength') == t.drift, E.call(t.o, 'getCoordinateType') == t.ct, E.call(t.o, 'getDriftVelocity') == t.vd))
    k, v = E.try_call(t.o, 'getPlaneExtent')
    if k == 'ok': E.prove('plane extent', And([n > 0] + [E.at(v, q) == t.ext[q] for q in range(4)]))
    else: E.prove('plane extent needs a module', And(n == 0, z3.BoolVal(E.exc_is(v))))
    for (f, a), (g, b) in zip(before, E.fields(t.o)): E.prove('queries leave %s alone' % f, eqtree(a, b))


@unit('C11', TPC, under=[P + '::getPadLayout', P + '::getReadoutFrequency', P + '::setReadoutFrequency', P + '::setMaxDriftLength', P + '::setDriftVelocity', P + '::setCathodePosition'])
def single_module(E):
    t = tpc(E); n = t.n['all']
    r = E.at(t.ls['all'], 0)
    A = z3.Function('angle of', IntS, RealS); O = [z3.Function('offset%d of' % k, IntS, RealS) for k in (0, 1)]; FR = z3.Function('frequency of', IntS, RealS)
    E.vhook('getAngle', lambda this, args: A(this.root[1])); E.vhook('getReadoutFrequency', lambda this, args: FR(this.root[1]))
    v2 = E.v2ty()

    def off(this, args):
        lv = LV(('H', z3.Function('offset object', IntS, IntS)(this.root[1]), v2), (), v2)
        x = E.I.read(lv); E.assume(And(E.comp(x, 0) == O[0](this.root[1]), E.comp(x, 1) == O[1](this.root[1])))
        return lv
    E.vhook('getOffset', off)
    k, v = E.attempt(lambda: E.callr(t.o, 'getPadLayout'))
    plain = And(n == 1, A(r) == 0, O[0](r) == 0, O[1](r) == 0)
    if k == 'ok': E.cover('layout'); E.prove('layout of the only module, which is not moved', And(plain, v.root[1] == r))
    else: E.cover('no layout'); E.prove('no layout', And(Not(plain), z3.BoolVal(E.exc_is(v))))
    k, v = E.try_call(t.o, 'getReadoutFrequency')
    if k == 'ok': E.prove('frequency of the only module', And(n == 1, v == FR(r)))
    else: E.prove('no frequency', And(n != 1, z3.BoolVal(E.exc_is(v))))
    cathode_hook(E, t)
    d, vel = E.real('d'), E.real('vel')
    before = E.fields(t.o)
    E.call(t.o, 'setMaxDriftLength', d); E.call(t.o, 'setDriftVelocity', vel)
    E.prove('drift length and velocity', And(E.call(t.o, 'getMaxDriftLength') == d, E.call(t.o, 'getDriftVelocity') == vel))
    E.prove('cathode', E.field(t.o, '_cathodePosition') == cathode_spec(E, t, t.ls, t.cath, d))
    for (f, a), (g, b) in zip(before, E.fields(t.o)):
        if f not in ('_maxDriftLength', '_cathodePosition', '_driftVelocity'): E.prove('leaves %s alone' % f, eqtree(a, b))


# ---------------------------------------------------------------- C12
def candidates(E, t, third):
    """the list of modules a query looks at"""
    if not third: return t.ls['all'], []
    z = E.real('z')
    return (t.ls['negative'] if E.branch(z <= t.cath) else t.ls['positive']), [z]


def queries(prop, **kw):
    def deco(fn):
        for third in (False, True):
            unit(prop, TPC, under=[P], name=fn.__name__ + ('_3d' if third else '_2d'), **kw)(lambda E, third=third: fn(E, third))
        return fn
    return deco


@queries('C12')
def nearest_module(E, third):
    t = tpc(E); c0, c1 = E.real('c0'), E.real('c1'); k = E.int('k')
    D = z3.Function('distance of', IntS, RealS)
    E.vhook('getDistanceToModule', lambda this, args: (E.prove('asks for the query point', And(args[0] == c0, args[1] == c1)), D(this.root[1]))[1])
    ls, zz = candidates(E, t, third)
    kk, v = E.attempt(lambda: E.callr(t.o, 'getNearestModule', c0, c1, *zz, sig=['double'] * (2 + len(zz))))
    if kk == 'throw':
        E.cover('none'); E.prove('exception only without candidates', And(ls['len'] == 0, z3.BoolVal(E.exc_is(v)))); return
    E.cover('found')
    r = v.root[1]; i = z3.Int('i!')
    E.prove('a candidate', z3.Exists([i], And(i >= 0, i < ls['len'], E.at(ls, i) == r)))
    E.prove('no candidate is closer', Implies(And(k >= 0, k < ls['len']), D(r) <= D(E.at(ls, k))))


@queries('C12')
def inside_modules(E, third):
    t = tpc(E); c0, c1 = E.real('c0'), E.real('c1'); i = z3.Int('i!')
    IN = {n: z3.Function(n, IntS, BoolS) for n in ('isInsideModule', 'isInsidePad')}
    for n in IN: E.vhook(n, lambda this, args, n=n: (E.prove(n + ' asks for the query point', And(args[0] == c0, args[1] == c1)), IN[n](this.root[1]))[1])
    ls, zz = candidates(E, t, third)
    for n in IN:
        v = E.call(t.o, n, c0, c1, *zz, sig=['double'] * (2 + len(zz)))
        E.cover(n)
        E.prove(n + ' exactly when in some candidate', v == z3.Exists([i], And(i >= 0, i < ls['len'], IN[n](E.at(ls, i)))))


@queries('C12')
def nearest_pad(E, third):
    t = tpc(E); c0, c1 = E.real('c0'), E.real('c1'); k = E.int('k')
    N = z3.Function('nearest pad of', IntS, IntS); D = z3.Function('pad distance of', IntS, IntS, RealS)
    E.vhook('getNearestPad', lambda this, args: (E.prove('nearest pad asks for the query point', And(args[0] == c0, args[1] == c1)), N(this.root[1]))[1])
    E.vhook('getDistanceToPad', lambda this, args: (E.prove('distance asks for the query point', And(args[0] == c0, args[1] == c1)), D(this.root[1], args[2]))[1])
    ls, zz = candidates(E, t, third)
    kk, v = E.attempt(lambda: E.call(t.o, 'getNearestPad', c0, c1, *zz, sig=['double'] * (2 + len(zz))))
    if kk == 'throw':
        E.cover('none'); E.prove('exception only without candidates', And(ls['len'] == 0, z3.BoolVal(E.exc_is(v)))); return
    E.cover('found')
    g = E.I.local(Ty('class', 'GlobalPadIndex'), v, 'g')
    pad, mod = E.call(g, 'getPadIndex'), E.call(g, 'getModuleID'); i = z3.Int('i!')
    best = lambda i: And(i >= 0, i < ls['len'], IDF(E.at(ls, i)) == mod, N(E.at(ls, i)) == pad, Implies(And(k >= 0, k < ls['len']), D(E.at(ls, i), pad) <= D(E.at(ls, k), N(E.at(ls, k)))))
    E.prove('nearest pad of a candidate, none closer', z3.Exists([i], best(i)))


# ---------------------------------------------------------------- C07: layouts
TAG = z3.Function('owner of', IntS, IntS); SLOT = z3.Function('slot of', IntS, IntS)
PTRS = '_padIndices'


def owned(E, l, tag):
    """the pad lists of a layout belong to it alone, one per row at most, and are alive"""
    f = E.field(l.o, PTRS); fr = E.I.freed()
    E.elem_inv(f, lambda i: Implies(And(i >= 0, i < f['len'], E.at(f, i) != 0), And(E.at(f, i) > 0, TAG(E.at(f, i)) == tag, SLOT(E.at(f, i)) == i, Not(sel(fr, E.at(f, i))))))
    return f


def same_values(E, got, want, label):
    for (f, a), (g, b) in zip(want, got):
        if f != PTRS: E.prove('%s: %s' % (label, f), eqtree(a, b))


def fresh_lists(E, o, n, label):
    f = E.field(o, PTRS); i = E.int('i')
    E.prove('%s: one pad list per row' % label, f['len'] == n)
    E.prove('%s: no pad list shared' % label, Implies(And(i >= 0, i < f['len']), E.at(f, i) == 0))


def any_list(E):
    """a pad list that belongs to somebody else: its contents and whether it was deleted"""
    r = E.int('r', 1)
    E.assume(r < E.I.st.alloc)
    return r, E.I.read(LV(('H', r, LY.VI), (), LY.VI)), sel(E.I.freed(), r)


def untouched(E, x, label):
    r, t, fr = x
    E.prove(label + ' keep their contents', eqtree(E.I.read(LV(('H', r, LY.VI), (), LY.VI)), t))
    E.prove(label + ' are not deleted', sel(E.I.freed(), r) == fr)


@LY.layouts('C07', alive=True)
def copied(E, l):
    """copy construction"""
    own = owned(E, l, 1); x = any_list(E)
    before = E.fields(l.o)
    k, o = E.attempt(lambda: E.new(l.cls, l.o))
    if k == 'throw': E.fail('copying throws'); return
    E.cover('copied')
    same_values(E, E.fields(o), before, 'copy'); fresh_lists(E, o, own['len'], 'copy')
    for (f, a), (g, b) in zip(before, E.fields(l.o)): E.prove('original keeps ' + f, eqtree(a, b))
    untouched(E, x, 'pad lists')


@LY.layouts('C07', alive=True)
def cloned(E, l):
    own = owned(E, l, 1); x = any_list(E)
    before = E.fields(l.o)
    k, v = E.attempt(lambda: E.call(l.o, 'clone'))
    if k == 'throw': E.fail('cloning throws'); return
    E.cover('cloned')
    o = LV(('H', v, Ty('class', l.cls)), (), Ty('class', l.cls))
    E.prove('a new object of the same class', z3.BoolVal(E.I.dyn_of(o) == l.cls)); E.prove('not the original', v != l.o.root[1])
    same_values(E, E.fields(o), before, 'clone'); fresh_lists(E, o, own['len'], 'clone')
    for (f, a), (g, b) in zip(before, E.fields(l.o)): E.prove('original keeps ' + f, eqtree(a, b))
    untouched(E, x, 'pad lists')


@LY.layouts('C07', alive=True)
def assigned(E, l):
    own = owned(E, l, 1)
    t = L(o=LY.raw(E, l.cls), cls=l.cls)
    E.I.write(t.o, E.I.mk(Ty('class', l.cls), 'target'))
    mine = owned(E, t, 2); n = mine['len']
    E.assume(And(n >= 0, n < (1 << 24)))
    x = any_list(E); E.assume(TAG(x[0]) != 2); i = E.int('i')
    E.assume(x[2] == False)
    before = E.fields(l.o)
    k, v = E.attempt(lambda: E.callr(t.o, 'operator=', l.o))
    if k == 'throw': E.fail('assigning throws'); return
    E.cover('assigned')
    E.prove('returns the target', v.root[1] == t.o.root[1])
    same_values(E, E.fields(t.o), before, 'target'); fresh_lists(E, t.o, own['len'], 'target')
    for (f, a), (g, b) in zip(before, E.fields(l.o)): E.prove('original keeps ' + f, eqtree(a, b))
    untouched(E, x, 'lists of others')
    E.prove('old lists of the target are deleted', Implies(And(i >= 0, i < n, E.at(mine, i) != 0), sel(E.I.freed(), E.at(mine, i))))


@LY.layouts('C07', alive=True)
def self_assigned(E, l):
    own = owned(E, l, 1); x = any_list(E)
    before = E.fields(l.o)
    k, v = E.attempt(lambda: E.callr(l.o, 'operator=', l.o))
    if k == 'throw': E.fail('assigning throws'); return
    E.cover('assigned')
    for (f, a), (g, b) in zip(before, E.fields(l.o)): E.prove('keeps ' + f, eqtree(a, b))
    untouched(E, x, 'pad lists')


@LY.layouts('C07', alive=True)
def destroyed(E, l):
    own = owned(E, l, 1); n = own['len']
    x = any_list(E); E.assume(And(TAG(x[0]) != 1, Not(x[2]))); i = E.int('i')
    k, v = E.attempt(lambda: E.destroy(l.o))
    if k == 'throw': E.fail('destruction throws'); return
    E.cover('destroyed')
    untouched(E, x, 'lists of others')
    E.prove('own lists are deleted', Implies(And(i >= 0, i < n, E.at(own, i) != 0), sel(E.I.freed(), E.at(own, i))))


# ---------------------------------------------------------------- C07: modules and TPCs
def clone_hook(E, same):
    """contract of clone() of an object of unknown class: a new object, equal in what it answers; nothing else changes"""
    def h(this, args):
        r = E.I.new_ref()
        E.assume(same(this.root[1], r))
        return r
    E.vhook('clone', h)


COPY = z3.Function('clone of', IntS, IntS)


def mod(E, name=''):
    """any module object (no invariant needed for copying); its layout is its own and alive"""
    E.frame()
    o = E.alloc(M)
    E.I.write(o, E.I.mk(Ty('class', M), 'module' + name))
    lo = E.field(o, '_padRowLayout')
    E.assume(And(lo > 0, lo < E.I.st.alloc, TAG(lo) == (2 if name else 1), Not(sel(E.I.freed(), lo))))
    return o, lo


def modulefields(E, o, before, label, lo):
    for (f, a), (g, b) in zip(before, E.fields(o)):
        if f != '_padRowLayout': E.prove('%s: %s' % (label, f), eqtree(a, b))
    x = E.field(o, '_padRowLayout')
    E.prove(label + ': layout is a clone of the layout', COPY(x) == lo); E.prove(label + ': layout not shared', x != lo)
    E.prove(label + ': layout alive', Not(sel(E.I.freed(), x)))


def original(E, o, before, lo, label='original'):
    for (f, a), (g, b) in zip(before, E.fields(o)): E.prove('%s keeps %s' % (label, f), eqtree(a, b))
    E.prove(label + ' keeps its layout alive', Not(sel(E.I.freed(), lo)))


def mcopy(how):
    def f(E):
        o, lo = mod(E); clone_hook(E, lambda a, b: COPY(b) == a)
        before = E.fields(o)
        if how == 'copied': k, n = E.attempt(lambda: E.new(M, o))
        else:
            k, v = E.attempt(lambda: E.call(o, 'clone'))
            if k == 'ok': n = LV(('H', v, Ty('class', M)), (), Ty('class', M)); E.prove('a new object of the same class', And(v != o.root[1], z3.BoolVal(E.I.dyn_of(n) == M)))
        if k == 'throw': E.fail('copying throws'); return
        E.cover(how)
        modulefields(E, n, before, 'copy', lo); original(E, o, before, lo)
    return f


for _h in ('copied', 'cloned'): unit('C07', TPC, under=[M], name='module_' + _h, alive=True)(mcopy(_h))


@unit('C07', TPC, under=[M + '::operator='], alive=True)
def module_assigned(E):
    o, lo = mod(E); t, old = mod(E, '2'); clone_hook(E, lambda a, b: COPY(b) == a)
    before = E.fields(o)
    k, v = E.attempt(lambda: E.callr(t, 'operator=', o))
    if k == 'throw': E.fail('assigning throws'); return
    E.cover('assigned')
    modulefields(E, t, before, 'target', lo); original(E, o, before, lo)
    E.prove('old layout is deleted', sel(E.I.freed(), old)); E.prove('returns the target', v.root[1] == t.root[1])
    # the target assigned to itself, and destroyed
    before = E.fields(t); now_ = E.field(t, '_padRowLayout')
    E.callr(t, 'operator=', t)
    original(E, t, before, now_, 'self-assignment')
    E.destroy(t)
    E.prove('layout is deleted with the module', sel(E.I.freed(), now_)); original(E, o, E.fields(o), lo)


def tpcobj(E, name, tag):
    """a TPC whose modules belong to it alone and are alive"""
    E.frame(); interface(E)
    o = E.alloc(P)
    E.I.write(o, E.I.mk(Ty('class', P), 'tpc' + name))
    ls = {k: E.field(o, f) for k, f in LISTS.items()}
    a, fr = ls['all'], E.I.freed()
    E.assume(And([And(l['len'] >= 0, l['len'] < (1 << 28)) for l in ls.values()]))
    top = E.I.st.alloc
    inv = lambda i: Implies(And(i >= 0, i < a['len']), And(E.at(a, i) > 0, E.at(a, i) < top, TAG(E.at(a, i)) == tag, SLOT(E.at(a, i)) == i, Not(sel(fr, E.at(a, i)))))
    E.elem_inv(a, inv)
    return L(inv=inv, o=o, ls=ls, n=a['len'], ids=E.field(o, '_moduleIDMap'))


ALIKE = lambda a, b: And(COPY(b) == a, ZS(b) == ZS(a), ZP(b) == ZP(a), IDF(b) == IDF(a), CT(b) == CT(a), z3.Function('isa_TPCModule', IntS, BoolS)(b), *[EX[k](b) == EX[k](a) for k in range(4)])


def copying(E, t):
    """ghost: CNT counts the modules of a half among the first i modules of the original, IX names the n-th one; the copied half lists are exactly those, in order"""
    a = t.ls['all']
    clone_hook(E, ALIKE)
    CNT = {h: z3.Function('count ' + h, IntS, IntS) for h in SK}; IX = {h: z3.Function('nth ' + h, IntS, IntS) for h in SK}

    def step(h, q):
        m = member(h, E.at(a, q))
        return And(CNT[h](q + 1) == CNT[h](q) + If(m, z3.IntVal(1), z3.IntVal(0)), Implies(m, IX[h](CNT[h](q)) == q))
    for h in SK: E.assume(And(CNT[h](0) == 0, step(h, z3.IntVal(0))))

    def spec(I, n, base, S, leaves, k):
        out = []
        for h in SK: base.pc.append(And(step(h, k), step(h, k + 1)))          # the definition of CNT and IX at this iteration
        get = {l[1].rsplit('::', 1)[-1] + '.' + l[2][0]: (l, lf) for l, lf in leaves.items() if l[0] == 'H' and l[2]}
        if '_TPCModules.elem' not in get: return out
        obj = get['_TPCModules.elem'][1].splits[0]
        val_ = lambda val, nm: sel(val[get[nm][0]], obj)
        for h in SK:
            f = LISTS[h]
            if f + '.len' not in get or f + '.elem' not in get: continue
            i = z3.Int('i!c')
            out.append(('count', lambda q, val, h=h, f=f: And(val_(val, f + '.len') == CNT[h](q), CNT[h](q) >= 0)))
            out.append(('members listed', lambda q, val, h=h, f=f: z3.ForAll([i], Implies(And(i >= 0, i < q, member(h, E.at(a, i))),
                        And(CNT[h](i) >= 0, CNT[h](i) < CNT[h](q), sel(val_(val, f + '.elem'), CNT[h](i)) == sel(val_(val, '_TPCModules.elem'), i))))))
            out.append(('only members', lambda q, val, h=h, f=f: z3.ForAll([i], Implies(And(i >= 0, i < CNT[h](q)),
                        And(IX[h](i) >= 0, IX[h](i) < q, member(h, E.at(a, IX[h](i))), sel(val_(val, f + '.elem'), i) == sel(val_(val, '_TPCModules.elem'), IX[h](i)))))))
        return out
    E.I.loop_specs.append(spec)
    return CNT, IX


def tpcfields(E, o, t, before, CNT, IX, label):
    ls = now(E, L(o=o)); i, j, r = E.int('i'), E.int('j'), E.int('r', 1)
    E.prove(label + ': as many modules', ls['all']['len'] == t.n)
    E.assume(t.inv(j))
    inr = And(i >= 0, i < t.n); x, y = E.at(ls['all'], i), E.at(t.ls['all'], i)
    E.prove(label + ': clones of the modules in order', Implies(inr, COPY(x) == y))
    E.prove(label + ': no module shared', Implies(And(inr, j >= 0, j < t.n), And(x != E.at(t.ls['all'], j), x > 0)))
    E.prove(label + ': own modules alive', Implies(inr, Not(sel(E.I.freed(), x))))
    E.prove(label + ': modules of the original alive', Implies(inr, Not(sel(E.I.freed(), y))))
    for h in SK:
        for n, f in zip(('listed', 'only'), (Implies(And(inr, member(h, y)), And(CNT[h](i) >= 0, CNT[h](i) < ls[h]['len'], E.at(ls[h], CNT[h](i)) == x)),
                                             Implies(And(j >= 0, j < ls[h]['len']), And(IX[h](j) >= 0, IX[h](j) < t.n, E.at(ls[h], j) == E.at(ls['all'], IX[h](j)), member(h, E.at(t.ls['all'], IX[h](j))))))):
            E.prove('%s: %s half, %s' % (label, h, n), f)
    for (f, a), (g, b) in zip(before, E.fields(o)):
        if f not in LISTS.values(): E.prove('%s: %s' % (label, f), eqtree(a, b))


@unit('C07', TPC, under=[P], alive=True)
def tpc_copied(E):
    t = tpcobj(E, '', 1)
    CNT, IX = copying(E, t)
    before = E.fields(t.o)
    k, o = E.attempt(lambda: E.new(P, t.o))
    if k == 'throw': E.fail('copying throws'); return
    E.cover('copied')
    tpcfields(E, o, t, before, CNT, IX, 'copy')
    for (f, a), (g, b) in zip(before, E.fields(t.o)): E.prove('original keeps ' + f, eqtree(a, b))


@unit('C07', TPC, under=[P], alive=True)
def tpc_assigned(E):
    t = tpcobj(E, '', 1); u = tpcobj(E, '2', 2)
    CNT, IX = copying(E, t)
    before = E.fields(t.o); i = E.int('i')
    k, v = E.attempt(lambda: E.callr(u.o, 'operator=', t.o))
    if k == 'throw': E.fail('assigning throws'); return
    E.cover('assigned')
    tpcfields(E, u.o, t, before, CNT, IX, 'target')
    for (f, a), (g, b) in zip(before, E.fields(t.o)): E.prove('original keeps ' + f, eqtree(a, b))
    E.prove('old modules are deleted', Implies(And(i >= 0, i < u.n), sel(E.I.freed(), E.at(u.ls['all'], i))))
    E.prove('returns the target', v.root[1] == u.o.root[1])


@unit('C07', TPC, under=[P], alive=True)
def tpc_self_assigned_destroyed(E):
    t = tpcobj(E, '', 1); i = E.int('i'); r = E.int('r', 1)
    before = E.fields(t.o)
    E.callr(t.o, 'operator=', t.o)
    for (f, a), (g, b) in zip(before, E.fields(t.o)): E.prove('self-assignment keeps ' + f, eqtree(a, b))
    E.prove('modules alive', Implies(And(i >= 0, i < t.n), Not(sel(E.I.freed(), E.at(t.ls['all'], i)))))
    E.assume(And(TAG(r) != 1, Not(sel(E.I.freed(), r))))
    E.destroy(t.o)
    E.cover('destroyed')
    E.prove('modules are deleted', Implies(And(i >= 0, i < t.n), sel(E.I.freed(), E.at(t.ls['all'], i))))
    E.prove('objects of others are not', Not(sel(E.I.freed(), r)))
