"""contracts of the pad layouts: C01 (pad index), C02 (neighbours), C03 (row listings), C04 (polar cells), C05 (boxes), C06 (building)"""
import z3
from gearvc.spec import *
from gearvc.types import parse, Ty
from gearvc.sym import *
from gearvc.interp import PI
from .registry import LAY, GLOB

A, S, R, V = 'FixedPadAngleDiskLayout', 'FixedPadSizeDiskLayout', 'RectangularPadRowLayout', 'VersatileDiskRowLayout'
NAMES = {A: 'angle', S: 'size', R: 'rect', V: 'vers'}
And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
MAXROW, MAXPAD = 32768, 65536


# ---------------------------------------------------------------- symbolic layouts
class L:
    """an arbitrary layout of one class: the object, and its description (number of rows, pads of a row, ...)"""
    def __init__(self, **k): self.__dict__.update(k)


def circle(ext):
    """(covers the full circle, does not): within 1e-6 of two pi, the last per mille of the tolerance left open"""
    d = ext - 2 * PI
    d = If(d >= 0, d, -d)
    return d < z3.Q(999, 10 ** 9), d > z3.Q(1001, 10 ** 9)


def setf(E, o, **kw):
    for k, v in kw.items(): E.I.write(E.flv(o, k), E.k(v))


def setext(E, o, vals):
    ext = E.flv(o, '_extent')
    E.I.write(ext, {'len': z3.IntVal(4), 'elem': E.I.mk(ext.ty.a, 'ext!', (IntS,))})
    for k, v in enumerate(vals): E.I.write(ext.sub(('i', z3.IntVal(k)), ext.ty.a), v)


def raw(E, cls):
    """an object of the class with arbitrary contents"""
    E.frame()
    o = E.alloc(cls)
    E.I.write(o, E.I.mk(Ty('class', cls), 'obj!' + NAMES[cls]))
    return o


def angle(E):
    """any fixed-pad-angle layout that satisfies the class invariant (established by angle_ctor)"""
    nrow = E.int('nrow', 1, MAXROW); npad = E.int('npads', 1, MAXPAD); total = E.int('npadTotal')
    rmin, rmax, p0, p1, h, a = [E.real(x) for x in ('rmin', 'rmax', 'phimin', 'phimax', 'rowHeight', 'padAngle')]
    o = raw(E, A)
    setf(E, o, _rMin=rmin, _rMax=rmax, _phiMin=p0, _phiMax=p1, _nRow=nrow, _nPadsInRow=npad, _rowHeight=h, _padAngle=a, _nPad=total)
    setext(E, o, (rmin, rmax, p0, p1))
    l = L(o=o, nrow=nrow, npad=lambda r: npad, full=circle(p1 - p0), cls=A, total=total,
          lo=lambda r: rmin + z3.ToReal(r) * h, h=lambda r: h, c0=lambda r: p0, pitch=lambda r: a, rmin=rmin, rmax=rmax, p0=p0, p1=p1, padw=lambda r: a, padh=lambda r: h)
    E.assume(And(*angle_inv(l, nrow, npad, h, a)))
    l.pads = havoc(E, o, '_padIndices', 'padIndices'); E.assume(l.pads['len'] == nrow)
    return l


def angle_inv(l, nrow, npad, h, a):
    return [l.rmin >= 0, l.rmax > l.rmin, l.p1 > l.p0, l.p1 - l.p0 <= 2 * PI + z3.Q(1, 10 ** 9), h > 0, a > 0, h * z3.ToReal(nrow) == l.rmax - l.rmin, a * z3.ToReal(npad) == l.p1 - l.p0, l.total == nrow * npad]


def size(E):
    """any fixed-pad-size layout that satisfies the class invariant (established by size_ctor)"""
    rmin, rmax, ph, pw, gap, pm, h = [E.real(x) for x in ('rmin', 'rmax', 'padHeight', 'padWidth', 'padGap', 'phimax', 'rowHeight')]
    n = E.int('nrow', 1, MAXROW); total = E.int('npadTotal')
    o = raw(E, S)
    setf(E, o, _rMin=rmin, _rMax=rmax, _phiMax=pm, _padWidth=pw, _padHeight=ph, _padGap=gap, _nRow=n, _rowHeight=h, _nPad=total)
    setext(E, o, (rmin, rmax, z3.RealVal(0), pm))
    rows = havoc(E, o, '_rows', 'rows'); E.assume(rows['len'] == n)
    F = lambda r, f: E.sfield(E.at(rows, r), f)
    l = L(o=o, nrow=n, npad=lambda r: F(r, 'NPad'), full=circle(pm), cls=S, lo=lambda r: rmin + z3.ToReal(r) * h, h=lambda r: h, c0=lambda r: z3.RealVal(0), total=total,
          pitch=lambda r: F(r, 'PhiPad'), rmin=rmin, rmax=rmax, p0=z3.RealVal(0), p1=pm, padw=lambda r: pw / F(r, 'RCenter'), padh=lambda r: ph, F=F, pw=pw, gap=gap)
    E.assume(And(rmin > 0, rmax > rmin, ph > 0, pw > 0, gap >= 0, pm > 0, pm <= 2 * PI, h > 0, h * z3.ToReal(n) == rmax - rmin))
    l.inv = lambda r: size_inv(l, F, r, n, h)
    E.have = lambda r: E.assume(l.inv(r))
    E.elem_inv(rows, l.inv)
    l.pads = havoc(E, o, '_padIndices', 'padIndices'); E.assume(l.pads['len'] == n)
    return l


def size_inv(l, F, r, n, h):
    """row r; layouts are taken to have at least one pad in every row"""
    return Implies(And(r >= 0, r < n), And(F(r, 'RCenter') == l.rmin + z3.ToReal(r) * h + h / 2, F(r, 'NPad') >= 1, F(r, 'NPad') <= MAXPAD,
                                           F(r, 'PhiPad') * z3.ToReal(F(r, 'NPad')) == l.p1, F(r, 'PhiPad') > 0))


# ------------------------------------------------- layouts that grow: class invariants
def havoc(E, lv, field, name):
    """an arbitrary value for a member; returns its tree"""
    f = E.flv(lv, field)
    t = E.I.mk(f.ty, name)
    E.I.write(f, t)
    return t


def rect(E, fresh=True):
    """any rectangular layout that satisfies the class invariant (established by rect_ctor, kept by rect_addrow)"""
    x0, x1, y0 = [E.real(x) for x in ('xMin', 'xMax', 'yMin')]
    E.assume(x1 > x0)
    o = E.new(R, x0, x1, y0)
    rows = havoc(E, o, '_rows', 'rows'); n = rows['len']
    E.assume(And(n >= 0, n <= MAXROW))
    pads = havoc(E, o, '_padIndices', 'padIndices')
    E.assume(pads['len'] == n)
    total = E.int('npadTotal', 0); E.I.write(E.flv(o, '_nPad'), total)
    rep = E.int('repeated', 0); E.I.write(E.flv(o, '_repeatRows'), rep)
    havoc(E, o, '_nRows', 'nRows')
    y1 = E.real('yMax')
    ext = E.flv(o, '_extent')
    E.I.write(ext.sub(('i', z3.IntVal(3)), ext.ty.a), y1)
    F = lambda r, f: E.sfield(E.at(rows, r), f)
    l = L(o=o, nrow=n, npad=lambda r: F(r, 'NPad'), full=(z3.BoolVal(False), z3.BoolVal(True)), cls=R, x0=x0, x1=x1, y0=y0, y1=y1, F=F, total=total, rep=rep,
          lo=lambda r: F(r, 'Center') - F(r, 'Height') / 2, h=lambda r: F(r, 'Height'), c0=lambda r: x0 + F(r, 'LeftOffset'), pitch=lambda r: F(r, 'WidthPerPad'),
          padw=lambda r: F(r, 'PadWidth'), padh=lambda r: F(r, 'PadHeight'))
    l.inv = lambda r, n=n, y1=y1: rect_inv(l, F, r, n, y1)
    l.inv2 = lambda i, j: Implies(And(0 <= i, i < j, j < n), l.lo(j) >= l.lo(i) + l.h(i))
    E.have = lambda r: E.assume(l.inv(r))
    E.elem_inv(rows, l.inv)
    l.pads = pads
    return l


def rect_inv(l, F, r, n, y1):
    """invariant of row r of n rows reaching up to y1"""
    rw = l.x1 - F(r, 'RightOffset') - (l.x0 + F(r, 'LeftOffset'))
    lo = lambda r: F(r, 'Center') - F(r, 'Height') / 2
    h = lambda r: F(r, 'Height')
    return Implies(And(r >= 0, r < n), And(
        F(r, 'NPad') >= 1, F(r, 'NPad') <= MAXPAD, F(r, 'PadWidth') >= 0, F(r, 'PadHeight') >= 0, h(r) >= F(r, 'PadHeight'), F(r, 'LeftOffset') >= 0, F(r, 'RightOffset') >= 0,
        F(r, 'WidthPerPad') * z3.ToReal(F(r, 'NPad')) == rw, z3.ToReal(F(r, 'NPad')) * F(r, 'PadWidth') <= rw, F(r, 'PadWidth') <= F(r, 'WidthPerPad'),
        lo(r) >= l.y0, lo(r) + h(r) <= y1,
        Implies(r == 0, lo(r) == l.y0), Implies(r + 1 < n, lo(r + 1) == lo(r) + h(r)), Implies(r + 1 == n, y1 == lo(r) + h(r))))


def vers(E):
    """any versatile layout that satisfies the class invariant (established by vers_ctor, kept by vers_addrow)"""
    rmin = E.real('rmin')
    E.assume(rmin >= 0)
    o = E.new(V, rmin)
    rows = havoc(E, o, '_rows', 'rows'); n = rows['len']
    E.assume(And(n >= 0, n <= MAXROW))
    pads = havoc(E, o, '_padIndices', 'padIndices')
    E.assume(pads['len'] == n)
    total = E.int('npadTotal', 0); E.I.write(E.flv(o, '_nPad'), total)
    r1, p0, p1 = E.real('rmax'), E.real('phimin'), E.real('phimax')
    ext = E.flv(o, '_extent')
    for k, v in ((1, r1), (2, p0), (3, p1)): E.I.write(ext.sub(('i', z3.IntVal(k)), ext.ty.a), v)
    F = lambda r, f: E.sfield(E.at(rows, r), f)
    l = L(o=o, nrow=n, npad=lambda r: F(r, '_nPads'), full=circle(p1 - p0), cls=V, F=F, total=total, rmin=rmin, rmax=r1, p0=p0, p1=p1,
          lo=lambda r: F(r, '_rCentre') - F(r, '_rowHeight') / 2, h=lambda r: F(r, '_rowHeight'), c0=lambda r: F(r, '_offset'), pitch=lambda r: F(r, '_padPitch'),
          padw=lambda r: F(r, '_padWidth'), padh=lambda r: F(r, '_padHeight'))
    l.inv = lambda r, n=n, y1=r1: vers_inv(l, F, r, n, y1)
    l.inv2 = lambda i, j: Implies(And(0 <= i, i < j, j < n), l.lo(j) >= l.lo(i) + l.h(i))
    E.have = lambda r: E.assume(l.inv(r))
    E.elem_inv(rows, l.inv)
    l.pads = pads
    return l


def vers_inv(l, F, r, n, y1):
    lo = lambda r: F(r, '_rCentre') - F(r, '_rowHeight') / 2
    h = lambda r: F(r, '_rowHeight')
    return Implies(And(r >= 0, r < n), And(
        F(r, '_rowNumber') == r, F(r, '_nPads') >= 1, F(r, '_nPads') <= MAXPAD, F(r, '_padPitch') >= 0, F(r, '_padPitch') * z3.ToReal(F(r, '_nPads')) <= 2 * PI, h(r) > 0,
        F(r, '_padWidth') >= 0, F(r, '_padWidth') <= F(r, '_padPitch'), F(r, '_rCentre') > 0, lo(r) >= l.rmin, lo(r) + h(r) <= y1,
        Implies(r == 0, lo(r) == l.rmin), Implies(r + 1 < n, lo(r + 1) == lo(r) + h(r)), Implies(r + 1 == n, y1 == lo(r) + h(r))))


MK = {A: angle, S: size, R: rect, V: vers}


def layouts(prop, tus=LAY, only=(A, S, R, V), **kw):
    """one unit per layout class"""
    def deco(fn):
        for c in only:
            def g(E, c=c):
                E.have = lambda r: None
                l = MK[c](E)
                return fn(E, l)
            unit(prop, tus, under=[c], name='%s_%s' % (NAMES[c], fn.__name__), **kw)(g)
        return fn
    return deco


def existing(E, l, names=('row', 'pad')):
    """an arbitrary existing pad"""
    row, pad = E.int(names[0]), E.int(names[1])
    E.have(row)
    E.assume(And(row >= 0, row < l.nrow, pad >= 0, pad < l.npad(row)))
    return row, pad, E.call(l.o, 'getPadIndex', row, pad)


def library(E, cls): return z3.BoolVal(E.exc_is(cls))


# ---------------------------------------------------------------- C01
@layouts('C01')
def index(E, l):
    row, pad = E.int('row'), E.int('pad')
    E.have(row)
    ex = And(row >= 0, row < l.nrow, pad >= 0, pad < l.npad(row))
    k, v = E.try_call(l.o, 'getPadIndex', row, pad)
    if k == 'throw':
        E.cover('rejected')
        E.prove('only pads that do not exist are rejected', Not(ex))
        return
    E.cover('accepted')
    E.prove('accepted pads exist', ex)
    E.prove('row of the index', E.call(l.o, 'getRowNumber', v) == row)
    E.prove('pad of the index', E.call(l.o, 'getPadNumber', v) == pad)


@unit('C01', GLOB, under=['GlobalPadIndex'])
def globalindex(E):
    a, b, c, d = [E.int(x) for x in ('pad', 'module', 'pad2', 'module2')]
    g, h = E.new('GlobalPadIndex', a, b), E.new('GlobalPadIndex', c, d)
    E.prove('pad', E.call(g, 'getPadIndex') == a)
    E.prove('module', E.call(g, 'getModuleID') == b)
    E.prove('equal', E.call(g, 'operator==', h) == And(a == c, b == d))
    E.prove('less', E.call(g, 'operator<', h) == Or(b < d, And(b == d, a < c)))
    E.call(g, 'setPadIndex', c); E.call(g, 'setModuleID', d)
    E.prove('set', And(E.call(g, 'getPadIndex') == c, E.call(g, 'getModuleID') == d))
    E.prove('other untouched', And(E.call(h, 'getPadIndex') == c, E.call(h, 'getModuleID') == d))


# ---------------------------------------------------------------- C02
@layouts('C02')
def neighbours(E, l):
    row, pad, idx = existing(E, l)
    n = l.npad(row)
    up = 'getLeftNeighbour' if l.cls != R else 'getRightNeighbour'
    dn = 'getRightNeighbour' if l.cls != R else 'getLeftNeighbour'
    for name, back, step in ((up, dn, 1), (dn, up, -1)):
        k, v = E.try_call(l.o, name, idx)
        inside = And(pad + step >= 0, pad + step < n)
        want = If(inside, pad + step, If(z3.BoolVal(step == 1), 0, n - 1))
        if k == 'throw':
            E.cover(name + ' throws')
            E.prove(name + ': library exception', library(E, v))
            E.prove(name + ': throws only at the end of an open row', And(Not(inside), Not(l.full[0])))
        else:
            E.cover(name + ' returns')
            E.prove(name + ': a neighbour exists', Or(inside, Not(l.full[1])))
            E.prove(name + ': same row', E.call(l.o, 'getRowNumber', v) == row)
            E.prove(name + ': next pad', E.call(l.o, 'getPadNumber', v) == want)
            k2, w = E.try_call(l.o, back, v)
            if k2 == 'ok': E.prove(name + ': there and back', w == idx)


# ---------------------------------------------------------------- C03
VI = parse('vector<int>')


def listat(E, p): return E.I.read(LV(('H', p, VI), (), VI))


@layouts('C03')
def listing(E, l):
    o = l.o
    row, j, r2 = E.int('row'), E.int('j'), E.int('row2')
    # any history: lists of other rows and of this row may have been made before
    a0 = E.int('allocated', 1, 1 << 40); E.assume(E.I.st.alloc < a0)
    al0 = E.I.st.alloc; E.I.st.alloc = a0

    def inv(r, j):
        p = E.at(E.field(o, '_padIndices'), r)
        v = listat(E, p)
        return And(p >= 0, p < E.I.st.alloc, Implies(p != 0, And(p >= al0, v['len'] == l.npad(r), Implies(And(j >= 0, j < l.npad(r)), E.at(v, j) == r * 65536 + j))))
    E.have(row); E.have(r2)
    ok = And(row >= 0, row < l.nrow); ok2 = And(r2 >= 0, r2 < l.nrow, r2 != row)
    E.assume(Implies(ok, inv(row, j))); E.assume(Implies(ok2, inv(r2, j)))
    E.assume(Implies(And(ok, ok2, E.at(l.pads, row) != 0), E.at(l.pads, row) != E.at(l.pads, r2)))
    k, lst = E.attempt(lambda: E.call(o, 'getPadsInRow', row))
    if k == 'throw': E.fail('listing a row throws'); return
    if E.branch(ok):
        E.prove('length', lst['len'] == l.npad(row))
        E.assume(And(j >= 0, j < l.npad(row)))
        E.prove('entry j is the index of pad j', E.at(lst, j) == row * 65536 + j)
        E.prove('entry j is what getPadIndex gives', E.at(lst, j) == E.call(o, 'getPadIndex', row, j))
        E.prove('the list is kept', And(inv(row, j), E.at(E.field(o, '_padIndices'), row) != 0))
        E.cover('existing row')
        again = E.call(o, 'getPadsInRow', row)
        E.prove('listing again', And(again['len'] == lst['len'], E.at(again, j) == E.at(lst, j)))
    else:
        E.prove('no such row: empty', lst['len'] == 0)
        E.cover('no such row')
    E.prove('other lists stay', Implies(ok2, inv(r2, j)))
    E.prove('rows keep', And(E.field(o, '_padIndices')['len'] == l.nrow, E.call(o, 'getNRows') == l.nrow))


# ---------------------------------------------------------------- C04
POLAR = (A, S, V)


def incell(E, l, row, pad, t=None):
    """a point strictly inside the cell of a pad; t full turns away"""
    r, phi = E.real('r'), E.real('phi')
    E.assume(And(r > l.lo(row), r < l.lo(row) + l.h(row), r > z3.Q(1, 10 ** 6)))
    pn = z3.ToReal(pad)
    E.assume(And(phi > l.c0(row) + pn * l.pitch(row), phi < l.c0(row) + (pn + 1) * l.pitch(row)))
    # inside the turn that starts with the row
    E.assume(And(phi >= l.c0(row), phi < l.c0(row) + z3.ToReal(l.npad(row)) * l.pitch(row)))
    return r, phi


def polar_ok(E, l, row):
    """the domain the polar contracts are stated for"""
    if l.cls == V:
        E.assume(And(l.c0(row) >= -2 * PI, l.c0(row) <= 2 * PI, l.pitch(row) > 0))


@layouts('C04', only=POLAR)
def center(E, l):
    row, pad, idx = existing(E, l)
    polar_ok(E, l, row)
    c = E.call(l.o, 'getPadCenter', idx)
    r, phi = E.comp(c, 0), E.comp(c, 1)
    E.prove('radius: middle of the row', r == l.lo(row) + l.h(row) / 2)
    E.prove('angle: middle of the pitch', phi == l.c0(row) + (z3.ToReal(pad) + z3.Q(1, 2)) * l.pitch(row))
    E.prove('row height', E.call(l.o, 'getRowHeight', row) == l.h(row))
    E.prove('pitch', E.call(l.o, 'getPadPitch', idx) == l.pitch(row))
    E.cover('pad')
    if E.branch(pad + 1 < l.npad(row)):
        c2 = E.call(l.o, 'getPadCenter', E.call(l.o, 'getPadIndex', row, pad + 1))
        E.prove('next pad one pitch further', And(E.comp(c2, 0) == r, E.comp(c2, 1) == phi + l.pitch(row)))
    E.have(row + 1)
    if E.branch(row + 1 < l.nrow):
        E.prove('next row starts where this one ends', l.lo(row + 1) == l.lo(row) + l.h(row))


@layouts('C04', only=POLAR)
def inside(E, l):
    row, pad, idx = existing(E, l)
    polar_ok(E, l, row)
    r, phi = incell(E, l, row, pad)
    E.cover('point')
    E.prove('distance zero', E.call(l.o, 'getDistanceToPad', r, phi, idx) == 0)
    if l.cls != S:
        E.prove('inside', E.call(l.o, 'isInsidePad', r, phi, idx))


def packed(E, l, v):
    """v is the index of an existing pad"""
    a, b = v / 65536, v % 65536        # z3: floor division, remainder
    return And(v >= 0, a < l.nrow, b < l.npad(a))


def rowhooks(E, l, turn):
    """contracts of VersatileDiskRowLayout::Row (proved in vers_row_*) for one fixed point"""
    D = z3.Function('rowdistance', IntS, RealS); N = z3.Function('rownearest', IntS, IntS)
    num = lambda this: E.sfield(E.I.read(this), '_rowNumber')
    n = z3.Int('n!row')
    E.assume(z3.ForAll([n], D(n) >= 0, patterns=[D(n)]))
    E.assume(z3.ForAll([n], Implies(And(n >= 0, n < l.nrow), And(N(n) >= n * 65536, N(n) < n * 65536 + l.npad(n))), patterns=[N(n)]))
    for f in turn.get('distance', ()): E.assume(z3.ForAll([n], f(n, D(n)), patterns=[D(n)]))
    for f in turn.get('nearest', ()): E.assume(z3.ForAll([n], f(n, N(n)), patterns=[N(n)]))
    E.assume(z3.ForAll([n], Implies(And(n >= 0, n < l.nrow), l.F(n, '_rowNumber') == n), patterns=[l.F(n, '_rowNumber')]))
    dist = lambda this, args: D(num(this))
    near = lambda this, args: N(num(this))
    E.hook('Row::getDistanceToRow', dist); E.hook('Row::getNearestPad', near)
    E.hook(V + '::Row::getDistanceToRow', dist); E.hook(V + '::Row::getNearestPad', near)
    return D, N


@layouts('C04', only=POLAR)
def nearest(E, l):
    row, pad, idx = existing(E, l)
    polar_ok(E, l, row)
    r, phi = incell(E, l, row, pad)
    t = E.int('turns', -3, 3)
    if l.cls == A: E.assume(l.p1 - l.p0 <= 2 * PI)
    if l.cls == V:
        # only the row that contains the radius is at distance zero
        rowhooks(E, l, {'distance': [lambda n, d: Implies(n == row, d == 0), lambda n, d: Implies(And(0 <= n, n < l.nrow, Or(r < l.lo(n), r > l.lo(n) + l.h(n))), d > 0),
                                     lambda n, d: And(l.inv2(n, row), l.inv2(row, n))],
                        'nearest': [lambda n, v: Implies(n == row, v == idx)]})
    k, v = E.try_call(l.o, 'getNearestPad', r, phi + 2 * PI * z3.ToReal(t))
    if k == 'throw': E.fail('no nearest pad'); return
    E.cover('point')
    E.prove('nearest pad', v == idx)


@layouts('C04', only=POLAR)
def nearest_exists(E, l):
    r, phi = E.real('r'), E.real('phi')
    E.assume(And(r > z3.Q(1, 10 ** 6), phi > -100, phi < 100))
    if l.cls == A:
        # contract of getDistanceToPad: some distance, for existing pads only
        def dist(this, args):
            E.prove('distance asked for an existing pad', packed(E, l, args[2]))
            d = E.I.fresh('distance', RealS); E.I.st.pc.append(d >= 0)
            return d
        E.hook('FixedDiskLayoutBase::getDistanceToPad', dist)
    if l.cls == V:
        rowhooks(E, l, {})
        E.assume(l.nrow >= 1)
    k, v = E.try_call(l.o, 'getNearestPad', r, phi)
    if k == 'throw': E.fail('no nearest pad'); return
    E.cover('point')
    E.prove('existing pad', packed(E, l, v))


def versrow(E):
    """an arbitrary row of a versatile layout and a point"""
    l = vers(E)
    row = E.int('row', 0); E.assume(row < l.nrow); E.have(row)
    polar_ok(E, l, row)
    f = E.flv(l.o, '_rows')
    return l, row, f.sub(('i', row), f.ty.a)


@unit('C04', LAY, under=[V + '::Row::getDistanceToRow'], trig_atom=True)
def vers_row_distance(E):
    l, row, o = versrow(E)
    r, phi = E.real('r'), E.real('phi')
    t = E.int('turns', -3, 3)
    E.assume(And(r > 0, phi >= l.c0(row), phi < l.c0(row) + 2 * PI))
    d = E.call(o, 'getDistanceToRow', r, phi + 2 * PI * z3.ToReal(t))
    E.cover('point')
    inr = And(r >= l.lo(row), r <= l.lo(row) + l.h(row))
    E.prove('zero in the row', Implies(And(inr, phi <= l.c0(row) + z3.ToReal(l.npad(row)) * l.pitch(row)), d == 0))
    E.prove('not negative', d >= 0)
    E.prove('positive outside the radial range', Implies(Not(inr), d > 0))


@unit('C04', LAY, under=[V + '::Row::getNearestPad'])
def vers_row_nearest(E):
    l, row, o = versrow(E)
    pad = E.int('pad', 0); E.assume(pad < l.npad(row))
    r, phi = incell(E, l, row, pad)
    t = E.int('turns', -3, 3)
    v = E.call(o, 'getNearestPad', r, phi + 2 * PI * z3.ToReal(t))
    E.cover('point')
    E.prove('nearest pad', v == row * 65536 + pad)


@unit('C04', LAY, under=[V + '::Row::getNearestPad'])
def vers_row_nearest_exists(E):
    l, row, o = versrow(E)
    r, phi = E.real('r'), E.real('phi')
    E.assume(And(r > 0, phi > -100, phi < 100))
    v = E.call(o, 'getNearestPad', r, phi)
    E.prove('pad of the row', And(v >= row * 65536, v < row * 65536 + l.npad(row)))


# ---------------------------------------------------------------- C05
def box(E, l, row, pad):
    """the box of a pad"""
    cx = l.c0(row) + (z3.ToReal(pad) + z3.Q(1, 2)) * l.pitch(row)
    cy = l.lo(row) + l.h(row) / 2
    return cx - l.padw(row) / 2, cx + l.padw(row) / 2, cy - l.padh(row) / 2, cy + l.padh(row) / 2


def inbox(b, x, y): return And(x >= b[0], x <= b[1], y >= b[2], y <= b[3])


def intcands(bounds=()):
    """loop candidates: order between the integer variables and the given bounds"""
    def spec(I, n, base, S, leaves_, k):
        out = []
        ints = [lid for lid, lf in leaves_.items() if lf.form != 'closed' and z3.is_expr(lf.entry) and lf.entry.sort() == IntS]
        for a in ints:
            for b in bounds:
                out.append(('bound', (lambda a, b: lambda q, val: val[a] <= b)(a, b)))
                out.append(('bound', (lambda a, b: lambda q, val: val[a] >= b)(a, b)))
            for c in ints:
                if a != c: out.append(('order', (lambda a, c: lambda q, val: val[a] <= val[c])(a, c)))
        return out
    return spec


@layouts('C05', only=(R,))
def box_center(E, l):
    row, pad, idx = existing(E, l)
    c = E.call(l.o, 'getPadCenter', idx)
    b = box(E, l, row, pad)
    E.cover('pad')
    E.prove('x of the centre', E.comp(c, 0) == (b[0] + b[1]) / 2)
    E.prove('y of the centre', E.comp(c, 1) == (b[2] + b[3]) / 2)
    E.prove('width', E.call(l.o, 'getPadWidth', idx) == b[1] - b[0])
    E.prove('height', E.call(l.o, 'getPadHeight', idx) == b[3] - b[2])
    E.prove('pitch', E.call(l.o, 'getPadPitch', idx) == l.pitch(row))
    E.prove('row height', E.call(l.o, 'getRowHeight', row) == l.h(row))
    E.prove('pads lie in the plane', And(b[0] >= l.x0, b[1] <= l.x1, b[2] >= l.y0, b[3] <= l.y1))


@layouts('C05', only=(R,))
def box_inside(E, l):
    row, pad, idx = existing(E, l)
    x, y = E.real('x'), E.real('y')
    b = box(E, l, row, pad)
    E.prove('inside exactly the box', E.call(l.o, 'isInsidePad', x, y, idx) == inbox(b, x, y))
    E.cover('pad')


@layouts('C05', only=(R,))
def box_distance(E, l):
    row, pad, idx = existing(E, l)
    x, y = E.real('x'), E.real('y')
    b = box(E, l, row, pad)
    d = E.call(l.o, 'getDistanceToPad', x, y, idx)
    out = lambda lo, hi, v: If(v < lo, lo - v, If(v > hi, v - hi, z3.RealVal(0)))
    dx, dy = out(b[0], b[1], x), out(b[2], b[3], y)
    E.prove('Euclidean distance to the box', And(d >= 0, d * d == dx * dx + dy * dy))
    E.prove('zero inside', Implies(inbox(b, x, y), d == 0))
    E.cover('pad')


@layouts('C05', only=(R,), merge=True)
def box_nearest_exists(E, l):
    x, y = E.real('x'), E.real('y')
    E.assume(And(l.nrow >= 1, l.y1 > l.y0))
    E.I.loop_specs.append(intcands((0, l.nrow - 1)))
    k, v = E.try_call(l.o, 'getNearestPad', x, y)
    if k == 'throw': E.fail('no nearest pad'); return
    E.cover('point')
    E.prove('existing pad', packed(E, l, v))


@layouts('C05', only=(R,), merge=True)
def box_nearest(E, l):
    row, pad, idx = existing(E, l)
    x, y = E.real('x'), E.real('y')
    b = box(E, l, row, pad)
    E.assume(inbox(b, x, y))
    E.assume(l.y1 > l.y0)
    E.lemma('boxes lie in the plane', And(x >= l.x0, x <= l.x1, y >= l.y0, y <= l.y1))
    # in the interior of the pad's share of the plane
    E.assume(And(y > l.lo(row), y < l.lo(row) + l.h(row), x > l.c0(row) + z3.ToReal(pad) * l.pitch(row), x < l.c0(row) + (z3.ToReal(pad) + 1) * l.pitch(row)))
    E.I.loop_specs.append(intcands((0, l.nrow - 1, row)))
    f = E.flv(l.o, '_rows')
    E.elem_inv(E.I.read(f), lambda i: And(l.inv(i), l.inv2(i, row), l.inv2(row, i)))
    k, v = E.try_call(l.o, 'getNearestPad', x, y)
    if k == 'throw': E.fail('no nearest pad'); return
    E.cover('point')
    E.prove('nearest pad', v == idx)


@layouts('C05', only=(R,))
def box_plane(E, l):
    """isInsidePad(x,y) by the contract of getNearestPad: an existing pad, the pad of the point if it is inside one"""
    row, pad, idx = existing(E, l)
    x, y = E.real('x'), E.real('y')
    b = box(E, l, row, pad)
    nr, np_ = E.int('nearestrow'), E.int('nearestpad')

    def near(this, args):
        E.have(nr)
        E.assume(And(nr >= 0, nr < l.nrow, np_ >= 0, np_ < l.npad(nr)))
        E.assume(Implies(inbox(b, x, y), inbox(box(E, l, nr, np_), x, y)))
        return nr * 65536 + np_
    E.hook(R + '::getNearestPad', near)
    v = E.call(l.o, 'isInsidePad', x, y)
    E.prove('inside some pad', Implies(inbox(b, x, y), v))
    E.prove('outside the plane: inside no pad', Implies(Or(x < l.x0, x > l.x1, y < l.y0, y > l.y1), Not(v)))
    E.prove('inside means inside a pad', Implies(v, inbox(box(E, l, nr, np_), x, y)))
    E.cover('point')


# ---------------------------------------------------------------- C06
@unit('C03', LAY, under=[S + '::' + S])
@unit('C06', LAY, under=[S + '::' + S])
def size_ctor(E):
    P = z3.Function('padsbelow', IntS, IntS)    # ghost: number of pads in the rows below
    k = z3.Int('k!P')
    holder = {}

    def spec(I, n, base, S0, leaves, kk):
        """candidate: a counter is its value at the cut plus the pads of the rows since (c rows come before the cut)"""
        out = []
        for c in (0, 1):
            base.pc.append(P(kk + (c + 1)) == P(kk + c) + npad(kk + c))     # the definition of P at this iteration
            for lid, lf in leaves.items():
                if z3.is_expr(lf.entry) and lf.entry.sort() == IntS and lf.form != 'closed':
                    out.append(('sum', (lambda l, e, c: lambda q, val: val[l] == e + P(q + c) - P(c))(lid, lf.entry, c)))
                if lf.isarr():
                    for ix, sub in zip(lf.splits, lf.subs):
                        e = sel(lf.entry, ix)
                        if e.sort() == IntS and sub.form != 'closed': out.append(('sum', (lambda l, ix, e, c: lambda q, val: sel(val[l], ix) == e + P(q + c) - P(c))(lid, ix, e, c)))
        return out
    E.I.loop_specs.append(spec)
    E.assume(P(0) == 0)
    rmin, rmax, ph, pw, gap, pm = [E.real(x) for x in ('rmin', 'rmax', 'padHeight', 'padWidth', 'padGap', 'phimax')]
    nrow = E.int('nrow', 0, MAXROW - 1)
    fit = z3.ToInt((rmax + z3.Q(1, 100) - rmin) / ph)
    n = If(nrow > 0, If(nrow > fit, fit, nrow), fit)
    h = (rmax - rmin) / z3.ToReal(n)
    npad = lambda r: z3.ToInt((rmin + z3.ToReal(r) * h + h / 2) * pm / (pw + gap))
    E.assume(P(1) == P(0) + npad(z3.IntVal(0)))
    E.assume(And(rmin > 0, rmax > rmin, ph > 0, pw > 0, gap >= 0, pm > 0, pm <= 2 * PI, fit >= 1, fit < MAXROW))
    o = E.new(S, rmin, rmax, ph, pw, nrow, gap, pm)
    E.cover('built')
    E.prove('total is the sum over the rows', E.call(o, 'getNPads') == P(n))
    E.prove('rows', And(E.call(o, 'getNRows') == n, E.field(o, '_nRow') == n, E.field(o, '_rowHeight') == h, h > 0))
    E.prove('stored', And(*[E.field(o, f) == v for f, v in (('_rMin', rmin), ('_rMax', rmax), ('_phiMax', pm), ('_padWidth', pw), ('_padHeight', ph), ('_padGap', gap))]))
    e = E.call(o, 'getPlaneExtent')
    E.prove('extent', And(e['len'] == 4, *[E.at(e, i) == v for i, v in enumerate((rmin, rmax, 0, pm))]))
    r = E.int('row', 0); E.assume(r < n)
    rows = E.field(o, '_rows')
    F = lambda r, f: E.sfield(E.at(rows, r), f)
    c = rmin + z3.ToReal(r) * h + h / 2
    E.prove('row centre', F(r, 'RCenter') == c)
    E.prove('as many pads as fit', F(r, 'NPad') == npad(r))
    E.prove('equal pads fill the range', Implies(npad(r) >= 1, F(r, 'PhiPad') * z3.ToReal(F(r, 'NPad')) == pm))
    pl = E.field(o, '_padIndices')
    E.prove('no lists yet', And(pl['len'] == n, E.at(pl, r) == 0))


@unit('C06', LAY, under=[A + '::' + A])
def angle_ctor(E):
    nrow = E.int('nrow', 1, MAXROW); npad = E.int('npads', 1, MAXPAD)
    rmin, rmax, p0, p1 = [E.real(x) for x in ('rmin', 'rmax', 'phimin', 'phimax')]
    E.assume(And(rmin >= 0, rmax > rmin, p1 > p0, nrow * npad < 2 ** 31))
    o = E.new(A, rmin, rmax, nrow, p0, p1, npad)
    E.cover('built')
    h, a = E.field(o, '_rowHeight'), E.field(o, '_padAngle')
    E.prove('rows', And(E.call(o, 'getNRows') == nrow, E.field(o, '_nPadsInRow') == npad))
    E.prove('total', E.call(o, 'getNPads') == nrow * npad)
    E.prove('equal rows', And(h * z3.ToReal(nrow) == rmax - rmin, h > 0))
    E.prove('equal pads', And(a * z3.ToReal(npad) == p1 - p0, a > 0))
    E.prove('stored', And(*[E.field(o, f) == v for f, v in (('_rMin', rmin), ('_rMax', rmax), ('_phiMin', p0), ('_phiMax', p1))]))
    e = E.call(o, 'getPlaneExtent')
    E.prove('extent', And(e['len'] == 4, *[E.at(e, i) == v for i, v in enumerate((rmin, rmax, p0, p1))]))
    r = E.int('row', 0); E.assume(r < nrow)
    pl = E.field(o, '_padIndices')
    E.prove('no lists yet', And(pl['len'] == nrow, E.at(pl, r) == 0))




@unit('C06', LAY, under=[R + '::' + R])
def rect_ctor(E):
    x0, x1, y0 = [E.real(x) for x in ('xMin', 'xMax', 'yMin')]
    o = E.new(R, x0, x1, y0)
    E.prove('no rows', E.call(o, 'getNRows') == 0)
    E.prove('no pads', E.call(o, 'getNPads') == 0)
    e = E.call(o, 'getPlaneExtent')
    E.prove('extent', And(e['len'] == 4, *[E.at(e, k) == v for k, v in enumerate((x0, x1, y0, y0))]))
    E.prove('lists', E.field(o, '_padIndices')['len'] == 0)
    E.cover('constructed')


@unit('C06', LAY, under=[R + '::addRow'])
def rect_addrow(E):
    l = rect(E); o = l.o; F = l.F; n0 = l.nrow
    nr = E.int('nRow', 1, MAXROW); npd = E.int('nPad', 1, MAXPAD)
    pw, ph, rh, lo, ro = [E.real(x) for x in ('padWidth', 'padHeight', 'rowHeight', 'left', 'right')]
    E.assume(And(pw >= 0, ph >= 0, rh >= 0, lo >= 0, ro >= 0, n0 + nr <= MAXROW))
    E.assume(Implies(n0 == 0, l.y1 == l.y0))
    before = E.I.read(o)
    height = If(rh == 0, ph, rh)
    ok = And(z3.ToReal(npd) * pw <= l.x1 - ro - l.x0 - lo, height >= ph)
    k, v = E.try_call(o, 'addRow', nr, npd, pw, ph, rh, lo, ro)
    if k == 'throw':
        E.prove('rejected with the library exception', z3.BoolVal(E.exc_is(v)))
        E.prove('only rows that cannot be placed are rejected', Not(ok))
        E.prove('rejected rows change nothing', teq(E.I.read(o), before))
        E.cover('rejected')
        return
    E.cover('accepted')
    E.prove('accepted rows fit', ok)
    new = E.field(o, '_rows')
    G = lambda r, f: E.sfield(E.at(new, r), f)
    e = E.call(o, 'getPlaneExtent')
    E.prove('row count', And(E.call(o, 'getNRows') == n0 + nr, new['len'] == n0 + nr))
    E.prove('pad count', E.call(o, 'getNPads') == l.total + nr * npd)
    E.prove('extent', And(E.at(e, 0) == l.x0, E.at(e, 1) == l.x1, E.at(e, 2) == l.y0, E.at(e, 3) == l.y1 + z3.ToReal(nr) * height))
    E.prove('lists', E.field(o, '_padIndices')['len'] == n0 + nr)
    j = E.int('j', 0)
    E.assume(j < n0 + nr)
    pl = E.field(o, '_padIndices')
    if E.branch(j < n0):
        E.prove('earlier rows keep their values', teq(E.at(new, j), E.at(before_rows(before), j)))
        E.prove('earlier pad lists stay', E.at(pl, j) == E.at(l.pads, j))
    else:
        E.prove('new pad lists are empty', E.at(pl, j) == 0)
        E.prove('new rows keep the given values', And(G(j, 'NPad') == npd, G(j, 'PadWidth') == pw, G(j, 'PadHeight') == ph, G(j, 'Height') == height, G(j, 'LeftOffset') == lo, G(j, 'RightOffset') == ro))
        E.prove('pitch', G(j, 'WidthPerPad') * z3.ToReal(npd) == l.x1 - ro - l.x0 - lo)
        E.prove('rows are stacked without gaps', G(j, 'Center') - height / 2 == l.y1 + z3.ToReal(j - n0) * height)


def before_rows(t):
    return next(v for k, v in t.items() if k.endswith('::_rows'))


@unit('C06', LAY, under=[R + '::repeatRows'])
def rect_repeatrows(E):
    """one pass over the rows of the original pattern, by the contract of addRow"""
    l = rect(E); o = l.o
    n0, y1 = l.nrow, l.y1
    cnt = E.int('count', 0, (1 << 32) - 1)
    E.assume(Or(cnt <= 1, cnt * n0 <= MAXROW))
    added = []

    def addrow(this, args):
        j = E.I.fresh('added', IntS)
        added.append(args)
        return None
    E.assume(l.rep > 0)
    before = E.I.read(o)
    E.call(o, 'repeatRows', cnt)
    E.prove('only the first call has an effect', teq(E.I.read(o), before))
    E.cover('second call')


@unit('C06', LAY, under=[V + '::' + V])
def vers_ctor(E):
    rmin = E.real('rmin')
    o = E.new(V, rmin)
    E.prove('no rows', And(E.call(o, 'getNRows') == 0, E.call(o, 'getNPads') == 0, E.field(o, '_padIndices')['len'] == 0))
    e = E.call(o, 'getPlaneExtent')
    E.prove('extent', And(e['len'] == 4, E.at(e, 0) == rmin, E.at(e, 1) == rmin))
    E.cover('constructed')


@unit('C06', LAY, under=[V + '::addRow', V + '::Row::Row'], merge=True)
def vers_addrow(E):
    l = vers(E); o = l.o; F = l.F; n0 = l.nrow
    rep = E.int('repeat'); npd = E.int('nPads')
    pitch, rh, off, pw, ph = [E.real(x) for x in ('padPitch', 'rowHeight', 'offset', 'padWidth', 'padHeight')]
    E.assume(And(npd <= MAXPAD, n0 + rep <= MAXROW))
    E.assume(And(l.rmin > 0, l.rmax >= l.rmin, Implies(n0 == 0, l.rmax == l.rmin)))
    rc = l.rmax + rh / 2
    # offsets of at most two turns
    E.assume(And(off >= -4 * PI * rc, off < 4 * PI * rc))
    before = E.I.read(o)
    k, v = E.try_call(o, 'addRow', npd, pitch, rh, off, pw, ph, rep)
    valid = And(npd > 0, pitch >= 0, pw >= 0, pw <= pitch, rh > 0, rep > 0)
    fits = pitch * z3.ToReal(npd) <= 2 * PI * rc
    if k == 'throw':
        E.prove('rejected with the library exception', z3.BoolVal(E.exc_is(v)))
        E.prove('only rows that cannot be placed are rejected', Not(And(valid, fits)))
        E.prove('rejected rows change nothing', teq(E.I.read(o), before))
        E.cover('rejected')
        return
    E.cover('accepted')
    E.prove('accepted rows are valid', And(valid, fits))
    new = E.field(o, '_rows')
    G = lambda r, f: E.sfield(E.at(new, r), f)
    e = E.call(o, 'getPlaneExtent')
    E.prove('row count', And(E.call(o, 'getNRows') == n0 + rep, new['len'] == n0 + rep))
    E.prove('pad count', E.call(o, 'getNPads') == l.total + rep * npd)
    E.prove('extent', And(E.at(e, 0) == l.rmin, E.at(e, 1) == l.rmax + z3.ToReal(rep) * rh))
    pl = E.field(o, '_padIndices')
    E.prove('lists', pl['len'] == n0 + rep)
    j = E.int('j', 0)
    E.assume(j < n0 + rep)
    if E.branch(j < n0):
        E.prove('earlier rows keep their values', teq(E.at(new, j), E.at(before_rows(before), j)))
        E.prove('earlier pad lists stay', E.at(pl, j) == E.at(l.pads, j))
    else:
        E.prove('new pad lists are empty', E.at(pl, j) == 0)
        c = l.rmax + z3.ToReal(j - n0) * rh + rh / 2
        E.prove('rows are stacked without gaps', And(G(j, '_rCentre') == c, G(j, '_rMin') == c - rh / 2, G(j, '_rMax') == c + rh / 2))
        E.prove('row number', G(j, '_rowNumber') == j)
        E.prove('new rows keep the given values', And(G(j, '_nPads') == npd, G(j, '_padPitch_mm') == pitch, G(j, '_rowHeight') == rh, G(j, '_padWidth_mm') == If(pw == 0, pitch, pw), G(j, '_padHeight') == If(ph == 0, rh, ph)))
        E.prove('angles at the middle of the row', And(G(j, '_padPitch') * c == pitch, G(j, '_padWidth') * c == If(pw == 0, pitch, pw)))
        t = G(j, '_offset') * c - off
        E.prove('offset modulo a full turn', Or(t == 0, t == 2 * PI * c, t == -2 * PI * c))
