"""C13 named parameters, C14 the detector manager"""
import z3
from z3 import And, Or, Not, Implies, If
from gearvc.spec import unit
from gearvc.sym import *
from gearvc.types import Ty, parse
from gearvc import stdlib, types as T

G = 'gearimpl/'
PAR = [G + 'GearParametersImpl.cc']
P = 'GearParametersImpl'
SHORT = ('Int', 'Double', 'String')
#        name: (getter, setter, key list, vector?)
KINDS = {}
for _s in SHORT:
    KINDS[_s] = ('get%sVal' % _s, 'set%sVal' % _s, 'get%sKeys' % _s, None)
    KINDS[_s + 's'] = ('get%sVals' % _s, 'set%sVals' % _s, 'get%sVecKeys' % _s, _s)
ELEM = {'Int': T.INT, 'Double': T.REAL, 'String': T.STR}


def value(E, kind, name):
    """any value of a kind, as the setters take it"""
    if KINDS[kind][3] is None:
        return {'Int': E.int, 'Double': E.real, 'String': E.str}[kind](name)
    ty = Ty('vec', ELEM[KINDS[kind][3]])
    lv = E.I.local(ty, E.I.mk(ty, name), name)
    n = E.I.read(lv)['len']; E.assume(And(n >= 0, n < (1 << 30)))
    return lv


def same(E, a, b):
    """equal values (lists: equal length and elements)"""
    if isinstance(a, dict) and 'elem' in a:
        i = E.int('position')
        return And(a['len'] == b['len'], Implies(And(i >= 0, i < a['len']), teq(E.at(a, i), E.at(b, i))))
    return teq(a, b)


def obj(E):
    """an object holding any parameters"""
    E.frame()
    o = E.alloc(P)
    E.I.write(o, E.I.mk(Ty('class', P), 'params'))
    return o


def kept(E, o, before, label, but=()):
    """members hold the same; a map holds the same under every name"""
    key = E.str('any name')
    for (f, a), (g, b) in zip(before, E.fields(o)):
        if f in but: continue
        if isinstance(a, dict) and 'dom' in a:
            d = sel(a['dom'], key)
            E.prove('%s: %s' % (label, f), And(d == sel(b['dom'], key), Implies(d, same(E, select(a['val'], key), select(b['val'], key)))))
        else: E.prove('%s: %s' % (label, f), a == b if z3.is_expr(a) else same(E, a, b))


def stored(kind):
    get, set_, keys, vec = KINDS[kind]
    def f(E):
        o = obj(E); key, other = E.str('name'), E.str('other name'); v = value(E, kind, 'value')
        val = E.I.read(v) if isinstance(v, LV) else v
        what = list(KINDS)[E.I.choose(len(KINDS))]
        get2 = KINDS[what][0]
        k1, r1 = E.try_call(o, get2, other)
        E.call(o, set_, key, v)
        E.cover('stored')
        k, r = E.try_call(o, get, key)
        if k == 'throw': E.fail('stored value is found')
        else: E.prove('stored value is read back', same(E, r, val))
        k2, r2 = E.try_call(o, get2, other)
        if what == kind: E.assume(other != key)
        if k1 != k2: E.fail('storing does not change other parameters')
        elif k1 == 'ok': E.prove('storing does not change other parameters', same(E, r1, r2))
    return f


def read(kind):
    get, set_, keys, vec = KINDS[kind]
    def f(E):
        o = obj(E); key = E.str('name'); before = E.fields(o)
        k, r = E.try_call(o, get, key)
        E.cover('read' if k == 'ok' else 'thrown')
        if k == 'throw': E.prove('only the unknown parameter exception', z3.BoolVal(E.exc_is(r, 'UnknownParameterException')))
        kept(E, o, before, 'reading stores nothing')
        k2, r2 = E.try_call(o, get, key)
        if k != k2: E.fail('reading twice gives the same')
        elif k == 'ok': E.prove('reading twice gives the same', same(E, r, r2))
    return f


def listed(kind):
    get, set_, keys, vec = KINDS[kind]
    def f(E):
        o = obj(E); before = E.fields(o)
        r = E.call(o, keys)
        E.cover('listed')
        i, j = E.int('i'), E.int('j'); key = E.str('name'); n = r['len']
        E.prove('ascending, once each', Implies(And(i >= 0, i < j, j < n), E.at(r, i) < E.at(r, j)))
        maps = [(n_, m) for n_, m in before if isinstance(m, dict) and 'dom' in m]
        ranks = []
        for n_, m in maps:
            stdlib.map_axioms(E.I, m)
            ranks.append(stdlib.rank(m['dom'])(m['dom'], key))
        what = E.I.choose(2)
        if what:
            E.assume(And(i >= 0, i < n))
            k, x = E.try_call(o, get, E.at(r, i))
            E.prove('every listed name is stored', z3.BoolVal(k == 'ok'))
        else:
            k, x = E.try_call(o, get, key)
            if k == 'ok': E.prove('every stored name is listed', Or([And(q >= 0, q < n, E.at(r, q) == key) for q in ranks]))
        kept(E, o, before, 'listing changes no parameter', [g for g, a in before if not (isinstance(a, dict) and 'dom' in a)])
    return f


def fresh(E):
    o = E.new(P); key = E.str('name')
    for kind, (get, set_, keys, vec) in KINDS.items():
        k, r = E.try_call(o, get, key)
        E.prove('no %s at first' % kind, z3.BoolVal(k == 'throw' and E.exc_is(r, 'UnknownParameterException')))
        E.prove('no %s names at first' % kind, E.vlen(E.call(o, keys)) == 0)
    E.cover('constructed')


for _k in KINDS:
    unit('C13', PAR, under=[P], name='stored_' + _k)(stored(_k))
    unit('C13', PAR, under=[P], name='read_' + _k)(read(_k))
    unit('C13', PAR, under=[P], name='listed_' + _k)(listed(_k))
unit('C13', PAR, under=[P], name='constructed')(fresh)

# ---------------------------------------------------------------- C14
M = 'GearMgrImpl'
MGR = [G + 'GearMgrImpl.cc']
CAL = ['EcalBarrel', 'EcalEndcap', 'EcalPlug', 'YokeBarrel', 'YokeEndcap', 'YokePlug', 'HcalBarrel', 'HcalEndcap', 'HcalRing', 'Lcal', 'LHcal', 'BeamCal']
SLOTS = {k + 'Parameters': 'CalorimeterParameters' for k in CAL}
SLOTS.update(TPCParameters='TPCParameters', VXDParameters='ZPlanarParameters', SITParameters='ZPlanarParameters', SETParameters='ZPlanarParameters', FTDParameters='FTDParameters',
             TrackerPlanesParameters='TrackerPlanesParameters', SiPlanesParameters='SiPlanesParameters', PointProperties='GearPointProperties', DistanceProperties='GearDistanceProperties', BField='BField')
UPE = 'UnknownParameterException'


def mgr(E):
    """a manager after any history"""
    E.frame()
    o = E.alloc(M)
    E.I.write(o, E.I.mk(Ty('class', M), 'manager'))
    E.vhook('setDoubleVal', lambda this, args: None)
    def getd(this, args):
        from gearvc.interp import CppThrow
        if E.I.branch(E.bool('crossing angle given')): return E.real('crossing angle')
        raise CppThrow(UPE)
    E.vhook('getDoubleVal', getd)
    E.vhook('getName', lambda this, args: z3.Function('material name', IntS, IntS)(this.root[1]))
    for k, v in E.fields(o):
        # objects kept in the manager are alive
        if z3.is_expr(v) and v.sort() == IntS: E.assume(And(v >= 0, v < E.I.st.alloc, Implies(v > 0, Not(sel(E.I.freed(), v)))))
    E.assume(And(E.field(o, '_detectorName') >= 1, E.field(o, '_surfaceStore') > 0))
    for q in ('name', 'other name'): nonnull(E, o, E.str(q))
    return o


def nonnull(E, o, key):
    """sections and materials are never null (the setters do not take null)"""
    for n, m in E.fields(o):
        if isinstance(m, dict) and 'dom' in m and z3.is_expr(m['val']) and m['val'].sort().range() == IntS:
            E.assume(Implies(sel(m['dom'], key), And(sel(m['val'], key) > 0, sel(m['val'], key) < E.I.st.alloc)))


def ask(E, o, what, key):
    """the object the manager answers with: ('ok', reference) or ('throw', class)"""
    if what == 'section': k, r = E.attempt(lambda: E.callr(o, 'getGearParameters', key))
    elif what == 'material': k, r = E.attempt(lambda: E.callr(o, 'getSimpleMaterial', key))
    elif what == 'name':
        k, r = E.try_call(o, 'getDetectorName'); return k, r
    elif what == 'store': k, r = E.attempt(lambda: E.callr(o, 'getMeasurementSurfaceStore'))
    else: k, r = E.attempt(lambda: E.callr(o, 'get' + what))
    return k, (r.root[1] if k == 'ok' else r)


WHAT = list(SLOTS) + ['section', 'material', 'name', 'store']


def unchanged(E, a, b, label, what):
    if a[0] != b[0]: E.fail('%s: %s' % (label, what))
    elif a[0] == 'ok': E.prove('%s: %s' % (label, what), a[1] == b[1])
    else: E.prove('%s: %s' % (label, what), z3.BoolVal(E.exc_is(a[1], UPE) and E.exc_is(b[1], UPE)))


def slot(name):
    def f(E):
        o = mgr(E); p = E.abstract(SLOTS[name]); key = E.str('name')
        E.assume(Not(sel(E.I.freed(), p.root[1])))
        what = WHAT[E.I.choose(len(WHAT))]
        if what == name:
            if E.I.branch(E.bool('stored already')): E.call(o, 'set' + name, p.root[1])
        else: a = ask(E, o, what, key)
        E.call(o, 'set' + name, p.root[1])
        E.cover('stored')
        if what == name:
            k, r = ask(E, o, name, key)
            if k == 'throw': E.fail('stored object is returned')
            else: E.prove('stored object is returned', And(r == p.root[1], Not(sel(E.I.freed(), r))))
        else: unchanged(E, a, ask(E, o, what, key), 'unchanged', what)
    return f


for _n in SLOTS: unit('C14', MGR, under=[M], name='set' + _n, alive=True, budget=100)(slot(_n))


@unit('C14', MGR, under=[M], alive=True)
def sections(E):
    o = mgr(E); p = E.abstract('GearParameters'); key, other = E.str('name'), E.str('other name')
    E.assume(Not(sel(E.I.freed(), p.root[1])))
    m = E.field(o, '_map'); i = E.str('any name')
    for q in (key, other): E.assume(Implies(sel(m['dom'], q), Not(sel(E.I.freed(), sel(m['val'], q)))))
    E.assume(Implies(key != other, Or(Not(sel(m['dom'], key)), Not(sel(m['dom'], other)), sel(m['val'], key) != sel(m['val'], other))))   # every section is an object of its own
    what = WHAT[E.I.choose(len(WHAT))]
    if what == 'section': E.assume(other != key)
    a = ask(E, o, what, other)
    if what == 'section' and a[0] == 'ok': E.assume(a[1] != p.root[1])
    E.call(o, 'setGearParameters', key, p.root[1])
    k, r = ask(E, o, 'section', key)
    E.cover('stored')
    if k == 'throw': E.fail('stored section is returned')
    else: E.prove('stored section is returned', And(r == p.root[1], Not(sel(E.I.freed(), r))))
    b = ask(E, o, what, other)
    unchanged(E, a, b, 'unchanged', what)
    if what == 'section' and b[0] == 'ok': E.prove('other sections stay alive', Not(sel(E.I.freed(), b[1])))
    # storing it once more
    E.call(o, 'setGearParameters', key, p.root[1])
    k, r = ask(E, o, 'section', key)
    E.prove('storing the same object again', And(r == p.root[1], Not(sel(E.I.freed(), r))) if k == 'ok' else z3.BoolVal(False))


@unit('C14', MGR, under=[M])
def materials(E):
    o = mgr(E); p = E.abstract('SimpleMaterial'); other = E.str('other name')
    key = z3.Function('material name', IntS, IntS)(p.root[1]); E.assume(key >= 1); nonnull(E, o, key)
    what = WHAT[E.I.choose(len(WHAT))]
    a = ask(E, o, what, other)
    h = ask(E, o, 'material', key)
    k, r = E.try_call(o, 'registerSimpleMaterial', p.root[1])
    b = ask(E, o, 'material', key)
    if h[0] == 'ok':
        E.cover('known name')
        E.prove('a known name is rejected', z3.BoolVal(k == 'throw' and E.exc_is(r)))
        E.prove('the first material is kept', b[1] == h[1] if b[0] == 'ok' else z3.BoolVal(False))
    else:
        E.cover('new name')
        E.prove('unknown name', z3.BoolVal(E.exc_is(h[1], UPE)))
        E.prove('a new name is accepted', z3.BoolVal(k == 'ok')); E.prove('the material is found by its name', b[1] == p.root[1] if b[0] == 'ok' else z3.BoolVal(False))
    c = ask(E, o, what, other)
    if what == 'material': E.assume(other != key)
    unchanged(E, a, c, 'unchanged', what)


def names(which, lister, asker):
    def f(E):
        o = mgr(E); before = E.fields(o); maps = [m for n, m in before if isinstance(m, dict) and 'dom' in m]
        for m in maps: stdlib.map_axioms(E.I, m)
        mode = E.I.choose(3); what = WHAT[E.I.choose(len(WHAT))] if mode == 0 else None; other = E.str('other name')
        i, j = E.int('i'), E.int('j'); key = E.str('name')
        if what: a = ask(E, o, what, other)
        r = E.call(o, lister); n = r['len']
        E.cover('listed')
        if mode == 0:
            E.prove('ascending, once each', Implies(And(i >= 0, i < j, j < n), E.at(r, i) < E.at(r, j)))
            unchanged(E, a, ask(E, o, what, other), 'unchanged', what)
        elif mode == 1:
            k, x = ask(E, o, asker, key)
            ranks = [stdlib.rank(m['dom'])(m['dom'], key) for m in maps]
            if k == 'ok': E.prove('every stored name is listed', Or([And(q >= 0, q < n, E.at(r, q) == key) for q in ranks]))
        else:
            E.assume(And(i >= 0, i < n))
            nonnull(E, o, E.at(r, i))
            k, x = ask(E, o, asker, E.at(r, i))
            E.prove('every listed name is stored', z3.BoolVal(k == 'ok'))
    return f


unit('C14', MGR, under=[M], name='section_names')(names('section', 'getGearParameterKeys', 'section'))
unit('C14', MGR, under=[M], name='material_names')(names('material', 'getMaterialNames', 'material'))


@unit('C14', MGR, under=[M])
def constructed(E):
    E.hook('MeasurementSurfaceStore::MeasurementSurfaceStore', lambda this, args: None)
    o = E.new(M); key = E.str('name')
    for what in WHAT:
        if what == 'store': continue
        k, r = ask(E, o, what, key)
        E.prove('nothing stored: ' + what, z3.BoolVal(k == 'throw' and E.exc_is(r, UPE)))
    E.prove('no section names', E.vlen(E.call(o, 'getGearParameterKeys')) == 0); E.prove('no material names', E.vlen(E.call(o, 'getMaterialNames')) == 0)
    s = E.str('s'); E.assume(z3.Function('strlen', IntS, IntS)(s) > 0)
    E.call(o, 'setDetectorName', s); E.prove('detector name', E.call(o, 'getDetectorName') == s)
    E.cover('constructed')


@unit('C14', MGR, under=[M])
def detector_name(E):
    o = mgr(E); s = E.str('detector'); key = E.str('name')
    what = WHAT[E.I.choose(len(WHAT))]
    a = ask(E, o, what, key)
    E.assume(s != 1)
    E.call(o, 'setDetectorName', s)
    E.cover('stored')
    if what == 'name': E.prove('detector name is returned', ask(E, o, 'name', key)[1] == s)
    else: unchanged(E, a, ask(E, o, what, key), 'unchanged', what)
