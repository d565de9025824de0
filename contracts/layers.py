"""C15 calorimeter layers, C16 planar ladders, C17 forward disks, C18 telescope planes"""
import z3
from z3 import And, Or, Not, Implies, If
from gearvc.spec import unit
from gearvc.sym import *
from gearvc.types import Ty, parse

G = 'gearimpl/'
PI_ = z3.RealVal(str(__import__("gearvc.interp").interp.PIQ))


def anyobj(E, cls, name='object'):
    """an object after any history; lists of one object that grow together have one length"""
    E.frame()
    o = E.alloc(cls)
    E.I.write(o, E.I.mk(Ty('class', cls), name))
    together(E, o)
    return o


def together(E, o):
    n = None
    for f, v in E.fields(o):
        if isinstance(v, dict) and 'elem' in v:
            E.assume(And(v['len'] >= 0, v['len'] < (1 << 30)) if n is None else v['len'] == n)
            n = v['len'] if n is None else n
    return n


def arg(E, t, name):
    return {'i': E.int, 'd': E.real, 'b': E.bool, 's': E.str}[t](name)


def refuses(E, o, getter, index, *more):
    k, r = E.try_call(o, getter, index, *more)
    E.prove('%s refuses an index without layer' % getter, z3.BoolVal(k == 'throw'))


# ---------------------------------------------------------------- C15
LAYER = [G + 'LayerLayoutImpl.cc', G + 'CalorimeterParametersImpl.cc', G + 'GearParametersImpl.cc']
LL, CAL = 'LayerLayoutImpl', 'CalorimeterParametersImpl'
LGET = ['getDistance', 'getThickness', 'getCellSize0', 'getCellSize1', 'getAbsorberThickness']


def layers_of(E, o):
    """the layer layout inside a calorimeter"""
    return E.flv(o, '_layout')


def add_layer(through, position, absorber):
    def f(E):
        o = anyobj(E, CAL) if through else anyobj(E, LL)
        lay = E.callr(o, 'layerLayout') if through else o
        if through: together(E, lay)
        n = E.call(lay, 'getNLayers'); i = E.int('i'); E.assume(And(i >= 0, i < n))
        some = E.branch(n > 0)
        old = {g: E.call(lay, g, i) for g in LGET} if some else {}
        end = E.call(lay, 'getDistance', n - 1) + E.call(lay, 'getThickness', n - 1) if E.branch(n > 0) else z3.RealVal(0)
        d, t, c0, c1, a = [E.real(x) for x in ('distance', 'thickness', 'cellSize0', 'cellSize1', 'absorber')]
        args = ([d] if position else []) + [t, c0, c1] + ([a] if absorber else [])
        E.call(lay, 'positionLayer' if position else 'addLayer', *args)
        want = [d if position else end, t, c0, c1, a if absorber else z3.RealVal(0)]
        see = E.callr(o, 'getLayerLayout') if through else lay
        E.prove('one layer more', E.call(see, 'getNLayers') == n + 1)
        for g, w in zip(LGET, want): E.prove('the new layer: ' + g, E.call(see, g, n) == w)
        for g in old: E.prove('earlier layers are kept: ' + g, E.call(see, g, i) == old[g])
        E.cover('added')
    return f


for _t in (0, 1):
    for _p in (0, 1):
        for _a in (0, 1):
            unit('C15', LAYER, under=[LL], name='%s%s%s' % ('calorimeter_' if _t else '', 'positionLayer' if _p else 'addLayer', '' if _a else '_default_absorber'))(add_layer(_t, _p, _a))


@unit('C15', LAYER, under=[LL])
def index_outside(E):
    o = anyobj(E, LL); i = E.int('i'); n = E.call(o, 'getNLayers')
    E.assume(Or(i < 0, i >= n))
    g = LGET[E.I.choose(len(LGET))]
    refuses(E, o, g, i); E.cover('asked')


@unit('C15', LAYER, under=[LL])
def empty(E):
    E.prove('no layers at first', E.call(E.new(LL), 'getNLayers') == 0); E.cover('constructed')


def calorimeter(barrel):
    def f(E):
        a, b, c, phi = E.real('r'), E.real('r2'), E.real('z'), E.real('phi0'); sym = E.int('symmetry')
        o = E.new(CAL, *([a, b, sym, phi] if barrel else [a, b, c, sym, phi]))
        ty = E.call(o, 'getLayoutType')
        E.prove('type', ty == (1 if barrel else 2)); E.prove('symmetry', E.call(o, 'getSymmetryOrder') == sym); E.prove('phi0', E.call(o, 'getPhi0') == phi)
        E.prove('no layers', E.call(E.callr(o, 'getLayerLayout'), 'getNLayers') == 0)
        x = E.call(o, 'getExtent')
        want = [a, a, z3.RealVal(0), b] if barrel else [a, b, c, c]
        E.prove('four limits', E.vlen(x) == 4)
        for k in range(4): E.prove('extent[%d]' % k, E.at(x, k) == want[k])
        # any stack of layers later
        lay = E.callr(o, 'layerLayout')
        E.I.write(lay, E.I.mk(Ty('class', LL), 'stack')); n = together(E, lay)
        E.assume(n > 0)
        end = E.call(lay, 'getDistance', n - 1) + E.call(lay, 'getThickness', n - 1)
        for again in ('', ' again'):
            x = E.call(o, 'getExtent'); want[1 if barrel else 3] = end
            E.prove('four limits', E.vlen(x) == 4)
            for k in range(4): E.prove('extent with layers%s[%d]' % (again, k), E.at(x, k) == want[k])
        E.prove('type is kept', E.call(o, 'getLayoutType') == ty); E.prove('symmetry is kept', E.call(o, 'getSymmetryOrder') == sym); E.prove('phi0 is kept', E.call(o, 'getPhi0') == phi)
        E.cover('layers')
    return f


unit('C15', LAYER, under=[CAL], name='barrel')(calorimeter(True))
unit('C15', LAYER, under=[CAL], name='endcap')(calorimeter(False))

# ---------------------------------------------------------------- lists of planes with one accessor per value
def stored(E, o, see, adder, args, getters, count, lists, label='', sig=None, others=()):
    """adding appends one element that holds its arguments; everything else is kept.
    getters: (name, expected value); others: accessors without an index"""
    n = E.call(see(), count); i = E.int('i')
    some = E.branch(n > 0)
    old, oth = {}, {g: E.call(see(), g) for g in others}
    if some:
        E.assume(And(i >= 0, i < n))
        old = {g: E.call(see(), g, i) for g, w in getters}
    E.callr(o, adder, *args, sig=sig)
    E.prove(label + 'one layer more', E.call(see(), count) == n + 1)
    for g, w in getters: E.prove('%sthe new layer: %s' % (label, g), teq(E.call(see(), g, n), w))
    for g in old: E.prove('%searlier layers are kept: %s' % (label, g), teq(E.call(see(), g, i), old[g]))
    for g in oth: E.prove('%sis kept: %s' % (label, g), teq(E.call(see(), g), oth[g]))
    E.cover('added')


# ---------------------------------------------------------------- C18 silicon planes
SI = [G + 'SiPlanesLayerLayout.cc', G + 'SiPlanesParametersImpl.cc', G + 'GearParametersImpl.cc']
SL, SP = 'SiPlanesLayerLayoutImpl', 'SiPlanesParametersImpl'
_lay = ['PositionX', 'PositionY', 'PositionZ', 'RotationXY', 'RotationZX', 'RotationZY', 'SizeX', 'SizeY', 'Thickness', 'RadLength']
_sen = ['PositionX', 'PositionY', 'PositionZ', 'RotationXY', 'RotationZX', 'RotationZY', 'SizeX', 'SizeY', 'Thickness', 'NpixelX', 'NpixelY', 'PitchX', 'PitchY', 'Resolution', 'ResolutionX', 'ResolutionY',
        'Rotation1', 'Rotation2', 'Rotation3', 'Rotation4', 'RadLength']
SIFULL = [('getID', 'i')] + [('getLayer' + x, 'd') for x in _lay] + [('getSensitiveID', 'i')] + [('getSensitive' + x, 'i' if 'Npixel' in x else 'd') for x in _sen]
_dl = [x for x in _lay if 'Rotation' not in x]
_ds = [x for x in _sen if x not in ('RotationXY', 'RotationZX', 'RotationZY', 'ResolutionX', 'ResolutionY')]
SIDUT = [('getDUTID', 'i')] + [('getDUT' + x, 'd') for x in _dl] + [('getDUTSensitiveID', 'i')] + [('getDUTSensitive' + x, 'i' if 'Npixel' in x else 'd') for x in _ds]


def si_add(cls, full):
    def f(E):
        o = anyobj(E, cls)
        if cls == SP: together(E, E.flv(o, '_layer'))
        see = (lambda: E.callr(o, 'getSiPlanesLayerLayout')) if cls == SP else (lambda: o)
        args, want, res = [], [], None
        for g, t in SIFULL:
            short = g.replace('getLayer', '').replace('getSensitive', '')
            if not full and short in ('RotationXY', 'RotationZX', 'RotationZY'): want.append((g, z3.RealVal(0))); continue
            if not full and short in ('ResolutionX', 'ResolutionY'):
                if cls == SP: want.append((g, res))            # the one resolution is that of both directions
                else: want.append((g, z3.RealVal(0)))
                continue
            v = arg(E, t, g[3:])
            if short == 'Resolution': res = v
            args.append(v); want.append((g, v))
        stored(E, o, see, 'addLayer', args, want, 'getNLayers', None, others=[g for g, t in SIDUT])
    return f


def si_dut(cls):
    def f(E):
        o = anyobj(E, cls)
        if cls == SP: together(E, E.flv(o, '_layer'))
        see = (lambda: E.callr(o, 'getSiPlanesLayerLayout')) if cls == SP else (lambda: o)
        n = E.call(see(), 'getNLayers'); i = E.int('i')
        some = E.branch(n > 0); old = {}
        if some:
            E.assume(And(i >= 0, i < n)); old = {g: E.call(see(), g, i) for g, t in SIFULL}
        args = [arg(E, t, g[3:]) for g, t in SIDUT]
        E.callr(o, 'addDUT', *args)
        for (g, t), v in zip(SIDUT, args): E.prove('device under test: ' + g, E.call(see(), g) == v)
        E.prove('layers are kept: number', E.call(see(), 'getNLayers') == n)
        for g in old: E.prove('layers are kept: ' + g, E.call(see(), g, i) == old[g])
        E.cover('stored')
    return f


@unit('C18', SI, under=[SL])
def si_set(E):
    o = anyobj(E, SL); n = E.call(o, 'getNLayers'); i, j = E.int('i'), E.int('j')
    E.assume(And(i >= 0, i < n, j >= 0, j < n))
    g, t = SIFULL[E.I.choose(len(SIFULL))]; v = arg(E, t, 'value')
    old = {h: E.call(o, h, j) for h, u in SIFULL}; dut = {h: E.call(o, h) for h, u in SIDUT}
    E.callr(o, 'set' + g[3:], i, v)
    E.prove('set value: ' + g, E.call(o, g, i) == v)
    E.prove('number of layers is kept', E.call(o, 'getNLayers') == n)
    for h, u in SIFULL: E.prove('other values are kept: %s after %s' % (h, g), Implies(Or(z3.BoolVal(h != g), i != j), E.call(o, h, j) == old[h]))
    for h, u in SIDUT: E.prove('device under test is kept: %s after %s' % (h, g), E.call(o, h) == dut[h])
    E.cover('set')


@unit('C18', SI, under=[SL])
def si_outside(E):
    o = anyobj(E, SL); n = E.call(o, 'getNLayers'); i = E.int('i')
    E.assume(Or(i < 0, i >= n))
    g, t = SIFULL[E.I.choose(len(SIFULL))]
    refuses(E, o, g, i)
    k, r = E.try_call(o, 'set' + g[3:], i, arg(E, t, 'value'))
    E.prove('set%s refuses an index without layer' % g[3:], z3.BoolVal(k == 'throw'))
    E.cover('asked')


@unit('C18', SI, under=[SP])
def si_constructed(E):
    a, b, c, d = [E.int(x) for x in ('ID', 'Type', 'Number', 'Value')]
    o = E.new(SP, a, b, c)
    E.prove('no layers', E.call(E.callr(o, 'getSiPlanesLayerLayout'), 'getNLayers') == 0)
    def check(label, w):
        for x, v in zip(('ID', 'Type', 'Number'), w): E.prove('%s: %s' % (label, x), E.call(o, 'getSiPlanes' + x) == v)
    check('constructed', (a, b, c))
    k = E.I.choose(3); E.callr(o, 'setSiPlanes' + ('ID', 'Type', 'Number')[k], d)
    w = [a, b, c]; w[k] = d
    check('set', w); E.cover('constructed')


for _c in (SL, SP):
    for _f in (0, 1): unit('C18', SI, under=[_c], name='%s_addLayer%s' % (_c, '' if _f else '_without_rotations'))(si_add(_c, _f))
    unit('C18', SI, under=[_c], name='%s_addDUT' % _c)(si_dut(_c))

# ---------------------------------------------------------------- C18 tracker planes
TP = [G + 'TrackerPlanesLayerLayout.cc', G + 'TrackerPlanesParametersImpl.cc', G + 'GearParametersImpl.cc']
TM, TS, TL, TY, TPI = 'TrackerPlanesMaterialLayerImpl', 'TrackerPlanesSensitiveLayerImpl', 'TrackerPlanesLayerImpl', 'TrackerPlanesLayerLayoutImpl', 'TrackerPlanesParametersImpl'
TMG = [('ID', 'i'), ('Info', 's')] + [(x, 'd') for x in _lay]
TSG = TMG + [('NpixelX', 'i'), ('NpixelY', 'i'), ('PitchX', 'd'), ('PitchY', 'd'), ('ResolutionX', 'd'), ('ResolutionY', 'd')]


def tp_plane(cls, props):
    def f(E):
        o = anyobj(E, cls); g, t = props[E.I.choose(len(props))]; v = arg(E, t, 'value')
        old = {h: E.call(o, 'get' + h) for h, u in props}
        E.callr(o, 'set' + g, v)
        E.prove('set value: ' + g, E.call(o, 'get' + g) == v)
        for h, u in props:
            if h != g: E.prove('other values are kept: %s after %s' % (h, g), E.call(o, 'get' + h) == old[h])
        E.cover('set')
    return f


def elemlv(E, lv, i):
    """element i of the list a function returned by reference"""
    return E.I.index(lv, i) if hasattr(E.I, 'index') else lv.sub(('i', E.k(i)), lv.ty.a)


def lists(E, o):
    for f, v in E.fields(o):
        if isinstance(v, dict) and 'elem' in v: E.assume(And(v['len'] >= 0, v['len'] < (1 << 30)))


def layer_values(E, lay, im, js):
    """what a layer answers: id, info, numbers, and every value of its plane im / js"""
    out = {'getID': E.call(lay, 'getID'), 'getInfo': E.call(lay, 'getInfo'), 'getNMaterialLayers': E.call(lay, 'getNMaterialLayers'), 'getNSensitiveLayers': E.call(lay, 'getNSensitiveLayers')}
    for what, idx, props in (('Material', im, TMG), ('Sensitive', js, TSG)):
        if idx is None: continue
        e = elemlv(E, E.callr(lay, 'get%sLayerVec' % what), idx)
        for g, t in props: out[what + ' ' + g] = E.call(e, 'get' + g)
    return out


def tp_add(sensitive):
    what, props, add = ('Sensitive', TSG, 'addSensitiveLayer') if sensitive else ('Material', TMG, 'addMaterialLayer')
    def f(E):
        o = E.alloc(TL) if E.frame() is None else None
        E.I.write(o, E.I.mk(Ty('class', TL), 'layer')); lists(E, o)
        nm, ns = E.call(o, 'getNMaterialLayers'), E.call(o, 'getNSensitiveLayers')
        im, js = E.int('im'), E.int('js')
        hm, hs = E.branch(nm > 0), E.branch(ns > 0)
        if hm: E.assume(And(im >= 0, im < nm))
        if hs: E.assume(And(js >= 0, js < ns))
        old = layer_values(E, o, im if hm else None, js if hs else None)
        args = [arg(E, t, g) for g, t in props]
        E.callr(o, add, *args)
        now = layer_values(E, o, im if hm else None, js if hs else None)
        for k in old:
            grows = k == 'getN%sLayers' % what
            E.prove(('one plane more' if grows else 'is kept: ' + k), now[k] == (old[k] + 1 if grows else old[k]))
        e = elemlv(E, E.callr(o, 'get%sLayerVec' % what), ns if sensitive else nm)
        for (g, t), v in zip(props, args): E.prove('the new plane: ' + g, E.call(e, 'get' + g) == v)
        E.cover('added')
    return f


unit('C18', TP, under=[TM], name='tracker_material_plane')(tp_plane(TM, TMG))
unit('C18', TP, under=[TS], name='tracker_sensitive_plane')(tp_plane(TS, TSG))
unit('C18', TP, under=[TL], name='tracker_addMaterialLayer')(tp_add(0))
unit('C18', TP, under=[TL], name='tracker_addSensitiveLayer')(tp_add(1))


def ptr(E, v):
    from gearvc.interp import AddrV
    if isinstance(v, AddrV): return v.lv
    return v


def layout_values(E, o, see, i):
    """what the layout answers about layer i"""
    lay = ptr(E, E.callr(see(), 'getLayer', i))
    return lay


@unit('C18', TP, under=[TY])
def tracker_addLayer(E):
    which = E.I.choose(2)
    E.frame(); cls = (TY, TPI)[which]
    o = E.alloc(cls); E.I.write(o, E.I.mk(Ty('class', cls), 'layout'))
    see = (lambda: o) if cls == TY else (lambda: E.callr(o, 'getTrackerPlanesLayerLayout'))
    lists(E, see())
    new = E.alloc(TL); E.I.write(new, E.I.mk(Ty('class', TL), 'layer')); lists(E, new)
    n = E.call(see(), 'getNLayers'); i, j = E.int('i'), E.int('j')
    mode = E.I.choose(3)       # the new layer with a material plane, with a sensitive plane, an earlier layer
    if mode < 2:
        cnt = E.call(new, 'getN%sLayers' % ('Material', 'Sensitive')[mode]); E.assume(And(j >= 0, j < cnt))
        old = layer_values(E, new, j if mode == 0 else None, j if mode == 1 else None); at = n
    else:
        E.assume(And(i >= 0, i < n)); at = i
        lay = layout_values(E, o, see, i)
        lists(E, lay); E.assume(And(j >= 0, j < E.call(lay, 'getNMaterialLayers')))
        sens = E.call(lay, 'getNSensitiveLayers'); E.assume(sens > 0)
        old = layer_values(E, lay, j, 0)
    oid = {g: E.call(see(), g) for g in ('getID', 'getInfo')}
    E.callr(o, 'addLayer', ref(new))
    E.prove('one layer more', E.call(see(), 'getNLayers') == n + 1)
    now = layer_values(E, layout_values(E, o, see, at), j if mode != 1 else None, j if mode == 1 else 0 if mode == 2 else None)
    for k in old: E.prove(('the new layer: ' if mode < 2 else 'earlier layers are kept: ') + k, now[k] == old[k])
    for g in oid: E.prove('is kept: ' + g, E.call(see(), g) == oid[g])
    E.cover('added')


def ref(lv):
    return lv.root[1]


@unit('C18', TP, under=[TY])
def tracker_layer_outside(E):
    E.frame(); o = E.alloc(TY); E.I.write(o, E.I.mk(Ty('class', TY), 'layout')); lists(E, o)
    i = E.int('i', 0, (1 << 32) - 1); E.assume(i >= E.call(o, 'getNLayers'))
    k, r = E.attempt(lambda: E.callr(o, 'getLayer', i))
    E.prove('no layer', k == 'ok' and z3.is_expr(r) and r == 0 if k == 'ok' and z3.is_expr(r) else z3.BoolVal(False)); E.cover('asked')


@unit('C18', TP, under=[TL, TY, TPI])
def tracker_values(E):
    """identifiers, info strings and numbers of a layer, a layout and the description"""
    E.frame()
    cls, props = [(TL, [('ID', 'i'), ('Info', 's')]), (TY, [('ID', 'i'), ('Info', 's')]), (TPI, [('LayoutID', 'i'), ('LayoutType', 'i'), ('LayoutNumberOfLayers', 'i')])][E.I.choose(3)]
    o = E.alloc(cls); E.I.write(o, E.I.mk(Ty('class', cls), 'object')); lists(E, o)
    if cls == TPI: lists(E, E.flv(o, '_layerLayout'))
    count = {TL: ('getNMaterialLayers', 'getNSensitiveLayers'), TY: ('getNLayers',), TPI: ()}[cls]
    g, t = props[E.I.choose(len(props))]; v = arg(E, t, 'value')
    old = {h: E.call(o, 'get' + h) for h, u in props}; num = {c: E.call(o, c) for c in count}
    E.callr(o, 'set' + g, v)
    E.prove('set value: %s %s' % (cls, g), E.call(o, 'get' + g) == v)
    for h, u in props:
        if h != g: E.prove('other values are kept: %s %s after %s' % (cls, h, g), E.call(o, 'get' + h) == old[h])
    for c in count: E.prove('planes are kept: %s %s' % (cls, c), E.call(o, c) == num[c])
    E.cover('set')


@unit('C18', TP, under=[TPI, TL, TY])
def tracker_constructed(E):
    a, b, c = E.int('ID'), E.int('Type'), E.int('Number')
    o = E.new(TPI, a, b, c)
    for x, v in zip(('ID', 'Type', 'NumberOfLayers'), (a, b, c)): E.prove('constructed: ' + x, E.call(o, 'getLayout' + x) == v)
    E.prove('no layers', E.call(E.callr(o, 'getTrackerPlanesLayerLayout'), 'getNLayers') == 0)
    l = E.new(TL)
    E.prove('no planes', And(E.call(l, 'getNMaterialLayers') == 0, E.call(l, 'getNSensitiveLayers') == 0))
    E.cover('constructed')


@unit('C18', TP, under=[TL])
def tracker_layer_of_lists(E):
    """a layer constructed from lists of planes holds copies of them"""
    E.frame()
    m = E.I.local(Ty('vec', Ty('class', TM)), E.I.mk(Ty('vec', Ty('class', TM)), 'materials'), 'm')
    s = E.I.local(Ty('vec', Ty('class', TS)), E.I.mk(Ty('vec', Ty('class', TS)), 'sensors'), 's')
    nm, ns = E.I.read(m)['len'], E.I.read(s)['len']; i = E.int('i')
    E.assume(And(nm >= 0, nm < (1 << 30), ns >= 0, ns < (1 << 30)))
    o = E.new(TL, m, s)
    E.prove('as many planes', And(E.call(o, 'getNMaterialLayers') == nm, E.call(o, 'getNSensitiveLayers') == ns))
    what, props, src, n = [('Material', TMG, m, nm), ('Sensitive', TSG, s, ns)][E.I.choose(2)]
    E.assume(And(i >= 0, i < n))
    a, b = elemlv(E, src, i), elemlv(E, E.callr(o, 'get%sLayerVec' % what), i)
    for g, t in props: E.prove('%s plane: %s' % (what, g), E.call(a, 'get' + g) == E.call(b, 'get' + g))
    E.cover('constructed')


@unit('C18', TP, under=[TY])
def tracker_layer_by_id(E):
    E.frame(); o = E.alloc(TY); E.I.write(o, E.I.mk(Ty('class', TY), 'layout')); lists(E, o)
    n = E.call(o, 'getNLayers'); ID = E.int('id'); j = E.int('j')
    k, r = E.attempt(lambda: E.callr(o, 'getLayerByID', ID))
    none = z3.is_expr(r) and z3.is_int_value(z3.simplify(r)) and z3.simplify(r).as_long() == 0
    E.assume(And(j >= 0, j < n))
    idj = E.call(ptr(E, E.callr(o, 'getLayer', j)), 'getID')
    if k == 'throw': E.fail('answers')
    elif none:
        E.cover('none'); E.prove('no layer has the ID', idj != ID)
    else:
        E.cover('found'); lay = ptr(E, r)
        E.prove('the layer has the ID', E.call(lay, 'getID') == ID)

# ---------------------------------------------------------------- C17 forward disks
FT = [G + 'FTDLayerLayoutImpl.cc', G + 'FTDParametersImpl.cc', G + 'GearParametersImpl.cc']
FL, FP = 'FTDLayerLayoutImpl', 'FTDParametersImpl'
# in the order of the arguments of addLayer
FGET = [('getNPetals', 'i'), ('getNSensors', 'i'), ('isDoubleSided', 'b'), ('getSensorType', 'i'), ('getPhiHalfDistance', 'd'), ('getPhi0', 'd'), ('getAlpha', 'd'), ('getZposition', 'd'), ('getZoffset', 'd'), ('getZoffsetSign0', 'd'),
        ('getSupportRinner', 'd'), ('getSupportThickness', 'd'), ('getSupportLengthMin', 'd'), ('getSupportLengthMax', 'd'), ('getSupportWidth', 'd'), ('getSupportRadLength', 'd'),
        ('getSensitiveRinner', 'd'), ('getSensitiveThickness', 'd'), ('getSensitiveLengthMin', 'd'), ('getSensitiveLengthMax', 'd'), ('getSensitiveWidth', 'd'), ('getSensitiveRadLength', 'd')]


def ftd(E, cls):
    E.frame(); o = E.alloc(cls); E.I.write(o, E.I.mk(Ty('class', cls), 'ftd'))
    lay = E.flv(o, '_layer') if cls == FP else o
    n = None
    for f in ('_lVec', '_sVec'):
        v = E.field(lay, f)['len']
        E.assume(And(v >= 0, v < (1 << 29)) if n is None else v == n); n = v
    return o, ((lambda: E.callr(o, 'getFTDLayerLayout')) if cls == FP else (lambda: o)), n


def ftd_add(cls):
    def f(E):
        o, see, n = ftd(E, cls)
        args = [arg(E, t, g) for g, t in FGET]
        E.assume(args[13] != args[12])                 # a trapezoid: its two lengths differ
        some = E.branch(n > 0); i = E.int('i')
        if some:
            E.assume(And(i >= 0, i < n)); old = {g: E.call(see(), g, i) for g, t in FGET}
        E.callr(o, 'addLayer', *args)
        E.prove('one layer more', E.call(see(), 'getNLayers') == n + 1)
        for (g, t), v in zip(FGET, args): E.prove('the new layer: ' + g, E.call(see(), g, n) == v)
        if some:
            for g in old: E.prove('earlier layers are kept: ' + g, E.call(see(), g, i) == old[g])
        E.cover('added')
    return f


unit('C17', FT, under=[FL], name='layout_addLayer')(ftd_add(FL))
unit('C17', FT, under=[FP], name='parameters_addLayer')(ftd_add(FP))


@unit('C17', FT, under=[FL])
def mirrored_disk(E):
    o, see, n = ftd(E, FL); i = E.int('i'); E.assume(And(i >= 0, i < n))
    for g, t in FGET: E.prove('the disk at negative z has the same ' + g, E.call(o, g, i) == E.call(o, g, i + n))
    E.cover('asked')


@unit('C17', FT, under=[FL])
def disk_outside(E):
    o, see, n = ftd(E, FL); i = E.int('i')
    E.assume(Or(i < 0, i >= 2 * n))
    g = FGET[E.I.choose(len(FGET))][0]
    refuses(E, o, g, i); E.cover('asked')


@unit('C17', FT, under=[FL])
def z_positions(E):
    o, see, n = ftd(E, FL); i, p, s = E.int('i'), E.int('petal'), E.int('sensor')
    E.assume(And(i >= 0, i < 2 * n, p >= 0)); E.assume(p < E.call(o, 'getNPetals', i))
    z, dz, s0 = E.call(o, 'getZposition', i), E.call(o, 'getZoffset', i), E.call(o, 'getZoffsetSign0', i)
    E.assume(Or(s0 == 1, s0 == -1))
    want = z + If(p % 2 == 0, s0, -s0) * dz
    first = E.branch(i < n)
    ns = E.call(o, 'getNSensors', i); two = E.call(o, 'isDoubleSided', i)
    half = (E.call(o, 'getSupportThickness', i) + E.call(o, 'getSensitiveThickness', i)) / 2
    E.assume(want > 0)                                  # the stored disk is at positive z
    want = want if first else -want
    k, got = E.try_call(o, 'getSupportZposition', i, p)
    if k == 'throw': return E.fail('a petal of an existing disk has a position')
    E.prove('z of the support', got == want)
    k, r = E.try_call(o, 'getSensitiveZposition', i, p, s)
    ok = And(s >= 1, s <= ns)
    if k == 'throw':
        E.cover('no such sensor'); E.prove('only a sensor that does not exist is refused', Not(ok)); E.prove('refused with the exception of the library', z3.BoolVal(E.exc_is(r)))
    else:
        E.cover('sensor'); E.prove('a sensor that does not exist is refused', ok)
        out = z3.RealVal(1) if first else z3.RealVal(-1)
        back = And(two, s > ns / 2)
        E.prove('the sensor lies on its side of the support', r == want + If(back, out, -out) * half)


@unit('C17', FT, under=[FL])
def phi_and_radius(E):
    o, see, n = ftd(E, FL); i, p = E.int('i'), E.int('petal')
    E.assume(And(i >= 0, i < 2 * n, p >= 0))
    E.prove('phi of a petal', E.call(o, 'getPhiPetalCd', i, p) == E.call(o, 'getPhi0', i) + 2 * z3.ToReal(p) * E.call(o, 'getPhiHalfDistance', i))
    if not E.branch(i < n): return
    for sens, what in ((False, 'Support'), (True, 'Sensitive')):
        E.prove('maximum radius: ' + what, E.call(o, 'getMaxRadius', i, sens) == E.call(o, 'get%sRinner' % what, i) + E.call(o, 'get%sWidth' % what, i))
    E.cover('asked')


@unit('C17', FT, under=[FP])
def ftd_constructed(E):
    E.prove('no layers', E.call(E.callr(E.new(FP), 'getFTDLayerLayout'), 'getNLayers') == 0); E.cover('constructed')

# ---------------------------------------------------------------- C16 planar ladders
from gearvc import stdlib
ZP = [G + 'ZPlanarLayerLayout.cc', G + 'ZPlanarParametersImpl.cc', G + 'GearParametersImpl.cc']
ZL, ZI, V3 = 'ZPlanarLayerLayoutImpl', 'ZPlanarParametersImpl', 'Vector3D'
ZQ = ['Distance', 'Offset', 'Thickness', 'Length', 'Width', 'RadLength']
ZGET = [('getNLadders', 'i'), ('getPhi0', 'd')] + [('get%s%s' % (w, x), 'd') for w in ('Ladder', 'Sensitive') for x in ZQ]
EPS = z3.RealVal('1/10000')


def zobj(E, cls):
    o = anyobj(E, cls)
    return o, (E.flv(o, '_layer') if cls == ZI else o)


def zl_add(cls):
    def f(E):
        o, lay = zobj(E, cls); together(E, lay)
        see = (lambda: E.callr(o, 'getZPlanarLayerLayout')) if cls == ZI else (lambda: o)
        args = [arg(E, t, g[3:]) for g, t in ZGET]
        stored(E, o, see, 'addLayer', args, [(g, v) for (g, t), v in zip(ZGET, args)], 'getNLayers', None, others=())
        E.prove('the edges of both volumes have one reference', sameref(E, lay, E.call(see(), 'getNLayers') - 1))
    return f


def sameref(E, lay, i):
    """class invariant: ladder and sensitive volume of a layer are stored with the same angle"""
    a, b = [E.sfield(E.at(E.field(lay, f), i), 'internalPhi0') for f in ('_lVec', '_sVec')]
    return a == b


for _c in (ZL, ZI): unit('C16', ZP, under=[_c], name='%s_addLayer' % _c)(zl_add(_c))


@unit('C16', ZP, under=[ZL])
def zl_outside(E):
    o, lay = zobj(E, ZL); together(E, lay); n = E.call(o, 'getNLayers'); i = E.int('i'); E.assume(Or(i < 0, i >= n))
    G_ = [g for g, t in ZGET]; g = (G_ + ['getMaxRadius', 'getStartInnerPhi', 'getEndInnerPhi', 'getStartOuterPhi', 'getEndOuterPhi'])[E.I.choose(len(G_) + 5)]
    if g in G_: refuses(E, o, g, i)
    else: refuses(E, o, g, i, z3.BoolVal(bool(E.I.choose(2))))
    E.cover('asked')


def zl_value(E, lay, i, sens, names=ZQ): return {x: E.call(lay, 'get%s%s' % ('Sensitive' if sens else 'Ladder', x), i) for x in names}


@unit('C16', ZP, under=[ZL])
def zl_edges(E):
    """the angles of the four edges (clockwise from the y-axis): tangents of the edges, and the largest radius"""
    o, lay = zobj(E, ZL); together(E, lay); n = E.call(o, 'getNLayers'); i = E.int('i'); E.assume(And(i >= 0, i < n))
    sens = bool(E.I.choose(2)); v = zl_value(E, o, i, sens); E.assume(sameref(E, o, i)); i0 = E.sfield(E.at(E.field(o, '_sVec' if sens else '_lVec'), i), 'internalPhi0')
    E.prove('reference', i0 == PI_ / 2 - E.call(o, 'getPhi0', i))
    d, t, w, f = v['Distance'], v['Thickness'], v['Width'], v['Offset']; E.assume(And(d > 0, t >= 0, w > 0))
    for g, a, b in (('StartInner', -w / 2 - f, d), ('EndInner', w / 2 - f, d), ('StartOuter', -w / 2 - f, d + t), ('EndOuter', w / 2 - f, d + t)):
        ang = E.call(o, 'get%sPhi' % g, i, z3.BoolVal(sens)) - i0
        s, c = stdlib.sincos(E.I, ang)
        E.prove(g + ' quadrant', And(ang > -PI_ / 2, ang < PI_ / 2))
        E.prove(g + ' tangent', s * b == a * c)
    r = E.call(o, 'getMaxRadius', i, z3.BoolVal(sens)); m = If(f >= 0, w / 2 + f, w / 2 - f)
    E.prove('largest radius', And(r >= 0, r * r == (d + t) * (d + t) + m * m))
    E.cover('asked')


@unit('C16', ZP, under=[ZI])
def zp_shell(E):
    ty = E.int('type'); v = [E.real(x) for x in ('rin', 'rout', 'half', 'gap', 'radlen')]
    o = E.new(ZI, ty, *v)
    E.prove('type', E.call(o, 'getType') == ty)
    for g, x in zip(('InnerRadius', 'OuterRadius', 'HalfLength', 'Gap', 'RadLength'), v): E.prove(g, E.call(o, 'getShell' + g) == x)
    E.prove('no layers', E.call(E.callr(o, 'getZPlanarLayerLayout'), 'getNLayers') == 0); E.cover('constructed')


def v3(E, cs, name='v'):
    t = E.I.mk(Ty('class', V3), name); ls = list(leaves(t))
    for (p, _), c in zip(ls, cs): t = setleaf(t, p, E.k(c))
    return t


def v3c(t): return [v for p, v in leaves(t)]


def dot(a, b): return sum(x * y for x, y in zip(a, b))


def frame3(E):
    """an orthogonal frame as the ladders have it: turned about z, any of its axes as normal"""
    ph = E.real('phi'); s, c = stdlib.sincos(E.I, ph); z = z3.RealVal((1, -1)[E.I.choose(2)]); o = z3.RealVal(0)
    base, side, zz = [s, c, o], [c, -s, o], [o, o, z]
    return [(base, side, zz), (side, base, zz), (zz, base, side)][E.I.choose(3)]


def clamp(x, lo, hi): return If(x > hi, hi, If(x < lo, lo, x))


@unit('C16', ZP, under=[ZI + '::correctToBorderPoint'])
def zp_border(E):
    """the point of the rectangle nearest to a point of its plane"""
    o = anyobj(E, ZI); n, u, v = frame3(E); a, b = E.real('a'), E.real('b')
    lo, hi, vlo, vhi = [E.real(x) for x in ('minU', 'maxU', 'minV', 'maxV')]; E.assume(And(lo <= hi, vlo <= vhi))
    w = [a * x + b * y for x, y in zip(u, v)]
    r = v3c(E.call(o, 'correctToBorderPoint', v3(E, w, 'w'), v3(E, u, 'u'), v3(E, v, 'v'), lo, hi, vlo, vhi))
    E.prove('along u', dot(r, u) == clamp(a, lo, hi)); E.prove('along v', dot(r, v) == clamp(b, vlo, vhi)); E.prove('in the plane', dot(r, n) == 0)
    E.cover('corrected')


@unit('C16', ZP, under=[ZI + '::distanceToPlane'])
def zp_plane(E):
    """the vector to the nearest point of a rectangle: perpendicular to the plane of it inside its limits"""
    o = anyobj(E, ZI); n, u, v = frame3(E); h, a, b = E.real('h'), E.real('a'), E.real('b')
    lo, hi, vlo, vhi = [E.real(x) for x in ('minU', 'maxU', 'minV', 'maxV')]; E.assume(And(lo <= hi, vlo <= vhi))
    r = [E.real(x) for x in ('rx', 'ry', 'rz')]; p = [q + h * x + a * y + b * z for q, x, y, z in zip(r, n, u, v)]

    def border(this, args):
        w = v3c(args[0]); E.prove('directions', And(*[x == y for k, d in ((1, u), (2, v)) for x, y in zip(v3c(args[k]), d)])); E.prove('limits', And(*[x == y for x, y in zip(args[3:7], (lo, hi, vlo, vhi))]))
        E.lemma('in the plane', And(dot(w, n) == 0, dot(w, u) == a, dot(w, v) == b))
        return v3(E, [clamp(a, lo, hi) * x + clamp(b, vlo, vhi) * y for x, y in zip(u, v)])
    E.hook(ZI + '::correctToBorderPoint', border)
    w = v3c(E.call(o, 'distanceToPlane', v3(E, p), v3(E, r), v3(E, n), v3(E, u), v3(E, v), lo, hi, vlo, vhi))
    E.prove('along n', dot(w, n) == -h); E.prove('along u', dot(w, u) == clamp(a, lo, hi) - a); E.prove('along v', dot(w, v) == clamp(b, vlo, vhi) - b)
    E.cover('computed')


@unit('C16', ZP, under=[ZI + '::correctPhiRange'])
def zp_range(E):
    o = anyobj(E, ZI); x = E.real('x'); r = E.call(o, 'correctPhiRange', x)
    E.prove('range', And(r > -PI_, r <= PI_)); k = z3.ToInt((x - r) / (2 * PI_) + z3.Q(1, 2)); E.prove('whole turns', r == x - 2 * PI_ * z3.ToReal(k)); E.cover('computed')


@unit('C16', ZP, under=[ZI + '::getPhiPoint'], trig_atom=True)
def zp_phi(E):
    o = anyobj(E, ZI); x, y, z = [E.real(c) for c in 'xyz']
    E.hook(ZI + '::correctPhiRange', lambda this, a: a[0] + 2 * PI_ * z3.ToReal(E.int('turns')))
    f = E.call(o, 'getPhiPoint', v3(E, (x, y, z))); s, c = stdlib.sincos(E.I, f); r = stdlib.sqrt(E.I, x * x + y * y)
    E.lemma('radius', And(r >= 0, r * r == x * x + y * y)); r2 = stdlib.sqrt(E.I, z3.simplify(y * y + x * x))
    E.prove('clockwise from y', And(x == r2 * s, y == r2 * c)); E.cover('computed')


@unit('C16', ZP, under=[ZI + '::isEqual', ZI + '::differsLess'])
def zp_equal(E):
    o = anyobj(E, ZI); a, b = E.real('a'), E.real('b'); m = lambda x: If(x >= 0, x, -x)
    q = E.call(o, 'isEqual', a, b, sig=['double', 'double'])
    E.prove('close numbers only', Implies(q, Or(m(a - b) < 2 * EPS, m(a - b) * 2 < EPS * (m(a) + m(b))))); E.prove('equal numbers', Implies(a == b, q))
    E.prove('small numbers', E.call(o, 'differsLess', a, b) == (m(a) + m(b) < EPS)); E.cover('compared')


def mag(x): return If(x >= 0, x, -x)


class Ladders:
    """a planar detector with arbitrary sensible layers, and a point"""

    def __init__(self, E, sens):
        self.E, self.sens = E, sens
        self.o = anyobj(E, ZI); self.lay = E.flv(self.o, '_layer'); together(E, self.lay)
        E.elem_inv(E.field(self.lay, '_lVec'), self.sane); E.elem_inv(E.field(self.lay, '_sVec'), self.sane)
        self.gap = E.call(self.o, 'getShellGap'); self.half = E.call(self.o, 'getShellHalfLength'); E.assume(self.gap >= 0)
        self.p = [E.real(c) for c in 'xyz']
        self.hooks()

    def rec(self, f, i):
        E = self.E; t = E.at(E.field(self.lay, f), i)
        return {x: E.sfield(t, x) for x in ['NLadders', 'internalPhi0'] + ZQ}

    def sane(self, i):
        l, s = self.rec('_lVec', i), self.rec('_sVec', i)
        c = [l['internalPhi0'] == s['internalPhi0'], l['NLadders'] == s['NLadders'], l['NLadders'] >= 1]
        for v in (l, s): c += [v['Distance'] > 0, v['Thickness'] > 0, v['Width'] > 0, v['Length'] > 0]
        return And(*c)

    def vol(self, i): return self.rec('_sVec' if self.sens else '_lVec', i)

    def angle(self, i, k):
        """the normal of ladder k, clockwise from y"""
        v = self.vol(i); return v['internalPhi0'] + z3.ToReal(k) * (2 * PI_ / z3.ToReal(v['NLadders']))

    def local(self, i, k):
        """the point seen from ladder k of layer i: along the normal from its inner face, along its side, from z=0"""
        s, c = stdlib.sincos(self.E.I, self.angle(i, k)); x, y, z = self.p
        return x * s + y * c - self.vol(i)['Distance'], x * c - y * s, mag(z)

    def rect(self, i, k, sg):
        """as the code computes it: distance to the inner face of a ladder, and the point seen from it"""
        E = self.E; v = self.vol(i); s, c = stdlib.sincos(E.I, self.angle(i, k)); o, d = z3.RealVal(0), v['Distance']
        n, u, q = [s, c, o], [c, -s, o], [o, o, z3.RealVal(sg)]
        w, h = self.nearest(self.p, [d * e for e in n], n, u, q, -v['Width'] / 2 - v['Offset'], v['Width'] / 2 - v['Offset'], self.gap / 2, v['Length'] + self.gap / 2)
        return stdlib.sqrt(E.I, dot(w, w)), h, w

    @staticmethod
    def nearest(p, r, n, u, v, lo, hi, vlo, vhi):
        w = [x - y for x, y in zip(p, r)]; h, x, y = [dot(w, d) for d in (n, u, v)]
        return [-h * n[j] + (clamp(x, lo, hi) - x) * u[j] + (clamp(y, vlo, vhi) - y) * v[j] for j in range(3)], (h, x, y)

    def excess(self, i, k):
        """inside the box of ladder k of layer i if all are <= 0"""
        b, a, z = self.local(i, k); v = self.vol(i)
        return [-b, b - v['Thickness'], -v['Width'] / 2 - v['Offset'] - a, a - (v['Width'] / 2 - v['Offset']), self.gap / 2 - z, z - v['Length'] - self.gap / 2]

    def hooks(self):
        E = self.E

        def turn(this, a):
            r = E.I.fresh('turned', RealS) if hasattr(E.I, 'fresh') else None
            k = E.I.fresh('turns', IntS)
            E.assume(And(a[0] + 2 * PI_ * z3.ToReal(k) > -PI_, a[0] + 2 * PI_ * z3.ToReal(k) <= PI_))
            return a[0] + 2 * PI_ * z3.ToReal(k)
        E.hook(ZI + '::correctPhiRange', turn)

        def plane(this, a):
            p, r, n, u, v = [v3c(x) for x in a[:5]]; lo, hi, vlo, vhi = a[5:9]
            E.prove('distance to a rectangle: limits in order', And(lo <= hi, vlo <= vhi))
            E.prove('distance to a rectangle: orthonormal', And(*[dot(d, e) == (1 if d is e else 0) for d in (n, u, v) for e in (n, u, v)]))
            return v3(E, self.nearest(p, r, n, u, v, lo, hi, vlo, vhi)[0])
        E.hook(ZI + '::distanceToPlane', plane)

        def equal(this, a):
            if len(a) != 2 or isinstance(a[0], dict): raise Unsupported('isEqual of vectors')
            q = E.I.fresh('equal', z3.BoolSort()); x, y = a
            E.assume(And(Implies(q, Or(mag(x - y) < 2 * EPS, mag(x - y) * 2 < EPS * (mag(x) + mag(y)))), Implies(x == y, q)))
            return q
        E.hook(ZI + '::isEqual', equal, pure=True)
        E.hook(ZI + '::differsLess', lambda this, a: mag(a[0]) + mag(a[1]) < EPS, pure=True)

        def phi(this, a):
            f = E.I.fresh('phi', RealS); x, y, z = v3c(a[0]); s, c = stdlib.sincos(E.I, f); r = stdlib.sqrt(E.I, x * x + y * y)
            E.assume(And(f > -PI_, f <= PI_, x == r * s, y == r * c)); return f
        E.hook(ZI + '::getPhiPoint', phi)


class Lemma:
    """a fact about real numbers: proved once (a unit of its own), used on the terms of a path"""

    def __init__(self, prop, name, n):
        self.prop, self.name, self.n = prop, name, n

    def __call__(self, *a):
        p, q = self.fn(*a)
        return And(*p), And(*q)

    def use(self, E, *a):
        p, q = self(*a); E.assume(Implies(p, q)); E.I.assumptions.add('lemma %s (proved in unit lemma_%s)' % (self.name, self.name))

    def define(self, fn):
        self.fn = fn

        def prove(E):
            E.frame()
            a = [E.real('x%d' % i) for i in range(self.n)]; p, q = fn(*a)
            for f in p: E.assume(f)
            E.cover('premises')
            for step in getattr(fn, 'steps', lambda *x: [])(E, *a): E.lemma('step', step)
            for i, f in enumerate(q): E.prove('conclusion %d' % i, f)
        unit(self.prop, ZP, name='lemma_' + self.name)(prove)
        return self


def lemma(prop, n): return lambda fn: Lemma(prop, fn.__name__.lower(), n).define(fn)


@lemma('C16', 4)
def ROOT(C, x, y, z): return [C >= 0, Implies(x * x + y * y + z * z >= 0, C * C == x * x + y * y + z * z)], [C * C == x * x + y * y + z * z]


@lemma('C16', 5)
def SEEN(s, c, d, x, y):
    return [s * s + c * c == 1], [(x - d * s) * s + (y - d * c) * c == x * s + y * c - d, (x - d * s) * c - (y - d * c) * s == x * c - y * s]


def isclose(x, y): return Or(mag(x - y) < 2 * EPS, mag(x - y) * 2 < EPS * (mag(x) + mag(y)))


@lemma('C16', 10)
def ON_FACE(s, c, h, A, Z, T, C, u, v, w):
    n = (s, c, z3.RealVal(0)); ws = (u, v, w)
    p = [s * s + c * c == 1, u == -h * s + A * c, v == -h * c - A * s, w == Z, T > 0, C >= 0, C * C == u * u + v * v + w * w, Or(C <= T, isclose(C, T))]
    p += [Or(mag(n[k]) + mag(ws[k]) < EPS, isclose(ws[k], -C * n[k])) for k in range(3)]
    band = 8 * EPS * (1 + T)
    return p, [h >= -band, h <= T + band, A >= -band, A <= band, Z >= -band, Z <= band]


@lemma('C16', 3)
def ALONG(C, x, n): return [C >= 0, x <= C, x >= -C, n <= 1, n >= -1, Or(mag(n) + mag(x) < EPS, isclose(x, -C * n))], [x + C * n <= 2 * EPS + EPS * C, x + C * n >= -2 * EPS - EPS * C]


@lemma('C16', 3)
def SCALED(e, f, t): return [e <= t, e >= -t, f <= 1, f >= -1], [e * f <= t, e * f >= -t]


@lemma('C16', 4)
def LONGEST(C, x, y, z): return [C >= 0, C * C == x * x + y * y + z * z], [x <= C, x >= -C]


@lemma('C16', 2)
def UNIT(s, c): return [s * s + c * c == 1], [s <= 1, s >= -1]


@lemma('C16', 7)
def TURNED(s, c, h, A, u, v, C):
    e0, e1 = u + C * s, v + C * c
    return [s * s + c * c == 1, u == -h * s + A * c, v == -h * c - A * s], [h == C - e0 * s - e1 * c, A == e0 * c - e1 * s]


def _steps(E, s, c, h, A, Z, T, C, u, v, w):
    t = 2 * EPS + EPS * C; e0, e1 = u + C * s, v + C * c
    UNIT.use(E, s, c); UNIT.use(E, c, s); LONGEST.use(E, C, u, v, w); LONGEST.use(E, C, v, u, w); LONGEST.use(E, C, w, u, v)
    for x, n in ((u, s), (v, c), (w, z3.RealVal(0))): ALONG.use(E, C, x, n)
    TURNED.use(E, s, c, h, A, u, v, C)
    for e in (e0, e1):
        for f in (s, c): SCALED.use(E, e, f, t)
    return [C <= T + 3 * EPS + 2 * EPS * T]


ON_FACE.fn.steps = _steps


def consts(e):
    seen, st, out = set(), [e], []
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        st.extend(x.children())
    return out


def roots(E):
    """the square roots the path has taken"""
    seen, st, out = set(), list(E.I.st.pc), []
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x): continue
        seen.add(x.get_id())
        if x.num_args() == 1 and x.decl().eq(stdlib.SQRT): out.append(x)
        st.extend(x.children())
    return out


def zp_inside_of(E, sens, shell, back):
    """the sensor reported contains the point (up to the tolerance of the code)"""
    L = Ladders(E, sens); E.assume(L.half > 1 if shell else L.half == 0); E.assume(L.p[2] < 0 if back else L.p[2] >= 0)
    for g in ('MaxRadius', 'StartInnerPhi', 'EndInnerPhi', 'StartOuterPhi', 'EndOuterPhi'): E.hook(ZL + '::get' + g, lambda this, a: E.I.fresh('edge', RealS))
    sid = E.alloc('SensorID'); E.I.write(sid, E.I.mk(Ty('class', 'SensorID'), 'id'))
    r = E.call(L.o, 'isPointInLadder', v3(E, L.p, 'p'), z3.BoolVal(sens), sid.root[1], sig=['Vector3D', 'bool', 'SensorID *'])
    if not E.branch(r): E.cover('outside'); return
    E.cover('inside')
    lay, mod, side = [E.field(sid, f) for f in ('layer', 'module', 'side')]
    nl = E.call(L.lay, 'getNLayers'); E.prove('layer exists', And(lay >= 0, lay < nl))
    N = L.vol(lay)['NLadders']; idx = If(mod == 0, z3.IntVal(0), N - mod)
    E.lemma('module exists', And(mod >= 0, mod < N)); E.prove('side', side == If(L.p[2] >= 0, 1, -1)); E.prove('sensor', E.field(sid, 'sensor') == 0)
    ks = [v for v in consts(mod) if v.decl().name().startswith('k!')]
    k = next((q for q in [v + 1 for v in ks] + ks + [z3.IntVal(0)] if E.I.valid(idx == q)[0] == 'unsat'), idx)
    E.lemma('the ladder of the module', idx == k)
    b, a, z = L.local(lay, k); v = L.vol(lay); T = v['Thickness']
    da = clamp(a, -v['Width'] / 2 - v['Offset'], v['Width'] / 2 - v['Offset']) - a; dz = clamp(z, L.gap / 2, v['Length'] + L.gap / 2) - z
    s, c = stdlib.sincos(E.I, L.angle(lay, k)); sg = -1 if back else 1
    w = [-b * s + da * c, -b * c - da * s, sg * dz]
    C, (h, x, y), w = L.rect(lay, k, -1 if back else 1); s, c = stdlib.sincos(E.I, L.angle(lay, k)); v = L.vol(lay); T = v['Thickness']
    lo, hi = -v['Width'] / 2 - v['Offset'], v['Width'] / 2 - v['Offset']; A, Z = clamp(x, lo, hi) - x, clamp(y, L.gap / 2, v['Length'] + L.gap / 2) - y
    ROOT.use(E, C, *w); SEEN.use(E, s, c, v['Distance'], *L.p[:2])
    E.lemma('the nearest point of the face is straight below', ON_FACE(s, c, h, A, Z if not back else -Z, T, C, *w)[0])
    ON_FACE.use(E, s, c, h, A, Z if not back else -Z, T, C, *w)
    band = 8 * EPS * (1 + T)
    for j, e in enumerate(L.excess(lay, k)): E.prove('the sensor contains the point: limit %d' % j, e <= band)
    if shell: E.prove('inside the shell', And(z <= L.half + L.gap / 2, z >= L.gap / 2))


for _s in (False, True):
    for _h in (False, True):
        for _b in (False, True): unit('C16', ZP, under=[ZI + '::isPointInLadder'], name='zp_inside_of_%s%s%s' % ('sensitive' if _s else 'ladder', '_shell' if _h else '', '_back' if _b else ''), trig_atom=True, budget=400, feas_lin=True)(lambda E, s=_s, h=_h, b=_b: zp_inside_of(E, s, h, b))
