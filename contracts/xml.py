"""C19 description round trip, C20 parameter round trip, C21 malformed descriptions, C22 merging

Writers and readers are verified against one format table per detector kind.  The writer's contract: the element it
returns has exactly the table's attributes, each printed from the table's query.  The reader's contract: it calls the
constructor / addLayer with the numbers read from the table's attributes, in order, once per element, and throws a
ParseException when a mandatory one is missing.  The DOM (TinyXML) is an assumed contract: elements keep the attributes
that were set and the children in the order in which they were inserted; printing and reading a number is the identity
up to the printed precision.
"""
import z3
from z3 import And, Or, Not, If, Implies
from gearvc.spec import unit
from gearvc.interp import CppThrow, AddrV, Unsupported
from gearvc.sym import *
from gearvc.types import Ty, parse
from gearvc.extract import Cls, _find_const

X = 'gearxml/'
HAS = z3.Function('has attribute', IntS, IntS, BoolS)
ATTR = z3.Function('attribute', IntS, IntS, IntS)
FC = z3.Function('first child', IntS, IntS, IntS)
CHILD = z3.Function('child', IntS, IntS, IntS, IntS)      # 0 before the first, then 1, 2, ...
CN = z3.Function('children', IntS, IntS, IntS)
ATOF = z3.Function('atof1Int', IntS, RealS)
ATOI = z3.Function('atoi1Int', IntS, IntS)


def ptr(a):
    """pointer argument as a term"""
    if isinstance(a, AddrV): a = a.lv
    if isinstance(a, LV): return a.root[1]
    return a


def hk(fn):
    """a hook whose arguments are values: pointers and strings as terms"""
    def go(I, f, this, a): return fn(I, f, this, vals(I, a))
    return go


def vals(I, a):
    out = []
    for x in a:
        if isinstance(x, LV) and x.ty.k != 'class': x = I.load(x)
        out.append(ptr(x))
    return out


class Dom:
    """assumed contract of the document object model, both directions"""

    def __init__(self, E, complete=None, table=None):
        self.E, self.nodes, self.complete, self.table = E, [], complete, table or {}
        self.root = E.int('element', 1)
        self.onchild, self.calls = {}, []
        I = E.I
        self.ghost = None
        C = Cls('TiXmlElement'); C.fields = [('node', 'int', None)]; C.complete = True
        E.p.classes['TiXmlElement'] = C
        G = E.p.classes['Ghost'] = Cls('Ghost'); G.complete = True; G.fields = []
        H = I.hooks
        H['TiXmlElement::TiXmlElement'] = self.ctor
        H['TiXmlElement::SetAttribute'] = self.set
        H['TiXmlElement::SetDoubleAttribute'] = self.set
        H['TiXmlNode::InsertEndChild'] = self.insert
        H['None::getXMLAttribute'] = hk(self.get)
        H['None::getOptionalXMLAttribute'] = hk(self.getopt)
        H['None::getChildElementValue'] = hk(lambda I, f, t, a: self.need(FC(a[0], a[1]), self.lit('value'), FC(a[0], a[1])))
        H['None::getOptionalChildElementValue'] = hk(self.getoptchild)
        for nm in ('FirstChildElement', 'FirstChild'):
            for c in ('TiXmlNode', 'TiXmlElement'): H['%s::%s' % (c, nm)] = hk(self.first)
        H['TiXmlNode::IterateChildren'] = hk(self.iterate)
        H['TiXmlNode::ToElement'] = lambda I, f, t, a: t.root[1]
        H['TiXmlNode::Value'] = lambda I, f, t, a: z3.Function('tag', IntS, IntS)(t.root[1])
        H['GearParametersXML::setParametersFromXML'] = hk(self.setparams)
        H['GearParametersXML::getXMLForParameters'] = self.getparams
        I.loop_specs.append(self.loop)
        self.groups, self.alias = [], {}
        self.params, self.tables, self.elements = [], [], set()

    # ---------------------------------------------------------------- ghost state
    def counters(self, *names):
        """integer ghost variables, 0 at the start"""
        self.E.p.classes['Ghost'].fields = [(n, 'int', None) for n in names]
        self.ghost = self.E.alloc('Ghost')
        for n in names: self.E.I.write(self.E.flv(self.ghost, n), z3.IntVal(0))

    def cnt(self, n): return self.E.field(self.ghost, n)

    def setcnt(self, n, v): self.E.I.write(self.E.flv(self.ghost, n), z3.simplify(v) if z3.is_expr(v) else z3.IntVal(v))

    def lit(self, s): return self.E.I.lit(s)

    def text(self, tok):
        tok = z3.simplify(tok)
        if z3.is_int_value(tok):
            for s, i in self.E.I.strlits.items():
                if i == tok.as_long(): return s
        raise Unsupported('name of an XML part is not a literal')

    def step(self, node, x):
        v = FC(node, self.lit(x))
        return If(v == 0, FC(node, self.lit(self.alias[x])), v) if x in self.alias else v

    def res(self, t):
        """a node, with conditions the path has decided resolved"""
        t = z3.simplify(ptr(t))
        while z3.is_app_of(t, z3.Z3_OP_ITE):
            if self.E.I.valid(t.arg(0))[0] == 'unsat': t = t.arg(1)
            elif self.E.I.valid(Not(t.arg(0)))[0] == 'unsat': t = t.arg(2)
            else: break
        return t

    def path(self, t):
        t = z3.simplify(ptr(t))
        if z3.is_app_of(t, z3.Z3_OP_ITE): return self.path(t.arg(1) if not z3.is_int_value(t.arg(1)) else t.arg(2))
        if t.eq(z3.simplify(self.root)): return ''
        if z3.is_app(t) and t.decl().eq(FC): return (self.path(t.arg(0)) + '/' + self.text(t.arg(1))).lstrip('/')
        if z3.is_app(t) and t.decl().eq(CHILD): return (self.path(t.arg(0)) + '/' + self.text(t.arg(1)) + '*').lstrip('/')

        raise Unsupported('XML node ' + t.sexpr()[:60])

    # ---------------------------------------------------------------- writing
    def node(self, lv):
        v = self.E.I.read(lv.sub(('f', 'TiXmlElement::node'), parse('int')))
        v = z3.simplify(v)
        if not z3.is_int_value(v): raise Unsupported('unknown XML element')
        return self.nodes[v.as_long()]

    def of(self, tree):
        """the element a writer has returned"""
        v = z3.simplify(tree['TiXmlElement::node'])
        return self.nodes[v.as_long()]

    def ctor(self, I, f, this, a):
        if isinstance(a[0], LV) and a[0].ty.k == 'class':
            v = I.read(LV(a[0].root, a[0].path, Ty('class', 'TiXmlElement')).sub(('f', 'TiXmlElement::node'), parse('int')))
        else:
            tok = I.load(a[0]) if isinstance(a[0], LV) else a[0]
            self.nodes.append({'name': self.text(tok), 'attrs': {}, 'kids': [], 'params': False}); v = z3.IntVal(len(self.nodes) - 1)
        I.write(LV(this.root, this.path, Ty('class', 'TiXmlElement')).sub(('f', 'TiXmlElement::node'), parse('int')), v)

    def set(self, I, f, this, a):
        n = self.node(LV(this.root, this.path, Ty('class', 'TiXmlElement')))
        a = [I.load(x) if isinstance(x, LV) else x for x in a]
        ty = parse(I.p.tstr(f.params[1]['type']))
        n['attrs'][self.text(a[0])] = ('d' if f.name == 'SetDoubleAttribute' else 'i' if ty.k == 'int' else 's', a[1])
        I.funcs_contract.add('TiXmlElement::SetAttribute')

    def insert(self, I, f, this, a):
        p = self.node(LV(this.root, this.path, Ty('class', 'TiXmlElement')))
        k = self.node(LV(a[0].root, a[0].path, Ty('class', 'TiXmlElement')))
        I.funcs_contract.add('TiXmlNode::InsertEndChild')
        cb = self.onchild.get(p['name'] + '/' + k['name'])
        if cb: cb(p, k)
        else: p['kids'].append(k)
        return z3.IntVal(1)

    def getparams(self, I, f, this, a):
        lv = a[0].lv if isinstance(a[0], AddrV) else None
        if lv is None: raise Unsupported('element for parameters')
        self.node(LV(lv.root, lv.path, Ty('class', 'TiXmlElement')))['params'] = True
        self.params.append(ptr(a[1])); I.funcs_contract.add('GearParametersXML::getXMLForParameters')

    # ---------------------------------------------------------------- reading
    def need(self, node, tok, null):
        E = self.E; E.I.funcs_contract.add('getXMLAttribute')
        node = self.res(node); null = self.res(null)
        if self.complete: self.expected(node, tok)
        if E.I.branch(null == 0): self.missing(node, None); raise CppThrow('ParseException')
        if E.I.branch(Not(HAS(node, tok))): self.missing(node, tok); raise CppThrow('ParseException')
        v = ATTR(node, tok); E.assume(v >= 1)
        return v

    def expected(self, node, tok):
        """in a complete description every entry of the tables is there"""
        p = self.path(node); full = (p + '/' + self.text(tok)).lstrip('/')
        for pre, _, tab in self.tables:
            for e in tab:
                if (pre + '/' + e[0]).lstrip('/') == full:
                    base = node
                    for _ in e[0].split('/')[1:]: base = base.arg(0)
                    for c in facts(self, base, e): self.E.assume(c)

    def missing(self, node, tok):
        """a complete description is read without complaint"""
        if self.complete is not None:
            self.E.prove('nothing but the written parts is demanded (%s%s)' % (self.path(node), '@' + self.text(tok) if tok is not None else ''), z3.BoolVal(False))

    def get(self, I, f, this, a): return self.need(ptr(a[0]), a[1], ptr(a[0]))

    def getopt(self, I, f, this, a):
        n = self.res(a[0]); d = a[2]
        I.funcs_contract.add('getOptionalXMLAttribute')
        self.literal(d)
        if I.branch(n == 0): raise CppThrow('ParseException')
        v = ATTR(n, a[1]); self.E.assume(v >= 1)
        return If(HAS(n, a[1]), v, d)

    def getoptchild(self, I, f, this, a):
        c = FC(ptr(a[0]), a[1]); self.literal(a[2]); I.funcs_contract.add('getOptionalChildElementValue')
        if I.branch(c == 0): return a[2]
        return self.need(c, self.lit('value'), c)

    def literal(self, d):
        """what a literal means as a number"""
        try: s = self.text(d)
        except Unsupported: return
        try: self.E.assume(And(ATOF(d) == z3.RealVal(s.strip()), ATOI(d) == int(float(s))))
        except Exception: pass

    def first(self, I, f, this, a):
        v = FC(self.res(this.root[1]), a[0]); self.E.assume(And(v >= 0, v < I.st.alloc)); I.funcs_contract.add('TiXmlNode::FirstChildElement')
        if self.complete and self.path(v) in self.elements: self.E.assume(v > 0)
        return v

    def iterate(self, I, f, this, a):
        E = self.E; n, tok, prev = self.res(this.root[1]), a[0], a[1]
        I.funcs_contract.add('TiXmlNode::IterateChildren')
        nm = 'at ' + self.text(tok); E.assume(CN(n, tok) >= 0)
        c = self.cnt(nm); E.prove('children are visited in order', Or(prev == 0, prev == CHILD(n, tok, c)))
        i = z3.simplify(If(prev == 0, z3.IntVal(0), c)); self.setcnt(nm, i + 1)
        v = CHILD(n, tok, z3.simplify(i + 1)); more = i < CN(n, tok); E.assume(Implies(more, And(v > 0, v < I.st.alloc)))
        return If(more, v, z3.IntVal(0))

    def loop(self, I, n, base, S, leaves, k):
        """the node a loop over children has reached"""
        out = []
        for nd, tok in [x() for x in self.groups]:
            at = 'Ghost::at ' + self.text(tok)
            for lid in leaves:
                v = val0(S, lid)
                if v is None or not z3.is_expr(v): continue
                if lid[0] == 'L' and v.sort() == IntS:
                    out.append(('the child read last', (lambda lid, nd, tok: lambda q, val: And(val[lid] == If(q == 0, z3.IntVal(0), CHILD(nd, tok, q)), Or(q == 0, And(val[lid] > 0, q <= CN(nd, tok)))))(lid, nd, tok)))
                if lid[0] == 'H' and lid[1] == at and not lid[2][:-1]:
                    out.append(('children are counted', (lambda lid: lambda q, val: Or(q == 0, z3.Select(val[lid], self.ghost.root[1]) == q))(lid)))
        return out

    def setparams(self, I, f, this, a):
        self.params.append((ptr(a[0]), ptr(a[1]))); I.funcs_contract.add('GearParametersXML::setParametersFromXML')


def val0(S, lid):
    from gearvc.loops import state_get
    try: return state_get(S, lid)
    except Exception: return None


# ---------------------------------------------------------------- format tables
# (path of the attribute, kind, query, default): kind is d(ouble), i(nt), b(ool), s(tring) or the names of an enumeration
def T(text):
    out = []
    for t in text.split(','):
        path, kind, q, *d = t.split()
        out.append((path, kind, q, d[0] if d else None))
    return out


class Enum:
    def __init__(self, *names): self.names = names

    def of(self, E, s):
        if s in E.p.enum_names: return z3.IntVal(int(E.p.enum_names[s]))
        for n in E.p.id2var.values():
            if n.get('name') == s and n.get('init'):
                c = _find_const(n)
                if c is not None: return z3.IntVal(int(c))
        raise Unsupported('constant ' + s)


def entry(D, node, e):
    """(is there, value) of a table entry below a node"""
    path, kind, q, d = e
    *els, at = path.split('/')
    for x in els: node = D.step(node, x)
    at = D.lit(at); v = ATTR(node, at); here = And(node > 0, HAS(node, at))
    if kind == 'd': w = ATOF(v); dv = None if d is None else z3.RealVal(d)
    elif kind in ('i', 'b'): w = ATOI(v); dv = None if d is None else z3.IntVal(d)
    elif kind == 's': w = v; dv = None if d is None else D.lit('' if d == '-' else d)
    else:
        w = D.E.int('unknown')
        for s in kind.names: w = If(v == D.lit(s), kind.of(D.E, s), w)
        dv = None
    if d is not None: w = If(HAS(node, at), w, dv)
    return here, w


def facts(D, node, e):
    """what is assumed of an entry of a complete description"""
    here, w = entry(D, node, e); out = [] if e[3] is not None else [here]
    if isinstance(e[1], Enum):
        *els, at = e[0].split('/')
        for x in els: node = D.step(node, x)
        out.append(Or([ATTR(node, D.lit(at)) == D.lit(s) for s in e[1].names]))
    return out


def read(E, D, node, table, order, args, label):
    """the numbers passed on are those of the table's entries, and every mandatory entry is there"""
    by = {e[0]: e for e in table}
    for p, a in zip(order, args):
        if p is None: continue
        if callable(p): want = p(node)
        else:
            e = by[p]; here, want = entry(D, node, e)
            if e[3] is None: E.prove('%s: %s is demanded' % (label, p), here)
            if e[1] == 'b': want = want != 0
            if isinstance(e[1], Enum): E.prove('%s: %s is one of %s' % (label, p, '/'.join(e[1].names)), Or([ATTR(num(D, node, p), D.lit(p.split('/')[-1])) == D.lit(x) for x in e[1].names]))
        if z3.is_expr(a) and a.sort() != want.sort():
            if a.sort() == BoolS: a = If(a, 1, 0)
            elif want.sort() == BoolS: a = a != 0
            else: want = z3.ToReal(want) if want.sort() == IntS else want; a = z3.ToReal(a) if a.sort() == IntS else a
        E.prove('%s: %s is read' % (label, p if isinstance(p, str) else p.__doc__), a == want)
    E.prove('%s: as many numbers as the description has' % label, z3.BoolVal(len(order) == len(args)))


def num(D, node, path):
    for x in path.split('/')[:-1]: node = D.step(node, x)
    return node


def written(E, D, node, table, args, label):
    """the element has the table's attributes, printed from the table's queries"""
    seen = {}
    def walk(n, p):
        for a, v in n['attrs'].items(): seen[p + a] = v
        for k in n['kids']: walk(k, p + k['name'] + '/')
    walk(node, '')
    for path, kind, q, _ in table:
        if q == '-': continue
        v = seen.pop(path, None)
        if v is None: E.fail('%s: %s is written' % (label, path)); continue
        F = D.Q[q]; want = F(*args)
        if isinstance(kind, Enum):
            for s in kind.names: E.prove('%s: %s %s is written' % (label, path, s), Implies(want == kind.of(E, s), v[1] == D.lit(s)))
            continue
        k = 'i' if kind == 'b' else kind
        if v[0] != k: E.fail('%s: %s is written with full precision' % (label, path)); continue
        a = v[1]
        if want.sort() == BoolS: want = If(want, 1, 0)
        if z3.is_expr(a) and a.sort() == BoolS: a = If(a, 1, 0)
        E.prove('%s: %s is written' % (label, path), a == want)
    return seen


def queries(E, D, *tables):
    """an object answering queries through its interface"""
    D.Q = getattr(D, 'Q', {})
    for tab, n in tables:
        for path, kind, q, _ in tab:
            if q == '-' or q in D.Q: continue
            D.Q[q] = F = z3.Function(q, *[IntS] * n, RealS if kind == 'd' else BoolS if kind == 'b' else IntS)
            E.vhook(q, (lambda F: lambda this, a: F(*vals(E.I, a)))(F))


# ---------------------------------------------------------------- tables of the detectors
class Det:
    def __init__(self, name, iface, impl, head, layer, ctor, add, setter, layout=None, group='layers', item='layer'):
        alias = {}; self.__dict__.update(locals()); self.xml = name + 'XML'; self.tus = [X + self.xml + '.cc']


def two(e, E_, names): return ','.join('%s/%s %s get%s%s%s' % (e, a, k, E_, q, ' ' + d if d else '') for a, k, q, d in names)


BOX = [('distance', 'd', 'Distance', ''), ('offset', 'd', 'Offset', ''), ('thickness', 'd', 'Thickness', ''), ('length', 'd', 'Length', ''), ('width', 'd', 'Width', ''), ('radLength', 'd', 'RadLength', '')]
PET = [('rInner', 'd', 'Rinner', ''), ('thickness', 'd', 'Thickness', ''), ('lengthMin', 'd', 'LengthMin', ''), ('lengthMax', 'd', 'LengthMax', ''), ('width', 'd', 'Width', ''), ('radLength', 'd', 'RadLength', '')]
MODE = {True: 'complete', False: 'any'}
ZPL = Det('ZPlanarParameters', 'ZPlanarParameters', 'ZPlanarParametersImpl',
          T('shell/innerRadius d getShellInnerRadius,shell/outerRadius d getShellOuterRadius,shell/halfLength d getShellHalfLength,shell/gap d getShellGap,shell/radLength d getShellRadLength') + [('type/technology', Enum('CCD', 'CMOS', 'HYBRID'), 'getType', None)],
          T('nLadders i getNLadders,phi0 d getPhi0,' + two('ladder', 'Ladder', BOX) + ',' + two('sensitive', 'Sensitive', BOX)),
          ['type/technology', 'shell/innerRadius', 'shell/outerRadius', 'shell/halfLength', 'shell/gap', 'shell/radLength'],
          ['nLadders', 'phi0'] + ['%s/%s' % (e, b[0]) for e in ('ladder', 'sensitive') for b in BOX], ('setVXDParameters', 'setSITParameters', 'setSETParameters'), 'getZPlanarLayerLayout')
ZPL.alias = {'type': 'vxdType'}      # files written before ZPlanarParameters existed
FTD = Det('FTDParameters', 'FTDParameters', 'FTDParametersImpl', [],
          T('nPetals i getNPetals,nSensors i getNSensors,isDoubleSided b isDoubleSided,petalOpenningAngle d getPhiHalfDistance,phi0 d getPhi0,alpha d getAlpha,zposition d getZposition,zoffset d getZoffset,zsign0 d getZoffsetSign0,'
            + two('support', 'Support', PET) + ',' + two('sensitive', 'Sensitive', PET)) + [('sensorType', Enum('PIXEL', 'STRIP'), 'getSensorType', None)],
          [], ['nPetals', 'nSensors', 'isDoubleSided', 'sensorType', 'petalOpenningAngle', 'phi0', 'alpha', 'zposition', 'zoffset', 'zsign0'] + ['%s/%s' % (e, b[0]) for e in ('support', 'sensitive') for b in PET], ('setFTDParameters',), 'getFTDLayerLayout')


def writer_unit(T_, pname=None):
    @unit('C19', T_.tus, under=[T_.xml], name=T_.name + ' written')
    def go(E):
        D = Dom(E); D.counters('items')
        queries(E, D, (T_.head, 0), (T_.layer, 1))
        for e in T_.head:
            if isinstance(e[1], Enum): E.assume(Or([D.Q[e[2]]() == e[1].of(E, s) for s in e[1].names]))
        nl = z3.Int('number of layers'); E.assume(nl >= 0); E.vhook('getNLayers', lambda this, a: nl)
        lay = E.abstract(T_.layout[3:]); E.vhook(T_.layout, lambda this, a: lay)
        p = E.abstract('GearParameters')
        def layer(parent, kid):
            i = D.cnt('items')
            for e in T_.layer:
                if isinstance(e[1], Enum): E.assume(Or([D.Q[e[2]](i) == e[1].of(E, s) for s in e[1].names]))
            written(E, D, kid, T_.layer, (i,), 'layer'); D.setcnt('items', i + 1)
        D.onchild['%s/%s' % (T_.group, T_.item)] = layer
        h = E.alloc(T_.xml); k, r = E.attempt(lambda: E.call(h, 'toXML', p))
        if k == 'throw': E.cover('refused'); E.prove('only other parameters are refused', Not(z3.Function('isa_' + T_.iface, IntS, BoolS)(p.root[1]))); return
        d = D.of(r); E.cover('written')
        E.prove('every layer is written', D.cnt('items') == nl)
        E.prove('layers are written where they are read', z3.BoolVal([x['name'] for x in d['kids']].count(T_.group) == 1))
        written(E, D, d, T_.head, (), 'detector')
        E.prove('the description is a detector', z3.BoolVal(d['name'] == 'detector'))
        E.prove('user parameters are written', z3.BoolVal(d['params'] and len(D.params) == 1) if True else None)
        if D.params: E.prove('the user parameters are those of the detector', D.params[0] == p.root[1])


def reader_unit(T_, complete):
    @unit('C19' if complete else 'C21', T_.tus, under=[T_.xml], name=T_.name + ' read (' + MODE[complete] + ')')
    def go(E):
        D = Dom(E, complete=complete or None); D.counters('items', 'at ' + T_.item)
        root = D.root; layers = lambda: FC(root, D.lit(T_.group))
        D.tables = [('', root, T_.head), ('%s/%s*' % (T_.group, T_.item), None, T_.layer)]; D.elements = {T_.group} | {'/'.join(e[0].split('/')[:j]) for e in T_.head for j in range(1, len(e[0].split('/')))}; D.alias = T_.alias
        D.groups.append(lambda: (layers(), D.lit(T_.item)))
        obj = []
        def ctor(I, f, this, a):
            read(E, D, root, T_.head, T_.ctor, vals(I, a), 'detector'); obj.append(ptr(this))
        def add(I, f, this, a):
            i = D.cnt('at ' + T_.item); E.prove('layers are added to the detector', ptr(this) == obj[-1])
            E.prove('layers are added in order', D.cnt('items') == i - 1)
            read(E, D, CHILD(layers(), D.lit(T_.item), i), T_.layer, T_.add, vals(I, a), 'layer'); D.setcnt('items', D.cnt('items') + 1)
        E.I.hooks['%s::%s' % (T_.impl, T_.impl)] = ctor
        E.I.hooks['%s::addLayer' % T_.impl] = add
        slot = []
        for s in T_.setter: E.vhook(s, (lambda s: lambda this, a: slot.append((s, ptr(this), ptr(a[0]))))(s))
        mgr = E.abstract('GearMgr') if E.I.choose(2) else None
        if complete: D.tables[0][2].append(('name', 's', '-', None)) if ('name', 's', '-', None) not in D.tables[0][2] else None
        h = E.alloc(T_.xml); k, r = E.attempt(lambda: E.call(h, 'fromXML', D.root, mgr if mgr is not None else z3.IntVal(0)))
        if k == 'throw':
            E.cover('refused')
            if complete: E.fail('a complete description is read')
            else: E.prove('a broken description ends in an exception of the library', z3.BoolVal(E.exc_is(r, 'Exception')))
            return
        E.cover('read')
        E.prove('the description read is returned', ptr(r) == obj[0]) if obj else E.fail('a description is made')
        E.prove('the layers are there', layers() > 0)
        E.prove('every layer is read', D.cnt('items') == CN(layers(), D.lit(T_.item)))
        E.prove('user parameters are read', z3.BoolVal(len(D.params) == 1))
        if D.params: E.prove('user parameters go to the detector', And(D.params[0][0] == root, D.params[0][1] == obj[0]))
        if mgr is None: E.prove('nothing is registered without a manager', z3.BoolVal(not slot))
        elif len(T_.setter) == 1: E.prove('the detector is registered', And(z3.BoolVal(len(slot) == 1), slot[0][1] == mgr.root[1], slot[0][2] == obj[0]) if slot else z3.BoolVal(False))
        elif slot: E.prove('the detector is registered', And(z3.BoolVal(len(slot) == 1), slot[0][1] == mgr.root[1], slot[0][2] == obj[0]))


for T_ in (ZPL, FTD):
    writer_unit(T_); reader_unit(T_, True); reader_unit(T_, False)
