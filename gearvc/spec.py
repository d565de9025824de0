"""contract layer: units = contracts of real functions, run by the verifier"""
import z3, time, os, traceback, multiprocessing, signal, resource, sys
from . import types as T
from .types import Ty, parse
from .sym import *
from . import interp as IP
from .interp import Interp, CppThrow, Ret, PathEnd, Abort, PI, PIQ


class Env:
    """what a contract sees of the verifier"""

    def __init__(self, prog, opts):
        self.I = Interp(prog, opts)
        self.p = prog
        self.pre = ''

    # symbolic inputs
    def int(self, name, lo=-(1 << 31), hi=(1 << 31) - 1):
        v = z3.Int(name)
        self.I.st.pc.append(z3.And(v >= lo, v <= hi))
        return v

    def real(self, name): return z3.Real(name)
    def bool(self, name): return z3.Bool(name)
    def str(self, name):
        v = z3.Int(name)
        self.I.st.pc.append(v >= 1)
        return v

    def k(self, v):
        if isinstance(v, bool): return z3.BoolVal(v)
        if isinstance(v, int): return z3.IntVal(v)
        if isinstance(v, float): return z3.RealVal(str(v))
        return v

    def assume(self, f): self.I.assume(self.k(f))
    def branch(self, f): return self.I.branch(f)
    def prove(self, name, f, **kw):
        if self.I.o.get('quiet_ub'): return None          # invariants are being looked for: obligations are discharged afterwards
        return self.I.prove(self.pre + name, self.k(f), **kw)
    def lemma(self, name, f):
        if self.I.prove(self.pre + name, self.k(f)): self.assume(f)

    def cover(self, name): self.I.cover(self.pre + name)
    def fail(self, name): return self.I.prove(self.pre + name, z3.BoolVal(False))
    def unreachable(self, name): return self.fail(name)

    # objects
    def frame(self):
        if self.I.frame is None: self.I.frame = IP.Frame(None, None, None, self.p.tus[0] if self.p.tus else None)

    def alloc(self, cls):
        r = self.I.new_ref(cls)
        return LV(('H', r, Ty('class', cls)), (), Ty('class', cls))

    def new(self, cls, *args, sig=None):
        """construct an object with the repository's constructor"""
        self.frame()
        lv = self.alloc(cls)
        self.construct(lv, cls, *args, sig=sig)
        return lv

    def construct(self, lv, cls, *args, sig=None):
        I = self.I
        cands = [g for m, g in self.p.funcs.items() if g.kind == 'CXXConstructorDecl' and g.cls == cls and len([p for p in g.params]) >= len(args)]
        if sig is not None: cands = [g for g in cands if [self.p.tstr(p['type']) for p in g.params] == sig]
        else:
            c2 = [g for g in cands if len(g.params) == len(args) and not (len(args) == 1 and self.is_copy(g) != (isinstance(args[0], LV)))]
            cands = c2 or [g for g in cands if len(g.params) > len(args)]
        if not cands and not args:
            I.default_construct(lv, cls); return lv
        if not cands: raise Unsupported('no constructor of %s' % cls)
        f = next((g for g in cands if g.body is not None), cands[0])
        if f.body is None and f.defaulted and len(args) == 1:
            I.write(lv, I.read(args[0])); return lv
        I.write(lv, I.uninit(Ty('class', cls)))
        vals = [self.k(a) for a in args]
        I.frame = IP.Frame(None, None, None, f.tu)
        vals += self.defaults(f, len(args))
        I.call_func(f, LV(lv.root, lv.path, Ty('class', cls)), vals, dyn=cls)
        return lv

    def defaults(self, f, n):
        out = []
        for prm in f.params[n:]:
            inn = [c for c in prm.get('inner', []) if c.get('kind')] or prm.get('defaultInner')
            if not inn: raise Unsupported('missing argument of %s' % f.name)
            out.append(self.I.ev(inn[0]))
        return out

    def is_copy(self, g):
        t = parse(self.p.tstr(g.params[0]['type']))
        return t.k == 'ref' and t.a.k == 'class' and t.a.a == g.cls

    def call(self, lv, name, *args, sig=None, const=None):
        """call a method; returns the value (trees for class values)"""
        v = self.callr(lv, name, *args, sig=sig, const=const)
        return self.val(v)

    def callr(self, lv, name, *args, sig=None, const=None):
        self.frame()
        I = self.I
        cls = I.dyn_of(lv) or lv.ty.a
        fs = self.p.find_method(cls, name, len(args), sig)
        if not fs:
            fs = [f for f in self.p.find_method(cls, name) if len(f.params) >= len(args)]
        if const is not None: fs = [f for f in fs if f.const == const] or fs
        if not fs: raise Unsupported('no method %s::%s' % (cls, name))
        f = fs[0]
        if f.virtual and cls in self.p.classes:
            g = self.p.override(cls, f)
            if g is not None: f = g
        vals = self.conv(f, args)
        I.frame = IP.Frame(None, None, None, f.tu)
        vals += self.defaults(f, len(args))
        return I.call_func(f, lv, vals, dyn=cls)

    def conv(self, f, args):
        out = []
        for a, prm in zip([self.k(x) for x in args], f.params):
            t = parse(self.p.tstr(prm['type']))
            if t.k == 'ref': t = t.a
            if t.k == 'real' and z3.is_expr(a) and a.sort() == IntS: a = z3.ToReal(a)
            out.append(a)
        return out

    def abstract(self, cls):
        """an object of unknown class behind an interface"""
        self.frame()
        return LV(('H', self.I.new_ref(), Ty('class', cls)), (), Ty('class', cls))

    def virt(self, lv, name, *args):
        """what the interface method of an object of unknown class answers (may throw)"""
        self.frame()
        fs = self.p.find_method(lv.ty.a, name, len(args))
        if not fs: raise Unsupported('no method %s::%s' % (lv.ty.a, name))
        return self.val(self.I.abstract_call(fs[0], lv, [self.k(a) for a in args]))

    def vhook(self, name, fn):
        """contract of an interface method"""
        self.I.hooks['virtual:' + name] = lambda I, f, this, args: fn(this, args)

    def vec2(self, a, b):
        """a Vector2D value"""
        t = self.I.mk(self.v2ty(), 'v!')
        ls = list(leaves(t))
        for (p, _), x in zip(ls, (a, b)): t = setleaf(t, p, x)
        return t

    def v2ty(self):
        for c in self.p.classes:
            if c.startswith('Vector2D'): return Ty('class', c)
        return parse('Vector2D')

    def fields(self, lv, skip=()):
        """(name, value) of all members"""
        cls = (self.I.dyn_of(lv) or lv.ty.a)
        return [(f, self.I.load(lv.sub(('f', c + '::' + f), parse(t)))) for (c, f, t, i) in self.p.all_fields(cls) if f not in skip]

    def destroy(self, lv):
        f = self.p.funcs.get('dtor:' + (self.I.dyn_of(lv) or lv.ty.a))
        self.frame()
        if f is not None and f.body is not None: self.I.call_func(f, lv, [], dyn=f.cls)

    def func(self, name, *args, cls=None):
        self.frame()
        f = self.I.find((cls + '::' if cls else '') + name, len(args))
        return self.val(self.I.call_func(f, None, [self.k(a) for a in args]))

    def val(self, v):
        if isinstance(v, LV): return self.I.load(v)
        return v

    def attempt(self, fn):
        """('ok', value) or ('throw', class)"""
        d = self.I.depth
        try:
            return 'ok', fn()
        except CppThrow as t:
            self.I.depth = d
            return 'throw', t.cls

    def try_call(self, lv, name, *args, **kw):
        return self.attempt(lambda: self.call(lv, name, *args, **kw))

    # views of values
    def comp(self, tree, i):
        """component i of a Vector2D/Vector3D value"""
        ls = list(leaves(tree))
        return ls[i][1]

    def vlen(self, v): return v['len']
    def at(self, v, i): return select(v['elem'], self.k(i))

    def field(self, lv, name):
        cls = (self.I.dyn_of(lv) or lv.ty.a)
        for (c, f, t, i) in self.p.all_fields(cls):
            if f == name: return self.I.load(lv.sub(('f', c + '::' + f), parse(t)))
        raise Unsupported('field %s not found' % name)

    def flv(self, lv, name):
        cls = (self.I.dyn_of(lv) or lv.ty.a)
        for (c, f, t, i) in self.p.all_fields(cls):
            if f == name: return lv.sub(('f', c + '::' + f), parse(t))
        raise Unsupported('field %s not found' % name)

    def elem_inv(self, tree, fn):
        """fn(i) holds for every index i (a class invariant); assumed for the elements the code looks at"""
        for p, a in leaves(tree['elem']): self.I.elem_inv[a.get_id()] = (a, fn)

    def hook(self, name, fn, pure=False):
        """calls of a function use its contract: fn(this, args) checks the precondition and gives the result"""
        def h(I, f, this, args):
            I.funcs_contract.add('%s::%s' % (f.cls, f.name))
            return fn(this, args)
        self.I.hooks[name] = h
        if pure: self.I.purehooks.add(name)

    def sfield(self, tree, name):
        """field of a class value"""
        for k, v in tree.items():
            if k.rsplit('::', 1)[-1] == name: return v
        raise Unsupported('no field %s' % name)

    def exc_is(self, cls, want='Exception'):
        return cls == want or want in self.I.exc_bases(cls)


UNITS = {}


class Unit:
    def __init__(self, prop, name, tus, fn, under, opts):
        self.prop, self.name, self.tus, self.fn, self.under, self.opts = prop, name, tus, fn, under, opts


def unit(prop, tus, under=(), name=None, **opts):
    """declare a contract unit: under = functions of the repository the contract is on"""
    def deco(fn):
        nm = name or fn.__name__
        UNITS.setdefault(prop, []).append(Unit(prop, nm, tuple(tus), fn, tuple(under), opts))
        return fn
    return deco


def run_unit(u, prog, extra=None):
    """-> dict (picklable)"""
    t0 = time.time()
    opts = dict(u.opts)
    opts.update(extra or {})
    opts['timeout'] = int(opts.get('timeout', 10000) * opts.get('timeout_scale', 1))
    E = Env(prog, opts)
    out = {'unit': u.name, 'error': None, 'results': []}
    try:
        def path():
            E.I.hooks, E.I.loop_specs, E.I.elem_inv, E.I.purehooks = {}, [], {}, set()
            return u.fn(E)
        n = E.I.explore(path)
        out['paths'] = n
    except Unsupported as e:
        out['error'] = 'unsupported: %s' % e + (traceback.format_exc()[-3000:] if os.environ.get('TB') else '')
    except Abort:
        pass
    except RecursionError:
        out['error'] = 'unsupported: recursion'
    except CppThrow as e:
        out['error'] = 'unsupported: contract let exception %s escape' % e.cls
        if os.environ.get('TB'): traceback.print_exc()
    except z3.Z3Exception as e:
        out['error'] = 'unsupported: %s' % str(e)[:200] + ' ' + ''.join(traceback.format_exc()[-(9000 if os.environ.get('TB') else 600):])
    except Exception as e:
        out['error'] = 'unsupported: internal %s' % ''.join(traceback.format_exc()[-(9000 if os.environ.get('TB') else 900):])
    if out['error']: out['where'] = E.I.frame.func.name if E.I.frame and getattr(E.I.frame, 'func', None) else None
    out['results'] = [(r.name, r.status, r.backend, round(r.secs, 3), r.detail, r.model) for r in E.I.results]
    out['assumptions'] = sorted(E.I.assumptions)
    out['funcs'] = sorted(E.I.funcs_run)
    out['contracts'] = sorted(E.I.funcs_contract)
    out['covers'] = dict(E.I.covers)
    out['loops'] = E.I.loopinfo
    out['solver_s'] = round(E.I.solver_s, 2)
    out['wall_s'] = round(time.time() - t0, 2)
    return out


_PROG = None


def _child(u, extra, q):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        r = run_unit(u, _PROG, extra)
    except MemoryError:
        r = {'unit': u.name, 'error': 'unsupported: out of memory', 'results': [], 'assumptions': [], 'funcs': [], 'contracts': [], 'covers': {}, 'loops': [], 'solver_s': 0, 'wall_s': 0}
    q.send(r)
    q.close()


def run_units(units, prog, limit=400, jobs=8, extra=None):
    """fork one process per unit"""
    global _PROG
    _PROG = prog
    todo = list(units)
    running = []
    out = []
    end = time.time() + limit
    while todo or running:
        while todo and len(running) < jobs:
            u = todo.pop(0)
            r, w = multiprocessing.Pipe(False)
            p = multiprocessing.get_context('fork').Process(target=_child, args=(u, extra, w))
            p.start(); w.close()
            running.append((u, p, r, time.time()))
        for x in list(running):
            u, p, r, t = x
            if r.poll(0.02):
                try: out.append(r.recv())
                except EOFError: out.append(dead(u, 'verifier process ended'))
                p.join(); running.remove(x)
            elif not p.is_alive() and not r.poll(0):
                out.append(dead(u, 'verifier process ended')); running.remove(x)
            elif time.time() > end or time.time() - t > u.opts.get('budget', 240) + 120:
                p.terminate(); p.join(); out.append(dead(u, 'time limit')); running.remove(x)
        if time.time() > end:
            for u in todo: out.append(dead(u, 'time limit'))
            todo = []
        time.sleep(0.005)
    return out


def dead(u, why):
    return {'unit': u.name, 'error': 'unsupported: ' + why, 'results': [], 'assumptions': [], 'funcs': [], 'contracts': [], 'covers': {}, 'loops': [], 'solver_s': 0, 'wall_s': 0}
