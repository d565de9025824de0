"""symbolic execution of the extracted C++ (typed clang AST) over z3 terms"""
import z3, time, sys
from . import types as T
from .types import Ty, parse
from .sym import *
from .extract import norm_type

sys.setrecursionlimit(20000)


class CppThrow(Exception):
    def __init__(self, cls, val=None): self.cls, self.val = cls, val


class Ret(Exception):
    def __init__(self, val): self.val = val


class Brk(Exception): pass
class Cont(Exception): pass
class PathEnd(Exception): pass
class Abort(Exception): pass


STD_EXC = {'out_of_range': ['logic_error', 'exception'], 'logic_error': ['exception'], 'runtime_error': ['exception'],
           'invalid_argument': ['logic_error', 'exception'], 'bad_cast': ['exception'], 'exception': [], 'bad_alloc': ['exception'],
           'range_error': ['runtime_error', 'exception'], 'length_error': ['logic_error', 'exception']}

# M_PI is its exact double value; the trigonometric functions are axiomatised with that half period
from fractions import Fraction
_PIV = 3.14159265358979323846
PIQ = Fraction(_PIV)
PI = z3.RealVal(str(PIQ))
PI_AX = []


class State:
    __slots__ = ('locals', 'heap', 'pc', 'facts', 'alloc', 'ctx', 'cnt', 'slot', 'wlog', 'dyn', 'globals')

    def __init__(self):
        self.locals = {}
        self.heap = {}
        self.pc = []          # path condition (quantifier free)
        self.facts = []       # quantified / heavy facts (not used for feasibility)
        self.alloc = z3.Int('alloc0')
        self.ctx = ''
        self.cnt = 0
        self.slot = 0
        self.wlog = None
        self.dyn = {}
        self.globals = {}

    def copy(self):
        s = State.__new__(State)
        s.locals = dict(self.locals); s.heap = dict(self.heap); s.pc = list(self.pc); s.facts = list(self.facts)
        s.alloc = self.alloc; s.ctx = self.ctx; s.cnt = self.cnt; s.slot = self.slot
        s.wlog = self.wlog; s.dyn = dict(self.dyn); s.globals = dict(self.globals)
        return s


class Frame:
    __slots__ = ('vars', 'this', 'dyn', 'func', 'tu')

    def __init__(self, func, this, dyn, tu):
        self.vars, self.this, self.dyn, self.func, self.tu = {}, this, dyn, func, tu


class ObResult:
    def __init__(self, name, status, backend, secs, detail=None, model=None):
        self.name, self.status, self.backend, self.secs, self.detail, self.model = name, status, backend, secs, detail, model


PURE_KINDS = {'DeclRefExpr', 'MemberExpr', 'IntegerLiteral', 'FloatingLiteral', 'CXXBoolLiteralExpr', 'ImplicitCastExpr', 'ParenExpr',
              'CXXThisExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'ArraySubscriptExpr', 'ConstantExpr',
              'CXXNullPtrLiteralExpr', 'GNUNullExpr', 'CharacterLiteral', 'StringLiteral', 'MaterializeTemporaryExpr', 'ExprWithCleanups',
              'ConditionalOperator', 'SubstNonTypeTemplateParmExpr'}
PURE_FUNS = {'sqrt', 'sin', 'cos', 'tan', 'fabs', 'abs', 'floor', 'ceil', 'round', 'atan2', 'acos', 'asin', 'atan', 'fmod', 'pow', 'min', 'max', 'hypot'}
PURE_METH = {'size', 'empty', 'back', 'front', 'at'}


class Interp:
    def __init__(self, prog, opts=None):
        self.p = prog
        self.o = {'ub': True, 'unroll': 12, 'timeout': 10000, 'feas_ms': 400, 'merge': False, 'loops': True, 'max_paths': 4000,
                  'overflow': False, 'budget': 240}
        self.o.update(opts or {})
        from .solve import LinCache
        self.lincache = LinCache()
        self.purehooks = set()   # hooked functions without effects
        self.hooks = {}          # 'Cls::name' or name -> python
        self.results = []
        self.assumptions = set()
        self.funcs_run = set()
        self.funcs_contract = set()
        self.depth = 0
        self.strlits = {'': 1}
        self.cache = {}
        self.fcache = {}
        self.vcache = {}
        self.branch_ids = {}      # conditions the code decided on (kept alive)
        self.solver_s = 0.0
        self.covers = {}
        self.loop_specs = []
        self.elem_inv = {}
        self.loopinfo = []
        self.t0 = time.time()
        self.dec = None
        self.stop_on_fail = False
        self.enum_frames = []

    # ------------------------------------------------------------------ exploration
    def explore(self, fn, keep=False):
        """run fn once per path; fn starts from a fresh state"""
        n = 0
        self.dec, self.pos = [], 0
        while True:
            self.st = State()
            self.st.pc = list(PI_AX) + [self.st.alloc > 0]
            self.pos = 0
            self.frame = None
            self.depth = 0
            try:
                fn()
            except PathEnd:
                pass
            n += 1
            if n > self.o['max_paths']:
                raise Unsupported('more than %d paths' % self.o['max_paths'])
            if time.time() - self.t0 > self.o['budget']:
                raise Unsupported('time budget exhausted')
            if not self._backtrack(self.dec):
                return n

    @staticmethod
    def _backtrack(dec):
        while dec:
            d = dec[-1]
            if d[0] + 1 < d[1]:
                d[0] += 1
                return True
            dec.pop()
        return False

    def sub_explore(self, fn, start):
        """all outcomes of fn from state start: [(kind, payload, state)]"""
        key = None
        sv = (self.st, self.dec, self.pos, self.frame, self.depth)
        fr = self.frame
        outs = []
        dec = []
        n = 0
        basectx = start.ctx
        try:
            while True:
                self.st = start.copy()
                self.st.ctx = '%s/%d' % (basectx, n)
                self.st.cnt = 0 if False else self.st.cnt
                self.dec, self.pos = dec, 0
                self.frame = self._copy_frame(fr)
                self.depth = sv[4]
                try:
                    v = fn()
                    outs.append(('next', v, self.st, self.frame))
                except Ret as r:
                    outs.append(('return', r.val, self.st, self.frame))
                except Brk:
                    outs.append(('break', None, self.st, self.frame))
                except Cont:
                    outs.append(('next', None, self.st, self.frame))
                except CppThrow as t:
                    outs.append(('throw', t, self.st, self.frame))
                except PathEnd:
                    pass
                n += 1
                if n > self.o['max_paths'] or time.time() - self.t0 > self.o['budget']:
                    raise Unsupported('path budget exhausted')
                if not self._backtrack(dec):
                    break
        finally:
            self.st, self.dec, self.pos, self.frame, self.depth = sv
        return outs

    def _copy_frame(self, fr):
        if fr is None: return None
        f = Frame(fr.func, fr.this, fr.dyn, fr.tu)
        f.vars = dict(fr.vars)
        return f

    def fresh(self, hint, sort):
        self.st.cnt += 1
        return z3.Const('%s!%s.%d' % (hint, self.st.ctx, self.st.cnt), sort)

    def choose(self, n):
        """host-level nondeterministic choice"""
        if n == 1: return 0
        if self.pos < len(self.dec):
            c = self.dec[self.pos][0]
        else:
            self.dec.append([0, n, None])
            c = 0
        self.pos += 1
        return c

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            opts = d[2]
            c = opts[d[0]]
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond)) if t else True
            opts = ([True] if t else []) + ([False] if f else [])
            if not opts:
                raise PathEnd()
            self.dec.append([0, len(opts), opts])
            c = opts[0]
        self.pos += 1
        d = cond if c else z3.simplify(z3.Not(cond))
        self.branch_ids[d.get_id()] = d
        self.st.pc.append(d)
        return c

    def feasible(self, cond):
        key = (tuple(c.get_id() for c in self.st.pc), cond.get_id(), len(self.st.facts) if self.o.get('feas_facts') else 0)
        h = self.fcache.get(key)
        if h is not None: return h[0]
        r = self._feasible(cond)
        self.fcache[key] = (r, list(self.st.pc), cond)
        return r

    def _feasible(self, cond):
        s = z3.Solver()
        s.set('timeout', self.o['feas_ms'])
        t = time.time()
        if self.o.get('feas_lin'):                             # products as unknowns: cheap, keeps more paths
            from . import solve
            fs = solve.linearize(self.st.pc + [cond], cache=self.lincache)
            if fs:
                s.add(fs); r = s.check(); self.solver_s += time.time() - t
                return r != z3.unsat
        s.add(self.st.pc)
        if self.o.get('feas_facts'): s.add(self.st.facts)
        s.add(cond)
        r = s.check()
        if r == z3.unknown:
            from . import solve
            fs = solve.linearize(self.st.pc + [cond], cache=self.lincache)          # weaker: unsatisfiable is still an answer
            if fs:
                s = z3.Solver(); s.set('timeout', 400); s.add(fs)
                r = s.check()
        self.solver_s += time.time() - t
        return r != z3.unsat

    def decided(self, cond):
        """True/False if the path decides cond, else None"""
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if not self.feasible(z3.Not(cond)): return True
        if not self.feasible(cond): return False
        return None

    def assume(self, f):
        if z3.is_quantifier(f) or has_quant(f): self.st.facts.append(f)
        else:
            f = z3.simplify(f)
            if z3.is_false(f): raise PathEnd()
            self.st.pc.append(f)

    # ------------------------------------------------------------------ obligations
    def valid(self, goal, timeout=None, extra=()):
        """prove goal under the current path; returns (status, backend, secs, model)"""
        from . import solve
        t = time.time()
        fs = self.st.pc + self.st.facts + list(extra)
        key = (tuple(c.get_id() for c in fs), goal.get_id())
        h = self.vcache.get(key)
        if h is not None: return h[0]          # the same obligation under the same assumptions, met again on another path
        r = solve.prove(fs, goal, timeout or self.o['timeout'], self.o)
        self.solver_s += time.time() - t
        if r[0] == 'unsat': self.vcache[key] = (r, fs, goal)
        return r

    def prove(self, name, goal, extra=(), timeout=None):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        st, be, secs, model = self.valid(goal, timeout, extra)
        if st == 'unsat': s = 'proved'
        elif st == 'sat': s = 'unknown' if self.abstracted(goal) else 'failed'     # a model of an abstracted loop need not be a real run
        else: s = 'unknown'
        det = None
        if s != 'proved':
            det = {'goal': str(z3.simplify(goal))[:600], 'path': self.path_text()}
        self.results.append(ObResult(name, s, be, secs, det, model))
        if s != 'proved' and self.stop_on_fail: raise Abort()
        return s == 'proved'

    def abstracted(self, goal):
        seen, st = set(), [goal] + list(self.st.pc)
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): st.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('hv!'): return True
                st.extend(x.children())
        return False

    def path_text(self):
        return [str(c)[:200] for c in self.st.pc[1:]][-25:]

    def cover(self, name):
        """reachability: the current path must be satisfiable (vacuity guard)"""
        if self.covers.get(name): return
        s = z3.Solver(); s.set('timeout', 5000); s.add(self.st.pc)
        r = s.check()
        if r == z3.sat: self.covers[name] = True
        else: self.covers.setdefault(name, False) if r == z3.unsat else self.covers.__setitem__(name, 'unknown')

    def assumption(self, text): self.assumptions.add(text)

    # ------------------------------------------------------------------ values by type
    def mk(self, ty, name, lifts=()):
        """fresh symbolic tree of type ty (lifted over lifts)"""
        k = ty.k
        if k == 'class':
            self.need_class(ty.a)
            return {c + '::' + f: self.mk(parse(t), name + '.' + f, lifts) for (c, f, t, i) in self.p.all_fields(ty.a)}
        if k == 'vec':
            return {'len': z3.Const(name + '.len', wrap_sort(IntS, lifts)), 'elem': self.mk(ty.a, name + '.elem', tuple(lifts) + (IntS,))}
        if k == 'map':
            ks = leaf_sort(ty.a)
            return {'dom': z3.Const(name + '.dom', wrap_sort(z3.ArraySort(ks, BoolS), lifts)),
                    'size': z3.Const(name + '.size', wrap_sort(IntS, lifts)),
                    'val': self.mk(ty.b, name + '.val', tuple(lifts) + (ks,))}
        if k == 'set':
            ks = leaf_sort(ty.a)
            return {'dom': z3.Const(name + '.dom', wrap_sort(z3.ArraySort(ks, BoolS), lifts)),
                    'size': z3.Const(name + '.size', wrap_sort(IntS, lifts))}
        if k == 'pair':
            return {'first': self.mk(ty.a, name + '.first', lifts), 'second': self.mk(ty.b, name + '.second', lifts)}
        if k == 'arr':
            if ty.n is None: raise Unsupported('array of unknown bound')
            return {str(i): self.mk(ty.a, name + '.%d' % i, lifts) for i in range(ty.n)}
        return z3.Const(name, wrap_sort(leaf_sort(ty), lifts))

    def need_class(self, name):
        if name not in self.p.classes:
            if name in OPAQUE_CLASSES or name.split('<')[0] in OPAQUE_CLASSES: return
            raise Unsupported('class %s is not in the extracted sources' % name)

    def is_opaque(self, ty):
        return ty.k == 'opaque' or (ty.k == 'class' and ty.a not in self.p.classes)

    def default(self, ty, lifts=()):
        """value-initialised tree"""
        def K(v):
            for l in reversed(lifts): v = z3.K(l, v)
            return v
        k = ty.k
        if k == 'class':
            if ty.a not in self.p.classes: return K(z3.IntVal(0))
            return {c + '::' + f: self.default(parse(t), lifts) for (c, f, t, i) in self.p.all_fields(ty.a)}
        if k == 'vec': return {'len': K(z3.IntVal(0)), 'elem': self.default(ty.a, tuple(lifts) + (IntS,))}
        if k == 'map':
            ks = leaf_sort(ty.a)
            return {'dom': self._lk(lifts + (ks,), z3.BoolVal(False)), 'size': K(z3.IntVal(0)), 'val': self.default(ty.b, tuple(lifts) + (ks,))}
        if k == 'set':
            ks = leaf_sort(ty.a)
            return {'dom': self._lk(lifts + (ks,), z3.BoolVal(False)), 'size': K(z3.IntVal(0))}
        if k == 'pair': return {'first': self.default(ty.a, lifts), 'second': self.default(ty.b, lifts)}
        if k == 'arr': return {str(i): self.default(ty.a, lifts) for i in range(ty.n)}
        s = leaf_sort(ty)
        if k == 'str': return K(z3.IntVal(1))
        return K(z3.RealVal(0) if s == RealS else z3.BoolVal(False) if s == BoolS else z3.IntVal(0))

    @staticmethod
    def _lk(lifts, v):
        for l in reversed(lifts): v = z3.K(l, v)
        return v

    # ------------------------------------------------------------------ memory
    slot_ty = {}

    def new_slot(self, tree, hint='t'):
        self.st.slot += 1
        s = '%s#%s.%d' % (hint, self.st.ctx, self.st.slot)
        self.st.locals[s] = tree
        return s

    def local(self, ty, tree, hint='t'):
        s = self.new_slot(tree, hint)
        self.slot_ty[s] = ty
        return LV(('L', s), (), ty)

    def heap_get(self, key, ty):
        t = self.st.heap.get(key)
        if t is None:
            t = self.mk(ty, 'H0!' + key, (IntS,))
            self.st.heap[key] = t
        return t

    def field_ty(self, decl, f):
        for (n, t, i) in self.p.classes[decl].fields:
            if n == f: return parse(t)
        raise Unsupported('no field %s::%s' % (decl, f))

    def read(self, lv):
        kind = lv.root[0]
        path = lv.path
        if kind == 'L':
            t = self.st.locals.get(lv.root[1])
            if t is None: raise Unsupported('read of dead local ' + str(lv.root))
            return self.walk(t, path)
        ref, oty = lv.root[1], lv.root[2]
        if oty.k == 'class':
            if not path:
                self.need_class(oty.a)
                if oty.a not in self.p.classes: return z3.IntVal(0)
                return {c + '::' + f: select(self.heap_get(c + '::' + f, parse(t)), ref) for (c, f, t, i) in self.p.all_fields(oty.a)}
            decl, f = path[0][1].rsplit('::', 1)
            t = select(self.heap_get(path[0][1], self.field_ty(decl, f)), ref)
            return self.walk(t, path[1:])
        t = select(self.heap_get(oty.key(), oty), ref)
        return self.walk(t, path)

    def walk(self, t, path):
        for s in path:
            k = s[0]
            if k == 'f':
                if s[1] not in t: raise Unsupported('no field %s' % s[1])
                t = t[s[1]]
            elif k == 'i':
                t = t['elem']
                if self.elem_inv: self.use_elem_inv(t, s[1])
                t = select(t, s[1])
            elif k == 'k': t = select(t['val'], s[1])
            elif k == 'p': t = t[s[1]]
            elif k == 't':
                i = s[1]
                if z3.is_int_value(i):
                    if str(i.as_long()) not in t: raise Unsupported('array index out of bounds: %s' % i)
                    t = t[str(i.as_long())]
                else:
                    ks = sorted(t, key=int)
                    v = t[ks[-1]]
                    for q in reversed(ks[:-1]): v = ite(i == int(q), t[q], v)
                    t = v
        return t

    def use_elem_inv(self, t, i):
        for p, a in leaves(t):
            while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE: a = a.arg(0)
            h = self.elem_inv.get(a.get_id())
            if h is not None:
                self.fact(h[1](i)); return

    def upd(self, t, path, v):
        if not path: return v
        s = path[0]
        k = s[0]
        if k in ('f', 'p'):
            n = dict(t)
            if s[1] not in n: raise Unsupported('no field %s' % s[1])
            n[s[1]] = self.upd(t[s[1]], path[1:], v)
            return n
        if k == 'i':
            n = dict(t)
            n['elem'] = store(t['elem'], s[1], self.upd(select(t['elem'], s[1]), path[1:], v) if len(path) > 1 else v)
            return n
        if k == 'k':
            n = dict(t)
            n['val'] = store(t['val'], s[1], self.upd(select(t['val'], s[1]), path[1:], v) if len(path) > 1 else v)
            return n
        if k == 't':
            n = dict(t)
            i = s[1]
            for q in t:
                if z3.is_int_value(i):
                    if i.as_long() == int(q): n[q] = self.upd(t[q], path[1:], v)
                else:
                    n[q] = ite(i == int(q), self.upd(t[q], path[1:], v), t[q])
            return n
        raise Unsupported('path')

    def write(self, lv, v):
        if lv.root[0] == 'L':
            s = lv.root[1]
            self.st.locals[s] = self.upd(self.st.locals[s], lv.path, v)
            return
        ref, oty = lv.root[1], lv.root[2]
        if oty.k == 'class':
            if not lv.path:
                if oty.a not in self.p.classes: return
                for kk, sub in v.items():
                    decl, f = kk.rsplit('::', 1)
                    h = self.heap_get(kk, self.field_ty(decl, f))
                    self._hset(kk, ref, store(h, ref, sub))
                return
            kk = lv.path[0][1]
            decl, f = kk.rsplit('::', 1)
            h = self.heap_get(kk, self.field_ty(decl, f))
            nv = v if len(lv.path) == 1 else self.upd(select(h, ref), lv.path[1:], v)
            self._hset(kk, ref, store(h, ref, nv))
            return
        kk = oty.key()
        h = self.heap_get(kk, oty)
        nv = v if not lv.path else self.upd(select(h, ref), lv.path, v)
        self._hset(kk, ref, store(h, ref, nv))

    def _hset(self, key, ref, t):
        if self.st.wlog is not None: self.st.wlog.append((key, ref))
        self.st.heap[key] = t

    def new_ref(self, dyn=None):
        r = z3.simplify(self.st.alloc)
        self.st.alloc = z3.simplify(self.st.alloc + 1)
        if dyn: self.st.dyn[r.sexpr()] = dyn
        return r

    def load_ptr_facts(self, v, ty):
        """typing invariant of stored pointers: null or an allocated object"""
        if ty.k == 'ptr' and z3.is_expr(v) and not z3.is_int_value(v):
            self.fact(z3.And(v >= 0, v < self.st.alloc))

    def fact(self, f):
        """typing fact, recorded once per path"""
        f = z3.simplify(f)
        if z3.is_true(f): return
        k = ('fact', f.get_id())
        if k in self.st.globals: return
        self.st.globals[k] = f
        self.st.pc.append(f)

    def load_int_facts(self, v, ty):
        if not self.o.get('intrange', True): return
        if ty.k == 'int' and z3.is_expr(v) and not z3.is_int_value(v) and (z3.is_const(v) or v.decl().kind() == z3.Z3_OP_SELECT):
            b, s = ty.a, ty.b
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
            self.fact(z3.And(v >= lo, v <= hi))

    def load(self, lv):
        v = self.read(lv)
        if lv.ty.k == 'ptr': self.load_ptr_facts(v, lv.ty)
        elif lv.ty.k == 'int': self.load_int_facts(v, lv.ty)
        return v

    def dyn_of(self, lv):
        """dynamic class of the object at lv, if known"""
        if lv.root[0] == 'H' and not lv.path:
            d = self.st.dyn.get(lv.root[1].sexpr())
            if d: return d
            d = self.st.dyn.get(z3.simplify(lv.root[1]).sexpr())
            if d: return d
            return None
        if lv.ty.k != 'class': return None
        # a member, an element or a variable: its class is the one it was declared with
        t = self.slot_ty.get(lv.root[1]) if lv.root[0] == 'L' else None
        for s in lv.path:
            if s[0] == 'f':
                decl, f = s[1].rsplit('::', 1)
                try: t = self.field_ty(decl, f)
                except (Unsupported, KeyError): t = None
            elif t is not None and s[0] == 'i' and t.k in ('vec', 'set'): t = t.a
            elif t is not None and s[0] == 't' and t.k == 'arr': t = t.a
            elif t is not None and s[0] == 'k' and t.k == 'map': t = t.b
            else: t = None
        if t is not None and t.k == 'class' and t.a in self.p.classes: return t.a
        return lv.ty.a

    def ptr_to_lv(self, v, pty):
        if isinstance(v, AddrV): return v.lv
        if isinstance(v, LV): return v
        if not z3.is_expr(v): raise Unsupported('pointer value %r' % (v,))
        if self.o['ub'] and not z3.is_int_value(v):
            t = self.frame.this if self.frame is not None else None
            if not (t is not None and t.root[0] == 'H' and t.root[1].eq(v)):
                self.require('pointer is not null', v != 0)
        elif z3.is_int_value(v) and v.as_long() == 0:
            self.require('pointer is not null', z3.BoolVal(False))
        return LV(('H', v, pty.a), (), pty.a)

    def lv_to_ptr(self, lv):
        if lv.root[0] == 'H' and not lv.path: return lv.root[1]
        return AddrV(lv)

    def require(self, what, cond):
        """undefined-behaviour obligation at this point"""
        if not self.o['ub']:
            self.assumption('no undefined behaviour assumed: ' + what)
            self.assume(cond); return
        cond = z3.simplify(cond)
        if z3.is_true(cond): return
        if self.o.get('quiet_ub'):
            self.assume(cond); return
        fn = self.frame.func if self.frame else None
        nm = '%s::%s: %s' % (fn.cls, fn.name, what) if fn is not None else what
        self.prove(nm, cond)
        self.assume(cond)

    # ------------------------------------------------------------------ functions
    def find(self, qual, nargs=None, sig=None):
        cls, name = qual.rsplit('::', 1) if '::' in qual else (None, qual)
        if cls is None:
            fs = [self.p.funcs[m] for m in self.p.byname.get((None, name), ())]
            if nargs is not None: fs = [f for f in fs if len(f.params) == nargs]
        else:
            fs = self.p.find_method(cls, name, nargs, sig)
        if not fs: raise Unsupported('function %s not found in the sources' % qual)
        return fs[0]

    def call_func(self, f, this, args, dyn=None, node=None):
        """call a repository function with evaluated arguments (LV for references, values otherwise)"""
        for key in (f.mangled, '%s::%s' % (f.cls, f.name)):
            h = self.hooks.get(key)
            if h is not None:
                return h(self, f, this, args)
        if f.body is None:
            if f.defaulted or f.kind == 'CXXDestructorDecl': return self.defaulted(f, this, args)
            raise Unsupported('no body for %s::%s' % (f.cls, f.name))
        if self.depth > 60: raise Unsupported('recursion too deep at %s' % f.name)
        self.funcs_run.add('%s::%s' % (f.cls, f.name) if f.cls else f.name)
        old = self.frame
        self.frame = Frame(f, this, dyn, f.tu)
        self.depth += 1
        try:
            for prm, a in zip(f.params, args):
                ty = parse(self.p.tstr(prm['type']))
                self.bind_param(prm, ty, a)
            if f.kind == 'CXXConstructorDecl':
                self.ctor_inits(f, this)
            try:
                self.stmt(f.body)
                rv = None
            except Ret as r:
                rv = r.val
            return rv
        finally:
            self.frame = old
            self.depth -= 1

    def bind_param(self, prm, ty, a):
        if ty.k == 'ref':
            if isinstance(a, LV): self.frame.vars[prm['id']] = a
            elif isinstance(a, FnV): self.frame.vars[prm['id']] = a
            else: self.frame.vars[prm['id']] = self.local(ty.a, a, prm.get('name', 'p'))
        elif isinstance(a, FnV):
            self.frame.vars[prm['id']] = a
        else:
            if isinstance(a, LV): a = self.load(a)
            self.frame.vars[prm['id']] = self.local(ty, a, prm.get('name', 'p'))

    def defaulted(self, f, this, args):
        if f.kind == 'CXXConstructorDecl':
            if args and isinstance(args[0], LV):
                self.write(this, self.read(LV(args[0].root, args[0].path, this.ty))); return None
            return self.ctor_inits(f, this)
        if f.name == 'operator=':
            self.write(this, self.read(LV(args[0].root, args[0].path, this.ty))); return this
        return None

    def ctor_inits(self, f, this):
        done = set()
        for ini in f.inits:
            inner = ini.get('inner', [])
            if 'anyInit' in ini:
                fid = ini['anyInit']['id']
                fname = ini['anyInit']['name']
                decl = self.p.id2field.get(fid, (f.cls, fname))[0]
                key = decl + '::' + fname
                fty = self.field_ty(decl, fname)
                lv = this.sub(('f', key), fty)
                done.add(key)
                self.init_lv(lv, fty, inner[0] if inner else None)
            elif 'baseInit' in ini:
                if inner:
                    e = inner[0]
                    bt = parse(norm_type(ini['baseInit'].get('desugaredQualType', ini['baseInit']['qualType'])))
                    if bt.a in self.p.classes: self.construct(e, LV(this.root, this.path, bt))
            else:
                if inner: self.construct(inner[0], this)
        if not f.inits and f.defaulted:
            pass

    def init_lv(self, lv, ty, e):
        """initialise storage lv of type ty from expression e"""
        if e is not None:
            while e['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr') and e.get('inner'): e = e['inner'][0]
        if e is None:
            self.write_local_init(lv, self.uninit(ty)); return
        if e['kind'] == 'CXXDefaultInitExpr':
            key = lv.path[-1][1] if lv.path else None
            decl, fn = key.rsplit('::', 1)
            for (n, t, i) in self.p.classes[decl].fields:
                if n == fn:
                    if i is None: self.write_local_init(lv, self.default(ty))
                    else: self.init_lv(lv, ty, i)
                    return
            raise Unsupported('default init of ' + str(key))
        if e['kind'] == 'ImplicitValueInitExpr':
            self.write_local_init(lv, self.default(ty)); return
        if e['kind'] == 'InitListExpr':
            self.write_local_init(lv, self.init_list(e, ty)); return
        if e['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and ty.k in ('class',) and ty.a in self.p.classes:
            self.construct(e, lv); return
        v = self.rv(e)
        self.write_local_init(lv, v)

    def write_local_init(self, lv, v):
        self.write(lv, v)

    def uninit(self, ty):
        k = ty.k
        if k in ('vec', 'map', 'set', 'str'): return self.default(ty)
        if k == 'class' and ty.a in self.p.classes:
            # default construction is always explicit in the AST; fields without initialiser are indeterminate
            return {c + '::' + f: self.uninit(parse(t)) for (c, f, t, i) in self.p.all_fields(ty.a)}
        if k == 'pair': return {'first': self.uninit(ty.a), 'second': self.uninit(ty.b)}
        if k == 'arr':
            return {str(i): self.uninit(ty.a) for i in range(ty.n or 0)}
        return self.fresh('uninit', leaf_sort(ty) if ty.k != 'class' else IntS)

    def init_list(self, e, ty):
        items = e.get('inner', [])
        if ty.k == 'arr':
            d = {}
            for i in range(ty.n):
                d[str(i)] = self.as_value(items[i], ty.a) if i < len(items) else self.default(ty.a)
            return d
        if ty.k == 'vec':
            t = self.default(ty)
            for i, x in enumerate(items):
                t = {'len': z3.IntVal(i + 1), 'elem': store(t['elem'], z3.IntVal(i), self.as_value(x, ty.a))}
            return t
        if ty.k == 'class' and ty.a in self.p.classes:
            d = {}
            fl = self.p.all_fields(ty.a)
            if len(items) == 1 and self.nty(items[0]).key() == ty.key(): return self.as_value(items[0], ty)
            for i, (c, f, t, ini) in enumerate(fl):
                if i < len(items):
                    x = items[i]
                    if x['kind'] == 'CXXDefaultInitExpr': d[c + '::' + f] = self.default_field(ini, parse(t))
                    else: d[c + '::' + f] = self.as_value(x, parse(t))
                else: d[c + '::' + f] = self.default_field(ini, parse(t))
            return d
        if not items: return self.default(ty)
        if len(items) == 1: return self.as_value(items[0], ty)
        raise Unsupported('initialiser list for ' + ty.key())

    def default_field(self, ini, ty):
        if ini is None: return self.default(ty)
        return self.as_value(ini, ty)

    def as_value(self, e, ty):
        x = e
        while x['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr', 'MaterializeTemporaryExpr') and x.get('inner'): x = x['inner'][0]
        if x['kind'] == 'InitListExpr': return self.init_list(x, ty)
        if x['kind'] == 'ImplicitValueInitExpr': return self.default(ty)
        return self.rv(e)

    def construct(self, e, lv):
        """run constructor expression e on storage lv"""
        while e['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ConstantExpr', 'CXXFunctionalCastExpr') or \
                (e['kind'] == 'ImplicitCastExpr' and e.get('castKind') in ('NoOp', 'ConstructorConversion')):
            e = e['inner'][0]
        if e['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            cls = self.nty(e).a
            ct = norm_type(e['ctorType'].get('desugaredQualType', e['ctorType']['qualType'])).replace(' noexcept', '')
            f = self.p.funcs.get('ctor:%s:%s' % (cls, ct))
            if f is None:
                cands = [g for m, g in self.p.funcs.items() if g.kind == 'CXXConstructorDecl' and g.cls == cls and len(g.params) == len(e.get('inner', []))]
                if len(cands) == 1: f = cands[0]
            args = e.get('inner', [])
            if cls not in self.p.classes:
                self.write(lv, self.rv(e)); return
            if f is None:
                if not args:
                    self.default_construct(lv, cls); return
                raise Unsupported('constructor %s %s' % (cls, ct))
            if f.body is None and f.defaulted or (f.body is None and not f.decl.get('explicitlyDeleted') and f.defaulted):
                if args:
                    src = self.ev(args[0])
                    self.write(lv, self.read(LV(src.root, src.path, lv.ty)) if isinstance(src, LV) else src)
                else:
                    self.default_construct(lv, cls)
                return
            if f.defaulted and not f.params:
                self.default_construct(lv, cls); return
            if f.defaulted and len(f.params) == 1:
                src = self.ev(args[0])
                self.write(lv, self.read(LV(src.root, src.path, LV(0, (), lv.ty).ty)) if isinstance(src, LV) else src)
                return
            # a class with state: storage starts indeterminate
            if not (self.frame is not None and lv.root[0] == 'H' and False):
                if lv.ty.a == cls and not getattr(self, '_noreset', False):
                    self.write(lv, self.uninit(Ty('class', cls)))
            a = self.eval_args(args, f)
            self.call_func(f, LV(lv.root, lv.path, Ty('class', cls)), a, dyn=cls)
            return
        if e['kind'] == 'InitListExpr':
            self.write(lv, self.init_list(e, lv.ty)); return
        self.write(lv, self.rv(e))

    def default_construct(self, lv, cls):
        f = self.p.funcs.get('ctor:%s:void ()' % cls)
        if f is not None and f.body is not None and not f.defaulted:
            self.write(lv, self.uninit(Ty('class', cls)))
            self.call_func(f, LV(lv.root, lv.path, Ty('class', cls)), [], dyn=cls); return
        C = self.p.classes[cls]
        for b in C.bases:
            if b in self.p.classes: self.default_construct(LV(lv.root, lv.path, Ty('class', b)), b)
        for (n, t, i) in C.fields:
            fty = parse(t)
            flv = lv.sub(('f', cls + '::' + n), fty)
            if i is not None: self.init_lv(flv, fty, i)
            elif fty.k == 'class' and fty.a in self.p.classes: self.default_construct(flv, fty.a)
            else: self.write(flv, self.uninit(fty))

    def eval_args(self, nodes, f):
        out = []
        for i, a in enumerate(nodes):
            pty = parse(self.p.tstr(f.params[i]['type'])) if f is not None and i < len(f.params) else None
            x = a
            if x['kind'] == 'CXXDefaultArgExpr':
                prm = f.params[i]
                inn = [c for c in prm.get('inner', []) if c.get('kind')] or prm.get('defaultInner')
                if not inn and x.get('inner'): inn = x['inner']
                if not inn: raise Unsupported('default argument of %s' % f.name)
                x = inn[0]
            v = self.ev(x)
            if pty is not None and pty.k != 'ref' and isinstance(v, LV):
                v = self.load(v)
            if isinstance(v, IterV): v = IterV(v.cont, v.idx, v.key, v.end)
            out.append(v)
        return out

    # ------------------------------------------------------------------ statements
    def stmt(self, n):
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        # expression statement
        self.ev(n)

    def s_CompoundStmt(self, n):
        for c in n.get('inner', []): self.stmt(c)

    def s_NullStmt(self, n): pass

    def s_DeclStmt(self, n):
        for d in n.get('inner', []):
            k = d['kind']
            if k == 'VarDecl': self.var_decl(d)
            elif k in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'CXXRecordDecl', 'StaticAssertDecl', 'EnumDecl', 'UsingDirectiveDecl'):
                if k == 'CXXRecordDecl': self.p._decl(d, None, {}, self.frame.tu)
            else: raise Unsupported('declaration ' + k)

    def var_decl(self, d):
        ty = parse(self.p.tstr(d['type']))
        inner = [c for c in d.get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr')]
        e = inner[-1] if inner and 'init' in d else None
        if d.get('storageClass') == 'static':
            key = d.get('mangledName') or d['id']
            slot = self.st.globals.get(key)
            if slot is None:
                lv = self.local(ty, self.uninit(ty), 'static_' + d.get('name', ''))
                self.st.globals[key] = lv
                self.init_lv(lv, ty, e)
                self.assumption('function-local static %s keeps its initial value between calls' % d.get('name'))
            self.frame.vars[d['id']] = self.st.globals[key]
            return
        if ty.k == 'ref':
            v = self.ev(e)
            if not isinstance(v, LV):
                if isinstance(v, FnV): self.frame.vars[d['id']] = v; return
                v = self.local(ty.a, v, d.get('name', 'v'))
            self.frame.vars[d['id']] = v
            return
        if e is not None:
            x = e
            while x['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr') or (x['kind'] == 'ImplicitCastExpr' and x.get('castKind') == 'NoOp' and x.get('valueCategory') == 'prvalue'):
                x = x['inner'][0]
            if x['kind'] == 'LambdaExpr':
                self.frame.vars[d['id']] = self.ev(x); return
        if ty.k == 'class' and ty.a in self.p.classes:
            lv = self.local(ty, self.uninit(ty), d.get('name', 'v'))
            self.frame.vars[d['id']] = lv
            if e is not None: self.init_lv(lv, ty, e)
            return
        if e is None: tree = self.uninit(ty)
        else:
            tree = self.as_value(e, ty)
            if isinstance(tree, FnV): self.frame.vars[d['id']] = tree; return
        self.frame.vars[d['id']] = self.local(ty, tree, d.get('name', 'v'))

    def s_ReturnStmt(self, n):
        inner = n.get('inner', [])
        if not inner: raise Ret(None)
        f = self.frame.func
        rt = self.ret_type(f)
        if rt.k == 'ref':
            v = self.ev(inner[0])
            raise Ret(v)
        v = self.as_value(inner[0], rt)
        raise Ret(v)

    def ret_type(self, f):
        if f is None: return T.VOID
        if isinstance(f, LambdaF): return f.rty
        t = f.decl['type']
        q = t.get('desugaredQualType', t['qualType'])
        s = f.type
        d = 0
        for i, ch in enumerate(s):
            if ch == '<': d += 1
            elif ch == '>': d -= 1
            elif ch == '(' and d == 0:
                r = s[:i].strip()
                if r == 'auto': break
                return self.resolve(parse(r))
        return T.VOID

    def resolve(self, ty):
        """resolve a sugared class name that is not a record (typedef in source)"""
        if ty.k == 'class' and ty.a not in self.p.classes:
            td = TYPEDEFS.get(ty.a)
            if td: return parse(td)
            if ty.a == 'Row' and self.frame and self.frame.func and self.frame.func.cls: return Ty('class', self.frame.func.cls.split('::')[0] + '::Row')
        if ty.k in ('ref', 'ptr'): return Ty(ty.k, self.resolve(ty.a))
        return ty

    def s_IfStmt(self, n):
        inner = list(n['inner'])
        if n.get('hasInit'): self.stmt(inner.pop(0))
        if n.get('hasVar'):
            self.stmt(inner.pop(0))
        cond, then = inner[0], inner[1]
        els = inner[2] if n.get('hasElse') else None
        c = self.truth(cond)
        if self.o['merge'] and self.mergeable(then) and (els is None or self.mergeable(els)):
            c = z3.simplify(c)
            if not (z3.is_true(c) or z3.is_false(c)):
                return self.merge_if(c, then, els)
        if self.branch(c): self.stmt(then)
        elif els is not None: self.stmt(els)

    def mergeable(self, n):
        k = n['kind']
        if k in ('CompoundStmt',): return all(self.mergeable(c) for c in n.get('inner', []))
        if k == 'NullStmt': return True
        if k in ('BinaryOperator', 'CompoundAssignOperator') and (n.get('opcode') == '=' or k == 'CompoundAssignOperator'):
            return self.is_pure(n['inner'][0]) and self.is_pure(n['inner'][1])
        if k == 'IfStmt' and not n.get('hasInit') and not n.get('hasVar'):
            return self.is_pure(n['inner'][0]) and all(self.mergeable(c) for c in n['inner'][1:])
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'): return True
        if k == 'ExprWithCleanups': return self.mergeable(n['inner'][0])
        return False

    def merge_if(self, c, then, els):
        base = self.st
        s1, s2 = base.copy(), base.copy()
        s1.pc.append(c); s2.pc.append(z3.Not(c))
        n0 = len(base.pc) + 1
        fr = self.frame
        self.st = s1; self.stmt(then)
        self.st = s2; s2.cnt = s1.cnt
        if els is not None: self.stmt(els)
        self.st = base
        base.cnt = s2.cnt
        base.pc.extend([z3.Implies(c, f) for f in s1.pc[n0:]] + [z3.Implies(z3.Not(c), f) for f in s2.pc[n0:]])
        for k in base.locals:
            a, b = s1.locals[k], s2.locals[k]
            if a is not b: base.locals[k] = ite(c, a, b) if not same(a, b) else a
        for k in set(s1.heap) | set(s2.heap):
            self.st = s1
            a, b = s1.heap.get(k), s2.heap.get(k)
            if a is None: a = base.heap.get(k) or b
            if b is None: b = base.heap.get(k) or a
            base.heap[k] = a if same(a, b) else ite(c, a, b)
        self.st = base

    def s_SwitchStmt(self, n):
        inner = [c for c in n['inner'] if c.get('kind')]
        cond, body = inner[-2], inner[-1]
        v = self.rv(cond)
        items = []      # flat list of (labels, stmt)
        def flat(s, labs):
            while s['kind'] in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    labs.append(self.rv(s['inner'][0])); s = s['inner'][-1]
                else:
                    labs.append('default'); s = s['inner'][-1]
            return s
        for c in body.get('inner', []):
            labs = []
            s = flat(c, labs)
            items.append((labs, s))
        allc = [l for labs, s in items for l in labs if not isinstance(l, str)]
        start = None
        dflt = None
        for i, (labs, s) in enumerate(items):
            for l in labs:
                if isinstance(l, str): dflt = i
                elif start is None and self.branch(v == l): start = i
            if start is not None: break
        if start is None: start = dflt
        if start is None: return
        try:
            for labs, s in items[start:]: self.stmt(s)
        except Brk:
            pass

    def s_BreakStmt(self, n): raise Brk()
    def s_ContinueStmt(self, n): raise Cont()
    def s_AttributedStmt(self, n): self.stmt(n['inner'][-1])

    def s_CXXTryStmt(self, n):
        body = n['inner'][0]
        handlers = n['inner'][1:]
        fr = self.frame
        try:
            self.stmt(body)
        except CppThrow as t:
            self.frame = fr
            for h in handlers:
                hi = h.get('inner', [])
                if len(hi) == 2 and hi[0].get('kind') == 'VarDecl':
                    ety = parse(self.p.tstr(hi[0]['type']))
                    while ety.k == 'ref': ety = ety.a
                    if not self.exc_matches(t.cls, ety.a): continue
                    self.frame.vars[hi[0]['id']] = self.local(ety, z3.IntVal(0), 'exc')
                old = getattr(self, 'cur_exc', None)
                self.cur_exc = t
                try:
                    self.stmt(hi[-1])
                finally:
                    self.cur_exc = old
                return
            raise

    def exc_matches(self, cls, want):
        tail = lambda x: x.rsplit('::', 1)[-1]
        return tail(want) in [tail(cls)] + [tail(b) for b in self.exc_bases(cls) + self.exc_bases(tail(cls))]

    def exc_bases(self, cls):
        out = list(STD_EXC.get(cls, []))
        if cls in self.p.classes:
            for b in self.p.bases_of(cls):
                if b not in out: out.append(b)
                out += STD_EXC.get(b, [])
        return out

    # loops -----------------------------------------------------------
    def s_ForStmt(self, n):
        inner = n['inner']
        init, condvar, cond, inc, body = inner
        if init.get('kind'): self.stmt(init)
        self.loop(n, cond if cond.get('kind') else None, body, inc if inc.get('kind') else None)

    def s_WhileStmt(self, n):
        inner = [c for c in n['inner'] if c.get('kind')]
        self.loop(n, inner[0], inner[-1], None)

    def s_DoStmt(self, n):
        body, cond = n['inner'][0], n['inner'][1]
        try:
            self.stmt(body)
        except Cont: pass
        except Brk: return
        self.loop(n, cond, body, None)

    def s_CXXForRangeStmt(self, n):
        inner = n['inner']
        # [init, range, begin, end, cond, inc, loopvar, body]
        if inner[0].get('kind'): self.stmt(inner[0])
        self.stmt(inner[1]); self.stmt(inner[2]); self.stmt(inner[3])
        self.loop(n, inner[4], inner[7], inner[5], pre=inner[6])

    def loop(self, n, cond, body, inc, pre=None):
        from . import loops
        return loops.run(self, n, cond, body, inc, pre)

    # ------------------------------------------------------------------ expressions
    def nty(self, n):
        return self.resolve(parse(self.p.tstr(n['type'])))

    def ev(self, n):
        """LV for lvalues, tree for prvalues"""
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression kind %s in %s' % (k, self.frame.func.name if self.frame and self.frame.func else '?'))
        return m(n)

    def rv(self, n):
        v = self.ev(n)
        if isinstance(v, LV): return self.load(v)
        return v

    def truth(self, n):
        v = self.rv(n)
        return self.to_bool(v)

    def to_bool(self, v):
        if isinstance(v, bool): return z3.BoolVal(v)
        if isinstance(v, (AddrV, LV)): return z3.BoolVal(True)
        if z3.is_bool(v): return v
        return v != 0

    def e_ParenExpr(self, n): return self.ev(n['inner'][0])
    def e_ConstantExpr(self, n): return self.ev(n['inner'][0])
    def e_ExprWithCleanups(self, n): return self.ev(n['inner'][0])
    def e_CXXBindTemporaryExpr(self, n): return self.ev(n['inner'][0])
    def e_SubstNonTypeTemplateParmExpr(self, n): return self.ev(n['inner'][-1])
    def e_CXXStdInitializerListExpr(self, n):
        x = n['inner'][0]
        while x['kind'] in ('MaterializeTemporaryExpr',): x = x['inner'][0]
        return ('initlist', x)

    def e_MaterializeTemporaryExpr(self, n):
        v = self.ev(n['inner'][0])
        if isinstance(v, (LV, FnV)): return v
        return self.local(self.nty(n), v, 'tmp')

    def e_IntegerLiteral(self, n): return z3.IntVal(int(n['value']))
    def e_CharacterLiteral(self, n): return z3.IntVal(int(n['value']))
    def e_CXXBoolLiteralExpr(self, n): return z3.BoolVal(bool(n['value']))
    def e_CXXNullPtrLiteralExpr(self, n): return z3.IntVal(0)
    def e_GNUNullExpr(self, n): return z3.IntVal(0)
    def e_PredefinedExpr(self, n): return self.fresh('fn', IntS)
    def e_SourceLocExpr(self, n): return self.fresh('fn', IntS)
    def e_ImplicitValueInitExpr(self, n): return self.default(self.nty(n))
    def e_CXXScalarValueInitExpr(self, n): return self.default(self.nty(n))

    def e_FloatingLiteral(self, n):
        s = n['value']
        try:
            f = float(s)
        except ValueError:
            raise Unsupported('literal ' + s)
        for q, d in ((1, 1), (1, 2), (2, 1), (1, 4), (3, 2)):
            if abs(f - _PIV * q / d) < 1e-14: 
                self.assumption('the half period of sin and cos is the double constant M_PI')
                return z3.RealVal(str(PIQ * q / d))
        return z3.RealVal(s if 'e' not in s.lower() else dec(s))

    def lit(self, s):
        if s not in self.strlits: self.strlits[s] = len(self.strlits) + 1
        return z3.IntVal(self.strlits[s])

    def e_StringLiteral(self, n):
        import json as _j
        try: s = _j.loads(n['value'])
        except Exception: s = n['value']
        return self.lit(s)

    def e_CXXThisExpr(self, n):
        if self.frame.this is None: raise Unsupported('this outside a method')
        return self.lv_to_ptr(self.frame.this)

    def e_CXXDefaultInitExpr(self, n): return self.default(self.nty(n))

    def e_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        k = rd['kind']
        if k == 'EnumConstantDecl':
            if rd['id'] in self.p.enums: return z3.IntVal(self.p.enums[rd['id']])
            raise Unsupported('enum constant ' + rd.get('name', ''))
        if k in ('ParmVarDecl', 'VarDecl', 'BindingDecl'):
            v = self.frame.vars.get(rd['id'])
            if v is not None: return v
            for fr in reversed(self.enum_frames):
                if rd['id'] in fr.vars: return fr.vars[rd['id']]
            return self.global_var(rd)
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return FnV(mangled=self.p.id2func.get(rd['id']), node=rd)
        if k == 'NonTypeTemplateParmDecl': raise Unsupported('template parameter')
        raise Unsupported('reference to ' + k)

    def global_var(self, rd):
        d = self.p.id2var.get(rd['id'])
        nm = rd.get('name')
        if nm in ('cout', 'cerr', 'clog', 'cin', 'endl'):
            return self.local(Ty('class', 'ostream'), z3.IntVal(0), nm)
        if d is None:
            fs, vs = self.p.on_demand(nm, self.frame.tu)
            d = vs[0] if vs else None
        if d is None: raise Unsupported('global ' + str(nm))
        key = d.get('mangledName') or d['id']
        d2 = self.p.extra.get(key, d)
        if 'init' in d2: d = d2
        if key in self.st.globals: return self.st.globals[key]
        ty = parse(self.p.tstr(d['type']))
        inner = [c for c in d.get('inner', []) if c.get('kind')]
        const = d['type']['qualType'].startswith('const ') or d['type']['qualType'].endswith('const') or ty.k == 'str'
        if 'init' in d and const and inner:
            fr = self.frame
            if self.frame is None: self.frame = Frame(None, None, None, None)
            v = self.as_value(inner[-1], ty)
            self.frame = fr
        else:
            v = self.mk(ty, 'G0!' + str(nm))
        lv = self.local(ty, v, 'g_' + str(nm))
        self.st.globals[key] = lv
        return lv

    def e_MemberExpr(self, n):
        base = n['inner'][0]
        name = n['name']
        fid = n.get('referencedMemberDecl')
        if n['type']['qualType'] == '<bound member function type>':
            raise Unsupported('bound member function value')
        v = self.ev(base)
        bty = self.nty(base)
        if n.get('isArrow'):
            if isinstance(v, LV): v = self.load(v)
            while bty.k == 'ref': bty = bty.a
            if bty.k == 'iter' or isinstance(v, IterV): lv = self.iter_deref(v)
            else: lv = self.ptr_to_lv(v, bty)
        else:
            lv = v
        if fid in self.p.id2var or (fid not in self.p.id2field and n.get('type') and name in ('first', 'second')):
            if fid in self.p.id2var: return self.global_var({'id': fid, 'name': name})
        if name in ('first', 'second') and fid not in self.p.id2field:
            ety = self.nty(n)
            if not isinstance(lv, LV): return lv[name]
            if hasattr(lv, 'key'):
                from . import stdlib
                return stdlib.map_elem_member(self, lv, name)
            return lv.sub(('p', name), ety)
        if fid in self.p.id2field:
            decl, fn = self.p.id2field[fid]
            if not isinstance(lv, LV):
                return lv[decl + '::' + fn]
            return lv.sub(('f', decl + '::' + fn), self.field_ty(decl, fn))
        if fid in self.p.enums: return z3.IntVal(self.p.enums[fid])
        raise Unsupported('member %s of %s' % (name, bty.key()))

    def e_ArraySubscriptExpr(self, n):
        b, i = n['inner']
        idx = self.rv(i)
        v = self.ev(b)
        if isinstance(v, LV):
            t = v.ty
            if t.k == 'arr':
                if self.o['ub']: self.require('array index in range', z3.And(idx >= 0, idx < t.n))
                return v.sub(('t', z3.simplify(idx)), t.a)
            v = self.load(v)
        if isinstance(v, AddrV) and v.lv.ty.k == 'arr':
            if self.o['ub']: self.require('array index in range', z3.And(idx >= 0, idx < v.lv.ty.n))
            return v.lv.sub(('t', z3.simplify(idx)), v.lv.ty.a)
        raise Unsupported('pointer arithmetic')

    # casts
    def e_ImplicitCastExpr(self, n): return self.cast(n)
    def e_CStyleCastExpr(self, n): return self.cast(n)
    def e_CXXStaticCastExpr(self, n): return self.cast(n)
    def e_CXXFunctionalCastExpr(self, n): return self.cast(n)
    def e_CXXConstCastExpr(self, n): return self.ev(n['inner'][0])
    def e_CXXReinterpretCastExpr(self, n): raise Unsupported('reinterpret_cast')

    def cast(self, n):
        ck = n.get('castKind')
        e = n['inner'][0]
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.ev(e)
        if ck == 'LValueToRValue':
            v = self.ev(e)
            return self.load(v) if isinstance(v, LV) else v
        if ck == 'IntegralCast':
            return self.int_cast(self.rv(e), self.nty(e), self.nty(n))
        if ck == 'IntegralToFloating':
            v = self.rv(e)
            if z3.is_bool(v): return z3.If(v, z3.RealVal(1), z3.RealVal(0))
            return z3.ToReal(v)
        if ck == 'FloatingToIntegral':
            v = self.rv(e)
            return self.trunc(v, self.nty(n))
        if ck in ('FloatingCast',): return self.rv(e)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return self.to_bool(self.rv(e))
        if ck == 'NullToPointer': return z3.IntVal(0)
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived'):
            v = self.ev(e)
            ty = self.nty(n)
            if isinstance(v, LV):
                if ty.k == 'class': return LV(v.root if v.root[0] == 'L' else ('H', v.root[1], v.root[2]), v.path, ty) if v.path or v.root[0] == 'L' else LV(('H', v.root[1], v.root[2]), (), ty)
                return self.load(v)
            return v
        if ck == 'ArrayToPointerDecay':
            v = self.ev(e)
            if isinstance(v, LV): return AddrV(v) if v.ty.k == 'arr' else self.load(v)
            return v
        if ck == 'BitCast': return self.rv(e)
        if ck == 'ToVoid': self.ev(e); return z3.IntVal(0)
        if ck == 'Dynamic': return self.dyn_cast(n)
        raise Unsupported('cast ' + str(ck))

    def int_cast(self, v, a, b):
        if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if a.k != 'int' or b.k != 'int':
            return v
        if z3.is_int_value(v):
            x = v.as_long()
            m = 1 << b.a
            x %= m
            if b.b and x >= m // 2: x -= m
            return z3.IntVal(x)
        if a.a == b.a and a.b == b.b: return v
        if b.b:      # to signed
            if a.b and a.a <= b.a or (not a.b and a.a < b.a): return v
            half, m = 1 << (b.a - 1), 1 << b.a
            if self.decided(z3.And(v >= -half, v < half)) is True: return v
            if a.a == b.a: return z3.If(v < half, v, v - m)
            w = v % m
            return z3.If(z3.And(v >= -half, v < half), v, z3.If(w < half, w, w - m))
        # to unsigned
        m = 1 << b.a
        if not a.b and a.a <= b.a: return v
        if a.b and a.a <= b.a:
            d = self.decided(v >= 0)
            if d is True: return v
            if d is False: return v + m
        if a.b and a.a <= b.a: return z3.If(v >= 0, v, v + m)
        return z3.If(z3.And(v >= 0, v < m), v, v % m)

    def trunc(self, v, ty):
        self.assumption('conversions of floating point numbers to integers are in range')
        v = z3.simplify(v)
        d = self.decided(v >= 0)
        if d is True: return z3.ToInt(v)
        if d is False: return -z3.ToInt(-v)
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    def e_CXXDynamicCastExpr(self, n): return self.dyn_cast(n)

    def dyn_cast(self, n):
        e = n['inner'][0]
        v = self.ev(e)
        ty = self.nty(n)
        want = ty.a if ty.k in ('ptr', 'ref') else ty
        if ty.k == 'ptr':
            if isinstance(v, LV): v = self.load(v)
            if isinstance(v, AddrV):
                d = self.dyn_of(v.lv)
                if d is not None: return v if self.p.is_subclass(d, want.a) else z3.IntVal(0)
                raise Unsupported('dynamic_cast')
            if z3.is_int_value(v) and v.as_long() == 0: return v
            ok = self.is_a(v, want.a)
            if self.branch(v == 0): return z3.IntVal(0)
            if self.branch(ok): return v
            return z3.IntVal(0)
        lv = v
        d = self.dyn_of(lv)
        if d is not None:
            if self.p.is_subclass(d, want.a if want.k == 'class' else want): return LV(lv.root, lv.path, want)
            raise CppThrow('bad_cast')
        if lv.root[0] == 'H' and not lv.path:
            if self.branch(self.is_a(lv.root[1], want.a)): return LV(lv.root, lv.path, want)
            raise CppThrow('bad_cast')
        raise Unsupported('dynamic_cast')

    def is_a(self, ref, cls):
        d = self.st.dyn.get(ref.sexpr()) or self.st.dyn.get(z3.simplify(ref).sexpr())
        if d is not None: return z3.BoolVal(self.p.is_subclass(d, cls))
        return z3.Function('isa_' + cls, IntS, BoolS)(ref)

    # operators
    def e_UnaryOperator(self, n):
        op = n['opcode']
        e = n['inner'][0]
        if op in ('++', '--'):
            lv = self.ev(e)
            old = self.load(lv)
            if isinstance(old, (AddrV,)): raise Unsupported('pointer arithmetic')
            if lv.ty.k == 'ptr': raise Unsupported('pointer arithmetic')
            nv = old + 1 if op == '++' else old - 1
            if lv.ty.k == 'int': nv = self.arith_wrap(nv, lv.ty, op)
            self.write(lv, z3.simplify(nv))
            return old if n.get('isPostfix') else lv
        if op == '*':
            v = self.rv(e)
            if isinstance(v, FnV): return v
            return self.ptr_to_lv(v, self.nty(e))
        if op == '&':
            lv = self.ev(e)
            if isinstance(lv, FnV): return lv
            return self.lv_to_ptr(lv)
        v = self.rv(e)
        if op == '!': return z3.Not(self.to_bool(v))
        if op == '-':
            ty = self.nty(n)
            if ty.k == 'int' and not ty.b: return self.arith_wrap(-v, ty, '-')
            return -v
        if op == '+': return v
        if op == '~':
            ty = self.nty(n)
            return -v - 1 if ty.b else (1 << ty.a) - 1 - v
        raise Unsupported('unary ' + op)

    def arith_wrap(self, v, ty, op):
        if ty.b:
            if self.o['overflow']:
                h = 1 << (ty.a - 1)
                self.require('no signed overflow', z3.And(v >= -h, v < h))
            else:
                self.assumption('signed integer arithmetic does not overflow')
            return v
        m = 1 << ty.a
        if op in ('-', '--'):
            d = self.decided(v >= 0)
            if d is True: return v
            if d is False: return v + m
            return z3.If(v >= 0, v, v + m)
        self.assumption('unsigned additions and multiplications stay below the modulus')
        return v

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            v = self.ev(b)
            if isinstance(v, LV): v = self.load(v)
            lv = self.ev(a)
            self.write(lv, v)
            return lv
        if op == ',':
            self.ev(a); return self.ev(b)
        if op in ('&&', '||'):
            x = self.truth(a)
            x = z3.simplify(x)
            if z3.is_false(x): return x if op == '&&' else self.truth(b)
            if z3.is_true(x): return self.truth(b) if op == '&&' else x
            if self.is_pure(b):
                k = len(self.st.pc)
                gl = dict(self.st.globals)
                self.st.pc.append(x if op == '&&' else z3.Not(x))
                y = self.truth(b)
                self.st.globals = gl
                new = self.st.pc[k + 1:]
                g = self.st.pc[k]
                del self.st.pc[k:]
                self.st.pc.extend(z3.Implies(g, f) for f in new)
                return z3.And(x, y) if op == '&&' else z3.Or(x, y)
            if self.branch(x):
                return self.truth(b) if op == '&&' else z3.BoolVal(True)
            return z3.BoolVal(False) if op == '&&' else self.truth(b)
        x = self.rv(a)
        y = self.rv(b)
        return self.binop(op, x, y, self.nty(n), self.nty(a))

    def is_pure(self, n):
        k = n['kind']
        if k in PURE_KINDS: return all(self.is_pure(c) for c in n.get('inner', []) if c.get('kind'))
        if k == 'BinaryOperator': return n['opcode'] not in ('=', ',') and all(self.is_pure(c) for c in n['inner'])
        if k == 'UnaryOperator': return n['opcode'] not in ('++', '--') and self.is_pure(n['inner'][0])
        if k == 'CallExpr':
            c = n['inner'][0]
            while c.get('inner') and c['kind'] != 'DeclRefExpr': c = c['inner'][0]
            return c.get('referencedDecl', {}).get('name') in PURE_FUNS and all(self.is_pure(x) for x in n['inner'][1:])
        if k == 'CXXMemberCallExpr':
            m = n['inner'][0]
            if m['kind'] == 'MemberExpr' and m.get('referencedMemberDecl') not in self.p.id2func and m.get('name') in ('size', 'empty'):
                return self.is_pure(m['inner'][0])
            if m['kind'] == 'MemberExpr':
                f = self.p.funcs.get(self.p.id2func.get(m.get('referencedMemberDecl')))
                if f is not None and ('%s::%s' % (f.cls, f.name)) in self.purehooks:
                    return self.is_pure(m['inner'][0]) and all(self.is_pure(c) for c in n['inner'][1:])
                if f is not None and f.body is not None and f.const and ('%s::%s' % (f.cls, f.name)) not in self.hooks and self.trivial_getter(f):
                    return self.is_pure(m['inner'][0]) and all(self.is_pure(c) for c in n['inner'][1:])
            return False
        if k == 'CXXOperatorCallExpr':
            c = n['inner'][0]
            while c.get('inner') and c['kind'] != 'DeclRefExpr': c = c['inner'][0]
            rd = c.get('referencedDecl', {})
            nm = rd.get('name')
            if nm == 'operator[]':
                t = self.nty(n['inner'][1])
                return (t.k == 'vec' or (t.k == 'class' and t.a.startswith('Vector'))) and all(self.is_pure(x) for x in n['inner'][1:])
            if nm in ('operator==', 'operator!=', 'operator<', 'operator*', 'operator->') and rd.get('id') not in self.p.id2func:
                return all(self.is_pure(x) for x in n['inner'][1:])
            return False
        return False

    def trivial_getter(self, f):
        b = f.body.get('inner', [])
        return len(b) == 1 and b[0]['kind'] == 'ReturnStmt' and b[0].get('inner') and self.is_pure(b[0]['inner'][0]) and not f.virtual

    def binop(self, op, x, y, ty, oty):
        if isinstance(x, (AddrV, LV)) or isinstance(y, (AddrV, LV)):
            if op in ('==', '!='):
                return self.ptr_eq(x, y) if op == '==' else z3.Not(self.ptr_eq(x, y))
            raise Unsupported('pointer arithmetic')
        if isinstance(x, IterV) or isinstance(y, IterV): raise Unsupported('iterator operation ' + op)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if z3.is_bool(x) and not z3.is_bool(y): x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
            if z3.is_bool(y) and not z3.is_bool(x): y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
            if z3.is_bool(x) and op not in ('==', '!='):
                x, y = z3.If(x, z3.IntVal(1), z3.IntVal(0)), z3.If(y, z3.IntVal(1), z3.IntVal(0))
            return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y}[op]()
        if ty.k == 'real':
            if op == '+': return x + y
            if op == '-': return x - y
            if op == '*': return x * y
            if op == '/':
                if self.o.get('div0', False): self.require('divisor is not zero', y != 0)
                return x / y
            raise Unsupported('real ' + op)
        if ty.k == 'ptr': raise Unsupported('pointer arithmetic')
        if ty.k == 'bool' and z3.is_bool(x):
            if op == '&': return z3.And(x, y)
            if op == '|': return z3.Or(x, y)
            if op == '^': return z3.Xor(x, y)
        if op == '+': return self.arith_wrap(x + y, ty, op)
        if op == '-': return self.arith_wrap(x - y, ty, op)
        if op == '*': return self.arith_wrap(x * y, ty, op)
        if op == '/':
            if self.o['ub']: self.require('divisor is not zero', y != 0)
            q = x / y      # Euclidean in z3: floor for positive divisors
            if not ty.b: return q
            return z3.If(x >= 0, z3.If(y > 0, x / y, -(x / (-y))), z3.If(y > 0, -((-x) / y), (-x) / (-y)))
        if op == '%':
            if self.o['ub']: self.require('divisor is not zero', y != 0)
            if not ty.b: return x % y
            return z3.If(x >= 0, x % y, -((-x) % y))
        if op == '<<':
            if z3.is_int_value(y):
                r = x * (1 << y.as_long())
                if not ty.b: return r % (1 << ty.a)
                self.assumption('signed integer arithmetic does not overflow')
                return r
            raise Unsupported('shift by a variable')
        if op == '>>':
            if z3.is_int_value(y): return x / (1 << y.as_long())
            raise Unsupported('shift by a variable')
        if op == '&': return self.bit_and(x, y, ty)
        if op == '|': return self.bit_or(x, y, ty)
        if op == '^':
            if z3.is_int_value(x) and z3.is_int_value(y): return z3.IntVal(x.as_long() ^ y.as_long())
            return z3.Function('xor', IntS, IntS, IntS)(x, y)
        raise Unsupported('operator ' + op)

    def bit_and(self, x, y, ty):
        if z3.is_int_value(x): x, y = y, x
        if z3.is_int_value(x): return z3.IntVal(x.as_long() & y.as_long())
        if z3.is_int_value(y):
            m = y.as_long()
            if m < 0: m += 1 << ty.a
            if m & (m + 1) == 0: return x % (m + 1)
            # contiguous block of ones: bits [lo, hi)
            lo = (m & -m).bit_length() - 1
            hi = m.bit_length()
            if m == (1 << hi) - (1 << lo):
                w = x if hi == ty.a and not ty.b else x % (1 << hi)
                if hi == ty.a and ty.b: return x - x % (1 << lo)
                return w - w % (1 << lo)
            # general mask: sum of bits
            return z3.Sum([((x / (1 << i)) % 2) * (1 << i) for i in range(hi) if m >> i & 1])
        f = z3.Function('band', IntS, IntS, IntS)
        return f(x, y)

    def bit_or(self, x, y, ty):
        if z3.is_int_value(x) and z3.is_int_value(y): return z3.IntVal(x.as_long() | y.as_long())
        f = z3.Function('bor', IntS, IntS, IntS)
        ks = sorted(self.bit_consts(x) | self.bit_consts(y))
        r = f(x, y)
        for k in ks:
            m = 1 << k
            r = z3.If(z3.And(x % m == 0, y >= 0, y < m), x + y, z3.If(z3.And(y % m == 0, x >= 0, x < m), x + y, r))
        return r

    def bit_consts(self, e, depth=6):
        out = set()
        st = [(e, 0)]
        while st:
            x, d = st.pop()
            if z3.is_int_value(x):
                v = x.as_long()
                if v > 1 and v & (v - 1) == 0: out.add(v.bit_length() - 1)
            elif d < depth and z3.is_app(x):
                st.extend((c, d + 1) for c in x.children())
        return {k for k in out if 2 <= k <= 31}

    def ptr_eq(self, x, y):
        def norm(v):
            if isinstance(v, LV): v = self.lv_to_ptr(v)
            return v
        x, y = norm(x), norm(y)
        if isinstance(x, AddrV) and isinstance(y, AddrV):
            if x.lv.root == y.lv.root and x.lv.path == y.lv.path: return z3.BoolVal(True)
            return z3.BoolVal(False)
        if isinstance(x, AddrV) or isinstance(y, AddrV): return z3.BoolVal(False)
        return x == y

    def e_CompoundAssignOperator(self, n):
        a, b = n['inner']
        y = self.rv(b)
        lv = self.ev(a)
        x = self.load(lv)
        op = n['opcode'][:-1]
        ct = parse(norm_type(n.get('computeResultType', n['type']).get('desugaredQualType', n.get('computeResultType', n['type'])['qualType'])))
        lt = self.nty(a)
        if ct.k == 'real' and lt.k == 'int': x = z3.ToReal(x)
        if lt.k == 'bool' and z3.is_bool(x) and ct.k == 'int': x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if ct.k == 'int' and lt.k == 'int': x = self.int_cast(x, lt, ct)
        v = self.binop(op, x, y, ct, ct)
        if ct.k == 'real' and lt.k == 'int': v = self.trunc(v, lt)
        elif ct.k == 'int' and lt.k == 'int': v = self.int_cast(v, ct, lt)
        elif lt.k == 'bool': v = self.to_bool(v)
        self.write(lv, v)
        return lv

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        x = z3.simplify(self.truth(c))
        if z3.is_true(x): return self.ev(a)
        if z3.is_false(x): return self.ev(b)
        if n.get('valueCategory') == 'prvalue' and self.is_pure(a) and self.is_pure(b):
            k = len(self.st.pc)
            gl = dict(self.st.globals)
            self.st.pc.append(x)
            u = self.rv(a)
            n1 = self.st.pc[k + 1:]
            del self.st.pc[k:]
            self.st.globals = dict(gl)
            self.st.pc.append(z3.Not(x))
            v = self.rv(b)
            n2 = self.st.pc[k + 1:]
            del self.st.pc[k:]
            self.st.globals = gl
            self.st.pc.extend([z3.Implies(x, f) for f in n1] + [z3.Implies(z3.Not(x), f) for f in n2])
            try:
                return ite(x, u, v)
            except Unsupported:
                pass
        if self.branch(x): return self.ev(a)
        return self.ev(b)

    # construction / new / delete
    def e_CXXConstructExpr(self, n):
        ty = self.nty(n)
        args = n.get('inner', [])
        if ty.k == 'class' and ty.a in self.p.classes:
            lv = self.local(ty, self.uninit(ty), 'obj')
            self.construct(n, lv)
            v = self.read(lv)
            return v
        from . import stdlib
        return stdlib.construct(self, ty, args, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_InitListExpr(self, n): return self.init_list(n, self.nty(n))

    def e_CXXNewExpr(self, n):
        pty = self.nty(n)
        ty = pty.a
        if n.get('isArray'): raise Unsupported('new[]')
        if ty.k == 'class' and ty.a in self.p.classes:
            ref = self.new_ref(ty.a)
        else:
            ref = self.new_ref()
        lv = LV(('H', ref, ty), (), ty)
        e = None
        for c in n.get('inner', []):
            e = c
        if ty.k == 'class' and ty.a in self.p.classes:
            if e is None: self.default_construct(lv, ty.a)
            else: self.construct(e, lv)
        else:
            v = self.as_value(e, ty) if e is not None else self.uninit(ty)
            if not self.is_opaque(ty): self.write(lv, v)
        return ref

    def e_CXXDeleteExpr(self, n):
        v = self.rv(n['inner'][0])
        if isinstance(v, AddrV): raise Unsupported('delete of a local')
        self.delete(v)
        return z3.IntVal(0)

    def freed(self):
        t = self.st.heap.get('$freed')
        if t is None:
            t = z3.K(IntS, z3.BoolVal(False))
            self.st.heap['$freed'] = t
        return t

    def delete(self, v):
        t = self.freed()
        if self.o.get('alive'):
            self.require('deleted object is alive (no double delete)', z3.Or(v == 0, z3.Not(sel(t, v))))
        if self.st.wlog is not None: self.st.wlog.append(('$freed', v))
        self.st.heap['$freed'] = z3.Store(t, v, z3.If(v == 0, sel(t, v), z3.BoolVal(True)))

    def e_CXXThrowExpr(self, n):
        if not n.get('inner'):
            t = getattr(self, 'cur_exc', None)
            if t is None: raise Unsupported('rethrow')
            raise CppThrow(t.cls, t.val)
        e = n['inner'][0]
        ty = self.nty(e)
        # evaluate the argument only for its effects on control flow: exception texts are not modelled
        raise CppThrow(ty.a if ty.k == 'class' else ty.key())

    # lambdas
    def e_LambdaExpr(self, n):
        return FnV(node=n, closure=self.frame)

    # calls
    def e_CXXMemberCallExpr(self, n):
        callee = n['inner'][0]
        while callee['kind'] in ('ParenExpr', 'ImplicitCastExpr'): callee = callee['inner'][0]
        if callee['kind'] != 'MemberExpr': raise Unsupported('member pointer call')
        name = callee['name']
        base = callee['inner'][0]
        fid = callee.get('referencedMemberDecl')
        bty = self.nty(base)
        f = self.p.funcs.get(self.p.id2func.get(fid))
        args = n['inner'][1:]
        v = self.ev(base)
        if callee.get('isArrow'):
            if isinstance(v, LV): v = self.load(v)
            while bty.k == 'ref': bty = bty.a
            if isinstance(v, IterV): lv = self.iter_deref(v)
            elif bty.k == 'ptr' and bty.a.k == 'class' and bty.a.a not in self.p.classes and bty.a.a in OPAQUE_CLASSES:
                return self.opaque_call(name, n, args)
            else: lv = self.ptr_to_lv(v, bty)
            oty = bty.a if bty.k == 'ptr' else lv.ty
        else:
            oty = bty
            if isinstance(v, LV): lv = v
            else: lv = self.local(bty, v, 'tmpobj')
        if f is None and oty.k == 'class' and oty.a in self.p.classes:
            fs = self.p.find_method(oty.a, name, len(args))
            if len(fs) >= 1: f = fs[0]
        if f is not None:
            return self.call_method(f, lv, args, n, name)
        from . import stdlib
        return stdlib.method(self, lv, oty, name, args, n)

    def call_method(self, f, lv, args, n, name):
        dyn = None
        if f.virtual:
            d = self.dyn_of(lv)
            if d is not None and d in self.p.classes:
                g = self.p.override(d, f)
                if g is not None: f = g
                dyn = d
            else:
                key = '%s::%s' % (f.cls, f.name)
                if key not in self.hooks and f.mangled not in self.hooks:
                    h = self.hooks.get('virtual:' + key) or self.hooks.get('virtual:' + name)
                    a = self.eval_args(args, f)
                    if h is not None: return h(self, f, lv, a)
                    return self.abstract_call(f, lv, a)
        if f.static: lv = None
        a = self.eval_args(args, f)
        return self.call_func(f, LV(lv.root, lv.path, lv.ty) if lv is not None else None, a, dyn=dyn, node=n)

    def abstract_call(self, f, lv, args):
        """interface method with unknown implementation: uninterpreted, pure function of the object and arguments"""
        if lv.root[0] != 'H' or lv.path: raise Unsupported('abstract call on a local')
        # a single implementation in the sources and none abstract: still abstract (any implementation may be plugged in)
        if not f.const and not self.o.get('abstract_nonconst'):
            raise Unsupported('call of non-const interface method %s' % f.name)
        self.assumption('interface method %s of objects of unknown class is a pure function of the object and its arguments' % f.name)
        ref = lv.root[1]
        flat = [ref]
        for a in args:
            if isinstance(a, LV): a = self.load(a)
            if isinstance(a, AddrV): raise Unsupported('abstract call with address argument')
            flat += [x for _, x in leaves(a)]
        rt = self.ret_type(f)
        nm = 'abs_' + f.name + '/%d' % len(flat)
        thr = z3.Function(nm + '!throws', *[x.sort() for x in flat], BoolS)(*flat)
        if self.o.get('abstract_throws', False):
            if self.branch(thr): raise CppThrow('Exception')
        if rt.k == 'void': return None
        if rt.k == 'ref':
            r = z3.Function(nm, *[x.sort() for x in flat], IntS)(*flat)
            self.st.pc.append(z3.And(r > 0, r < self.st.alloc))
            return LV(('H', r, rt.a), (), rt.a)
        return self.uf_tree(rt, nm, flat)

    def uf_tree(self, ty, nm, flat):
        if ty.k == 'class' and ty.a in self.p.classes:
            return {c + '::' + f: self.uf_tree(parse(t), nm + '.' + f, flat) for (c, f, t, i) in self.p.all_fields(ty.a)}
        if ty.k == 'arr': return {str(i): self.uf_tree(ty.a, nm + '.%d' % i, flat) for i in range(ty.n)}
        if ty.k == 'vec':
            es = z3.Function(nm + '.len', *[x.sort() for x in flat], IntS)(*flat)
            self.st.pc.append(es >= 0)
            if not is_scalar(ty.a): raise Unsupported('abstract vector result')
            el = z3.Function(nm + '.elem', *[x.sort() for x in flat], z3.ArraySort(IntS, leaf_sort(ty.a)))(*flat)
            return {'len': es, 'elem': el}
        r = z3.Function(nm, *[x.sort() for x in flat], leaf_sort(ty))(*flat)
        if ty.k == 'ptr': self.st.pc.append(z3.And(r >= 0, r < self.st.alloc))
        if ty.k == 'int': self.load_int_facts_app(r, ty)
        return r

    def load_int_facts_app(self, v, ty):
        b, s = ty.a, ty.b
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
        self.st.pc.append(z3.And(v >= lo, v <= hi))

    def opaque_call(self, name, n, args):
        for a in args:
            if a['kind'] == 'CXXDefaultArgExpr': continue
            self.ev(a)
        ty = self.nty(n)
        if n.get('valueCategory') == 'lvalue' or ty.k == 'ref':
            return self.local(ty.a if ty.k == 'ref' else ty, self.havoc_tree(ty.a if ty.k == 'ref' else ty, 'opaque'), 'opaque')
        if ty.k == 'void': return z3.IntVal(0)
        return self.havoc_tree(ty, 'opaque')

    def havoc_tree(self, ty, hint):
        self.st.cnt += 1
        if ty.k == 'class' and ty.a not in self.p.classes: return z3.IntVal(0)
        t = self.mk(ty, '%s!%s.%d' % (hint, self.st.ctx, self.st.cnt))
        return t

    def e_CXXOperatorCallExpr(self, n):
        c = n['inner'][0]
        while c.get('inner') and c['kind'] != 'DeclRefExpr': c = c['inner'][0]
        rd = c.get('referencedDecl', {})
        args = n['inner'][1:]
        f = self.p.funcs.get(self.p.id2func.get(rd.get('id'))) or self.p.other(rd, lambda: self.nty(args[0]))
        if f is not None and f.cls is not None and f.kind == 'CXXMethodDecl':
            lv = self.ev(args[0])
            if not isinstance(lv, LV): lv = self.local(self.nty(args[0]), lv, 'tmpobj')
            if f.name == 'operator=' and (f.body is None or f.defaulted):
                src = self.ev(args[1])
                v = self.read(LV(src.root, src.path, lv.ty)) if isinstance(src, LV) else src
                self.write(lv, v); return lv
            return self.call_method(f, lv, args[1:], n, f.name)
        if f is not None:
            return self.call_func(f, None, self.eval_args(args, f))
        nm = rd.get('name')
        if nm == 'operator()':
            fv = self.ev(args[0])
            if isinstance(fv, FnV): return self.call_lambda(fv, args[1:])
        from . import stdlib
        return stdlib.operator(self, nm, args, n)

    def call_lambda(self, fv, argnodes, argvals=None):
        rec = fv.node['inner'][0]
        meth = None
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()': meth = c
            if c.get('kind') == 'FunctionTemplateDecl':
                for x in c.get('inner', []):
                    if x.get('kind') == 'CXXMethodDecl': meth = x
        if meth is None: raise Unsupported('lambda')
        params = [c for c in meth.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        body = next((c for c in reversed(fv.node['inner']) if c.get('kind') == 'CompoundStmt'), None)
        s = norm_type(meth['type']['qualType'])
        r = s[:s.index('(')].strip()
        if '->' in s: r = s.split('->')[-1].strip()
        rty = parse(r) if r != 'auto' else None
        vals = argvals
        if vals is None:
            vals = []
            for a in argnodes: vals.append(self.ev(a))
        old = self.frame
        nf = Frame(LambdaF(rty or T.VOID, old.func), fv.closure.this, fv.closure.dyn, fv.closure.tu)
        nf.vars = fv.closure.vars        # captures by reference semantics (copies of unmodified values coincide)
        nf.vars = dict(fv.closure.vars)
        self.frame = nf
        self.depth += 1
        try:
            for prm, a in zip(params, vals):
                self.bind_param(prm, self.resolve(parse(self.p.tstr(prm['type']))), a)
            try:
                self.stmt(body); return None
            except Ret as rr:
                return rr.val
        finally:
            self.frame = old
            self.depth -= 1

    def e_CallExpr(self, n):
        c = n['inner'][0]
        cn = c
        while cn.get('inner') and cn['kind'] != 'DeclRefExpr': cn = cn['inner'][0]
        if cn['kind'] != 'DeclRefExpr':
            if cn['kind'] in ('UnresolvedLookupExpr',): raise Unsupported('unresolved call')
            raise Unsupported('indirect call')
        rd = cn['referencedDecl']
        args = n['inner'][1:]
        if rd['kind'] in ('VarDecl', 'ParmVarDecl'):
            fv = self.ev(cn)
            if isinstance(fv, FnV): return self.call_fn(fv, args)
            raise Unsupported('call through pointer')
        f = self.p.funcs.get(self.p.id2func.get(rd['id']))
        if f is not None:
            if f.kind == 'CXXMethodDecl' and not f.static: raise Unsupported('method called as function')
            return self.call_func(f, None, self.eval_args(args, f))
        nm = rd['name']
        h = self.hooks.get('::' + nm)
        if h is not None:
            return h(self, None, None, [self.ev(a) for a in args])
        from . import stdlib
        r = stdlib.function(self, nm, args, n)
        if r is not NotImplemented: return r
        fs, vs = self.p.on_demand(nm, self.frame.tu)
        want = norm_type(rd['type']['qualType'])
        fs2 = [g for g in fs if g.type == want] or fs
        if fs2:
            self.p.id2func[rd['id']] = fs2[0].mangled
            return self.call_func(fs2[0], None, self.eval_args(args, fs2[0]))
        raise Unsupported('library function ' + nm)

    def call_fn(self, fv, args):
        if fv.closure is not None: return self.call_lambda(fv, args)
        f = self.p.funcs.get(fv.mangled)
        if f is None: raise Unsupported('call through pointer')
        return self.call_func(f, None, self.eval_args(args, f))

    def iter_deref(self, it):
        from . import stdlib
        return stdlib.iter_deref(self, it)

    def e_CXXUnresolvedConstructExpr(self, n): raise Unsupported('dependent expression')
    def e_ArrayInitLoopExpr(self, n): raise Unsupported('array copy')

    def e_UnaryExprOrTypeTraitExpr(self, n):
        return z3.IntVal(8)

    def e_CXXTypeidExpr(self, n): return self.fresh('typeid', IntS)


class LambdaF:
    def __init__(self, rty, outer):
        self.rty, self.name, self.cls, self.tu = rty, 'lambda', (outer.cls if outer else None), (outer.tu if outer else None)
        self.kind, self.mangled = 'lambda', 'lambda'


TYPEDEFS = {'Vector2D': 'Vector2D_T<>', 'Point2D': 'Vector2D_T<>', 'Point3D': 'Vector3D', 'IntVec': 'vector<int>', 'DoubleVec': 'vector<double>',
            'StringVec': 'vector<string>'}
OPAQUE_CLASSES = {'ostream', 'basic_ostream', 'stringstream', 'basic_stringstream', 'basic_ostream<char>', 'istream', 'basic_istream', 'ifstream', 'ofstream',
                  'basic_stringstream<char>', 'allocator<char>', 'ios_base', 'exception', 'out_of_range', 'ostringstream', 'basic_ostringstream', 'istringstream',
                  'basic_istringstream', 'basic_ifstream', 'basic_ofstream', 'initializer_list', 'basic_ios', 'basic_ios<char>', 'basic_iostream', 'runtime_error', 'logic_error'}


def dec(s):
    from fractions import Fraction
    from decimal import Decimal
    f = Fraction(Decimal(s))
    return '%d/%d' % (f.numerator, f.denominator)


_hq = {}
def has_quant(e):
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x) and not x.is_lambda(): return True
        if z3.is_app(x): st.extend(x.children())
    return False
