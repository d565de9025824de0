"""Mechanical extraction of the functions under contract from /repo's current sources.

Every run dumps clang's typed AST (JSON) of the needed translation units and indexes it.
What the extraction drops: comments, preprocessor-disabled text, attributes, access control
and exception specifications.  No statement or expression of a function body is dropped; an
expression kind the verifier does not know makes the obligation unsupported (never proved).
"""
import json, os, re, shutil, subprocess, hashlib, pickle, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('GEARVC_REPO', '/repo')
CLANG = next((c for c in ('/usr/bin/clang++-18', '/usr/bin/clang++') if os.path.exists(c)), 'clang++')


class ExtractError(Exception):
    pass


def make_config(scratch):
    """generate gear/GearConfig.h from the repository's template (as cmake would)"""
    d = os.path.join(scratch, 'inc', 'gear')
    os.makedirs(d, exist_ok=True)
    t = open(os.path.join(REPO, 'cmake/GearConfig.h.cmake.in')).read()
    ver = {'MAJOR': '1', 'MINOR': '9', 'PATCH': '5'}
    try:
        cm = open(os.path.join(REPO, 'CMakeLists.txt')).read()
        for k in ver:
            m = re.search(r'SET\(\s*%s_VERSION_%s\s+(\d+)' % (r'\$\{PROJECT_NAME\}', k), cm, re.I)
            if m: ver[k] = m.group(1)
    except OSError:
        pass
    for k, v in ver.items():
        t = t.replace('@GEAR_VERSION_%s@' % k, v)
    t = re.sub(r'#cmakedefine\s+(\w+).*', r'/* #undef \1 */', t)
    with open(os.path.join(d, 'GearConfig.h'), 'w') as f:
        f.write(t)
    return os.path.join(scratch, 'inc')


def cflags(inc):
    return ['-std=c++17', '-I' + inc, '-I' + REPO + '/include', '-I' + REPO + '/include/gear']


def _strip(n):
    n.pop('range', None)
    k = n.get('kind')
    inner = n.get('inner')
    if inner:
        out = []
        for c in inner:
            ck = c.get('kind', '')
            if ck.endswith('Comment'):
                continue
            _strip(c)
            out.append(c)
        n['inner'] = out


def dump_tu(path, inc, filt):
    r = subprocess.run([CLANG, '-fsyntax-only', '-w'] + cflags(inc) +
                       ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, path],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise ExtractError('clang failed on %s: %s' % (path, r.stderr[:2000]))
    s = r.stdout
    dec = json.JSONDecoder()
    out, i, n = [], 0, len(s)
    while True:
        while i < n and s[i] in ' \r\n\t':
            i += 1
        if i >= n:
            break
        o, i = dec.raw_decode(s, i)
        _strip(o)
        out.append(o)
    return out


def norm_type(q):
    """normalise a type spelling"""
    q = re.sub(r'\b(class|struct|enum|typename) ', '', q)
    q = q.replace('std::__cxx11::', 'std::').replace('__gnu_cxx::', '').replace('std::', '').replace('gear::', '').replace('CLHEP::', '')
    q = q.replace('basic_string<char>', 'string').replace('basic_string<char, char_traits<char>, allocator<char>>', 'string')
    q = re.sub(r', allocator<[^<>]*(?:<[^<>]*(?:<[^<>]*>)?[^<>]*>)?[^<>]*>', '', q)
    q = re.sub(r'\s+', ' ', q).strip()
    return q


class Func:
    __slots__ = ('name', 'mangled', 'decl', 'params', 'body', 'cls', 'inits', 'type', 'kind', 'virtual', 'tu', 'static',
                 'defaulted', 'pure', 'const')

    def __repr__(self):
        return 'Func(%s::%s)' % (self.cls, self.name)


class Cls:
    def __init__(self, name):
        self.name = name
        self.fields = []      # (name, type, initexpr|None)
        self.bases = []
        self.methods = []     # mangled
        self.ctors = []
        self.complete = False
        self.statics = {}


class Program:
    """index of all declarations of the dumped translation units"""

    def __init__(self, tus, scratch, filters=('gear::',)):
        self.inc = make_config(scratch)
        self.scratch = scratch
        self.classes = {}
        self.funcs = {}          # mangled -> Func (with body if any TU has it)
        self.id2func = {}        # (id) -> mangled
        self.id2var = {}
        self.id2field = {}
        self.byname = {}
        self.enums = {}
        self.enum_names = {}
        self.typedefs = {}
        self.tus = []
        self.extra = {}
        self.literals = set()
        self.libtus = set()
        jobs = []
        for tu in tus:
            filt = filters
            if isinstance(tu, tuple):
                tu, filt = tu[0], (tu[1],)
                if not filt[0].startswith('gear::'): self.libtus.add(tu if os.path.isabs(tu) else os.path.join(REPO, 'src', tu))
            for f in filt:
                jobs.append((tu if os.path.isabs(tu) else os.path.join(REPO, 'src', tu), f))
        with ThreadPoolExecutor(8) as ex:
            docs = list(ex.map(lambda a: dump_tu(a[0], self.inc, a[1]), jobs))
        for (tu, f), ds in zip(jobs, docs):
            self.tus.append(tu)
            self._index(ds, tu)
        self._sub = self._ops = None

    # ---------------------------------------------------------------- indexing
    def _index(self, docs, tu):
        ctxnames = {}   # decl id -> class name

        def pre(n, cls):
            k = n.get('kind')
            if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                nm = n.get('name', '?%s' % n['id'])
                if k == 'ClassTemplateSpecializationDecl':
                    args = []
                    for c in n.get('inner', []):
                        if c.get('kind') == 'TemplateArgument':
                            if 'type' in c: args.append(norm_type(c['type']['qualType']))
                            elif 'value' in c: args.append(str(c['value']))
                            else:
                                args.append('?')
                    # default template arguments are not printed in type spellings
                    full = '%s<%s>' % (nm, ', '.join(args))
                    alias = nm + '<>'
                    if args and args[-1] == 'double':
                        short = '%s<%s>' % (nm, ', '.join(args[:-1]))
                    else:
                        short = full
                    nm = short
                else:
                    nm = (cls + '::' + nm) if cls else nm
                ctxnames[n['id']] = nm
                for c in n.get('inner', []):
                    pre(c, nm)
            elif k in ('NamespaceDecl', 'LinkageSpecDecl'):
                for c in n.get('inner', []):
                    pre(c, cls)
            elif k == 'ClassTemplateDecl':
                for c in n.get('inner', []):
                    if c.get('kind') == 'ClassTemplateSpecializationDecl':
                        pre(c, cls)

        for d in docs:
            pre(d, None)
        for d in docs:
            self._decl(d, None, ctxnames, tu)

    def _decl(self, n, cls, ctx, tu):
        k = n.get('kind')
        if k in ('NamespaceDecl', 'LinkageSpecDecl'):
            for c in n.get('inner', []):
                self._decl(c, cls, ctx, tu)
        elif k == 'ClassTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') == 'ClassTemplateSpecializationDecl':
                    self._decl(c, cls, ctx, tu)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            nm = ctx.get(n['id'])
            if n.get('isImplicit') or not n.get('completeDefinition'):
                return
            C = self.classes.get(nm)
            new = C is None or not C.complete
            if new:
                C = self.classes[nm] = Cls(nm)
                C.complete = True
                for b in n.get('bases', []):
                    t = b['type']
                    C.bases.append(norm_type(t.get('desugaredQualType', t['qualType'])))
            for c in n.get('inner', []):
                ck = c.get('kind')
                if ck == 'FieldDecl':
                    init = next((x for x in c.get('inner', []) if 'kind' in x), None) if c.get('hasInClassInitializer') else None
                    self.id2field[c['id']] = (nm, c.get('name'))
                    if new:
                        C.fields.append((c.get('name'), self.tstr(c['type']), init))
                elif ck in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                    self._func(c, nm, tu)
                elif ck in ('CXXRecordDecl', 'EnumDecl', 'TypedefDecl', 'ClassTemplateDecl'):
                    self._decl(c, nm, ctx, tu)
                elif ck == 'VarDecl':
                    self.id2var[c['id']] = c
                    if c.get('mangledName'):
                        old = self.extra.get(c['mangledName'])
                        if old is None or c.get('init'):
                            self.extra[c['mangledName']] = c
                elif ck == 'FunctionTemplateDecl':
                    for x in c.get('inner', []):
                        if x.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl') and any(y.get('kind') == 'TemplateArgument' for y in x.get('inner', [])):
                            self._func(x, nm, tu)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            c = cls
            if 'parentDeclContextId' in n:
                c = ctx.get(n['parentDeclContextId'], cls)
            self._func(n, c, tu)
        elif k == 'FunctionTemplateDecl':
            for x in n.get('inner', []):
                if x.get('kind') == 'FunctionDecl' and 'mangledName' in x:
                    self._func(x, cls, tu)
        elif k == 'VarDecl':
            self.id2var[n['id']] = n
            if n.get('mangledName'):
                old = self.extra.get(n['mangledName'])
                if old is None or n.get('init'):
                    self.extra[n['mangledName']] = n
        elif k == 'EnumDecl':
            v = -1
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    e = _find_const(c)
                    v = int(e) if e is not None else v + 1
                    self.enums[c['id']] = v
                    self.enum_names[c.get('name')] = v
            if n.get('name'):
                self.typedefs[n['name']] = 'int'

    def tstr(self, t):
        return norm_type(t.get('desugaredQualType', t['qualType']))

    def _func(self, n, cls, tu):
        m = n.get('mangledName')
        nm = n.get('name', '')
        k = n['kind']
        if k == 'CXXConstructorDecl':
            m = 'ctor:%s:%s' % (cls, norm_type(n['type']['qualType']))
            if m.endswith(' noexcept'): m = m[:-9]
        elif k == 'CXXDestructorDecl':
            m = 'dtor:%s' % cls
        elif m is None:
            m = 'nomangle:%s:%s:%s' % (cls, nm, norm_type(n['type']['qualType']))
        elif n.get('storageClass') == 'static' and k == 'FunctionDecl':
            m = m + '@' + os.path.basename(tu)
        self.id2func[n['id']] = m
        body = None
        inits = []
        params = []
        for c in n.get('inner', []):
            ck = c.get('kind')
            if ck == 'ParmVarDecl':
                params.append(c)
            elif ck in ('CompoundStmt', 'CXXTryStmt'):
                body = c
            elif ck == 'CXXCtorInitializer':
                inits.append(c)
        old = self.funcs.get(m)
        if old is not None and old.body is None and body is None:
            # keep default arguments of whichever declaration has them
            for a, b in zip(old.params, params):
                if 'init' in b and 'init' not in a:
                    a['init'] = b['init']; a['inner'] = b.get('inner', [])
        if old is not None and (old.body is not None or body is None):
            if body is None:
                for a, b in zip(old.params, params):
                    if 'init' in b and 'init' not in a:
                        a.setdefault('defaultInner', b.get('inner', []))
            if n.get('virtual'): old.virtual = True
            return
        f = Func()
        f.name, f.mangled, f.decl, f.params, f.body, f.cls, f.inits = nm, m, n, params, body, cls, inits
        f.type = norm_type(n['type']['qualType'])
        f.kind = k
        f.virtual = bool(n.get('virtual')) or (old.virtual if old else False)
        f.pure = bool(n.get('pure'))
        f.static = n.get('storageClass') == 'static' and k == 'CXXMethodDecl' or (old.static if old else False)
        f.const = f.type.endswith(' const') or ' const noexcept' in f.type
        f.tu = tu
        f.defaulted = bool(n.get('explicitlyDefaulted')) or bool(n.get('isImplicit'))
        if old is not None:
            for a, b in zip(params, old.params):
                if 'init' in b and 'init' not in a:
                    a['defaultInner'] = b.get('inner', [])
                elif 'defaultInner' in b:
                    a.setdefault('defaultInner', b['defaultInner'])
        self.funcs[m] = f
        self.byname.setdefault((cls, nm), set()).add(m)
        if cls in self.classes:
            pass

    # ---------------------------------------------------------------- queries
    def bases_of(self, cls, acc=None):
        acc = acc if acc is not None else []
        C = self.classes.get(cls)
        if C:
            for b in C.bases:
                if b not in acc:
                    acc.append(b)
                    self.bases_of(b, acc)
        return acc

    def is_subclass(self, a, b):
        return a == b or b in self.bases_of(a)

    def subclasses(self, b):
        return [c for c in self.classes if self.is_subclass(c, b)]

    def all_fields(self, cls):
        """[(declaring class, name, type, init)] base classes first"""
        out, seen = [], set()

        def rec(c):
            if c in seen: return
            seen.add(c)
            C = self.classes.get(c)
            if C is None: return
            for b in C.bases: rec(b)
            for (n, t, i) in C.fields:
                out.append((c, n, t, i))
        rec(cls)
        return out

    def find_method(self, cls, name, nargs=None, sig=None):
        """functions called name in cls or its bases"""
        for c in [cls] + self.bases_of(cls):
            ms = self.byname.get((c, name))
            if ms:
                fs = [self.funcs[m] for m in sorted(ms)]
                if nargs is not None:
                    fs = [f for f in fs if len(f.params) == nargs] or []
                if sig is not None:
                    fs = [f for f in fs if [self.tstr(p['type']) for p in f.params] == sig] or fs
                if fs:
                    return fs
        return []

    def override(self, cls, f):
        """the final overrider of virtual f in dynamic class cls"""
        sig = [self.tstr(p['type']) for p in f.params]
        if f.kind == 'CXXDestructorDecl':
            return self.funcs.get('dtor:' + cls)
        for c in [cls] + self.bases_of(cls):
            for m in sorted(self.byname.get((c, f.name), ())):
                g = self.funcs[m]
                if [self.tstr(p['type']) for p in g.params] == sig and g.const == f.const:
                    return g
        return f

    def other(self, rd, first):
        """an operator of a library dumped separately (CLHEP), found by its name and type"""
        if self._ops is None:
            self._ops = {}
            for m, f in self.funcs.items():
                if f.name.startswith('operator') and f.tu in self.libtus: self._ops.setdefault((f.name, f.type), []).append(m)
        ms = self._ops.get((rd.get('name'), norm_type(rd.get('type', {}).get('qualType', ''))), ()) if self._ops else ()
        if rd.get('kind') == 'CXXMethodDecl':
            t = first()
            ms = [m for m in ms if self.funcs[m].cls == t.a]
        return self.funcs[ms[0]] if len(ms) == 1 else None

    def on_demand(self, name, tu):
        """dump a function outside namespace gear (e.g. a file-static helper)"""
        key = (name, tu)
        if self._sub is None: self._sub = {}
        if key in self._sub:
            return self._sub[key]
        docs = dump_tu(tu, self.inc, name)
        before = set(self.funcs)
        docs = [d for d in docs if d.get('kind') in ('FunctionDecl', 'CXXRecordDecl', 'VarDecl', 'FunctionTemplateDecl')
                and d.get('name') == name]
        self._index(docs, tu)
        fs = [self.funcs[self.id2func[d['id']]] for d in docs if d.get('kind') == 'FunctionDecl']
        fs = [f for f in fs if f.body is not None] or fs
        vs = [d for d in docs if d.get('kind') == 'VarDecl']
        self._sub[key] = (fs, vs)
        return self._sub[key]


def _find_const(n):
    if n.get('kind') == 'ConstantExpr' and 'value' in n:
        return n['value']
    if n.get('kind') == 'IntegerLiteral':
        return n['value']
    for c in n.get('inner', []):
        v = _find_const(c)
        if v is not None:
            return v
    return None


def numeric_literals(node, out):
    if node.get('kind') in ('IntegerLiteral', 'FloatingLiteral') and 'value' in node:
        out.add(node['value'])
    if node.get('kind') == 'StringLiteral':
        out.add(node.get('value', ''))
    for c in node.get('inner', []):
        numeric_literals(c, out)
