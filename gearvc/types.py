"""type descriptors parsed from normalised clang type spellings"""
import functools

INTS = {'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False), 'long': (64, True), 'unsigned long': (64, False),
        'long long': (64, True), 'unsigned long long': (64, False), 'short': (16, True), 'unsigned short': (16, False),
        'char': (8, True), 'unsigned char': (8, False), 'signed char': (8, True), 'size_t': (64, False), 'size_type': (64, False),
        'difference_type': (64, True), 'ptrdiff_t': (64, True), 'long64': (64, True), 'int64_t': (64, True), 'uint64_t': (64, False),
        'unsigned char32_t': (32, False), 'wchar_t': (32, True), 'int32_t': (32, True), 'uint32_t': (32, False)}


class Ty:
    __slots__ = ('k', 'a', 'b', 'n')

    def __init__(self, k, a=None, b=None, n=None):
        self.k, self.a, self.b, self.n = k, a, b, n

    def __repr__(self):
        return self.key()

    def key(self):
        k = self.k
        if k == 'int': return 'int%d%s' % (self.a, '' if self.b else 'u')
        if k in ('bool', 'real', 'str', 'void'): return k
        if k == 'class': return self.a
        if k == 'vec': return 'vector<%s>' % self.a.key()
        if k == 'set': return 'set<%s>' % self.a.key()
        if k == 'map': return 'map<%s,%s>' % (self.a.key(), self.b.key())
        if k == 'pair': return 'pair<%s,%s>' % (self.a.key(), self.b.key())
        if k == 'ptr': return self.a.key() + '*'
        if k == 'ref': return self.a.key() + '&'
        if k == 'arr': return '%s[%s]' % (self.a.key(), self.n)
        if k == 'iter': return 'iter<%s>' % self.a.key()
        return 'opaque:' + str(self.a)


REAL, BOOL, STR, VOID = Ty('real'), Ty('bool'), Ty('str'), Ty('void')
INT, UINT, ULONG = Ty('int', 32, True), Ty('int', 32, False), Ty('int', 64, False)


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip(): out.append(cur.strip())
    return out


@functools.lru_cache(maxsize=None)
def parse(q):
    q = q.strip()
    while True:
        if q.startswith('const ') and not q.endswith('*const'):
            q = q[6:].strip()
        elif q.startswith('volatile '):
            q = q[9:].strip()
        elif q.endswith(' const'):
            q = q[:-6].strip()
        elif q.endswith('*const'):
            q = q[:-5].strip()
        else:
            break
    if q.endswith('&&'): return Ty('ref', parse(q[:-2]))
    if q.endswith('&'): return Ty('ref', parse(q[:-1]))
    if q.endswith('*'):
        t = parse(q[:-1])
        if t.k == 'int' and t.a == 8: return STR          # C strings are string tokens
        return Ty('ptr', t)
    if q.endswith(']'):
        i = q.rindex('[')
        n = q[i + 1:-1]
        t = parse(q[:i])
        if t.k == 'int' and t.a == 8: return STR
        return Ty('arr', t, n=int(n) if n.isdigit() else None)
    if q in INTS: return Ty('int', *INTS[q])
    if q == 'bool': return BOOL
    if q in ('double', 'float', 'long double'): return REAL
    if q in ('string', 'basic_string'): return STR
    if q == 'void': return VOID
    if q.endswith('>') and '<' in q:
        i = q.index('<')
        base, args = q[:i], split_args(q[i + 1:-1])
        if base == 'vector': return Ty('vec', parse(args[0]))
        if base == 'map': return Ty('map', parse(args[0]), parse(args[1]))
        if base == 'set': return Ty('set', parse(args[0]))
        if base == 'pair': return Ty('pair', parse(args[0]), parse(args[1]))
        if base == '__normal_iterator': return Ty('iter', parse(args[1]))
        if base in ('_Rb_tree_iterator', '_Rb_tree_const_iterator'):
            e = parse(args[0])
            if e.k == 'pair': return Ty('iter', Ty('map', e.a, e.b))
            return Ty('iter', Ty('set', e))
        if base == 'allocator': return Ty('opaque', q)
    if q.endswith(')') or '(' in q: return Ty('opaque', q)
    return Ty('class', q)
