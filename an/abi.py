"""Calling library functions in terms of C++ parameters: values with components, references, results."""
from expr import *
from ai import AI, State, ptr, isptr, obj, Limit
from ir import Anchor
import poly

class Layout:
    """components of the value classes: (name, offset, size); members are identified by their public accessors where there are any"""
    def __init__(self, mod):
        self.mod = mod; self.c = {}
    def get(self, ty):
        if ty in self.c: return self.c[ty]
        m = self.mod
        def getters(*names):
            out = []
            for n in names:
                f = m.dem('%s::%s() const' % (ty, n)); A = AI(m); a = A.argsyms(f)
                v = [o.val for o in A.run(f, a) if o.kind == 'ret']
                if len(v) != 1 or v[0].op != 'init' or v[0].a[0] is not a[0]: raise Anchor('%s::%s does not return a member' % (ty, n))
                out.append((n, v[0].a[1], v[0].w // 8))
            if len({o for _, o, _ in out}) != len(out): raise Anchor('accessors of %s share a member' % ty)
            return out
        if ty in ('jm::Vertex2', 'jm::Vertex3'):
            r = [(n, m.off(ty, n), 8) for n in (('x', 'y') if ty.endswith('2') else ('x', 'y', 'z'))]
        elif ty == 'jm::Point': r = getters('x', 'y')
        elif ty == 'jm::Size': r = getters('width', 'height')
        elif ty == 'jm::Rect': r = getters('x', 'y', 'width', 'height')
        elif ty == 'jm::Extents':
            r = []
            for n in ('minPoint', 'maxPoint'):
                f = m.dem('jm::Extents::%s() const' % n); A = AI(m); a = A.argsyms(f)
                v = [o.val for o in A.run(f, a) if o.kind == 'ret']
                b, d, o = A.split(v[0])
                if len(v) != 1 or b is not a[0] or d is not None: raise Anchor('jm::Extents::%s does not refer to a member' % n)
                for c, off, s in self.get('jm::Vertex3'): r.append((n[:3] + c, o + off, s))
        elif ty == 'double': r = [('', 0, 8)]
        elif ty == 'float': r = [('', 0, 4)]
        elif ty == 'int64': r = [('', 0, 8)]
        elif ty == 'int32': r = [('', 0, 4)]
        elif ty == 'bool': r = [('', 0, 1)]
        else: raise Anchor('no layout for %s' % ty)
        self.c[ty] = r
        return r

def params(dem):
    """C++ parameter types of a demangled signature"""
    s = dem[dem.index('(') + 1:]
    depth = 0; out = []; cur = ''
    for ch in s:
        if ch in '(<': depth += 1
        if ch in ')>':
            if depth == 0: break
            depth -= 1
        if ch == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

class Val:
    """an operand: type, component symbols, address when it lives in memory"""
    def __init__(self, ty, comps, addr=None): self.ty = ty; self.c = comps; self.addr = addr

class Mismatch(Exception): pass

def shape(ty):
    """'mat:RxC' / 'vec:N' -> class, dimensions"""
    k, d = ty.split(':')
    return ('jm::Matrix' if k == 'mat' else 'jm::Vector'), tuple(int(x) for x in d.split('x'))
def heapy(ty): return ty.startswith(('mat:', 'vec:'))
def index(dims): return ['%d,%d' % (i, j) for j in range(dims[1]) for i in range(dims[0])] if len(dims) == 2 else ['%d' % i for i in range(dims[0])]
def hfields(lay, cls):
    m = lay.mod
    if cls == 'jm::Vector': return [m.off(cls, 'm')], m.off(cls, 'data')
    f = m.dem('jm::Matrix::ref() const'); A = AI(m); a = A.argsyms(f)
    v = [o.val for o in A.run(f, a) if o.kind == 'ret']
    if len(v) != 1 or v[0].op != 'init' or v[0].a[0] is not a[0]: raise Anchor('jm::Matrix::ref does not return a member')
    return [m.off(cls, 'm'), m.off(cls, 'n')], v[0].a[1]
def read_heapy(A, st, lay, ty, addr):
    cls, dims = shape(ty); ds, data = hfields(lay, cls)
    for o, want in zip(ds, dims):
        g = A.load(st, add(addr, const(o, 64)), 8)
        if not isc(g): raise Mismatch('the dimension is %s instead of %d' % (g, want))
        if cv(g) != want: raise Mismatch('the dimension is %d instead of %d' % (cv(g), want))
    names = index(dims)
    if not names: return {}
    p = A.load(st, add(addr, const(data, 64)), 8, True)
    if isc(p): raise Mismatch('the elements are missing')
    if A.split(p)[0] in st.freed: raise Mismatch('the elements are freed storage')
    return {n: A.load(st, add(p, const(8 * k, 64)), 8, False, True) for k, n in enumerate(names)}

def symval(lay, ty, name):
    if ty.startswith('='): return Val(ty, {'': int(ty[1:])})
    if heapy(ty): return Val(ty, {n: sym('%s[%s]' % (name, n), 64) for n in index(shape(ty)[1])})
    return Val(ty, {n: sym('%s.%s' % (name, n) if n else name, s * 8) for n, o, s in lay.get(ty)})

def place(A, st, lay, v, addr):
    v.addr = addr
    if heapy(v.ty):
        cls, dims = shape(v.ty); ds, data = hfields(lay, cls)
        for o, n in zip(ds, dims): A.store(st, add(addr, const(o, 64)), const(n, 64), 8)
        A.ctr += 1
        h = obj('heap', 'elements#%d' % A.ctr)
        A.store(st, add(addr, const(data, 64)), h if v.c else const(0, 64), 8)
        for k, n in enumerate(index(dims)): A.store(st, add(h, const(8 * k, 64)), v.c[n], 8)
        return
    for n, o, s in lay.get(v.ty): A.store(st, add(addr, const(o, 64)), v.c[n], s)

def invoke(A, lay, f, vals, st, method):
    """run f on Val operands (C++ order, `this` first for methods); returns (outcomes, reader of result components)"""
    ptys = params(f.dem)
    if method: ptys = ['this'] + ptys
    if len(ptys) != len(vals): raise Anchor('%s: %d parameters, %d operands' % (f.dem, len(ptys), len(vals)))
    args = []; k = 0; ret = None
    irs = f.args
    if irs and irs[0]['sret']:
        ret = obj('alloca', 'result'); args.append(ret); k = 1
    for pt, v in zip(ptys, vals):
        ir = irs[k]
        if v.ty.startswith('='):
            if irs[k]['ty'] in ('double', 'float'): args.append(fconst(float(v.c['']), 64 if irs[k]['ty'] == 'double' else 32))
            else: args.append(const(v.c[''], int(irs[k]['ty'][1:])))
            k += 1; continue
        byref = pt == 'this' or pt.endswith(('&', '*'))
        if byref or (ir['ty'] == 'ptr'):
            a = v.addr
            if a is None:
                a = ptr(sym('&%s%d' % (v.ty.split('::')[-1], k), 64, True)) if byref else obj('alloca', 'arg%d' % k)
                place(A, st, lay, v, a)
            args.append(a); k += 1
        else:
            for n, o, s in sorted(lay.get(v.ty), key=lambda x: x[1]):
                if k >= len(irs): raise Anchor('%s: unexpected parameter passing' % f.dem)
                args.append(v.c[n]); k += 1
    if k != len(irs): raise Anchor('%s: unexpected parameter passing (%d of %d)' % (f.dem, k, len(irs)))
    outs = A.run(f, args, st)
    def result(o, ty):
        """components of the returned value"""
        if heapy(ty): return read_heapy(A, o.st, lay, ty, ret if ret is not None else o.val)
        L = lay.get(ty)
        if ret is not None: return {n: A.load(o.st, add(ret, const(of, 64)), s, False, s == 8) for n, of, s in L}
        v = o.val
        if isinstance(v, tuple) and v[0] == 'agg':
            return {n: v[1].get((i,)) for i, (n, of, s) in enumerate(sorted(L, key=lambda x: x[1]))}
        isp = isinstance(v, E) and isptr(A.split(v)[0])
        if len(L) == 1 and not isp: return {L[0][0]: v}
        if isp: return {n: A.load(o.st, add(v, const(of, 64)), s, False, s == 8) for n, of, s in L}
        raise Anchor('%s: result of type %s not understood' % (f.dem, ty))
    return outs, result

def content(A, st, lay, v):
    if heapy(v.ty): return read_heapy(A, st, lay, v.ty, v.addr)
    return {n: A.load(st, add(v.addr, const(o, 64)), s, False, s == 8) for n, o, s in lay.get(v.ty)}

FOPS = {'folt', 'fole', 'foeq', 'fone', 'ford'}
def floatcond(c):
    if c.op in FOPS: return True
    if c.op in ('not',): return floatcond(c.a[0])
    if c.op in ('and', 'or', 'xor'): return floatcond(c.a[0]) and floatcond(c.a[1])
    return False
def facts(st):
    return [(c, v) for c, v in st.facts.items() if isinstance(c, E) and floatcond(c)]
