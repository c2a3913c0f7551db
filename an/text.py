"""Text operations on strings of concrete length with arbitrary characters: operands are laid out in symbolic memory, the operation is
abstractly interpreted, every observable result is compared with the definition of the operation on sequences.  Every access to storage
of known extent is checked against that extent; allocation, release, sharing and the cached hash of every string are followed."""
import itertools, random, zlib
from expr import *
from ai import AI, State, ptr, isptr, obj, Limit, nonneg_proof
from ir import Anchor
import models, abi

IMAX = (1 << 63) - 1; IMIN = -(1 << 63)

MASK = {}
def mask(c):
    """(the one byte the condition depends on, the set of its values for which it holds as a bit mask), or None"""
    if c not in MASK:
        r = None; l = list(leaves(c))
        if len(l) == 1 and l[0].w == 8 and l[0].op == 'sym':
            import piece
            try:
                f = eval('lambda x: ' + piece.py(c, l[0]), {'int': int})
                r = l[0], sum(1 << v for v in range(256) if f(v))
            except (piece.Untab, NameError): pass
        MASK[c] = r
    return MASK[c]
FULL = (1 << 256) - 1

class Q:
    """answers questions about characters from the facts of a path; what the path leaves open is decided both ways, one after the other"""
    def __init__(self, A, st, ch): self.A = A; self.st = st; self.ch = ch; self.k = 0; self.m = None
    def values(self, x):
        """the values a byte can have under the facts of the case"""
        if self.m is None:
            self.m = {}
            for c, v in self.st.facts.items():
                r = mask(c) if isinstance(c, E) and c.w == 1 else None
                if r: self.m[r[0]] = self.m.get(r[0], FULL) & (r[1] if v else ~r[1])
        if x not in self.m: self.m[x] = FULL
        lo, hi = ai_interval(x, self.st)
        self.m[x] &= ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)
        for v in self.st.rng.get(('ne', x), ()): self.m[x] &= ~(1 << v)
        return self.m[x]
    def true(self, c):
        if isinstance(c, bool): return c
        d = self.A.decide(self.st, c)
        r = mask(c) if d is None else None
        if r:
            k = self.values(r[0])
            if not k & r[1]: d = False
            elif not k & ~r[1]: d = True
        if d is None:
            if self.k < len(self.ch): d = self.ch[self.k][0]
            else:
                d = True; self.ch.append([True, False])
            self.k += 1
            self.A.assume(self.st, c, d)
            if r: self.m[r[0]] &= r[1] if d else ~r[1]
        return d
    def eq(self, a, b):
        if not isinstance(a, E) and not isinstance(b, E): return a == b
        if not isinstance(a, E): a, b = b, a
        if not isinstance(b, E): b = const(b, a.w)
        return self.true(icmp('eq', a, b))
    def lt(self, a, b): return self.true(icmp('ult', lift(a), lift(b)))
    def within(self, a, lo, hi): return self.true(icmp('ule', const(lo, a.w), a)) and self.true(icmp('ule', a, const(hi, a.w)))
def lift(a, w=16): return a if isinstance(a, E) else const(a, w)

def consistent(A, st):
    """characters known to be equal are one character: a recorded fact that contradicts this, or a known value, makes the case impossible"""
    up = {}
    def find(x):
        while x in up: x = up[x]
        return x
    for c, v in st.facts.items():
        if isinstance(c, E) and c.op == 'eq' and v and c.a[0].w <= 32 and not isc(c.a[0]):
            a, b = find(c.a[0]), find(c.a[1])
            if a is b: continue
            if isc(a):
                if isc(b): return False
                a, b = b, a
            up[a] = b
    m = {}
    for c in st.facts:
        if isinstance(c, E):
            for y in leaves(c):
                if y in m or y.w > 32: continue
                lo, hi = ai_interval(y, st)
                if lo == hi: m[y] = const(lo, y.w)
                elif y in up: m[y] = find(y)
    for y in list(m):
        r = find(y)
        if isc(r): m[y] = r
        elif r in m: m[y] = m[r]
    if not m: return True
    for c, v in st.facts.items():
        if isinstance(c, E) and c.op in ('eq', 'ult', 'slt', 'and', 'or', 'not'):
            r = subst(c, m)
            if isc(r) and bool(cv(r)) != v: return False
            if r is not c and st.facts.get(r, v) != v: return False
    return True
from ai import interval as ai_interval

def every(A, st, body):
    ch = []
    n = 0
    while True:
        q = Q(A, st.copy(), ch)
        body(q); n += 1
        if n > 20000: raise Limit('too many cases')
        while ch and ch[-1][1]: ch.pop()
        if not ch: return n
        ch[-1] = [False, True]

def decided(q, *gs):
    """the graphs with every condition and character that the facts of the case determine replaced by its value"""
    m = {}; seen = set()
    def walk(g):
        if g in seen or not isinstance(g, E): return
        seen.add(g)
        if g.op == 'c': return
        if g.w == 1:
            d = q.A.decide(q.st, g)
            if d is not None: m[g] = TRUE if d else FALSE; return
        elif g.op in ('sym', 'init', 'call'):
            lo, hi = ai_interval(g, q.st)
            if lo == hi: m[g] = const(lo, g.w); return
        for x in g.a: walk(x)
    for g in gs: walk(g)
    return [subst(g, m) if m else g for g in gs]

def same(q, g, w):
    """g (found) equals w (defined) under the facts of the case"""
    if g is None: return False
    w = w if isinstance(w, E) else const(w, g.w)
    if g is w: return True
    if g.w != w.w: return False
    d = q.A.decide(q.st, icmp('eq', g, w))
    if d is not None: return d
    for _ in range(4):
        g2, w2 = decided(q, g, w)
        if g2 is w2: return True
        if g2 is g and w2 is w: break
        g, w = g2, w2
    b1, b2 = bits(g), bits(w)
    if None not in b1 and b1 == b2: return True
    if finite(q, g, w): return True
    n = agree(q, g, w)
    if n is not None and n >= 8: raise Limit('%s and %s are equal for all values tried, but this is not shown' % (g, w))
    return False

def values(A, g):
    """the graph with opaque calls and table look-ups of constants replaced by values"""
    for _ in range(12):
        if isc(g): return g
        g = tables(A, g)
        m = {x: const(zlib.crc32(repr(x).encode()) * 2654435761 + len(repr(x)), x.w) for x in nodes(g, set()) if x.op == 'call' and all(not isinstance(y, E) or isc(y) for y in x.a)}
        if not m: return g
        g = subst(g, m)
    return g
def agree(q, g, w, tries=300):
    """number of assignments (consistent with the facts of the path) for which both graphs have the same value; None when one tells them apart"""
    rnd = random.Random(7); L = {y for x in (g, w) for y in leaves(x)}; F = []
    fs = [(c, v) for c, v in q.st.facts.items() if isinstance(c, E)]
    grown = True
    while grown:
        grown = False
        for c in fs:
            if c in F: continue
            l = set(leaves(c[0]))
            if l & L:
                F.append(c)
                if l - L: L |= l; grown = True
    L = sorted(L, key=lambda y: y.id); n = 0
    if any(y.op not in ('sym', 'init') for y in L): return 0
    R = {y: ai_interval(y, q.st) for y in L}
    for t in range(tries):
        m = {}
        pool = [rnd.getrandbits(16), 48 + rnd.randrange(10), 65 + rnd.randrange(26), 97 + rnd.randrange(26)]
        for y in L:
            lo, hi = R[y]; k = rnd.randrange(6)
            v = lo if k == 0 else hi if k == 1 else rnd.randint(lo, hi) if k == 2 else rnd.randint(lo, min(hi, lo + 1000)) if k == 3 else rnd.choice(pool)
            m[y] = const(min(max(v, lo), hi), y.w)
        if any((lambda r: isc(r) and bool(cv(r)) != v)(values(q.A, subst(c, m))) for c, v in F): continue
        a, b = values(q.A, subst(g, m)), values(q.A, subst(w, m))
        if not isc(a) or not isc(b): return 0
        if a is not b: return None
        n += 1
        if n >= 40: break
    return n

def nodes(g, out):
    if isinstance(g, E) and g not in out and g.op not in ('c', 'f'):
        out.add(g)
        for x in g.a: nodes(x, out)
    return out
SPEC = {}
def table(name, values, idx, w=16):
    """the idx-th of the given values, as a value of the definition"""
    SPEC[name] = list(values)
    return mk('spectab', w, name, idx)
def tables(A, g):
    m = {}
    for x in nodes(g, set()):
        if x.op == 'spectab' and isc(x.a[1]): m[x] = const(SPEC[x.a[0]][cv(x.a[1])], x.w)
        if x.op == 'tab' and isinstance(x.a[3], E) and isc(x.a[3]):
            v = A.ginit(x.a[0], x.a[1] + sv(x.a[3]), x.a[2])
            if v is not None: m[x] = v
    return subst(g, m) if m else g
def finite(q, g, w, limit=256):
    """both graphs depend on a common part that takes few values only: they are compared for each of them"""
    for x in sorted(nodes(g, set()) & nodes(w, set()), key=lambda x: -x.id):
        if (x is g or x is w) and x.op != 'sym' or x.w > 64: continue
        lo, hi = ai_interval(x, q.st)
        if hi - lo >= limit: continue
        ok = True
        for v in range(lo, hi + 1):
            m = {x: const(v, x.w)}
            a, b = tables(q.A, subst(g, m)), tables(q.A, subst(w, m))
            if a is not b: ok = False; break
        if ok: return True
    return False

class Bad(Exception): pass

def witness(st, e):
    """lengths and capacities that satisfy every fact of the path and make e negative; None when none of the candidates does"""
    V = [0, 1, 2, 7, 15, 16, 17, 31, 32, 33, 100, 1000, 1023, 1024, 1025, 5000, 65535, 65536, 70000]
    fs = [(c, v) for c, v in st.facts.items() if isinstance(c, E) and any(y.op == 'sym' and y.a[0].startswith(('length', 'capacity')) for y in leaves(c))]
    L = sorted({y for z in [e] + [c for c, _ in fs] for y in leaves(z)}, key=lambda y: y.id)
    if any(not (y.op == 'sym' and y.a[0].startswith(('length(', 'capacity('))) for y in leaves(e)): return None
    names = sorted({y.a[0].split('(')[1] for y in L if y.op == 'sym' and '(' in y.a[0]})
    for vs in itertools.product(V, repeat=len(names)):
        for cs in itertools.product((0, 1, 2, 3), repeat=len(names)):
            m = {}
            for n, l, c in zip(names, vs, cs):
                r = (l + 15) // 16 * 16
                m[sym('length(' + n, 64)] = const(l, 64); m[sym('capacity(' + n, 64)] = const([l, l + 1, r, r + 16][c], 64)
            if sv(subst(e, m)) >= 0: continue
            ok = True
            for c, v in fs:
                r = subst(c, m)
                if not isc(r) or bool(cv(r)) != v: ok = False; break
            if ok: return ', '.join('%s=%d' % (k.a[0], sv(v)) for k, v in m.items() if k in L)
    return None


class Text:
    split = False; realconst = False      # realconst: functions of constant characters are interpreted
    def __init__(self, ck, charfns=True):
        self.ck = ck; self.mod = ck.mod; m = ck.mod
        self.n = 0; self.paths = 0
        F = lambda c, n: m.off(c, n)
        self.S = {n: F('jm::String', n) for n in ('mValue', 'mArrLength', 'mStrLength', 'mHash')}
        self.B = {n: F('jm::ByteArray', n) for n in ('mData', 'mArrSize', 'mRawSize')}
        self.C = {n: F('jm::CharArray', n) for n in ('length', 'buffer')}
        self.models = models.throw_models(m)
        for f in m.fns.values():
            d = f.dem
            if d.startswith('jm::String::arg('): self.models[f.name] = self.m_arg
            elif d.startswith('jm::I18nBundle::translate('): self.models[f.name] = self.m_tr
            elif d == 'jm::I18nBundle::getDefault()': self.models[f.name] = lambda ai, st, av, x: [(st, 'ret', ptr(sym('translation', 64, True)))]
            elif d == 'jm::String::String(char const*)': self.models[f.name] = self.m_literal
            elif d == 'jm::System::autoreleasePool()': self.models[f.name] = lambda ai, st, av, x: [(st, 'ret', ptr(sym('pool', 64, True)))]
            elif charfns and d in ('jm::Char::toLowerCase() const', 'jm::Char::toUpperCase() const'): self.models[f.name] = self.m_char('lower' if 'Lower' in d else 'upper', 16)
            elif charfns and d == 'jm::Char::isWhitespace() const': self.models[f.name] = self.m_char('space', 1)
            elif d.startswith('jm::Exception::errorMessage'): pass
        self.empties = [g for g in m.globals if 'kEmptyString' in g and not g.startswith('_ZGV')]
        self.consts = self.char_constants()
        self.vt = {}; self.kinds = {}    # further kinds of operands: (place, read, element)
    def char_constants(self):
        """character constants with a dynamic initialiser: the value its initialiser stores"""
        want = {n for n, g in self.mod.globals.items() if g.get('size') == 2 and str(g.get('dity', '')).startswith('const ')}
        out = {}
        for f in self.mod.fns.values():
            if f.decl or not f.name.startswith('__cxx_global_var_init'): continue
            hit = {a[1] for b in f.order for x in f.blocks[b].ins for a in x.d.get('args', ()) if a[0] == 'g' and a[1] in want}
            if len(hit) != 1: continue
            g = hit.pop(); A = AI(self.mod, {'llvm.invariant.start': models.m_nop}, max_paths=4)
            try: o = A.run(f, [], State())
            except Limit: continue
            v = [A.load(x.st, obj('global', g), 2) for x in o]
            if len(v) == 1 and isc(v[0]): out[g] = v[0]
        return out
    def constants(self, A, st):
        for g in self.empties: self.place_string(A, st, obj('global', g), 'empty', [], 16)
        for g, v in self.consts.items(): A.store(st, obj('global', g), v, 2)
    def m_char(self, name, w):
        def f(ai, st, av, x):
            c = ai.load(st, av[0], 2)
            if self.realconst and isc(c): return NotImplemented
            return [(st, 'ret', mkcall(name, w, [c]))]
        return f
    def m_tr(self, ai, st, av, x):
        ai.store(st, add(av[0], const(self.S['mValue'], 64)), ptr(ai.fresh('message', 64, True)), 8)
        return [(st, 'ret', None)]
    def m_literal(self, ai, st, av, x):
        if not (isinstance(av[1], E) and not isc(av[1])): return NotImplemented
        t = models.cstr(ai, av[1])
        if t is None or any(ord(c) >= 128 for c in t): return NotImplemented
        h = self.place_string(ai, st, av[0], 'literal', [const(ord(c), 16) for c in t])
        st.event('new', '_Znam', h, None, x)
        return [(st, 'ret', None)]
    def m_arg(self, ai, st, av, x):
        v = ai.load(st, add(av[1], const(self.S['mValue'], 64)), 8, True)
        if v.op == 'sym' and v.a[0].startswith('message'): return self.m_tr(ai, st, av, x)
        return NotImplemented
    def ai(self, **k):
        A = AI(self.mod, self.models, max_paths=40000, max_steps=6000000, unroll=400, **k)
        A.split_select = self.split
        A.faults = {}; A.unproved = None
        A.size = {}
        def chk(kind):
            def f(base, dyn, off, size, st, ins):
                if base.op != 'obj' or base.a[0] != 'heap': return
                if base in st.freed: A.faults.setdefault(('freed', kind), '%s released storage' % ('reads' if kind == 'r' else 'writes')); raise Bad('%s released storage' % ('reads' if kind == 'r' else 'writes'))
                n = A.size.get(base)
                if n is None: return
                if isinstance(n, E) or isinstance(size, E):
                    if not isinstance(n, E): n = const(n, 64)
                    e = add(dyn, const(off, 64)) if dyn is not None else const(off, 64)
                    if not isinstance(size, E): size = const(size, 64)
                    for g in (e, sub(sub(n, e), size)): self.atleast0(A, st, g, '%s %s bytes at %s of storage of %s bytes' % ('reads' if kind == 'r' else 'writes', size, e, n))
                    return
                if dyn is not None:
                    from ai import sinterval
                    lo, hi = sinterval(dyn, st)
                    if lo + off < 0 or hi + off + size > n: raise Bad('cannot show that an access at %s stays inside its %d bytes' % (add(dyn, const(off, 64)), n))
                    return
                if off < 0 or off + size > n:
                    raise Bad('%s %d bytes at offset %d of storage of %d bytes' % ('reads' if kind == 'r' else 'writes', size, off, n))
            return f
        rd, wr = chk('r'), chk('w')
        load, store = A.load, A.store
        def load2(st, addr, size, isp=False, fl=False):
            b, d, o = A.split(addr); rd(b, d, o, size, st, None)
            return load(st, addr, size, isp, fl)
        def store2(st, addr, val, size, ins=None):
            b, d, o = A.split(addr); wr(b, d, o, size, st, ins)
            return store(st, addr, val, size, ins)
        A.load, A.store = load2, store2
        def arr(ai, st, first, n, ins):
            b, d, o = ai.split(first); wr(b, d, o, n, st, ins)
        A.on_array = arr
        cm = A.copymem
        def copymem2(st, dst, src, n, ins=None):
            if isc(n):
                k = cv(n)
                if k >> 62: raise Bad('copies a negative number of bytes')
                if k:
                    for p, fn in ((src, rd), (dst, wr)):
                        b, d, o = A.split(p) if not isc(p) else (p, None, 0)
                        fn(b, d, o, k, st, ins)
                else: return
            else:
                self.atleast0(A, st, n, 'copies %s bytes' % n)
                for p, fn in ((src, rd), (dst, wr)):
                    b, d, o = A.split(p)
                    fn(b, d, o, n, st, ins)
            return cm(st, dst, src, n, ins)
        A.copymem = copymem2
        cn = A.call_named
        def call_named2(name, av, x, st, depth):
            if name in ('_Znwm', '_Znam') and isc(av[0]) and (cv(av[0]) >> 40): raise Bad('requests storage of negative size')
            r = cn(name, av, x, st, depth)
            if name in ('_Znwm', '_Znam'): A.size[r[0][2]] = cv(av[0]) if isc(av[0]) else av[0]
            if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm'):
                p = A.resolve(av[0], st)
                if not isc(p):
                    b, d, o = A.split(p)
                    if b.op == 'obj' and b.a[0] == 'heap':
                        k = A.kind.get(b)
                        if (b in A.gone(st, r)): raise Bad('releases storage twice')
                        if k and k != name[:5]: raise Bad('storage allocated with %s is released with %s' % ('new[]' if k == '_ZdaP' else 'new', 'delete[]' if name[:5] == '_ZdaP' else 'delete'))
                    elif b.op == 'obj' and b.a[0] == 'alloca': raise Bad('releases a local variable')
            if name in ('_Znwm', '_Znam'): A.kind[r[0][2]] = '_ZdlP' if name == '_Znwm' else '_ZdaP'
            return r
        A.kind = {}
        def gone(st, r):
            ev = [A.split(e[2])[0] for e in st.events() if e[0] == 'delete' and not isc(e[2])]
            return {b for b in ev if ev.count(b) > 1}
        A.gone = gone
        A.call_named = call_named2
        return A
    # -- operands
    def heap(self, A, name, n, kind='_ZdaP'):
        A.ctr += 1
        h = obj('heap', '%s#%d' % (name, A.ctr)); A.size[h] = n; A.kind[h] = kind
        return h
    def vtable(self, cls, off=0):
        k = cls, off
        if k not in self.vt:
            f = [g for g in self.mod.fns.values() if g.dem.startswith(cls + '::' + cls.split('::')[-1] + '(') and not g.decl]
            n = '_ZTV' + ''.join('%d%s' % (len(p), p) for p in cls.split('::'))
            n = '_ZTVN' + ''.join('%d%s' % (len(p), p) for p in cls.split('::')) + 'E'
            self.vt[k] = n
        return self.vt[k]
    def place_string(self, A, st, addr, name, chars, cap=None, cached=False):
        s = self.S; n = len(chars)
        if cap is None: cap = (n + 15) // 16 * 16
        A.store(st, addr, add(obj('global', self.vtable('jm::String')), const(16, 64)), 8)
        h = self.heap(A, name, 2 * cap)
        A.store(st, add(addr, const(s['mValue'], 64)), h, 8)
        A.store(st, add(addr, const(s['mArrLength'], 64)), const(cap, 64), 8)
        A.store(st, add(addr, const(s['mStrLength'], 64)), const(n, 64), 8)
        A.store(st, add(addr, const(s['mHash'], 64)), sym('hash(%s)' % name, 32) if cached else const(0, 32), 4)
        if cached: A.assume(st, icmp('eq', sym('hash(%s)' % name, 32), const(0, 32)), False)
        for i, c in enumerate(chars): A.store(st, add(h, const(2 * i, 64)), c, 2)
        return h
    def place_bytes(self, A, st, addr, name, bs, cap=None):
        s = self.B; n = len(bs)
        A.store(st, addr, add(obj('global', self.vtable('jm::ByteArray')), const(16, 64)), 8)
        if cap == 'null':
            for x in ('mData', 'mArrSize', 'mRawSize'): A.store(st, add(addr, const(s[x], 64)), const(0, 64), 8)
            return None
        cap = n if cap is None else cap
        h = self.heap(A, name, cap + 1)
        for i in range(n + 1, cap + 1): A.store(st, add(h, const(i, 64)), sym('old(%s)[%d]' % (name, i), 8), 1)
        A.store(st, add(addr, const(s['mData'], 64)), h, 8)
        A.store(st, add(addr, const(s['mArrSize'], 64)), const(n, 64), 8)
        A.store(st, add(addr, const(s['mRawSize'], 64)), const(cap + 1, 64), 8)
        for i, c in enumerate(bs): A.store(st, add(h, const(i, 64)), c, 1)
        A.store(st, add(h, const(n, 64)), const(0, 8), 1)
        return h
    def place_chars(self, A, st, addr, name, chars):
        h = self.heap(A, name, 2 * len(chars))
        A.store(st, addr, add(obj('global', self.vtable('jm::CharArray')), const(16, 64)), 8)
        A.store(st, add(addr, const(self.C['buffer'], 64)), h, 8); A.store(st, add(addr, const(self.C['length'], 64)), const(len(chars), 64), 8)
        for i, c in enumerate(chars): A.store(st, add(h, const(2 * i, 64)), c, 2)
        return h
    # -- results
    def num(self, A, st, addr, what):
        v = A.resolve(A.load(st, addr, 8), st)
        if not isc(v): raise Bad('the %s is %s' % (what, v))
        return sv(v)
    def read_string(self, A, st, addr, what):
        s = self.S
        n = self.num(A, st, add(addr, const(s['mStrLength'], 64)), 'length of ' + what); cap = self.num(A, st, add(addr, const(s['mArrLength'], 64)), 'capacity of ' + what)
        p = A.load(st, add(addr, const(s['mValue'], 64)), 8, True)
        if n < 0: raise Bad('%s has the length %d' % (what, n))
        if cap < n: raise Bad('%s has %d characters but capacity %d' % (what, n, cap))
        b, d, o = A.split(p) if not isc(p) else (None, None, 0)
        if b is None:
            if cap: raise Bad('%s has no storage' % what)
            return [], None, None
        if b in st.freed: raise Bad('%s refers to released storage' % what)
        if d is not None or o or b.op != 'obj': raise Bad('%s does not refer to storage of its own' % what)
        if A.size.get(b, 0) < 2 * cap: raise Bad('%s has capacity %d but storage of %s bytes' % (what, cap, A.size.get(b)))
        return [A.load(st, add(p, const(2 * i, 64)), 2) for i in range(n)], b, A.load(st, add(addr, const(s['mHash'], 64)), 4)
    def read_bytes(self, A, st, addr, what):
        s = self.B
        n = self.num(A, st, add(addr, const(s['mArrSize'], 64)), 'size of ' + what)
        p = A.resolve(A.load(st, add(addr, const(s['mData'], 64)), 8, True), st)
        if n < 0: raise Bad('%s has the size %d' % (what, n))
        if isc(p):
            if n: raise Bad('%s has no storage' % what)
            return [], None, None
        b = A.split(p)[0]
        if b in st.freed: raise Bad('%s refers to released storage' % what)
        raw = self.num(A, st, add(addr, const(s['mRawSize'], 64)), 'capacity of ' + what)
        if raw < n + 1 or A.size.get(b, 0) < raw: raise Bad('%s holds %d bytes but has room for %d (recorded %d)' % (what, n, A.size.get(b, 0), raw))
        t = A.resolve(A.load(st, add(p, const(n, 64)), 1), st)
        if not (isc(t) and cv(t) == 0): raise Bad('%s is not terminated (%s)' % (what, t))
        return [A.load(st, add(p, const(i, 64)), 1) for i in range(n)], b, None
    def read_chars(self, A, st, addr, what):
        n = self.num(A, st, add(addr, const(self.C['length'], 64)), 'length of ' + what)
        p = A.resolve(A.load(st, add(addr, const(self.C['buffer'], 64)), 8, True), st)
        if n < 0: raise Bad('%s has the length %d' % (what, n))
        if isc(p):
            if n: raise Bad('%s has no storage' % what)
            return [], None, None
        b = A.split(p)[0]
        if b in st.freed: raise Bad('%s refers to released storage' % what)
        return [A.load(st, add(p, const(2 * i, 64)), 2) for i in range(n)], b, None
    def read_wide(self, A, st, addr, what):
        b, d, o = A.split(addr)
        n = A.size.get(b)
        if b in st.freed or n is None or d is not None or o: raise Bad('%s is not new storage' % what)
        out = []
        for i in range(n // 2):
            v = A.resolve(A.load(st, add(addr, const(2 * i, 64)), 2), st)
            if i == n // 2 - 1:
                if not (isc(v) and cv(v) == 0): raise Bad('%s is not terminated' % what)
            else: out.append(v)
        return out, b, None
    def read_block(self, A, st, addr, what):
        if addr in st.freed: raise Bad('%s is released' % what)
        return [A.load(st, add(addr, const(i, 64)), 1) for i in range(A.size[addr])], None, None
    def hashof(self, chars):
        h = const(0, 32)
        for c in chars: h = add(mulc(h, 31), zext(c, 32))
        return h
    def reader(self, k):
        if k in self.kinds: return self.kinds[k][1]
        return {'str': self.read_string, 'bytes': self.read_bytes, 'chars': self.read_chars, 'wide': self.read_wide, 'block': self.read_block}[k]
    # -- one operation
    def case(self, key, dem, ops, spec, method=True, alias=(), leak=True, pre=None, ret=None):
        """ops: ('str', name, n, cap, cached) | ('bytes', name, n) | ('chars', name, n) | ('cstr', name, n) | ('char', name) | ('int', value, bits) | ('any', E)
        spec(q, *contents) -> dict(ret=..., throw=True, <operand name>=new content)"""
        f = self.mod.dem(dem, strict=False)
        if f is None: raise Anchor('function %s not found' % dem)
        where = '%s:%s' % (f.file, f.line)
        bad = []; und = None
        for al in [None] + list(alias):
            self.n += 1
            A = self.ai(); st = State()
            self.constants(A, st)
            if pre: pre(A, st)
            vals = []; args = []; addrs = {}; cont0 = {}
            off = 0
            irs = f.args
            retaddr = None
            if irs and irs[0]['sret']:
                retaddr = obj('alloca', 'result'); args.append(retaddr)
            home = {}
            for i, op in enumerate(ops):
                k = op[0]
                if al and i == al[1]:
                    vals.append(vals[al[0]]); args.append(args[al[0] + (1 if retaddr is not None else 0)]); continue
                if k in self.kinds:
                    name = op[1]
                    a = ptr(sym('&' + name, 64, True)); A.assume(st, icmp('eq', a, const(0, 64)), False)
                    cs, home[name] = self.kinds[k][0](A, st, a, name, *op[2:])
                    vals.append(cs); args.append(a); addrs[name] = (k, a, cs)
                elif k == 'elem':    # an element of a sequence that is an operand itself
                    c_, e_ = self.kinds[addrs[op[1]][0]][2](addrs[op[1]][2], home[op[1]], op[2])
                    vals.append(c_); args.append(e_)
                elif k in ('str', 'bytes', 'chars'):
                    name, n = op[1], op[2]
                    a = ptr(sym('&' + name, 64, True)); A.assume(st, icmp('eq', a, const(0, 64)), False)
                    cs = op[5] if len(op) > 5 else [sym('%s[%d]' % (name, j), 8 if k == 'bytes' else 16) for j in range(n)]
                    if k == 'str': home[name] = self.place_string(A, st, a, name, cs, op[3] if len(op) > 3 else None, op[4] if len(op) > 4 else False)
                    elif k == 'bytes': home[name] = self.place_bytes(A, st, a, name, cs, op[3] if len(op) > 3 else None)
                    else: home[name] = self.place_chars(A, st, a, name, cs)
                    vals.append(cs); args.append(a); addrs[name] = (k, a, cs)
                elif k == 'raw':     # storage in which the operation constructs an object
                    name = op[1]; a = ptr(sym('&' + name, 64, True)); A.assume(st, icmp('eq', a, const(0, 64)), False)
                    vals.append(None); args.append(a); addrs[name] = (op[2] if len(op) > 2 else 'str', a, None)
                elif k == 'cstr':
                    name, n = op[1], op[2]
                    h = self.heap(A, name, n + op[3] if len(op) > 3 else n + 1)
                    cs = [sym('%s[%d]' % (name, j), 8) for j in range(n)]
                    for j, c in enumerate(cs):
                        A.store(st, add(h, const(j, 64)), c, 1)
                        if not (len(op) > 4 and op[4]): A.assume(st, icmp('eq', c, const(0, 8)), False)
                    for j in range(n, A.size[h]): A.store(st, add(h, const(j, 64)), const(0, 8), 1)
                    vals.append(cs); args.append(h); addrs[name] = ('cstr', h, cs)
                elif k == 'block':   # bytes passed by address, compared afterwards
                    h = self.heap(A, op[1], op[2]); cs = [sym('%s[%d]' % (op[1], j), 8) for j in range(op[2])]
                    for j, c in enumerate(cs): A.store(st, add(h, const(j, 64)), c, 1)
                    vals.append(cs); args.append(h); addrs[op[1]] = ('block', h, cs)
                elif k == 'char':
                    c = op[2] if len(op) > 2 else sym(op[1], 16); vals.append(c); args.append(c)
                elif k == 'int':
                    vals.append(op[1]); args.append(const(op[1], op[2] if len(op) > 2 else 64))
                elif k == 'wide':    # characters outside of a string
                    h = self.heap(A, op[1], 2 * op[2]); cs = [sym('%s[%d]' % (op[1], j), 16) for j in range(op[2])]
                    for j, c in enumerate(cs): A.store(st, add(h, const(2 * j, 64)), c, 2)
                    vals.append(cs); args.append(h)
                elif k == 'cell':    # a number passed by reference
                    a = ptr(sym('&' + op[1], 64, True)); A.store(st, a, op[2], op[2].w // 8); vals.append(op[2]); args.append(a)
                elif k == 'any': vals.append(op[1]); args.append(op[1])
            aa = [a for _, a, _ in addrs.values() if a.op == 'sym']
            for x, y in itertools.combinations(aa, 2): A.assume(st, icmp('eq', x, y), False)
            vn = ' (%s and %s the same object)' % (ops[al[0]][1], ops[al[1]][1]) if al else ''
            if len(args) != len(irs): raise Anchor('%s: %d arguments, %d parameters' % (dem, len(args), len(irs)))
            init = st.copy()
            for k_, a_ in enumerate(irs):   # small values passed by address
                if a_['ty'] == 'ptr' and not isptr(args[k_]) and isinstance(args[k_], E) and args[k_].w in (16,):
                    o_ = obj('alloca', 'arg%d' % k_); A.store(st, o_, args[k_], 2); args[k_] = o_
            try: outs = A.run(f, args, st)
            except Bad as e: bad.append('%s%s' % (e, vn)); self.ck.analysed |= A.analysed; continue
            except Limit as e: und = str(e); self.ck.analysed |= A.analysed; continue
            self.ck.analysed |= A.analysed
            outs = [o for o in outs if o.kind != 'noreturn']
            if not outs: bad.append('never returns' + vn)
            for o in outs:
                self.paths += 1
                def body(q):
                    w = spec(q, *vals)
                    if not consistent(A, q.st): return
                    if any(not q.values(x) for x in list(q.m or ())): return
                    if w is None: return
                    if not isinstance(w, dict): w = {'ret': w}
                    if w.get('post'):
                        m = w['post'](A, q, o)
                        if m: bad.append('%s%s' % (m, vn))
                    if w.get('throw'):
                        if o.kind != 'throw': bad.append('no exception%s' % vn)
                        return
                    if o.kind == 'throw': bad.append('throws an exception%s' % vn); return
                    own = {}
                    gone = {name for name in addrs if w.get(name) == 'gone'}
                    if 'ret' in w and w['ret'] is not None:
                        x = w['ret']
                        if callable(x):
                            m = x(A, o, home)
                            if m: bad.append(m + vn)
                        elif isinstance(x, bool):
                            v = o.val; v = v if v.w == 1 else trunc(v, 1)
                            g = A.decide(q.st, v)
                            if g is None: g = A.decide(q.st, decided(q, v)[0])
                            if g is None: raise Limit('the result %s is not decided' % v)
                            if g != x: bad.append('%s is returned where %s is right%s' % (g, x, vn))
                        elif isinstance(x, (int, E)):
                            if not same(q, o.val, x): bad.append('the result is %s instead of %s%s' % (o.val, x, vn))
                        else:
                            kind = ret or 'str'
                            rd = self.reader(kind)
                            self.compare(q, A, o, rd, retaddr if retaddr is not None else o.val, 'the result', x, own, bad, vn, addrs)
                    for name, (k, a, cs) in addrs.items():
                        if k == 'cstr': continue
                        rd = self.reader(k)
                        x = w.get(name, cs)
                        if x is None or name in gone: continue
                        self.compare(q, A, o, rd, a, name, x, own, bad, vn, addrs)
                    dead = {A.split(e[2])[0] for e in o.st.events() if e[0] == 'delete' and not isc(e[2])}
                    if leak:
                        for name, (k, a, cs) in addrs.items():
                            h = home.get(name)
                            if h is not None and (name in gone or w.get(name, cs) is not None) and h not in own and h not in dead: bad.append('the former storage of %s is never released%s' % (name, vn))
                        for e in o.st.events():
                            if e[0] == 'new' and e[2] not in dead and e[2] not in own and not e[2].a[1].startswith('exc'):
                                bad.append('storage allocated at %s is never released%s' % (e[2].a[1].split('#')[0], vn))
                try: every(A, o.st, body)
                except Bad as e: bad.append('%s%s' % (e, vn))
                except Limit as e: und = str(e)
        if bad: und = None
        self.ck.ob(key, (not bad) if und is None else None, where, und or '; '.join(list(dict.fromkeys(bad))[:6]))
        return not bad and und is None
    def compare(self, q, A, o, rd, addr, what, want, own, bad, vn, addrs):
        got, h, hs = rd(A, o.st, addr, what)
        want = list(want)
        if len(got) != len(want): bad.append('%s has %d elements instead of %d%s' % (what, len(got), len(want), vn)); return
        for i, (g, w) in enumerate(zip(got, want)):
            if not same(q, g, w): bad.append('element %d of %s is %s instead of %s%s' % (i, what, g, w, vn))
        if h is not None:
            if h in own and own[h] != what: bad.append('%s and %s share their storage%s' % (what, own[h], vn))
            own[h] = what
        if hs is not None:
            hs = A.resolve(hs, o.st)
            if isc(hs) and cv(hs) == 0: return
            for name, (k, a, cs) in addrs.items():
                if k == 'str' and cs is not None and hs is sym('hash(%s)' % name, 32) and len(cs) == len(got) and all(same(q, g, c) for g, c in zip(got, cs)): return
            if same(q, hs, self.hashof(got)): return
            bad.append('the remembered hash of %s is not that of its characters%s' % (what, vn))

    # -- storage for any length
    def atleast0(self, A, st, e, what):
        if nonneg_proof(A, st, e): return
        w = witness(st, e)
        if w is not None: raise Bad('%s, for example with %s' % (what, w))
        A.unproved = what
    def capacity(self, key, dem, ops, want):
        """length and capacity of the strings are unknown numbers (length <= capacity); every bulk copy must stay inside its storage and
        the strings named by want(lengths) must end with that length, a capacity not below it and storage of that capacity"""
        f = self.mod.dem(dem, strict=False)
        if f is None: raise Anchor('function %s not found' % dem)
        self.n += 1; s = self.S
        A = self.ai(); st = State(); bad = []; und = None
        self.constants(A, st)
        args = []; L = {}; addr = {}
        if f.args and f.args[0]['sret']: args.append(obj('alloca', 'result')); addr['ret'] = args[0]
        for op in ops:
            if op[0] == 'str':
                n = op[1]; a = ptr(sym('&' + n, 64, True)); l = sym('length(%s)' % n, 64); c = sym('capacity(%s)' % n, 64)
                A.assume(st, icmp('eq', a, const(0, 64)), False)
                A.narrow(st, l, 0, 1 << 40); A.narrow(st, c, 0, 1 << 40); A.assume(st, icmp('slt', c, l), False)
                self.place_string(A, st, a, n, [], 0)
                h = self.heap(A, n, mulc(c, 2))
                A.store(st, add(a, const(s['mValue'], 64)), h, 8); A.store(st, add(a, const(s['mArrLength'], 64)), c, 8); A.store(st, add(a, const(s['mStrLength'], 64)), l, 8)
                L[n] = l; addr[n] = a; args.append(a)
            elif op[0] == 'raw': a = ptr(sym('&' + op[1], 64, True)); addr[op[1]] = a; args.append(a)
            else: args.append(op[1])
        aa = [a for a in addr.values() if a.op == 'sym']
        for x, y in itertools.combinations(aa, 2): A.assume(st, icmp('eq', x, y), False)
        try: outs = [o for o in A.run(f, args, st) if o.kind == 'ret']
        except Bad as e: outs = []; bad.append(str(e))
        except Limit as e: outs = []; und = str(e)
        self.ck.analysed |= A.analysed
        if not outs and not bad and und is None: bad.append('never returns')
        for o in outs:
            self.paths += 1
            for name, n in want(L).items():
                a = addr[name]
                l, c = [A.resolve(A.load(o.st, add(a, const(s[x], 64)), 8), o.st) for x in ('mStrLength', 'mArrLength')]
                p = A.load(o.st, add(a, const(s['mValue'], 64)), 8, True); b, d, off = A.split(p)
                z = A.size.get(b)
                try:
                    if l is not n:
                        for g in (sub(l, n), sub(n, l)): self.atleast0(A, o.st, g, 'the length of %s is %s instead of %s' % (name, l, n))
                    self.atleast0(A, o.st, sub(c, l), 'the capacity %s of %s is below its length %s' % (c, name, l))
                    if z is None or b in o.st.freed or d is not None or off: raise Bad('%s has no storage of its own' % name)
                    z = z if isinstance(z, E) else const(z, 64)
                    self.atleast0(A, o.st, sub(z, mulc(c, 2)), '%s has capacity %s but storage of %s bytes' % (name, c, z))
                except Bad as e: bad.append(str(e))
        und = und or A.unproved
        if und is not None and not bad: self.ck.notes.setdefault('not shown for every length (only for the enumerated ones)', []).append('%s: %s' % (key, und[:200])); return
        self.ck.ob(key, not bad, '%s:%s' % (f.file, f.line), '; '.join(list(dict.fromkeys(bad))[:4]))
