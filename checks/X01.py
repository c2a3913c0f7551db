"""DEFLATE: what Inflater produces for any stream, and what Deflater asks of zlib."""
import itertools, os
from expr import *
from ai import AI, State, ptr, obj, isptr, Limit, interval
from ir import Anchor
from text import Text, Bad
import piece
LEVEL = 'other'
RULE = ('Inflater::Inflate is abstractly interpreted on streams of a given structure whose bits (block headers, codes, extra bits, lengths) are variables and whose data are arbitrary bytes; on every path the output, the errors and '
        'the number of bytes consumed are compared with the definition in RFC 1951 for all values the bits can take on that path; every access to input, output and tables is checked against its extent, everything allocated is given back')
EXPLANATION = RULE
ASSUMPTIONS = ['structures up to the stated number of blocks and codes', 'zlib keeps its own documented behaviour']
OFF = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577]
DEX = [0, 0, 0, 0] + [i // 2 - 1 for i in range(4, 30)]
LEN = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258]
LEX = [0] * 8 + [i // 4 - 1 for i in range(8, 28)] + [0]
ORDER = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]

# ---- the definition ---------------------------------------------------------------------------------------------------------
class Corrupt(Exception): pass
class Bits:
    def __init__(self, b): self.b = b; self.i = 0
    def one(self):
        if self.i >= len(self.b): raise Corrupt('end of the data')
        self.i += 1; return self.b[self.i - 1]
    def num(self, n): return sum(self.one() << k for k in range(n))
    def align(self): self.i = (self.i + 7) // 8 * 8
    def byte(self):
        if self.i + 8 > len(self.b): raise Corrupt('end of the data')
        x = self.b[self.i:self.i + 8]; self.i += 8
        return x[0][0] if isinstance(x[0], tuple) else sum(v << k for k, v in enumerate(x))
def canonical(lengths):
    n = {}; code = 0; m = max(lengths or [0])
    for l in range(1, m + 1):
        code <<= 1
        for s, x in enumerate(lengths):
            if x == l:
                if code >> l: raise Corrupt('too many codes')
                n[l, code] = s; code += 1
    if code > 1 << m: raise Corrupt('too many codes')
    return n, m
FIXED = canonical([8] * 144 + [9] * 112 + [7] * 24 + [8] * 8)
FDIST = canonical([5] * 32)
def symbol(B, t):
    c = 0
    for l in range(1, max(t[1], 1) + 1):
        c = c << 1 | B.one()
        if (l, c) in t[0]: return t[0][l, c]
    raise Corrupt('unknown code')
def inflate(bits, start=(0, ()), mark=None):
    """(output behind that of start, number of bytes read); mark: (limit, list of (bit position, output) at the beginning of blocks up to the limit)"""
    B = Bits(bits); B.i = start[0]; old = start[1]; out = []
    while True:
        if mark and B.i <= mark[0]: mark[1].append((B.i, list(out)))
        last = B.one(); kind = B.num(2)
        if kind == 3: raise Corrupt('block type')
        if kind == 0:
            B.align(); n = B.byte() | B.byte() << 8; m = B.byte() | B.byte() << 8
            if n ^ m != 0xFFFF: raise Corrupt('length of a stored block')
            for _ in range(n): out.append(B.byte())
        else:
            if kind == 1: L, D = FIXED, FDIST
            else:
                hl, hd, hc = B.num(5) + 257, B.num(5) + 1, B.num(4) + 4
                cl = [0] * 19
                for k in ORDER[:hc]: cl[k] = B.num(3)
                t = canonical(cl); ls = []
                while len(ls) < hl + hd:
                    s = symbol(B, t)
                    if s < 16: ls.append(s); continue
                    if s == 16:
                        if not ls: raise Corrupt('nothing to repeat')
                        ls += [ls[-1]] * (B.num(2) + 3)
                    else: ls += [0] * (B.num(3) + 3 if s == 17 else B.num(7) + 11)
                    if len(ls) > hl + hd: raise Corrupt('too many lengths')
                L, D = canonical(ls[:hl]), canonical(ls[hl:])
            while True:
                s = symbol(B, L)
                if s < 256: out.append(s); continue
                if s == 256: break
                if s > 285: raise Corrupt('length code')
                n = LEN[s - 257] + B.num(LEX[s - 257])
                d = symbol(B, D)
                if d > 29: raise Corrupt('distance code')
                d = OFF[d] + B.num(DEX[d])
                if d > len(old) + len(out): raise Corrupt('distance before the start')
                for _ in range(n): out.append(out[-d] if d <= len(out) else old[len(out) - d])
        if last: return out, (B.i + 7) // 8

# ---- streams of a given structure -----------------------------------------------------------------------------------------------
class W:
    """writes bits: 0, 1, a variable (1 bit wide) or one bit of an arbitrary byte"""
    def __init__(self): self.b = []; self.vars = []; self.pay = 0
    def num(self, v, n): self.b += [v >> k & 1 for k in range(n)]; return self
    def var(self, n):
        for _ in range(n):
            v = sym('bit%d' % len(self.vars), 1); self.vars.append(v); self.b.append(v)
        return self
    def code(self, v, n): self.b += [v >> (n - 1 - k) & 1 for k in range(n)]; return self
    def align(self):
        while len(self.b) % 8: self.b.append(0)
        return self
    def data(self, n):
        for _ in range(n):
            x = sym('data%d' % self.pay, 8); self.pay += 1
            self.b += [(x, k) for k in range(8)]
        return self
    def head(self, last, kind): return self.num(last, 1).num(kind, 2)
    def stored(self, n, last=0): return self.head(last, 0).align().num(n, 16).num(n ^ 0xFFFF, 16).data(n)
    def lit(self, s):
        for (l, c), v in FIXED[0].items():
            if v == s: return self.code(c, l)
    def copy(self, n, d):
        """a copy with the fixed codes"""
        i = max(k for k in range(29) if LEN[k] <= n) if n < 258 else 28
        self.lit(257 + i).num(n - LEN[i], LEX[i])
        j = max(k for k in range(30) if OFF[k] <= d)
        return self.code(j, 5).num(d - OFF[j], DEX[j])
    def end(self): return self.lit(256)
    def lengths(self, lens, nl, cl=None, rle=True):
        """the header of a dynamic block: code lengths of nl literal codes followed by those of the distance codes"""
        seq = []
        i = 0
        while i < len(lens):
            j = i
            while j < len(lens) and lens[j] == lens[i]: j += 1
            n = j - i
            if rle and lens[i] == 0 and n >= 11: n = min(n, 138); seq.append((18, n - 11, 7))
            elif rle and lens[i] == 0 and n >= 3: n = min(n, 10); seq.append((17, n - 3, 3))
            elif rle and i and lens[i - 1] == lens[i] and n >= 3: n = min(n, 6); seq.append((16, n - 3, 2))
            else: n = 1; seq.append((lens[i], 0, 0))
            i += n
        return self.dynamic(seq, nl, len(lens) - nl, cl)
    def dynamic(self, seq, nl, nd, cl=None):
        """seq: (symbol of the code length alphabet, extra bits or None for variable ones, number of extra bits)"""
        use = sorted({s for s, _, _ in seq})
        if cl is None:
            k = max(1, (len(use) - 1).bit_length()); cl = [k if s in use else 0 for s in range(19)]
        hc = max([i for i in range(19) if cl[ORDER[i]]] + [3]) + 1
        self.num(nl - 257, 5).num(nd - 1, 5).num(hc - 4, 4)
        for k in ORDER[:hc]: self.num(cl[k], 3)
        t = {s: lc for lc, s in canonical(cl)[0].items()}
        for s, x, n in seq:
            self.code(t[s][1], t[s][0])
            self.var(n) if x is None else self.num(x, n)
        return self
    def coded(self, lens, s):
        for (l, c), v in canonical(lens)[0].items():
            if v == s: return self.code(c, l)

# ---- the machinery ------------------------------------------------------------------------------------------------------------
class Paged:
    """a long array of bytes"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
    def get(self, i):
        g = self.p.get(i >> 6)
        return g.get(i) if g else None
    def put(self, i, v):
        p = dict(self.p); g = dict(p.get(i >> 6, ())); g[i] = v; p[i >> 6] = g
        return Paged(p)
class Run:
    def __init__(self, T, vars):
        self.V = set(vars); self.memo = {}; self.norm = {}; self.tabs = {}; self.fns = {}; self.own = {}
        A = self.A = T.ai(); A.readonly = True; A.unroll = 70000; A.max_steps = 40000000; A.max_paths = 100000
        self.load0, self.store0, self.copy0, self.decide0, self.instr0, self.call0 = A.load, A.store, A.copymem, A.decide, A.instr, A.call_named
        A.load, A.store, A.copymem, A.decide, A.instr, A.call_named = self.load, self.store, self.copymem, self.decide, self.instr, self.call_named
    def call_named(self, name, av, x, st, depth):
        f = self.A.mod.fns.get(self.A.mod.alias.get(name, name)); d = f.dem if f else ''
        if d.startswith(('jm::String::', 'jm::operator+(')): return [(st, 'ret', av[0] if x.d['ty'] == 'ptr' and av else None if x.d['ty'] == 'void' else const(0, x.d.get('w') or 64))]
        return self.call0(name, av, x, st, depth)
    # long arrays
    def paged(self, st, b): return isinstance(st.mem.get(b), Paged)
    def extent(self, b, off, size, st, what):
        n = self.A.size.get(b)
        if b in st.freed: raise Bad('%s released storage' % what)
        if n is not None and not 0 <= off <= n - size: raise Bad('%s at offset %d of storage of %d bytes' % (what, off, n))
    def load(self, st, addr, size, isp=False, fl=False):
        b, d, o = self.A.split(addr)
        if not self.paged(st, b): return self.load0(st, addr, size, isp, fl)
        if size != 1: raise Limit('wide access to an array of bytes')
        if d is not None:
            self.A.ctr += 1; e = mk('sel', 8, add(d, const(o, 64)))
            return e
        self.extent(b, o, 1, st, 'reads')
        v = st.mem[b].get(o)
        return mk('uninit', 8, b, o) if v is None else v
    def store(self, st, addr, v, size, ins=None):
        b, d, o = self.A.split(addr); m = st.mem.get(b)
        if not isinstance(m, Paged):
            if m is not None or size != 1 or b.op != 'obj' or b.a[0] != 'heap' or not isinstance(self.A.size.get(b), int) or self.A.size[b] < 1000: return self.store0(st, addr, v, size, ins)
            m = Paged({})
        if d is not None: raise Limit('a byte is written at %s' % d)
        if size != 1: raise Limit('wide access to an array of bytes')
        self.extent(b, o, 1, st, 'writes')
        st.mem[b] = m.put(o, v)
    def copymem(self, st, dst, src, n, ins=None):
        b, d, o = self.A.split(src) if not isc(src) else (src, None, 0)
        if not self.paged(st, b): return self.copy0(st, dst, src, n, ins)
        c, e, q = self.A.split(dst)
        if not isc(n) or d is not None or e is not None or o or q: raise Limit('part of an array is moved')
        n = cv(n)
        if n:
            self.extent(b, 0, n, st, 'reads'); self.extent(c, 0, n, st, 'writes')
        st.mem[c] = Paged({k: {i: v for i, v in g.items() if i < n} for k, g in st.mem[b].p.items() if k << 6 < n})
    # expressions over bits
    def instr(self, x, env, args, st, fn):
        e = self.instr0(x, env, args, st, fn)
        if isinstance(e, E) and x.op in ('and', 'or', 'xor', 'lshr', 'ashr', 'shl', 'add', 'trunc', 'zext', 'mul') and not isc(e) and 1 < e.w <= 64:
            r = self.norm.get(e)
            if r is None:
                r = e
                b = bits(e)
                if all(y in (0, 1) or isinstance(y, tuple) and y[0] in self.V for y in b):
                    r = const(0, e.w)
                    for i, y in enumerate(b):
                        if y == 1: r = add(r, const(1 << i, e.w))
                        elif y != 0: r = add(r, mulc(zext(y[0], e.w), 1 << i))
                self.norm[e] = r
            return r
        return e
    def tab(self, g, off, size, i):
        k = g, off + i, size
        if k not in self.tabs:
            v = self.A.ginit(g, off + i, size)
            self.tabs[k] = cv(v) if v is not None and isc(v) else None
        if self.tabs[k] is None: raise Bad('reads outside of a table (position %d)' % ((off + i) // size))
        return self.tabs[k]
    def fn(self, es, ls):
        k = tuple(es), tuple(ls)
        if k not in self.fns:
            m = {l: 'x%d' % i for i, l in enumerate(ls)}
            self.fns[k] = eval('lambda %s: (%s,)' % (', '.join(m.values()), ', '.join(piece.py(e, m) for e in es)), {'T': self.tab, '__builtins__': {'int': int}})
        return self.fns[k]
    def pred(self, facts, ls):
        m = {l: 'x%d' % i for i, l in enumerate(ls)}
        return eval('lambda %s: %s' % (', '.join(m.values()), ' and '.join('%s == %d' % (piece.py(c, m), int(v)) for c, v in facts) or 'True'), {'T': self.tab, '__builtins__': {'int': int}})
    def leaves(self, c):
        if c not in self.own: self.own[c] = frozenset(leaves(c))
        return self.own[c]
    def decide(self, st, c):
        r = self.decide0(st, c)
        if r is not None or not isinstance(c, E) or c.w != 1: return r
        L = self.leaves(c)
        if not L <= self.V:
            if any(x.op == 'sym' and str(x.a[0]).startswith('data') for x in L): raise Bad('stored bytes are read as codes')
            return None
        if not L: return None
        need = set(L); rel = []; rest = [(f, v) for f, v in st.facts.items() if isinstance(f, E) and not isc(f) and self.leaves(f) <= self.V and self.leaves(f)]
        while True:
            k = [x for x in rest if self.leaves(x[0]) & need]
            if not k: break
            rest = [x for x in rest if not self.leaves(x[0]) & need]; rel += k
            for x in k: need |= self.leaves(x[0])
        if len(need) > 14: return None
        key = c, frozenset(rel)
        if key not in self.memo:
            ls = sorted(need, key=lambda x: x.id); p = self.pred(rel, ls); f = self.fn([c], ls); seen = set()
            for v in itertools.product((0, 1), repeat=len(ls)):
                if p(*v): seen.add(f(*v)[0])
                if len(seen) == 2: break
            self.memo[key] = None if len(seen) == 2 else bool(seen.pop()) if seen else True
        return self.memo[key]

def run(ck):
    mod = ck.mod; deep = ck.tier == 'thorough'
    T = Text(ck)
    C = 'jm::Inflater'
    F = {}
    for n, d in (('ctor', C + '::Inflater(bool)'), ('input', C + '::SetInput(unsigned char*, long)'), ('inflate', C + '::Inflate(unsigned char*&, long&)'), ('finished', C + '::Finished()'), ('needs', C + '::NeedsInput()'),
                 ('remaining', C + '::GetRemaining()'), ('in', C + '::GetTotalIn()'), ('out', C + '::GetTotalOut()'), ('dtor', C + '::~Inflater()'), ('reset', C + '::Reset()')):
        f = [g for g in mod.fns.values() if g.dem == d and not g.decl and 'D0Ev' not in g.name]
        if not f: raise Anchor('no %s' % d)
        F[n] = f[0]
    where = '%s:%s' % (F['inflate'].file, F['inflate'].line)
    count = total = 0
    def one(A, f, args, st):
        o = [x for x in A.run(f, args, st) if x.kind != 'noreturn']
        if len(o) != 1 or o[0].kind != 'ret': raise Limit('%s has several outcomes' % f.dem)
        return o[0].val, o[0].st
    def go(key, w, wrap=1, cut=0, rest=0, first=None):
        """w: the stream; cut: that many bytes at its end are missing; rest: bytes behind it; first: bytes of a stream the object has been used for before"""
        nonlocal count, total
        count += 1
        w.align(); b = list(w.b)
        if cut: b = b[:-8 * cut]
        b += [k & 1 for k in range(8 * rest)]
        R = Run(T, w.vars); A = R.A; st = State(); bad = []; und = None
        n = len(b) // 8; h = T.heap(A, 'input', n); cells = []
        for i in range(n):
            g = b[8 * i:8 * i + 8]
            if isinstance(g[0], tuple): e = g[0][0]
            else:
                e = const(0, 8)
                for k, v in enumerate(g): e = add(e, const(v << k, 8) if isinstance(v, int) else mulc(zext(v, 8), 1 << k))
            cells.append(e); A.store(st, add(h, const(i, 64)), e, 1)
        this = ptr(sym('&this', 64, True)); buf = ptr(sym('&buffer', 64, True)); ln = ptr(sym('&length', 64, True))
        try:
            _, st = one(A, F['ctor'], [this, const(wrap, 1)], st)
            given = set()
            if first is not None:
                g = T.heap(A, 'earlier', len(first))
                for i, x in enumerate(first): A.store(st, add(g, const(i, 64)), const(x, 8), 1)
                _, st = one(A, F['input'], [this, g, const(len(first), 64)], st)
                o = [o for o in A.run(F['inflate'], [this, buf, ln], st) if o.kind != 'noreturn']
                if len(o) != 1: raise Limit('the earlier stream has %d outcomes' % len(o))
                st = o[0].st
                if o[0].kind == 'ret': given.add(A.split(A.load(st, buf, 8, True))[0])
                _, st = one(A, F['reset'], [this], st)
                for nm, f_, wv in (('GetTotalIn', 'in', 0), ('GetTotalOut', 'out', 0), ('Finished', 'finished', 0), ('NeedsInput', 'needs', 1)):
                    x, st = one(A, F[f_], [this], st); x = A.resolve(x, st)
                    if not isc(x): raise Limit('%s is %s' % (nm, x))
                    if cv(x) != wv: bad.append('%s returns %d after Reset' % (nm, cv(x)))
            _, st = one(A, F['input'], [this, h, const(n, 64)], st)
            outs = [o for o in A.run(F['inflate'], [this, buf, ln], st) if o.kind != 'noreturn']
            before = st.mem.get(h); same = {}
            hit = 0; vs = sorted(w.vars, key=lambda x: x.id); want = {}
            first = min([i for i, x in enumerate(b) if isinstance(x, E)] + [len(b)]); start = (0, [])
            if wrap and first < len(b):
                m = []
                try: inflate([0 if isinstance(x, E) else x for x in b], mark=(first - 1, m))
                except Corrupt: pass
                if m: start = m[-1]
            base = len(start[1])
            def expected(v):
                if v not in want:
                    m = dict(zip(vs, v)); s = [m[x] if isinstance(x, E) else x for x in b]
                    try:
                        k = 0
                        if not wrap:
                            if len(s) < 16: raise Corrupt('no header')
                            cmf, flg = sum(x << i for i, x in enumerate(s[:8])), sum(x << i for i, x in enumerate(s[8:16]))
                            if cmf & 15 != 8 or cmf >> 4 > 7 or flg & 32 or (cmf * 256 + flg) % 31: raise Corrupt('header')
                            k = 2; s = s[16:]
                        r = inflate(s, start); want[v] = r[0], r[1] + k
                    except Corrupt as e: want[v] = str(e)
                return want[v]
            for o in outs:
                total += 1
                rel = []
                for f, v in o.st.facts.items():
                    if not isinstance(f, E) or isc(f): continue
                    L = R.leaves(f)
                    if L and L <= R.V: rel.append((f, v))
                    elif any(x.op == 'sym' and str(x.a[0]).startswith('data') for x in L): raise Bad('stored bytes are read as codes')
                p = R.pred(rel, vs)
                mine = [v for v in itertools.product((0, 1), repeat=len(vs)) if p(*v)]
                if not mine: continue
                hit += len(mine)
                def say(v, t): bad.append(t + (' for the bits %s' % ''.join(map(str, v)) if vs else ''))
                if o.kind != 'ret':
                    for v in mine:
                        if not isinstance(expected(v), str): say(v, 'the stream is rejected'); break
                    keep = {A.split(A.load(o.st, add(this, const(off, 64)), 8, True))[0] for nm, off, sz, ty in mod.fields(C) if sz == 8}
                    leak(A, o, keep | given, h, bad); continue
                r = A.load(o.st, buf, 8, True); k = A.resolve(A.load(o.st, ln, 8), o.st)
                wrong = [v for v in mine if isinstance(expected(v), str)]
                if wrong: say(wrong[0], 'a corrupt stream is accepted (%s)' % expected(wrong[0])); continue
                lens = {base + len(expected(v)[0]) for v in mine}; used = {expected(v)[1] for v in mine}
                if not isc(k): raise Limit('the length is %s' % k)
                if lens != {cv(k)}: say(mine[0], '%d bytes are returned instead of %s' % (cv(k), sorted(lens)[0])); continue
                k = cv(k)
                q, d, off = A.split(r)
                if q.op != 'obj' or d is not None or off or A.kind.get(q) != '_ZdaP' or q in o.st.freed or A.size[q] < k: bad.append('the result is not new storage of its size'); continue
                if q in given: bad.append('the result is that of the stream before'); continue
                leak(A, o, {q} | given, h, bad)
                pages = o.st.mem.get(q)
                for i, w_ in enumerate(start[1]):
                    if isinstance(pages, Paged) and (i & ~63) + 64 <= base:
                        g = pages.p.get(i >> 6)
                        if id(g) in same: continue
                        if i & 63 == 63: same[id(g)] = g
                    c = A.load(o.st, add(r, const(i, 64)), 1)
                    if (cv(c) if isc(c) else c) != w_: bad.append('byte %d is %s instead of %s' % (i, c, w_)); break
                cell = [A.load(o.st, add(r, const(i, 64)), 1) for i in range(base, k)]
                dep = sorted({e for e in cell if e.op == 'sel' or R.leaves(e) & R.V}, key=lambda x: x.id)
                f = R.fn([e.a[0] if e.op == 'sel' else e for e in dep], vs) if dep else None; pos = {e: i for i, e in enumerate(dep)}
                for v in mine:
                    out = expected(v)[0]
                    z = f(*v) if f else ()
                    for i, e in enumerate(cell):
                        w_ = out[i]
                        if e in pos:
                            g = z[pos[e]]
                            if e.op == 'sel':
                                if g >> 63 or g >= base + i: say(v, 'byte %d is copied from position %d' % (base + i, g - (g >> 63 << 64))); break
                                g = start[1][g] if g < base else out[g - base]
                        elif isc(e): g = cv(e)
                        else: g = e
                        if g is not w_ and g != w_: say(v, 'byte %d is %s instead of %s' % (base + i, g, w_)); break
                    else: continue
                    break
                for i, e in enumerate(cells if o.st.mem.get(h) is not before else ()):
                    if A.load(o.st, add(h, const(i, 64)), 1) is not e: bad.append('changes the input'); break
                s = o.st
                for nm, f_, wv in (('GetTotalIn', 'in', used), ('GetTotalOut', 'out', {k}), ('GetRemaining', 'remaining', {n - x for x in used}), ('Finished', 'finished', {1}), ('NeedsInput', 'needs', {0})):
                    x, s = one(A, F[f_], [this], s); x = A.resolve(x, s)
                    if not isc(x): raise Limit('%s is %s' % (nm, x))
                    if {cv(x)} != wv: bad.append('%s returns %d instead of %s' % (nm, cv(x), sorted(wv)[0]))
                # what the object keeps does not reach into the result
                own = {A.split(A.load(s, add(this, const(off_, 64)), 8, True))[0] for nm, off_, sz, ty in mod.fields(C) if sz == 8 and nm != 'mCompBytes'}
                if q in own: bad.append('the object keeps the storage it has returned')
            if hit != 1 << len(vs) and not bad: und = '%d of %d combinations of bits are reached' % (hit, 1 << len(vs))
        except Bad as e: bad.append(str(e))
        except (Limit, piece.Untab) as e: und = str(e)
        ck.analysed |= A.analysed
        if bad: und = None
        ck.ob(key, None if und else not bad, where, und or '; '.join(list(dict.fromkeys(bad))[:3]))
    def leak(A, o, keep, h, bad):
        new = [e[2] for e in o.st.events() if e[0] == 'new']; gone = {A.split(e[2])[0] for e in o.st.events() if e[0] == 'delete' and not isc(e[2])}
        for e in new:
            if e not in gone and e not in keep: bad.append('storage of %s is never given back' % str(e.a[1]).split('#')[0]); return
    def job(i):
        nonlocal total
        total = 0; ck.obl = []; ck.analysed = set()
        key, w, kw = S[i]
        go(key, w, **kw)
        return ck.obl, ck.analysed, total
    S = list(shapes(deep)); count = len(S); paths = 0
    for obl, an, k in parallel(job, len(S), sorted(range(len(S)), key=lambda i: -len(S[i][1].b))):
        ck.obl += obl; ck.analysed |= an; paths += k
    total = paths
    deflater(ck, T)
    ck.need(count, 'structures of streams', 40)
    ck.need(total, 'paths', 200)

def deflater(ck, T):
    """zlib is called as its contract asks for: everything that was given, room for the worst case, errors reported, its state given back"""
    mod = ck.mod; C = 'jm::Deflater'; F = {}
    for n in ('Deflater()', 'setInput(unsigned char*, long)', 'deflate(unsigned char*&, long&)', 'totalInSize()', 'totalOutSize()', 'reset()', '~Deflater()'):
        f = [g for g in mod.fns.values() if g.dem == C + '::' + n and not g.decl and 'D0Ev' not in g.name]
        if not f: raise Anchor('no %s::%s' % (C, n))
        F[n.split('(')[0]] = f[0]
    where = '%s:%s' % (F['deflate'].file, F['deflate'].line)
    M32 = 0xFFFFFFFF
    A = T.ai(); A.readonly = True
    call0 = A.call_named
    def known(st, e): e = A.resolve(e, st); return e
    def hook(name, av, x, st, depth):
        n = name
        f = mod.fns.get(mod.alias.get(name, name)); d = f.dem if f else ''
        if d.startswith(('jm::String::', 'jm::operator+(')): return [(st, 'ret', av[0] if x.d['ty'] == 'ptr' and av else None if x.d['ty'] == 'void' else const(0, x.d.get('w') or 64))]
        if n in ('deflateInit_', 'deflateInit2_'):
            for off, what in ((64, 'zalloc'), (72, 'zfree')):
                v = A.load(st, add(av[0], const(off, 64)), 8, True)
                if not (isc(v) and cv(v) == 0): raise Bad('%s of zlib is not set' % what)
            r = []
            for ok in (1, 0):
                s = st.copy()
                A.ctr += 1; s.event('zinit', av[0], ok)
                A.store(s, add(av[0], const(16, 64)), const(0, 64), 8); A.store(s, add(av[0], const(40, 64)), const(0, 64), 8)
                r.append((s, 'ret', const(0 if ok else -4, 32)))
            return r
        live = [e for e in st.events() if e[0] in ('zinit', 'zend')]
        on = bool(live) and live[-1][0] == 'zinit' and live[-1][2] == 1
        if n in ('deflateBound', 'deflate', 'deflateEnd', 'deflateReset'):
            if not on:
                if n == 'deflateEnd' and live and live[-1][0] == 'zinit': return [(st, 'ret', const(-2, 32))]
                raise Bad('%s is called without an initialised stream' % n)
            if live[-1][1] is not av[0]: raise Bad('%s is called for another stream' % n)
        if n == 'deflateBound':
            A.ctr += 1; b = sym('bound%d' % A.ctr, 64)
            s = st.copy(); A.assume(s, icmp('ult', b, av[1]), False); A.assume(s, icmp('ult', b, const(1 << 62, 64)), True); s.event('zbound', b, av[1])
            return [(s, 'ret', b)]
        if n == 'deflateEnd':
            st.event('zend', av[0]); return [(st, 'ret', const(0, 32))]
        if n == 'deflate':
            z = av[0]; bad = []
            g = lambda off, k, p=False: A.load(st, add(z, const(off, 64)), k, p)
            src, have, dst, room = g(0, 8, True), g(8, 4), g(24, 8, True), g(32, 4)
            want = A.inp
            if isptr(src) and src is not want[0] and not (isc(have) and cv(have) == 0): raise Bad('the data given to zlib are not those of setInput')
            k = interval(want[1], st)
            if not (k[1] <= M32 and (have is trunc(want[1], 32) or A.resolve(have, st) is A.resolve(trunc(want[1], 32), st))): raise Bad('zlib is given %s bytes instead of %s' % (have, want[1]))
            if not (isc(av[1]) and cv(av[1]) == 4): raise Bad('the stream is not finished')
            bo = [e for e in st.events() if e[0] == 'zbound']
            q, d, o = A.split(dst)
            if q.op != 'obj' or q not in A.size or d is not None or o: raise Bad('the output is not new storage')
            if q in st.freed: raise Bad('the output has been released')
            size = A.size[q]; size = const(size, 64) if isinstance(size, int) else size
            zr = zext(room, 64)
            full = zr
            for e in [size] + [e[1] for e in bo]:
                d = sub(room, trunc(e, 32))
                if isc(d) and not isc(e) and interval(add(e, const(sv(d), 64)), st)[1] <= M32: full = add(e, const(sv(d), 64)); break
            def le(a, b):
                d = sub(b, a)
                return a is b or isc(d) and cv(d) < 1 << 31 and interval(a, st)[1] < 1 << 63 or A.decide(st, icmp('ult', b, a)) is False
            fits = le(zr, size) or le(full, size)
            enough = any((e[2] is want[1] or e[2] is zext(trunc(want[1], 32), 64)) and (interval(full, st)[1] <= M32 and le(e[1], full) or le(e[1], zr)) for e in bo)
            if not fits: raise Bad('zlib may write %s bytes to storage of %s bytes' % (room, size))
            A.zcalls += 1
            r = []
            for res in (1, -2, -5) if enough else (1, 0, -2, -5):
                s = st.copy(); A.ctr += 1; t = sym('written%d' % A.ctr, 64)
                s.event('zrun', q, t, res, enough)
                A.store(s, add(z, const(40, 64)), t, 8); A.store(s, add(z, const(8, 64)), const(0, 32) if res == 1 else sym('left%d' % A.ctr, 32), 4)
                A.store(s, add(z, const(32, 64)), sym('room%d' % A.ctr, 32), 4)
                r.append((s, 'ret', const(res, 32)))
            return r
        return call0(name, av, x, st, depth)
    A.call_named = hook; A.zcalls = 0
    def one(f, args, st):
        o = [x for x in A.run(f, args, st) if x.kind != 'noreturn']
        if len(o) != 1 or o[0].kind != 'ret': raise Limit('%s has several outcomes' % f.dem)
        return o[0].val, o[0].st
    def total(name, st, this, want, bad):
        v, st = one(F[name], [this], st)
        v = A.resolve(v, st)
        if v is not A.resolve(want, st): bad.append('%s is %s instead of %s' % (name, v, want))
        return st
    bad = []; und = None; good = errors = 0
    this = ptr(sym('&this', 64, True)); buf = ptr(sym('&buffer', 64, True)); ln = ptr(sym('&length', 64, True))
    try:
        _, s0 = one(F['Deflater'], [this], State())
        def turn(st, k, ins, outs, gone):
            nonlocal good, errors
            n = sym('n%d' % k, 64); src = ptr(sym('&input%d' % k, 64, True)); A.inp = src, n
            st = st.copy(); A.assume(st, icmp('slt', n, const(0, 64)), False)
            _, st = one(F['setInput'], [this, src, n], st)
            ins = add(ins, n); mark = len(list(st.events()))
            for o in A.run(F['deflate'], [this, buf, ln], st):
                if o.kind == 'noreturn': continue
                ev = list(o.st.events())[mark:]
                init = [e for e in ev if e[0] == 'zinit' and e[2] == 1]; end = [e for e in ev if e[0] == 'zend']
                if len(init) != len(end): bad.append('the state of zlib is given back %d times instead of %d times' % (len(end), len(init)))
                runs = [e for e in ev if e[0] == 'zrun']
                new = [e[2] for e in ev if e[0] == 'new']; rel = {A.split(e[2])[0] for e in ev if e[0] == 'delete' and not isc(e[2])}
                done = bool(runs) and runs[-1][3] == 1
                if o.kind == 'ret':
                    if not done: bad.append('data are returned though zlib reports an error'); continue
                    good += 1
                    r = A.load(o.st, buf, 8, True); l = A.resolve(A.load(o.st, ln, 8), o.st)
                    if r is not runs[-1][1]: bad.append('the result is not what zlib has written')
                    elif A.kind.get(r) != '_ZdaP' or r in rel: bad.append('the result cannot be released by the caller')
                    if l is not A.resolve(runs[-1][2], o.st): bad.append('%s bytes are returned instead of %s' % (l, runs[-1][2]))
                    for e in new:
                        if e not in rel and e is not r: bad.append('storage of %s is never given back' % str(e.a[1]).split('#')[0])
                    out = add(outs, runs[-1][2]); s = total('totalInSize', o.st, this, ins, bad); s = total('totalOutSize', s, this, out, bad)
                    if k < 2: turn(s, k + 1, ins, out, gone | {r})
                    else:
                        _, s = one(F['reset'], [this], s); s = total('totalInSize', s, this, const(0, 64), bad); s = total('totalOutSize', s, this, const(0, 64), bad)
                        one(F['~Deflater'], [this], s)
                else:
                    errors += 1
                    if done: bad.append('data that zlib has compressed are rejected')
                    if runs and not runs[-1][4] and runs[-1][3] in (0, -5): bad.append('data that cannot be compressed do not fit the storage and are rejected')
                    if not runs and init and interval(n, o.st)[1] <= 0xFFFF: bad.append('short data are rejected')
                    for e in new:
                        if e not in rel: bad.append('storage of %s is never given back after an error' % str(e.a[1]).split('#')[0])
        turn(s0, 1, const(0, 64), const(0, 64), set())
        if not good and not bad: und = 'nothing is ever compressed'
    except Bad as e: bad.append(str(e))
    except Limit as e: und = str(e)
    if bad: und = None
    ck.analysed |= A.analysed
    ck.ob('Deflater: what is asked of zlib and what becomes of it', None if und else not bad, where, und or '; '.join(list(dict.fromkeys(bad))[:3]))
    if not bad: ck.need(A.zcalls, 'calls of zlib', 1)

def parallel(job, n, order):
    """the results of the jobs in their order, computed by several processes"""
    import multiprocessing as mp
    global JOB
    JOB = job
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        r = dict(pool.imap_unordered(call, order))
    return [r[i] for i in range(n)]
def call(i): return i, JOB(i)

def shapes(deep):
    # headers
    yield 'zlib header', W().var(16).stored(0, 1), dict(wrap=0)
    yield 'zlib header, one byte', W().num(0x78, 8), dict(wrap=0)
    yield 'no data', W(), {}
    yield 'no data, zlib header', W().num(0x78, 8).num(0x9C, 8), dict(wrap=0)
    yield 'zlib stream with data', W().num(0x78, 8).num(0x9C, 8).stored(3, 1), dict(wrap=0, rest=4)
    # kinds of blocks
    yield 'kind of the block', W().num(1, 1).var(2).num(0, 5).num(0, 16).num(0xFFFF, 16), {}
    yield 'last block or not', W().var(1).num(0, 2).align().num(1, 16).num(0xFFFE, 16).data(1).stored(2, 1), {}
    # stored blocks
    yield 'stored: length and complement', W().head(1, 0).align().var(2).num(0, 14).var(16).data(3), dict(rest=3)
    yield 'stored: both halves of the length', W().head(1, 0).align().num(0, 8).var(1).num(0, 7).var(1).num(0x7F, 7).var(1).num(0x7F, 7).data(256), dict(rest=0)
    for n in (0, 1, 5): yield 'stored: %d bytes' % n, W().stored(n).stored(2, 1), dict(rest=3)
    for c in (1, 2, 4, 5, 7): yield 'stored: %d bytes are missing' % c, W().stored(5, 1), dict(cut=c)
    yield 'stored: unused bits of the header', W().head(1, 0).var(5).num(2, 16).num(0xFFFD, 16).data(2), {}
    # the object is used again after Reset
    old = dict(stored=None, fixed=W().head(1, 1).lit(65).copy(9, 1).end(), cut=W().head(1, 1).lit(65).copy(9, 1), wrong=W().head(1, 3).num(0, 29))
    for k, v in old.items():
        if k == 'stored': v = W().head(0, 0).align().num(1, 16).num(0xFFFE, 16).num(0x43, 8).head(1, 0).align().num(2, 16).num(0xFFFD, 16).num(0x4241, 16)
        v = [sum(x << i for i, x in enumerate(v.align().b[j:j + 8])) for j in range(0, len(v.b), 8)]
        yield 'again after Reset, before: %s' % k, W().head(1, 1).lit(66).lit(67).lit(257).var(5).num(0, 7).end(), dict(first=v, rest=2)
        yield 'again after Reset, zlib header, before: %s' % k, W().num(0x78, 8).num(0x9C, 8).stored(4, 1), dict(first=[0x78, 0x9C] + v, wrap=0)
    # codes of the fixed alphabet
    yield 'fixed: every code', W().stored(4).head(1, 1).var(9).num(0, 10).end().end().align().num(0, 32), dict(rest=2)
    yield 'fixed: every code, other bits', W().stored(9).head(1, 1).var(9).num(0x3FF, 5).code(3, 5).num(0x155, 9).num(0, 64), dict(rest=1)
    for i in range(29):
        if LEX[i]: yield 'fixed: lengths of code %d' % (257 + i), W().stored(3).head(1, 1).lit(257 + i).var(LEX[i]).code(1, 5).end(), {}
    for n in (3, 10, 258): yield 'fixed: %d bytes, every distance' % n, dist(n), {}
    yield 'fixed: large distances', W().stored(33000).head(1, 1).lit(257).var(5).var(7).num(63, 6).num(0, 7), {}
    yield 'fixed: large distances, upper bits', W().stored(33000).head(1, 1).lit(257).var(5).num(0, 6).var(7).num(0, 7), {}
    yield 'fixed: distances over three blocks', W().stored(2).head(0, 1).lit(65).end().head(1, 1).lit(260).var(5).num(0, 5).end(), {}
    for c in (1, 2, 3): yield 'fixed: %d bytes are missing' % c, W().stored(3).head(1, 1).lit(65).copy(20, 2).end(), dict(cut=c)
    yield 'fixed: no end', W().head(1, 1).lit(65).lit(66), {}
    yield 'growing output: stored', W().stored(1022).stored(5, 1), {}
    yield 'growing output: copies', W().stored(1000).head(0, 1).copy(258, 1).copy(258, 300).copy(258, 999).end().stored(1, 1), {}
    for k in range(1, 4): yield 'growing output: %d times' % k, W().stored((1 << k) * 2600).head(1, 1).copy(258, 2048).lit(1).end(), {}
    # dynamic blocks
    for x in dynamic(deep): yield x
def dist(n):
    w = W().stored(40).head(1, 1); i = max(k for k in range(29) if LEN[k] <= n) if n < 258 else 28
    return w.lit(257 + i).num(n - LEN[i], LEX[i]).var(5).var(2).num(0, 11).end().num(0, 8)
def lens(d, n=None):
    l = [0] * (n or max(d) + 1)
    for k, v in d.items(): l[k] = v
    return l
def dynamic(deep):
    def go(L, D, cl=None, rle=True):
        L = lens(L, 257 if max(L) < 257 else None); D = lens(D)
        return W().lengths(L + D, len(L), cl, rle), L, D
    def full(name, L, D, rle=True, fix=0):
        """all sequences of one code, with the extra bits and distances that follow"""
        w = W().stored(6).head(1, 2); Lt, Dt = lens(L, 257 if max(L) < 257 else None), lens(D or {0: 0})
        w.lengths(Lt + Dt, len(Lt), None, rle)
        m = max(Lt); w.num((1 << fix) - 1, fix).var(min(m, 8))
        if m > 8 + fix: w.num(0, m - 8 - fix)
        if Dt and max(Dt): w.num(0, 2)
        for _ in range(3): w.coded(Lt, 256)
        return 'dynamic: ' + name, w.num(0, 24), dict(rest=1)
    yield full('literals of three lengths', {65: 1, 66: 3, 67: 3, 256: 2}, {})
    yield full('literals, lengths and distances', {0: 3, 255: 3, 256: 2, 257: 3, 258: 4, 260: 4, 264: 2}, {0: 2, 1: 2, 2: 2, 3: 2})
    yield full('extra bits', {97: 2, 256: 2, 265: 3, 269: 3, 285: 2}, {0: 1, 3: 1})
    long = dict([(i, i + 1) for i in range(14)] + [(20, 15), (256, 15)])
    yield full('codes of fifteen bits, short ones', long, {})
    yield full('codes of fifteen bits, long ones', long, {}, True, 7)
    yield full('one distance code', {97: 2, 98: 2, 256: 2, 257: 2}, {1: 1})
    yield full('an incomplete set with an odd number of codes', {97: 2, 98: 2, 256: 2}, {0: 1})
    yield full('an incomplete set of several lengths', {97: 1, 98: 3, 256: 3, 99: 5}, {0: 3, 1: 3, 2: 3})
    yield full('only the end', {256: 1}, {})
    yield full('lengths without distances', {97: 2, 256: 2, 257: 1}, {})
    yield full('length codes that do not exist', {97: 2, 256: 2, 286: 2, 287: 2}, {0: 1})
    yield full('without repetitions', {0: 2, 1: 2, 2: 3, 3: 3, 256: 2}, {0: 2, 1: 2, 2: 1}, False)
    # distances
    w = W().stored(9).head(1, 2); L, D = lens({256: 2, 257: 1, 97: 2}), lens({0: 1, 2: 2, 4: 3, 6: 4, 29: 5, 30: 6, 31: 6}); w.lengths(L + D, len(L)).coded(L, 257)
    yield 'dynamic: codes of distances', w.var(8).num(0, 14).coded(L, 256).coded(L, 256).coded(L, 256).num(0, 20), {}
    w = W().stored(900).head(1, 2); L, D = lens({256: 2, 257: 1, 97: 2}), lens({18: 2, 19: 2, 20: 2, 17: 2}); w.lengths(L + D, len(L)).coded(L, 257)
    yield 'dynamic: extra bits of distances', w.var(2).var(9).coded(L, 256).coded(L, 256).num(0, 20), {}
    # sets of codes
    for nm, L, D in (('too many literal codes', {97: 1, 98: 1, 256: 1}, {}), ('too many codes of several lengths', {97: 1, 98: 2, 99: 3, 100: 3, 256: 3}, {}), ('too many distance codes', {97: 1, 256: 1}, {0: 1, 1: 1, 2: 1}),
                     ('too many codes of fifteen bits', dict([(i, i + 1) for i in range(14)] + [(256, 15), (20, 15), (21, 15)]), {})):
        w = W().head(1, 2); Lt, Dt = lens(L, 257), lens(D or {0: 0}); w.lengths(Lt + Dt, 257)
        yield 'dynamic: ' + nm, w.var(3).num(0, 30), {}
    # the lengths themselves
    one = lambda s: (s, 0, 0)
    pre = [one(1)] + [(18, 127, 7), (18, 106, 7)]      # 1, then 138 + 117 zeros: 256 entries
    w = W().head(1, 2).dynamic(pre + [one(1)] + [one(1)] * 2, 257, 2); w.code(0, 1).var(1).var(1).num(0, 16); yield 'dynamic: the lengths of two alphabets', w, {}
    w = W().head(1, 2).dynamic([one(2), (16, None, 2)] + [one(0)] * 3 + [(18, 127, 7), (18, 100, 7)] + [one(2)] * 8, 257, 3); w.num(0, 40); yield 'dynamic: repeated lengths', w, {}
    w = W().head(1, 2).dynamic([one(1), (18, 127, 7), (17, 7, 3), (18, None, 7), one(1), (17, 0, 3), (18, 0, 7)] + [one(0)] * 3, 257, 29); w.num(0, 60); yield 'dynamic: repeated zeros, seven bits', w, {}
    w = W().head(1, 2).dynamic([one(1), (17, None, 3), (18, 127, 7), (18, 98, 7), one(1)] + [one(0)] * 12, 257, 3); w.num(0, 60); yield 'dynamic: repeated zeros, three bits', w, {}
    w = W().head(1, 2).dynamic(pre[:1] + [(18, 127, 7), (18, 105, 7), one(1), (16, None, 2)], 257, 3); w.coded(lens({0: 1, 255: 1}, 257), 0); w.num(0, 30); yield 'dynamic: a repetition across both alphabets', w, {}
    w = W().head(1, 2).dynamic([(16, 0, 2)] + pre + [one(1)], 257, 1); w.num(0, 30); yield 'dynamic: a repetition without a predecessor', w, {}
    for nm, s, hd in (('length', (16, None, 2), 7), ('three bits', (17, None, 3), 11), ('seven bits', (18, None, 7), 14)):
        w = W().head(1, 2).dynamic(pre + [one(1), one(1), one(0), s], 257, hd); w.num(0, 7).num(1, 1).num(0, 30); yield 'dynamic: a repetition beyond the end, %s' % nm, w, {}
    # the alphabet of the code lengths
    w = W().head(1, 2).num(0, 5).num(0, 5).num(0, 4).num(0, 12).var(3).num(0, 20); yield 'dynamic: no code lengths', w, {}
    w = W().head(1, 2).num(0, 5).num(0, 5).num(0, 4).num(1, 3).num(1, 3).num(1, 3).num(1, 3).num(0, 40); yield 'dynamic: too many codes of code lengths', w, {}
    for k in range(19):
        # the code length ORDER[k] has a code of its own among two
        s = ORDER[k]; z = 18 if s != 18 else 17
        cl = lens({s: 2, z: 1, 1: 2} if s not in (1,) else {1: 1, z: 1}, 19)
        seq = [(1, 0, 0)]; n = 1
        x = {16: (16, 0, 2), 17: (17, 0, 3), 18: (18, 0, 7)}.get(s, (s, 0, 0)); seq.append(x); n += {16: 3, 17: 3, 18: 11}.get(s, 1)
        while n < 256:
            if z == 18 and 256 - n >= 11: q = min(138, 256 - n); q = q if 256 - n - q == 0 or 256 - n - q >= 11 else q - 11; seq.append((18, q - 11, 7)); n += q
            elif z == 17 and 256 - n >= 3: q = min(10, 256 - n); q = q if 256 - n - q == 0 or 256 - n - q >= 3 else q - 3; seq.append((17, q - 3, 3)); n += q
            else: seq.append((1, 0, 0)); n += 1
        seq += [(1, 0, 0), (1, 0, 0)]
        yield 'dynamic: order of code lengths, %d' % s, W().head(1, 2).dynamic(seq, 257, 1, cl).num(0, 40), {}
    w, L, D = go({97: 2, 98: 2, 256: 2, 257: 2}, {0: 1, 1: 1})
    for c in (1, 2, 3, 6): 
        w = W().head(1, 2).lengths(L + D, len(L)).coded(L, 97).coded(L, 257).code(0, 1).coded(L, 256)
        yield 'dynamic: %d bytes are missing' % c, w, dict(cut=c)
    w = W().head(0, 2).lengths(L + D, len(L)).coded(L, 97).coded(L, 256).head(1, 2); M, N = lens({99: 1, 256: 2, 258: 2}), lens({0: 1, 1: 1}); w.lengths(M + N, len(M)).coded(M, 258).code(0, 1).coded(M, 99).coded(M, 256)
    yield 'dynamic: two blocks', w, {}
