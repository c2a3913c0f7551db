"""Base64, checksums and URL encoding."""
from expr import *
from ai import ptr, obj, State, Limit
from ir import Anchor
from text import Text, Bad, every, consistent
from lin2 import Forms, Nonlinear
import piece, itertools
LEVEL = 'other'
RULE = ('Base64 is abstractly interpreted on arbitrary bytes per length: every character produced is compared with RFC 4648 for all values of the bytes it depends on, decoding of well formed text with the inverse, and decoding of '
        'any other text must stay inside its storage; checksums are decided bit by bit as exclusive ors of input bits against the bitwise definition; URL encoding is compared character by character')
EXPLANATION = RULE
ASSUMPTIONS = ['lengths up to the stated bound; the loops treat every group of bytes alike']
ALPHABET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'

def run(ck):
    mod = ck.mod; deep = ck.tier == 'thorough'
    base64(ck, mod, deep); checksums(ck, mod, deep); urls(ck, mod, deep)

class Values:
    """an expression over a few small leaves as a function"""
    def __init__(self, A): self.A = A; self.T = {}
    def tab(self, g, off, size, i):
        k = g, off + i, size
        if k not in self.T:
            v = self.A.ginit(g, off + i, size)
            if v is None or not isc(v): raise piece.Untab('table %s at %d' % (g, off + i))
            self.T[k] = cv(v)
        return self.T[k]
    def fn(self, e, ls):
        return eval('lambda %s: %s' % (', '.join('x%d' % i for i in range(len(ls))), piece.py(e, {l: 'x%d' % i for i, l in enumerate(ls)})), {'T': self.tab, '__builtins__': {'int': int}})
    def facts(self, st, domain):
        """the values every leaf can have under the facts of the path (facts about one leaf each)"""
        dom = dict(domain)
        for c, v in st.facts.items():
            if not isinstance(c, E): continue
            l = [x for x in leaves(c)]
            if not any(x in dom for x in l): continue
            if len(l) != 1: raise Limit('a condition on several bytes: %s' % c)
            f = self.fn(c, l)
            dom[l[0]] = [x for x in dom[l[0]] if bool(f(x)) == v]
        from ai import interval
        for x in dom:
            lo, hi = interval(x, st); ne = st.rng.get(('ne', x), ())
            dom[x] = [v for v in dom[x] if lo <= v <= hi and v not in ne]
        return dom
    def differs(self, g, w, ls, dom):
        """values of the leaves for which the two differ; w(values) is the definition, over the leaves ls"""
        need = sorted(set(leaves(g)) | set(ls), key=lambda x: x.id)
        if any(x not in dom for x in need): raise Limit('the result %s depends on more than the input' % g)
        n = 1
        for x in need: n *= max(1, len(dom[x]))
        if n > 1 << 20: raise Limit('the result depends on %d bytes' % len(need))
        f = self.fn(g, need); pos = [need.index(x) for x in ls]
        for v in itertools.product(*[dom[x] for x in need]):
            if f(*v) != w(*[v[i] for i in pos]): return dict(zip([x.a[0] for x in need], v))

def cell(A, st, e, w):
    o = ptr(sym('&length', 64, True)); A.store(st, o, e, w); return o

def base64(ck, mod, deep):
    T = Text(ck)
    enc, dec = mod.dem('jm::Base64::encode(unsigned char const*, long&)'), mod.dem('jm::Base64::decode(unsigned char const*, unsigned int&)')
    count = 0
    def go(key, f, n, domain, w, check, conv=True):
        nonlocal count
        count += 1
        A = T.ai(); A.ifconv = conv; A.readonly = True; st = State(); bad = []; und = None; V = Values(A)
        h = T.heap(A, 'data', n); b = [sym('data[%d]' % i, 8) for i in range(n)]
        for i, x in enumerate(b): A.store(st, add(h, const(i, 64)), x, 1)
        c = cell(A, st, const(n, 8 * w), w)
        try:
            outs = [o for o in A.run(f, [h, c], st) if o.kind != 'noreturn']
            seen = 0
            for o in outs:
                dom = V.facts(o.st, {x: domain(i) for i, x in enumerate(b)})
                if any(not d for d in dom.values()): continue
                seen += 1
                if o.kind != 'ret': bad.append('throws'); continue
                m = A.resolve(A.load(o.st, c, w), o.st); p = o.val
                if not isc(m): raise Limit('the length is %s' % m)
                m = cv(m)
                if isc(p): raise Bad('returns no storage')
                k, d, off = A.split(p)
                if k.op != 'obj' or d is not None or off or A.kind.get(k) != '_ZdaP' or k is h or k in o.st.freed: raise Bad('does not return new storage')
                if m > A.size[k]: raise Bad('returns %d bytes in storage of %d' % (m, A.size[k]))
                for i, x in enumerate(b):
                    if A.load(o.st, add(h, const(i, 64)), 1) is not x: raise Bad('changes the input')
                if any(e[0] == 'new' and e[2] is not k and e[2] not in {A.split(z[2])[0] for z in o.st.events() if z[0] == 'delete'} for e in o.st.events()): raise Bad('storage is never released')
                check(A, V, o, p, m, b, dom, bad)
            if not seen: bad.append('never returns')
        except Bad as e: bad.append(str(e))
        except piece.Untab as e: und = str(e)
        except Limit as e: und = str(e)
        ck.analysed |= A.analysed
        if bad: und = None
        ck.ob(key, None if und else not bad, '%s:%s' % (f.file, f.line), und or '; '.join(list(dict.fromkeys(bad))[:4]))
    BYTE = list(range(256))
    def letter(i):
        """the function and the bytes of the i-th character"""
        g, j = divmod(i, 4); k = 3 * g
        return [([k], lambda a: a >> 2), ([k, k + 1], lambda a, b: (a & 3) << 4 | b >> 4), ([k + 1, k + 2], lambda a, b: (a & 15) << 2 | b >> 6), ([k + 2], lambda a: a & 63)][j]
    def encoded(A, V, o, p, m, b, dom, bad):
        n = len(b); want = (n + 2) // 3 * 4
        if m != want: bad.append('%d bytes are encoded as %d characters instead of %d' % (n, m, want)); return
        for i in range(m):
            g = A.load(o.st, add(p, const(i, 64)), 1)
            k, f = letter(i)
            if k[0] >= n: ls, w = [], lambda: ord('=')
            elif k[-1] >= n: ls, w = [b[k[0]]], lambda a, f=f: ord(ALPHABET[f(a, 0)])
            else: ls, w = [b[x] for x in k], lambda *a, f=f: ord(ALPHABET[f(*a)])
            d = V.differs(g, w, ls, dom)
            if d is not None: bad.append('character %d of %d bytes is wrong for %s' % (i, n, d))
    for n in range(0, 10 if deep else 8): go('encode(%d bytes)' % n, enc, n, lambda i: BYTE, 8, encoded)
    LET = [ord(c) for c in ALPHABET]; val = {ord(c): i for i, c in enumerate(ALPHABET)}
    def decoded(pad):
        def check(A, V, o, p, m, b, dom, bad):
            n = len(b); want = n // 4 * 3 - pad
            if m != want: bad.append('%d characters with %d fill characters decode to %d bytes instead of %d' % (n, pad, m, want)); return
            for i in range(m):
                g = A.load(o.st, add(p, const(i, 64)), 1); q, j = divmod(i, 3); x, y = b[4 * q + j], b[4 * q + j + 1]
                w = [lambda a, c: val[a] << 2 | val[c] >> 4, lambda a, c: (val[a] & 15) << 4 | val[c] >> 2, lambda a, c: (val[a] & 3) << 6 | val[c]][j]
                d = V.differs(g, w, [x, y], dom)
                if d is not None: bad.append('byte %d of %d characters is wrong for %s' % (i, n, d))
        return check
    for n in (0, 4, 8) + ((12,) if deep else ()):
        for pad in ((0, 1, 2) if n else (0,)): go('decode(%d characters, %d of them fill characters)' % (n, pad), dec, n, lambda i: [61] if i >= n - pad else LET, 4, decoded(pad), False)
    for n in range(0, 10 if deep else 8): go('decode(%d arbitrary characters)' % n, dec, n, lambda i: BYTE, 4, lambda *a: None)
    ck.need(count, 'Base64 operations x lengths', 17)

def checksums(ck, mod, deep):
    count = 0
    def bitwise(poly, w, refl_init, bs, F, final=0):
        """the definition: shift right, and exclusive or with the polynomial when the bit that leaves is set"""
        r = list(refl_init)
        for b in bs:
            f = F.of(b)
            r = [r[i] ^ (f[i] if i < 8 else 0) for i in range(w)]
            for _ in range(8):
                low = r[0]; r = r[1:] + [0]
                r = [x ^ (low if (poly >> i) & 1 else 0) for i, x in enumerate(r)]
        return [x ^ final for x in r]
    T = Text(ck)
    fs = [('CRC-16', mod.dem('jm::CRC::crc8(unsigned short, unsigned char const*, unsigned int)'), 16, 0xA001, 0)]
    z = [f for f in mod.fns.values() if not f.decl and f.dem.split('(')[0].split('::')[-1] == 'CRC32' and len(f.args) == 2]
    if len(z) != 1: raise Anchor('the CRC-32 of the ZIP format')
    fs.append(('CRC-32', z[0], 32, 0xEDB88320, 1))
    for name, f, w, poly, final in fs:
        for n in range(0, 9 if deep else 6):
            count += 1
            A = T.ai(); A.ifconv = A.readonly = True; st = State(); und = None; bad = []
            h = T.heap(A, 'data', n); b = [sym('data[%d]' % i, 8) for i in range(n)]
            for i, x in enumerate(b): A.store(st, add(h, const(i, 64)), x, 1)
            init = sym('initial', 16) if name == 'CRC-16' else None
            try:
                outs = [o for o in A.run(f, [init, h, const(n, 32)] if init is not None else [h, const(n, 32)], st)]
                F = Forms(A); part = {}
                for o in outs:
                    if o.kind != 'ret': bad.append('throws'); continue
                    if len(outs) > 1: raise Limit('%d paths' % len(outs))
                    i0 = F.of(init) if init is not None else [1] * w
                    want = bitwise(poly, w, i0, b, F, final); got = F.of(o.val)
                    if got[:w] != want: bad.append('bit %d of the checksum of %d bytes is wrong' % ([x == y for x, y in zip(got, want)].index(False), n))
            except Bad as e: bad.append(str(e))
            except Nonlinear as e: und = str(e); bad += ['the checksum is not an exclusive or of bits: %s' % e] if 'not affine' in str(e) else []
            except Limit as e: und = str(e)
            ck.analysed |= A.analysed
            if bad: und = None
            ck.ob('%s of %d bytes' % (name, n), None if und else not bad, '%s:%s' % (f.file, f.line), und or '; '.join(bad[:3]))
    ck.need(count, 'checksums x lengths', 12)

def urls(ck, mod, deep):
    T = Text(ck)
    def chars(s): return [const(ord(c), 16) for c in s]
    def encode(q, s):
        out = []
        for c in s:
            if q.eq(c, ord(' ')): out += chars('+')
            elif q.eq(c, ord('%')): out += chars('%25')
            elif q.eq(c, ord('+')): out += chars('%2B')
            else: out.append(c)
        return {'ret': out}
    for n in range(0, 5 if deep else 4): T.case('URLEncode(%d)' % n, 'jm::URLEncode(jm::String const&)', [('str', 's', n)], encode)
    # plain ASCII, and % followed by two hexadecimal digits of an ASCII code
    def decode(q, s):
        out = []
        for c in s:
            if q.eq(c, ord('%')): return None
            out.append(const(32, 16) if q.eq(c, ord('+')) else c)
        return {'ret': out}
    for n in range(0, 5 if deep else 4): T.case('URLDecode(%d)' % n, 'jm::URLDecode(jm::String const&)', [('str', 's', n)], decode, pre=lambda A, st: [A.narrow(st, sym('s[%d]' % i, 16), 1, 127) for i in range(n)])
    for h in '01234567':
        for lo, hi, k in ((48, 57, 0), (65, 70, 10), (97, 102, 10)):
            for before, after in ((0, 0), (1, 0), (0, 1)) + (((1, 1),) if deep else ()):
                d = sym('digit', 16); x, y = [sym('before', 16)] * before, [sym('after', 16)] * after
                txt = x + [const(ord('%'), 16), const(ord(h), 16), d] + y
                def pre(A, st):
                    A.narrow(st, d, lo + (h == '0' and lo == 48), hi)
                    for z in x + y: A.narrow(st, z, 1, 127)
                def want(q, s):
                    for z in x + y:
                        if q.eq(z, ord('%')): return None
                    f = lambda z: [const(32, 16) if q.eq(z, ord('+')) else z for z in z]
                    return {'ret': f(x) + [add(d, const(16 * int(h) + k - lo, 16))] + f(y)}
                T.case('URLDecode(%s%%%s[%s-%s]%s)' % ('x' * before, h, chr(lo), chr(hi), 'y' * after), 'jm::URLDecode(jm::String const&)', [('str', 's', len(txt), None, False, txt)], want, pre=pre)
    ck.counts['paths'] = T.paths
