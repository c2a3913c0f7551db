"""Exact decision of expressions that are affine over GF(2): every bit of the expression is the exclusive or of bits of its leaves and a
constant (checksums, bit packing).  A form is an integer whose bit 0 is the constant and whose other bits select leaf bits."""
from expr import *

class Nonlinear(Exception): pass

class Forms:
    def __init__(self, A=None, spec=None): self.A = A; self.spec = spec or {}; self.pos = {}; self.memo = {}; self.tabs = {}
    def leaf(self, e):
        r = []
        for i in range(e.w):
            if (e, i) not in self.pos: self.pos[(e, i)] = len(self.pos) + 1
            r.append(1 << self.pos[(e, i)])
        return r
    def of(self, e):
        r = self.memo.get(e.id)
        if r is None: r = self.memo[e.id] = self.make(e)
        return r
    def join(self, x, y, op):
        if op == 'xor': return x ^ y
        if op == 'and':
            if x == 0 or y == 0: return 0
            if x == 1: return y
            if y == 1 or x == y: return x
            if x == y ^ 1: return 0
        if op == 'or':
            if x == 1 or y == 1 or x == y ^ 1: return 1
            if x == 0: return y
            if y == 0 or x == y: return x
        raise Nonlinear('%s of two unknown bits' % op)
    def make(self, e):
        o, w = e.op, e.w
        if o == 'c': return [(cv(e) >> i) & 1 for i in range(w)]
        if o in ('sym', 'init'): return self.leaf(e)
        if o == 'zext': return self.of(e.a[0]) + [0] * (w - e.a[0].w)
        if o == 'sext': b = self.of(e.a[0]); return b + [b[-1]] * (w - e.a[0].w)
        if o == 'trunc': return self.of(e.a[0])[:w]
        if o == 'not': return [self.of(e.a[0])[0] ^ 1]
        if o in ('and', 'or', 'xor'):
            r = self.of(e.a[0])
            for y in e.a[1:]: r = [self.join(a, b, o) for a, b in zip(r, self.of(y))]
            return r
        if o in ('lshr', 'ashr', 'shl') and isc(e.a[1]):
            b = self.of(e.a[0]); k = min(cv(e.a[1]), w)
            return b[k:] + [0 if o == 'lshr' else b[-1]] * k if o != 'shl' else [0] * k + b[:w - k]
        if o == 'bswap':
            b = self.of(e.a[0]); return [x for i in range(w // 8 - 1, -1, -1) for x in b[8 * i:8 * i + 8]]
        if o == 'concat': return [x for y in e.a for x in self.of(y)]
        if o == 'lin':
            c, t = lin_parts(e); M = (1 << w) - 1
            if len(t) == 1:
                (x, k), = t.items()
                if k == M and c == M: return [y ^ 1 for y in self.of(x)]
            acc = [(c >> i) & 1 for i in range(w)]
            for x, k in t.items():
                # a multiple of a single bit is that bit, spread over the constant
                f = self.of(x)
                if all(y == 0 for y in f[1:]) and f[0] > 1: b = [f[0] if (k >> i) & 1 else 0 for i in range(w)]
                elif k & (k - 1) == 0: s = k.bit_length() - 1; b = ([0] * s + f)[:w]
                else: raise Nonlinear('a product with %d' % k)
                carry = False
                for i in range(w):
                    if acc[i] == 0: acc[i] = b[i]
                    elif b[i] != 0: raise Nonlinear('a sum with carries')
            return acc
        if o == 'select':
            c = self.of(e.a[0])[0]; r = []
            for x, y in zip(self.of(e.a[1]), self.of(e.a[2])):
                if c in (0, 1): r.append(x if c else y)
                elif x == y: r.append(x)
                elif x == y ^ 1: r.append(y ^ c)
                else: raise Nonlinear('a choice between unrelated bits')
            return r
        if o == 'eq':
            d = [x ^ y for x, y in zip(self.of(e.a[0]), self.of(e.a[1]))]
            if any(x == 1 for x in d): return [0]
            d = {x for x in d if x}
            if not d: return [1]
            if len(d) == 1: return [d.pop() ^ 1]
            raise Nonlinear('a comparison of several bits')
        if o == 'ult' and all(x in (0, 1) for x in self.of(e.a[0])[1:]) and all(x in (0, 1) for x in self.of(e.a[1])[1:]):
            a, b = self.of(e.a[0]), self.of(e.a[1])
            if a[1:] == b[1:]: return [self.join(a[0] ^ 1, b[0], 'and')]
        if o == 'slt' and isc(e.a[1]) and cv(e.a[1]) == 0: return [self.of(e.a[0])[-1]]
        if o == 'tab' and isinstance(e.a[3], E):
            g, off, size, idx = e.a[:4]; f = self.of(idx)
            var = [i for i in range(idx.w) if f[i] not in (0, 1)]; base = sum(1 << i for i in range(idx.w) if f[i] == 1)
            if len(var) > 12: raise Nonlinear('a large table')
            def at(v):
                v += base
                if v >> (idx.w - 1): v -= 1 << idx.w
                k = g, off + v, size
                if k not in self.tabs:
                    x = self.A.ginit(g, off + v, size)
                    if x is None or not isc(x): raise Nonlinear('an unknown entry of %s' % g)
                    self.tabs[k] = cv(x)
                return self.tabs[k]
            t0 = at(0); col = [at(1 << i) ^ t0 for i in var]
            vals = {0: 0}
            for i, c in zip(var, col): vals.update({k | 1 << i: v ^ c for k, v in list(vals.items())})
            for k, v in vals.items():
                if at(k) != v ^ t0: raise Nonlinear('the table %s is not affine (entry %d)' % (g, (base + k) // size))
            r = []
            for b in range(w):
                x = (t0 >> b) & 1
                for i, c in zip(var, col):
                    if (c >> b) & 1: x ^= f[i]
                r.append(x)
            return r
        raise Nonlinear('%s' % o)
