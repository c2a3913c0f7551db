"""Bounded numbers: integers and floating-point numbers of one value graph read as real (whole) numbers within known bounds; integer operations
are only read so where the bounds exclude a wrap-around, conversions where they exclude a value that does not fit."""
import math
from fractions import Fraction
from expr import *
import poly
from poly import Tr, R, P, A_, lift, NeedSign, Unknown, consistent, atom, _atoms
EPS = Fraction(1, 10 ** 6)
class Misfit(Exception): pass

def shortest(v, w):
    """the shortest decimal number with this representation"""
    import struct
    if w == 32:
        for k in range(1, 10):
            d = '%.*g' % (k, v)
            if struct.unpack('<f', struct.pack('<f', float(d)))[0] == v: return Fraction(d)
    return Fraction(repr(v))

class CR(Tr):
    def __init__(self, names=None):
        Tr.__init__(self, names); self.box = {}; self.ints = set(); self.floors = {}; self.rmemo = {}
    def with_signs(self, sg):
        Tr.with_signs(self, sg); self.rmemo = {}; self.pm = {}; self.em = {}
    def feasible(self):
        for k, s in self.sg.items():
            if not isinstance(k, E):
                p = P(dict(k))
                if any(e > 1 or len(m) > 1 for m in p.t for _, e in m) and self.off(p, s): return False
        return consistent(self.sg, self.rows())
    def number(self, name, lo, hi, whole=True):
        r = A_(name); i = atom(name); self.box[i] = (Fraction(lo), Fraction(hi))
        if whole: self.ints.add(i)
        return r
    # --- bounds
    def tight(self):
        """whole numbers: strictly positive means at least one"""
        out = []
        for k, s in self.sg.items():
            if s != '=' and not isinstance(k, E): out += self.step(P(dict(k)), s)
        return out
    def step(self, p, s):
        if not all(i in self.ints for m in p.t for i, _ in m): return []
        q = 1
        for c in p.t.values(): q = q * c.denominator // math.gcd(q, c.denominator)
        if q > 10 ** 9: return []
        p = p.scale(Fraction(q if s == '>' else -q)) - P({(): Fraction(1)})
        return [dict(p.t)]
    def span(self, i):
        """bounds of one number, sharpened by its signs"""
        lo, hi = self.box[i]
        for k, s in self.sg.items():
            if isinstance(k, E): continue
            t = dict(k); c = t.pop((), Fraction(0))
            if list(t) != [((i, 1),)]: continue
            v = -c / t[((i, 1),)]; up = s == '=' or (s == '<') == (t[((i, 1),)] > 0); dn = s == '=' or not up
            st = 1 if s != '=' and i in self.ints and v.denominator == 1 else 0
            if up: hi = min(hi, v - st)
            if dn: lo = max(lo, v + st)
        return lo, hi
    def rows(self): return self.tight() + [r for i, (lo, hi) in self.box.items() for r in ({((i, 1),): Fraction(1), (): -lo}, {((i, 1),): Fraction(-1), (): hi})]
    def possible(self, p, s):
        l = p.lead(); q = p.scale(1 / l)
        if l < 0: s = {'<': '>', '>': '<', '=': '='}[s]
        g = dict(self.sg)
        if q.key() not in g and any(len(m) > 1 for m in q.t) and self.off(q, s): return False
        if g.get(q.key(), s) != s: return False
        g[q.key()] = s
        at = {i for m in p.t for i, _ in m}
        for k in self.sg:
            if not isinstance(k, E): at |= {i for m, _ in k for i, _ in m}
        return consistent(g, self.tight() + ([] if s == '=' else self.step(q, s)) + [r for i in at if i in self.box for r in ({((i, 1),): Fraction(1), (): -self.box[i][0]}, {((i, 1),): Fraction(-1), (): self.box[i][1]})])
    def atleast(self, p, c):
        """p >= c (up to EPS) for all numbers within the bounds and signs"""
        p = p - P({(): Fraction(c) - EPS})
        k = p.key()
        if k in self.pm: return self.pm[k]
        c = p.const()
        if c is not None: r = c >= 0
        else: r = not self.possible(p, '<') or self.corners(p)
        self.pm[k] = r
        return r
    def off(self, p, s):
        e = P({(): EPS / 1000})
        return self.corners(p) if s == '<' else self.corners(-p) if s == '>' else self.corners(p - e) or self.corners(-p - e)
    def corners(self, p):
        at = sorted({i for m in p.t for i, _ in m})
        if len(at) > 9 or any(e > 1 for m in p.t for _, e in m) or any(i not in self.box for i in at): return False
        bx = {i: self.span(i) for i in at}
        for c in range(1 << len(at)):
            v = {i: bx[i][c >> j & 1] for j, i in enumerate(at)}; s = Fraction(0)
            for m, x in p.t.items():
                for i, _ in m: x = x * v[i]
                s += x
            if s < 0: return False
        return True
    def within(self, r, lo, hi):
        r = lift(r); d = r.d
        if d.const() == 1:
            # w + floor(x) >= lo means w + x >= lo, w + floor(x) <= hi means w + x < hi + 1 (w, lo, hi whole)
            fs = [m for m in r.n.t if any(i in self.floors for i, _ in m)]
            if len(fs) == 1 and len(fs[0]) == 1 and fs[0][0][1] == 1 and abs(r.n.t[fs[0]]) == 1 and all(c.denominator == 1 and all(i in self.ints for i, _ in m) for m, c in r.n.t.items()):
                w = R(P({m: c for m, c in r.n.t.items() if m != fs[0]})); x = self.floors[fs[0][0][0]]
                if r.n.t[fs[0]] == 1: return self.within(w + x, Fraction(lo), Fraction(hi) + Fraction(999, 1000))
                return self.within(w - x, Fraction(lo) - Fraction(999, 1000), Fraction(hi))
        if d.const() is not None: n = r.n.scale(1 / d.const()); d = None
        else:
            n = r.n
            if not self.atleast(d, 0):
                if not self.atleast(-d, 0): return False
                n, d = -n, -d
        one = d if d is not None else P({(): Fraction(1)})
        return self.atleast(n - one.scale(Fraction(lo)), 0) and self.atleast(one.scale(Fraction(hi)) - n, 0)
    def sign(self, r):
        r = lift(r); p = r.n
        if r.d.const() is None:
            a, b = self.sign(R(r.n)), self.sign(R(r.d))
            return a if b == '>' or a == '=' else {'<': '>', '>': '<'}[a]
        p = p.scale(1 / r.d.const())
        c = p.const()
        if c is None:
            pos = [s for s in '<=>' if self.possible(p, s)]
            if len(pos) == 1:
                if pos == ['=']: self.sg[p.scale(1 / p.lead()).key()] = '='; self.pm = {}
                return pos[0]
        return Tr.sign(self, R(p))
    # --- whole parts
    def fn(self, name, *args):
        if name in ('floor', 'trunc') and len(args) == 1:
            r = args[0]
            if any(s == '=' for s in self.sg.values()): r = R(self.eqs(r.n), self.eqs(r.d))
            if name == 'trunc' and not self.within(r, 0, 1 << 70): return Tr.fn(self, name, *args)
            if r.d.const() is None:
                x = Tr.fn(self, 'floor', r); i = next(iter(x.n.t))[0][0]; self.floors[i] = r; self.ints.add(i)
                return x
            n = r.n.scale(1 / r.d.const()); whole = {}; rest = {}
            for m, c in n.t.items():
                if all(i in self.ints for i, _ in m):
                    k = round(c) if abs(c - round(c)) <= EPS else c.__floor__()
                    if k: whole[m] = Fraction(k)
                    c = c - k if abs(c - k) > EPS else 0
                if c: rest[m] = c
            rest = R(P(rest)); w = R(P(whole))
            if rest.n.const() is not None or self.within(rest, 0, 1 - 2 * EPS): return w
            x = Tr.fn(self, 'floor', rest); i = next(iter(x.n.t))[0][0]
            self.floors[i] = rest; self.ints.add(i)
            return w + x
        return Tr.fn(self, name, *args)
    def eqs(self, n):
        key = tuple(k for k, s in self.sg.items() if s == '=' and not isinstance(k, E))
        subs = self.em.get(key)
        if subs is None:
            subs = []
            for k in key:
                p = P(dict(k))
                for i, q in subs: p = poly.substp(p, i, q)
                ms = [m for m in p.t if len(m) == 1 and m[0][1] == 1 and not any(m[0][0] == i for x in p.t if x != m for i, _ in x)]
                if not ms: continue
                m = max(ms, key=lambda m: (abs(p.t[m]) == 1, m)); i = m[0][0]; q = P({x: c for x, c in p.t.items() if x != m}).scale(-1 / p.t[m])
                subs = [(j, poly.substp(r, i, q)) for j, r in subs] + [(i, q)]
            self.em[key] = subs
        for i, q in subs: n = poly.substp(n, i, q)
        return n
    # --- integers
    def ireal(self, e):
        """a whole number congruent to e modulo 2^w"""
        r = self.rmemo.get(e)
        if r is None: r = self.rmemo[e] = self._ireal(e)
        return r
    def uval(self, e):
        v = self.ireal(e); M = 1 << e.w
        for d in (0, M):
            if self.within(v + d, 0, M - 1): return v + d
        raise Unknown('%s may wrap%s %s' % (v, self.text(), e))
    def sval(self, e):
        v = self.ireal(e); h = 1 << (e.w - 1)
        if isc(e): return lift(sv(e))
        if not self.within(v, -h, h - 1): raise Unknown('%s may wrap%s %s' % (v, self.text(), e))
        return v
    def text(self): return ' [%s]' % ', '.join('%s %s 0' % (k if isinstance(k, E) else P(dict(k)), s) for k, s in self.sg.items())[:200]
    def _ireal(self, e):
        if e in self.names: return self.names[e]
        o = e.op; a = e.a
        if o == 'c': return lift(sv(e)) if e.w > 1 else lift(cv(e))
        if e.w == 1: return lift(int(self.cond(e)))
        if o == 'lin':
            c, t = lin_parts(e); M = 1 << e.w; sg = lambda k: k - M if k >= M // 2 else k
            r = lift(sg(c % M))
            for y, k in t.items(): r = r + lift(sg(k % M)) * self.ireal(y)
            return r
        if o == 'zext': return self.uval(a[0])
        if o == 'sext': return -lift(int(self.cond(a[0]))) if a[0].w == 1 else self.sval(a[0])
        if o == 'trunc': return self.ireal(a[0])
        if o in ('mul', 'mulatom'):
            r = lift(1)
            for y in a: r = r * self.ireal(y)
            return r
        if o == 'select': return self.ireal(a[1] if self.cond(a[0]) else a[2])
        if o in ('udiv', 'sdiv') and isc(a[1]) and cv(a[1]):
            if o == 'udiv': return self.fn('floor', self.uval(a[0]) / lift(cv(a[1])))
            return self.fn('trunc', self.sval(a[0]) / lift(sv(a[1])))
        if o == 'urem' and isc(a[1]) and cv(a[1]): v = self.uval(a[0]); return v - lift(cv(a[1])) * self.fn('floor', v / lift(cv(a[1])))
        if o == 'lshr' and isc(a[1]): return self.fn('floor', self.uval(a[0]) / lift(1 << cv(a[1])))
        if o == 'and' and isc(a[1]) and (cv(a[1]) + 1) & cv(a[1]) == 0:
            v = self.ireal(a[0])
            if self.within(v, 0, cv(a[1])): return v
        if o in ('fptoui', 'fptosi'):
            v = self.rat(a[0]); h = (1 << e.w) if o == 'fptoui' else 1 << (e.w - 1)
            if not self.within(v, Fraction(-999, 1000) if o == "fptoui" else -h, h - Fraction(1, 1000)): raise Misfit('the conversion of %s to %d bits may not fit' % (v, e.w))
            return self.fn('trunc', v)
        raise Unknown('no whole number for %s' % e)
    def _rat(self, e):
        if e in self.names: return self.names[e]
        if e.op == 'f' and abs(fval(e)) < 1e30: return lift(shortest(fval(e), e.w))
        if e.op == 'sitofp': return self.sval(e.a[0])
        if e.op == 'uitofp': return self.uval(e.a[0])
        if e.op in ('sym', 'zext', 'sext', 'lin', 'c', 'fptoui', 'fptosi'): return self.ireal(e)
        if e.op == 'fdiv':
            d = self.rat(e.a[1])
            if self.sign(d) == '=': raise Misfit('division by zero')
            return self.rat(e.a[0]) / d
        return Tr._rat(self, e)
    def cond(self, e):
        o = e.op
        if o in ('slt', 'ult') : 
            f = self.sval if o == 'slt' else self.uval
            return self.sign(f(e.a[0]) - f(e.a[1])) == '<'
        if o == 'eq' and e.a[0].w > 1:
            d = self.ireal(e.a[0]) - self.ireal(e.a[1]); M = 1 << e.a[0].w
            for k in (0, 1, -1, 2, -2):
                if self.within(d + k * M, 1 - M, M - 1): return self.sign(d + k * M) == '='
            raise Unknown('%s may wrap%s %s' % (d, self.text(), e))
        return Tr.cond(self, e)
