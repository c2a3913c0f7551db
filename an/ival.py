"""Functions of one integer variable: interval evaluation, piecewise comparison with a definition, periodicity."""
from math import gcd
from expr import *

class Open(Exception): pass

def tdiv(a, b): return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
def trem(a, b): return a - b * tdiv(a, b)

class Ival:
    """signed intervals of expressions over the leaves in env: leaf -> (lo, hi); results are exact integers, None when it may wrap around"""
    def __init__(self, env): self.env = env; self.m = {}
    def __call__(self, e):
        r = self.m.get(e.id)
        if r is None:
            try: r = self.ev(e)
            except Open: r = self.full(e)
            self.m[e.id] = r
        return r
    def full(self, e): return (0, 1) if e.w == 1 else (-(1 << e.w - 1), (1 << e.w - 1) - 1)
    def fit(self, e, lo, hi):
        a, b = self.full(e)
        if lo < a or hi > b: return a, b
        return lo, hi
    def ev(self, e):
        o = e.op
        if e in self.env: return self.env[e]
        if o == 'c': v = cv(e) if e.w == 1 else sv(e); return v, v
        if o == 'lin':
            c, t = lin_parts(e); lo = hi = signed(c, e.w)
            for x, k in t.items():
                k = signed(k, e.w); a, b = self(x)
                lo += min(a * k, b * k); hi += max(a * k, b * k)
            return self.fit(e, lo, hi)
        if o == 'mul':
            lo, hi = self(e.a[0])
            for x in e.a[1:]:
                a, b = self(x); p = (lo * a, lo * b, hi * a, hi * b); lo, hi = min(p), max(p)
            return self.fit(e, lo, hi)
        if o in ('sdiv', 'udiv', 'srem', 'urem'):
            (a, b), (c, d) = self(e.a[0]), self(e.a[1])
            if c != d or c == 0: raise Open
            if o[0] == 'u' and (a < 0 or c < 0): raise Open
            p, q = tdiv(a, c), tdiv(b, c)
            if o.endswith('div'): return min(p, q), max(p, q)
            if p == q and (a >= 0 or b <= 0):
                x, y = a - p * c, b - p * c; return min(x, y), max(x, y)
            m = abs(c) - 1
            return (0 if a >= 0 else -min(m, -a)), (0 if b <= 0 else min(m, b))
        if o == 'sext': return self(e.a[0]) if e.a[0].w > 1 else tuple(sorted(-x for x in self(e.a[0])))
        if o == 'zext':
            a, b = self(e.a[0])
            if a < 0: return self.fit(e, 0, (1 << e.a[0].w) - 1)
            return a, b
        if o == 'trunc':
            a, b = self(e.a[0])
            lo, hi = self.full(e)
            if e.w > 1 and a >= lo and b <= hi: return a, b
            if a == b: v = a & ((1 << e.w) - 1); v = v if e.w == 1 else signed(v, e.w); return v, v
            k = a >> e.w
            x, y = a - (k << e.w), b - (k << e.w)
            if e.w > 1 and 0 <= x and y <= hi: return x, y
            raise Open
        if o in ('eq', 'slt', 'ult'):
            (a, b), (c, d) = self(e.a[0]), self(e.a[1])
            if o == 'eq':
                if a == b == c == d: return 1, 1
                if e.a[0] is e.a[1]: return 1, 1
                return (0, 0) if b < c or d < a else (0, 1)
            if o == 'ult':
                if a < 0 <= b or c < 0 <= d: raise Open
                M = 1 << e.a[0].w
                if b < 0: a, b = a + M, b + M
                if d < 0: c, d = c + M, d + M
            return (1, 1) if b < c else (0, 0) if a >= d else (0, 1)
        if o == 'not':
            a, b = self(e.a[0])
            return (1 - b, 1 - a) if e.w == 1 else (-b - 1, -a - 1)
        if o in ('and', 'or', 'xor') and e.w == 1:
            v = [self(x) for x in e.a]
            if o == 'and': return min(x[0] for x in v), min(x[1] for x in v)
            if o == 'or': return max(x[0] for x in v), max(x[1] for x in v)
            if all(x[0] == x[1] for x in v):
                r = 0
                for x in v: r ^= x[0]
                return r, r
            return 0, 1
        if o in ('and', 'or', 'xor') and len(e.a) == 2:
            (a, b), (c, d) = self(e.a[0]), self(e.a[1])
            if a == b and c == d: v = {'and': a & c, 'or': a | c, 'xor': a ^ c}[o]; return v, v
            if o == 'and':
                if a >= 0 and c >= 0: return 0, min(b, d)
                if c >= 0: return 0, d
                if a >= 0: return 0, b
            raise Open
        if o in ('shl', 'lshr', 'ashr'):
            (a, b), (c, d) = self(e.a[0]), self(e.a[1])
            if c != d or not 0 <= c < e.w: raise Open
            if o == 'shl': return self.fit(e, a << c, b << c)
            if o == 'lshr' and a < 0:
                if b >= 0: raise Open
                return a + (1 << e.w) >> c, b + (1 << e.w) >> c
            return a >> c, b >> c
        if o == 'select':
            a, b = self(e.a[0])
            if a == b: return self(e.a[1] if a else e.a[2])
            (a, b), (c, d) = self(e.a[1]), self(e.a[2])
            return min(a, c), max(b, d)
        raise Open

def compare(outs, leaf, lo, hi, spec, grain=1, budget=2000000, env=()):
    """outs: (facts, value) per path. A value of leaf in lo..hi for which a path that it takes gives another value than spec, as (leaf, got, want); None if there is none"""
    n = 0
    for facts, val in outs:
        todo = [(lo, hi)]
        while todo:
            a, b = todo.pop(); n += 1
            if n > budget: raise Open('too many pieces')
            I = Ival({leaf: (a, b), **dict(env)}); sure = True; dead = False
            for c, v in facts:
                x, y = I(c)
                if x == y:
                    if bool(x) != bool(v): dead = True; break
                else: sure = False
            if dead: continue
            if sure or a == b:
                x, y = I(val); ka, kb = a // grain, b // grain
                if x == y and ka == kb or a == b:
                    if not sure or x != y: raise Open('cannot evaluate for %d' % a)
                    if spec(a) != x: return a, x, spec(a)
                    if spec(a) != spec(b): return b, x, spec(b)
                    continue
            # split: at a multiple of the grain, then off the multiple itself, then in the middle
            ka, kb = a // grain, b // grain
            if ka != kb: m = ((ka + kb + 1) // 2) * grain; todo += [(a, m - 1), (m, b)]
            elif a % grain == 0 and grain > 1: todo += [(a, a), (a + 1, b)]
            else: m = (a + b) // 2; todo += [(a, m), (m + 1, b)]
    return None

def period(es, leaf, lo, hi):
    """a number P with e(leaf + P) = e(leaf) for all of es (conditions and values) while both are within lo..hi"""
    I = Ival({leaf: (lo, hi)}); memo = {}
    def lcm(a, b): return a // gcd(a, b) * b
    def per(e):
        r = memo.get(e.id)
        if r is None: r = memo[e.id] = per_(e)
        return r
    def scale(e, m):
        """(P, s) of e with m | s"""
        P, s = per(e); k = abs(m) // gcd(abs(m), s) if s else 1
        return P * k, s * k
    def join(es):
        P = 1; L = []
        for x in es: P = lcm(P, per(x)[0])
        return P, [per(x)[1] * (P // per(x)[0]) for x in es]
    def per_(e):
        if e is leaf: return 1, 1
        if e.op == 'c': return 1, 0
        a, b = I(e)
        if a == b: return 1, 0
        o = e.op; kids = [x for x in e.a if isinstance(x, E)]
        if o == 'lin':
            c, t = lin_parts(e); ts = list(t.items()); P, s = join([x for x, k in ts])
            x0 = [I(x) for x, k in ts]; lo_ = signed(c, e.w) + sum(min(p * signed(k, e.w), q * signed(k, e.w)) for (x, k), (p, q) in zip(ts, x0)); hi_ = signed(c, e.w) + sum(max(p * signed(k, e.w), q * signed(k, e.w)) for (x, k), (p, q) in zip(ts, x0))
            if lo_ < -(1 << e.w - 1) or hi_ >= 1 << e.w - 1: raise Open('may overflow')
            return P, sum(y * signed(k, e.w) for (x, k), y in zip(ts, s))
        if o in ('sdiv', 'srem', 'udiv', 'urem'):
            if not isc(e.a[1]) or sv(e.a[1]) == 0: raise Open('division by %s' % e.a[1])
            a, b = I(e.a[0])
            if o[0] == 'u' and (a < 0 or sv(e.a[1]) < 0): raise Open('unsigned division of negative numbers')
            if a < 0 < b: raise Open('division of numbers of either sign')
            P, s = scale(e.a[0], sv(e.a[1]))
            return (P, tdiv(s, sv(e.a[1]))) if o.endswith('div') else (P, 0)
        if o in ('zext', 'sext'):
            if per(e.a[0])[1] and o == 'zext' and I(e.a[0])[0] < 0: raise Open('zext')
            return per(e.a[0])
        if o == 'trunc': return scale(e.a[0], 1 << e.w)[0], 0
        P, s = join(kids)
        if any(s): 
            if o == 'select' and s[0] == 0 and s[1] == s[2]: return P, s[1]
            raise Open('%s of values that grow' % o)
        return P, 0
    P = 1
    for e in es:
        p, s = per(e)
        if s: raise Open('the value grows')
        P = lcm(P, p)
    return P

def always(outs, leaf, lo, hi, spec, per, grain=1):
    """as compare, for every value in lo..hi (either lo = 0 or hi = -1): the values next to zero, then one period of the paths that matter"""
    if lo == 0: near, far = (0, per - 1), (per, hi)
    else: near, far = (-per, -1), (lo, -per - 1)
    r = compare(outs, leaf, *near, spec, grain)
    if r: return r
    lo, hi = far
    for facts, val in outs:
        I = Ival({leaf: far})
        if any(I(c) == ((0, 0) if v else (1, 1)) for c, v in facts): continue
        P = period([c for c, v in facts] + [val], leaf, lo, hi); P = P // gcd(P, per) * per
        if P > 5000 * per: raise Open('the period is %d' % P)
        r = compare([(facts, val)], leaf, *((lo, lo + P - 1) if lo > 0 else (hi - P + 1, hi)), spec, grain)
        if r: return r
    return None
