"""Real-algebra view of floating-point value graphs: rational functions over atoms, path conditions as signs of polynomials.

Floating operations are read as exact real operations (reassociation is not observable), comparisons as sign conditions, values that are not
numbers are excluded. Equality of rational functions is decided by cross multiplication; coefficients are compared up to 1e-9 because the
sources contain rounded constants."""
import time
from fractions import Fraction
from expr import *
import ai as _ai

class NeedSign(Exception):
    def __init__(self, key): self.key = key
class Unknown(Exception): pass

TOL = Fraction(1, 10 ** 9)
_atoms = {}      # atom name -> index
_names = []
def atom(name):
    i = _atoms.get(name)
    if i is None: i = _atoms[name] = len(_names); _names.append(name)
    return i

class P:
    """polynomial: {((atom,exp),...): coefficient}"""
    __slots__ = ('t', '_k')
    def __init__(self, t): self.t = {m: c for m, c in t.items() if c}; self._k = None
    def __add__(a, b):
        t = dict(a.t)
        for m, c in b.t.items(): t[m] = t.get(m, 0) + c
        return P(t)
    def __neg__(a): return P({m: -c for m, c in a.t.items()})
    def __sub__(a, b): return a + (-b)
    def __mul__(a, b):
        t = {}
        for m, c in a.t.items():
            for n, d in b.t.items():
                if not m: k = n
                elif not n: k = m
                else:
                    x = dict(m)
                    for i, e in n: x[i] = x.get(i, 0) + e
                    k = tuple(sorted(x.items()))
                t[k] = t.get(k, 0) + c * d
        return red(P(t))
    def const(a):
        if not a.t: return Fraction(0)
        if len(a.t) == 1 and () in a.t: return a.t[()]
        return None
    def key(a):
        if a._k is None: a._k = tuple(sorted(a.t.items()))
        return a._k
    def lead(a):
        return a.t[max(a.t)] if a.t else Fraction(0)
    def scale(a, c): return P({m: x * c for m, x in a.t.items()})
    def __repr__(a): return showp(a)

def showp(a):
    if not a.t: return '0'
    out = []
    for m, c in sorted(a.t.items()):
        f = '*'.join(_names[i] + ('^%d' % e if e > 1 else '') for i, e in m)
        cs = str(c) if c.denominator < 1000 else '%g' % float(c)
        out.append(cs + ('*' + f if f else '') if cs != '1' or not f else f)
    return ' + '.join(out[:12]) + (' ...' if len(out) > 12 else '')

squares = {}     # atom -> polynomial replacing its square (num only)
def red(p):
    """apply atom^2 -> polynomial rewrites"""
    if not squares: return p
    again = True
    while again:
        again = False
        for m, c in p.t.items():
            for i, e in m:
                if e >= 2 and i in squares:
                    rest = tuple((j, f) for j, f in m if j != i) + (((i, e - 2),) if e > 2 else ())
                    base = P({tuple(sorted(rest)): c})
                    t = dict(p.t); del t[m]
                    p = P(t) + mulraw(base, squares[i]); again = True
                    break
            if again: break
    return p
def mulraw(a, b):
    t = {}
    for m, c in a.t.items():
        for n, d in b.t.items():
            x = dict(m)
            for i, e in n: x[i] = x.get(i, 0) + e
            k = tuple(sorted(x.items())); t[k] = t.get(k, 0) + c * d
    return P(t)

ZERO = P({}); ONE = P({(): Fraction(1)})
def K(c): return P({(): Fraction(c)})

class R:
    """rational function num/den"""
    __slots__ = ('n', 'd')
    def __init__(self, n, d=ONE):
        c = d.const()
        if c is not None and c != 1 and c != 0: n = n.scale(1 / c); d = ONE
        self.n = n; self.d = d
    def __add__(a, b):
        b = lift(b)
        if a.d.key() == b.d.key(): return R(a.n + b.n, a.d)
        if a.d.const() == 1: return R(a.n * b.d + b.n, b.d)
        if b.d.const() == 1: return R(a.n + b.n * a.d, a.d)
        return R(a.n * b.d + b.n * a.d, a.d * b.d)
    __radd__ = __add__
    def __neg__(a): return R(-a.n, a.d)
    def __sub__(a, b): return a + (-lift(b))
    def __rsub__(a, b): return lift(b) + (-a)
    def __mul__(a, b):
        b = lift(b)
        if a.d.key() == b.n.key() and a.d.const() is None: return R(a.n, b.d)
        if b.d.key() == a.n.key() and b.d.const() is None: return R(b.n, a.d)
        return R(a.n * b.n, a.d if b.d.const() == 1 else b.d if a.d.const() == 1 else a.d * b.d)
    __rmul__ = __mul__
    def __truediv__(a, b):
        b = lift(b); return a * R(b.d, b.n)
    def __rtruediv__(a, b): return lift(b) / a
    def __pow__(a, k):
        r = R(ONE)
        for _ in range(k): r = r * a
        return r
    def __repr__(a): return showp(a.n) if a.d.const() == 1 else '(%s)/(%s)' % (showp(a.n), showp(a.d))
    def key(a): return (a.n.key(), a.d.key())

def lift(x):
    if isinstance(x, R): return x
    if isinstance(x, P): return R(x)
    return R(K(Fraction(x)))
def A_(name): return R(P({((atom(name), 1),): Fraction(1)}))

def tiny(p, ref):
    """every coefficient negligible against the largest one of ref"""
    if not p.t: return True
    big = max([abs(c) for c in ref.t.values()] or [0])
    return all(abs(c) <= TOL * big for c in p.t.values())
def close(a, b):
    a, b = lift(a), lift(b)
    if a.d.key() == b.d.key(): x, y = a.n, b.n
    else: x, y = a.n * b.d, b.n * a.d
    # coefficientwise (tolerance per coefficient)
    for m in set(x.t) | set(y.t):
        c, d = x.t.get(m, Fraction(0)), y.t.get(m, Fraction(0))
        if abs(c - d) > TOL * max(abs(c), abs(d)) and abs(c - d) > Fraction(1, 10 ** 12): return False
    return True

_says = {}
def saysnan(e):
    """does a NaN constant occur in the value graph?"""
    r = _says.get(e)
    if r is None:
        if e.op == 'f': v = fval(e); r = v != v
        else: r = any(saysnan(x) for x in e.a if isinstance(x, E))
        _says[e] = r
    return r

# ---- translation of value graphs under an assignment of signs ---------------------------------------------
class Tr:
    def __init__(self, names=None):
        self.names = names or {}     # E -> R (given meaning of leaves)
        self.sg = {}                 # polynomial key -> '<' | '=' | '>'
        self.memo = {}
        self.fns = {}                # (name, arg keys) -> R
        self.idx = {}
        self.nans = set()            # leaves that are not numbers
    def feasible(self): return True
    def with_signs(self, sg):
        self.sg = sg; self.memo = {}
    def rat(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self._rat(e); self.memo[e] = r
        return r
    def integral(self, e):
        """is this floating expression always a whole number?"""
        if e.op in ('mfloor', 'mceil', 'mround', 'mtrunc', 'mrint', 'mnearbyint'): return True
        if e.op == 'f': return fval(e) == int(fval(e))
        if e.op == 'select': return self.integral(e.a[1]) and self.integral(e.a[2])
        if e.op in ('sitofp', 'uitofp'): return True
        if e.op in ('fadd', 'fsub', 'fmul', 'fneg'): return all(self.integral(x) for x in e.a)
        return False
    def fn(self, name, *args):
        if name in ('floor', 'ceil') and args[0].d.const() == 1:
            n = args[0].n
            for k, sg in self.sg.items():
                if sg == '=' and not isinstance(k, E):
                    p = P(dict(k)); m = max(p.t)
                    if m in n.t: n = n - p.scale(n.t[m] / p.t[m])
            if n.const() is not None: args = (R(n),)
        if name in ('floor', 'ceil') and args[0].d.const() == 1 and args[0].n.const() is not None:
            import math
            return lift(getattr(math, name)(args[0].n.const()))
        if name == 'round':
            s = self.sign(args[0]); h = lift(Fraction(1, 2))
            return lift(0) if s == '=' else self.fn('floor', args[0] + h) if s == '>' else self.fn('ceil', args[0] - h)
        k = (name,) + tuple(a.key() for a in args)
        r = self.fns.get(k)
        if r is None:
            for k2, r2 in self.fns.items():
                if k2[0] == name and len(self.idx[k2]) == len(args) and all(close(x, y) for x, y in zip(self.idx[k2], args)):
                    r = r2; break
            else:
                r = A_('%s(%s)' % (name, ', '.join(map(repr, args))))
                if name == 'sqrt' and args[0].d.const() == 1:
                    squares[next(iter(r.n.t))[0][0]] = args[0].n
            self.fns[k] = r; self.idx[k] = args
        return r
    def _rat(self, e):
        if e in self.names: return self.names[e]
        o = e.op
        if o == 'f':
            v = fval(e)
            if v != v or v in (float('inf'), float('-inf')): return A_(repr(v))
            return R(K(Fraction(v)))
        if o == 'fadd': return self.rat(e.a[0]) + self.rat(e.a[1])
        if o == 'fsub': return self.rat(e.a[0]) - self.rat(e.a[1])
        if o == 'fmul': return self.rat(e.a[0]) * self.rat(e.a[1])
        if o == 'fdiv': return self.rat(e.a[0]) / self.rat(e.a[1])
        if o == 'fneg': return -self.rat(e.a[0])
        if o in ('fpext', 'fptrunc'): return self.rat(e.a[0])
        if o == 'select':
            return self.rat(e.a[1] if self.cond(e.a[0]) else e.a[2])
        if o == 'c' and e.w == 64 and cv(e) == 0: return R(ZERO)
        if o in ('fptosi', 'fptoui') and self.integral(e.a[0]): return self.rat(e.a[0])
        if o == 'zero': return R(ZERO)
        if o == 'mfabs':
            a = self.rat(e.a[0]); return a if self.sign(a) != '<' else -a
        if o == 'mpow' and e.a[1].op == 'f' and fval(e.a[1]) in (1.0, 2.0, 3.0, 4.0): return self.rat(e.a[0]) ** int(fval(e.a[1]))
        if o in ('mmaxnum', 'mminnum'):
            a, b = self.rat(e.a[0]), self.rat(e.a[1]); s = self.sign(a - b)
            return (a if s == '>' else b) if 'max' in o else (a if s == '<' else b)
        if o.startswith('m') and o not in ('mul',): return self.fn(o[1:], *[self.rat(a) for a in e.a])
        if o in ('sitofp', 'uitofp'):
            v = self.integer(e.a[0])
            if v is not None:
                if o == 'sitofp' and v >> (e.a[0].w - 1): v -= 1 << e.a[0].w
                return lift(v)
            if e.a[0].op in ('fptosi', 'fptoui') and self.integral(e.a[0].a[0]): return self.rat(e.a[0].a[0])
            if e.a[0] in self.names: return self.names[e.a[0]]
            if e.a[0].op == 'sym': return A_(str(e.a[0]))
            return A_('int(%s)' % e.a[0])
        if o in ('sym', 'init', 'havoc', 'uninit', 'tab', 'call', 'ev', 'ld'): return A_(str(e))
        raise Unknown('no real reading of %s' % e)
    def integer(self, e):
        """value of an integer made of constants and conditions, else None"""
        if isc(e): return cv(e)
        if e.op == 'select': return self.integer(e.a[1] if self.cond(e.a[0]) else e.a[2])
        if e.op == 'zext':
            if e.a[0].w == 1: return int(self.cond(e.a[0]))
            return self.integer(e.a[0])
        if e.op in ('sext', 'trunc'):
            v = int(self.cond(e.a[0])) if e.a[0].w == 1 else self.integer(e.a[0])
            if v is None: return None
            if e.op == 'sext' and v >> (e.a[0].w - 1): v |= ((1 << e.w) - 1) & ~((1 << e.a[0].w) - 1)
            return v & ((1 << e.w) - 1)
        if e.op == 'lin':
            c, t = lin_parts(e)
            for x, k in t.items():
                v = self.integer(x)
                if v is None: return None
                c += k * v
            return c & ((1 << e.w) - 1)
        if e.op in ('add', 'or', 'xor', 'and'):
            a, b = self.integer(e.a[0]), self.integer(e.a[1])
            if a is None or b is None: return None
            return {'add': a + b, 'or': a | b, 'xor': a ^ b, 'and': a & b}[e.op] & ((1 << e.w) - 1)
        return None
    def isnan(self, e):
        """is this value not a number (a leaf declared so, a NaN constant, or computed from one)?"""
        if not self.nans and not saysnan(e): return False
        if e in self.nans: return True
        if e.op == 'f': v = fval(e); return v != v
        if e.op == 'select': return self.isnan(e.a[1] if self.cond(e.a[0]) else e.a[2])
        if e.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fpext', 'fptrunc') or e.op.startswith('m') and e.op not in ('mul', 'mmaxnum', 'mminnum', 'mpow'): return any(self.isnan(x) for x in e.a)
        return False
    def sign(self, r):
        """sign of a rational function under the current assignment"""
        r = lift(r)
        p = r.n if r.d.const() == 1 else r.n * r.d
        c = p.const()
        if c is not None: return '<' if c < 0 else '>' if c > 0 else '='
        l = p.lead(); q = p.scale(1 / l); k = q.key()
        if k not in self.sg:
            # the same condition up to rounding of constants
            for k2 in self.sg:
                if len(k2) == len(k) and all(m == n and abs(x - y) <= TOL * max(abs(x), abs(y)) for (m, x), (n, y) in zip(k2, k)): k = k2; break
            else: raise NeedSign(k)
        s = self.sg[k]
        if l < 0: s = {'<': '>', '>': '<', '=': '='}[s]
        return s
    def cond(self, e):
        o = e.op
        if o == 'c': return bool(cv(e))
        if o == 'not': return not self.cond(e.a[0])
        if o == 'and': return self.cond(e.a[0]) and self.cond(e.a[1])
        if o == 'or': return self.cond(e.a[0]) or self.cond(e.a[1])
        if o == 'xor': return self.cond(e.a[0]) != self.cond(e.a[1])
        if o == 'select': return self.cond(e.a[1]) if self.cond(e.a[0]) else self.cond(e.a[2])
        if o == 'trunc' and e.a[0].op in ('zext', 'sext'): return self.cond(e.a[0].a[0])
        if o in ('zext', 'sext') and e.a[0].w == 1: return self.cond(e.a[0])
        if o == 'ford': return not (self.isnan(e.a[0]) or self.isnan(e.a[1]))
        if o in ('folt', 'fole', 'foeq', 'fone') and (self.isnan(e.a[0]) or self.isnan(e.a[1])): return False
        if o in ('folt', 'fole', 'foeq', 'fone'):
            s = self.sign(self.rat(e.a[0]) - self.rat(e.a[1]))
            return {'folt': s == '<', 'fole': s != '>', 'foeq': s == '=', 'fone': s != '='}[o]
        if o == 'eq' and isc(e.a[1]) and e.a[0].op in ('zext', 'sext') and e.a[0].a[0].w == 1:
            return self.cond(e.a[0].a[0]) == bool(cv(e.a[1]))
        if e in self.sg: return self.sg[e]
        raise NeedSign(e)

def consistent(sg, extra=()):
    """can the signs hold together when the monomials are read as independent numbers (Gauss, then Fourier-Motzkin)?"""
    eq = []; ge = [(dict(r), False) for r in extra]            # rows {monomial: coefficient}; ge: (row, strict) for row > 0 / row >= 0
    for k, s in sg.items():
        if isinstance(k, E): continue
        r = dict(k)
        if s == '=': eq.append(r)
        else: ge.append((r if s == '>' else {m: -c for m, c in r.items()}, True))
    def elim(row, m, by):
        c = row.get(m)
        if not c: return row
        f = c / by[m]; out = dict(row)
        for n, d in by.items():
            v = out.get(n, 0) - f * d
            if v: out[n] = v
            else: out.pop(n, None)
        return out
    while eq:
        r = eq.pop()
        v = [m for m in r if m != ()]
        if not v:
            if r.get((), 0) and abs(r[()]) > Fraction(1, 10 ** 15): return False
            continue
        m = v[0]
        eq = [elim(x, m, r) for x in eq]; ge = [(elim(x, m, r), st) for x, st in ge]
    # squares are not negative
    ms = {m for r, _ in ge for m in r if m and all(e % 2 == 0 for _, e in m)}
    ge += [({m: Fraction(1)}, False) for m in ms]
    while True:
        rows = {}
        for r, st in ge:
            v = [m for m in r if m != ()]
            if not v:
                c = r.get((), 0)
                if c < 0 or (st and c == 0): return False
                continue
            f = abs(r[v[0]]); k = tuple(sorted((m, c / f) for m, c in r.items())); rows[k] = rows.get(k, False) or st
        ge = [(dict(k), st) for k, st in rows.items()]
        if not ge: return True
        if len(ge) > 60: return True
        cnt = {}
        for r, _ in ge:
            for m, c in r.items():
                if m != (): a = cnt.setdefault(m, [0, 0]); a[c > 0] += 1
        m = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1])
        lo = [x for x in ge if x[0].get(m, 0) > 0]; hi = [x for x in ge if x[0].get(m, 0) < 0]; ge = [x for x in ge if not x[0].get(m)]
        for a, sa in lo:
            for b, sb in hi:
                fa, fb = 1 / a[m], -1 / b[m]; out = {}
                for n in set(a) | set(b):
                    v = a.get(n, 0) * fa + b.get(n, 0) * fb
                    if v and n != m: out[n] = v
                ge.append((out, sa or sb))

MAXCASES = 20000
deadline = [0]
def cases(tr, facts, body):
    """run body(tr) under every assignment of signs compatible with the path facts; body may raise NeedSign"""
    n = 0
    stack = [{}]
    while stack:
        sg = stack.pop()
        n += 1
        if deadline[0] and time.time() > deadline[0]: raise Unknown('the case analysis takes too long')
        if n > MAXCASES: raise Unknown('more than %d sign cases' % MAXCASES)
        tr.with_signs(sg)
        try:
            ok = tr.feasible() and all(tr.cond(c) == v for c, v in facts)
            if ok: body(tr)
        except NeedSign as e:
            for s in ((True, False) if isinstance(e.key, E) else ('<', '=', '>')):
                g = dict(sg); g[e.key] = s
                if consistent(g): stack.append(g)
    return n

def vanishes(tr, d):
    """the difference d is zero under the current assignment (identically, or as a multiple of a polynomial assumed zero)"""
    d = lift(d)
    if close(d, 0): return True
    z = [P(dict(k)) for k, s in tr.sg.items() if s == '=' and not isinstance(k, E)]
    if not z: return False
    # linear elimination: solve the vanishing polynomials one after the other for an atom that occurs linearly
    n = d.n
    for _ in range(2):
        z2 = list(z)
        while z2:
            p = z2.pop()
            for m, c in sorted(p.t.items(), key=lambda x: abs(x[1]), reverse=True):
                if len(m) == 1 and m[0][1] == 1 and not any(m[0][0] == i for mm in p.t for i, e in mm if mm != m):
                    rest = (P({k: v for k, v in p.t.items() if k != m})).scale(-1 / c)
                    n = substp(n, m[0][0], rest); z2 = [substp(q, m[0][0], rest) for q in z2]; break
            if close(R(n), 0): return True
        z = z[::-1]
    return False
def substp(n, a, q):
    out = ZERO
    for m, c in n.t.items():
        e = dict(m).get(a, 0)
        t = P({tuple((i, x) for i, x in m if i != a): c})
        for _ in range(e): t = t * q
        out = out + t
    return out
