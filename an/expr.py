"""Hash-consed value graph: the abstract values of the interpreter (Herbrand terms with
constant folding, linear normal form for integers, and canonical comparisons)."""
import struct

class E:
    __slots__ = ('op', 'a', 'w', 'id', 'h', '_bits', 'nsw')
    def __repr__(self): return show(self)

_tab = {}
_n = [0]

def mk(op, w, *a):
    k = (op, w) + tuple(x.id if isinstance(x, E) else ('#', x) if not isinstance(x, tuple) else ('t',) + x for x in a)
    e = _tab.get(k)
    if e is None:
        e = E(); e.op = op; e.a = a; e.w = w; e.id = _n[0]; _n[0] += 1; e._bits = None; e.nsw = False
        _tab[k] = e
    return e

def const(v, w): return mk('c', w, v & ((1 << w) - 1))
def fconst(v, w=64): return mk('f', w, struct.pack('<d', v).hex())
def fval(e): return struct.unpack('<d', bytes.fromhex(e.a[0]))[0]
def sym(name, w, ptr=False): return mk('sym', w, name, ptr)
TRUE = const(1, 1); FALSE = const(0, 1)

def isc(e): return e.op == 'c'
def cv(e): return e.a[0]
def sv(e):
    v = e.a[0]
    return v - (1 << e.w) if v >> (e.w - 1) else v

# ---- linear forms -------------------------------------------------------------
def lin_parts(e):
    if e.op == 'c': return e.a[0], {}
    if e.op == 'lin': return e.a[0], dict(zip(e.a[1::2], e.a[2::2]))
    return 0, {e: 1}

def mklin(c, terms, w):
    m = (1 << w) - 1
    c &= m
    t = [(x, k & m) for x, k in terms.items() if k & m]
    if not t: return const(c, w)
    if len(t) > 1:
        for x, k in t:     # y - (y / d) * d is the remainder
            if x.op in ('udiv', 'sdiv') and isc(x.a[1]) and k == (-x.a[1].a[0]) & m and terms.get(x.a[0], 0) & m == 1:
                d = dict(terms); del d[x]; del d[x.a[0]]
                r = (urem if x.op == 'udiv' else srem)(x.a[0], x.a[1])
                d[r] = d.get(r, 0) + 1
                return mklin(c, d, w)
    if len(t) == 1 and c == 0 and t[0][1] == 1: return t[0][0]
    t.sort(key=lambda p: p[0].id)
    flat = []
    for x, k in t: flat += [x, k]
    return mk('lin', w, c, *flat)

def add(a, b):
    ca, ta = lin_parts(a); cb, tb = lin_parts(b)
    t = dict(ta)
    for x, k in tb.items(): t[x] = t.get(x, 0) + k
    return mklin(ca + cb, t, a.w)

def mulc(a, k):
    ca, ta = lin_parts(a)
    return mklin(ca * k, {x: c * k for x, c in ta.items()}, a.w)

def neg(a): return mulc(a, -1)
def sub(a, b): return add(a, neg(b))

def signed(v, w): return v - (1 << w) if v >> (w - 1) else v

def mul(a, b):
    if isc(a): return mulc(b, cv(a))
    if isc(b): return mulc(a, cv(b))
    # distribute over linear sums (polynomial normal form)
    ca, ta = lin_parts(a); cb, tb = lin_parts(b)
    if len(ta) * len(tb) <= 16 and (a.op == 'lin' or b.op == 'lin'):
        out = {}
        def acc(x, k): out[x] = out.get(x, 0) + k
        for x, k in ta.items(): acc(x, k * cb)
        for y, k in tb.items(): acc(y, k * ca)
        for x, k in ta.items():
            for y, l in tb.items(): acc(mulatom(x, y), k * l)
        return mklin(ca * cb, out, a.w)
    return mulatom(a, b)

def mulatom(a, b):
    fs = []
    for e in (a, b): fs += list(e.a) if e.op == 'mul' else [e]
    fs.sort(key=lambda x: x.id)
    return mk('mul', a.w, *fs)

def trunc(e, w):
    if e.w == w: return e
    if isc(e): return const(cv(e), w)
    if e.op in ('zext', 'sext'):
        i = e.a[0]
        if i.w == w: return i
        if i.w > w: return trunc(i, w)
        return zext(i, w) if e.op == 'zext' else sext(i, w)
    if e.op == 'trunc': return trunc(e.a[0], w)
    if e.op == 'lin':
        c, t = lin_parts(e); o = {}
        for x, k in t.items():
            y = trunc(x, w)
            cy, ty = lin_parts(y)
            c += cy * k
            for z, l in ty.items(): o[z] = o.get(z, 0) + l * k
        return mklin(c, o, w)
    if e.op == 'mul':
        r = trunc(e.a[0], w)
        for x in e.a[1:]: r = mul(r, trunc(x, w))
        return r
    if e.op == 'select': return select(e.a[0], trunc(e.a[1], w), trunc(e.a[2], w))
    if e.op in ('and', 'or', 'xor'):
        return {'and': and_, 'or': or_, 'xor': xor}[e.op](trunc(e.a[0], w), trunc(e.a[1], w))
    return mk('trunc', w, e)

def zext(e, w):
    if e.w == w: return e
    if isc(e): return const(cv(e), w)
    if e.op == 'zext': return mk('zext', w, e.a[0])
    if e.op == 'select' and isc(e.a[1]) and isc(e.a[2]): return select(e.a[0], zext(e.a[1], w), zext(e.a[2], w))
    return mk('zext', w, e)

def sext(e, w):
    if e.w == w: return e
    if isc(e): return const(sv(e), w)
    if e.op == 'sext': return mk('sext', w, e.a[0])
    if e.op == 'zext': return zext(e.a[0], w)
    if e.op == 'lin' and e.nsw:
        c, t = lin_parts(e)
        out = {}; cc = signed(c, e.w)
        for x, k in t.items():
            y = sext(x, w)
            cy, ty = lin_parts(y); ks = signed(k, e.w)
            cc += cy * ks
            for z, l in ty.items(): out[z] = out.get(z, 0) + l * ks
        r = mklin(cc, out, w); r.nsw = True
        return r
    if e.op == 'select' and isc(e.a[1]) and isc(e.a[2]): return select(e.a[0], sext(e.a[1], w), sext(e.a[2], w))
    return mk('sext', w, e)

def and_(a, b):
    if isc(a): a, b = b, a
    if isc(a) and isc(b): return const(cv(a) & cv(b), a.w)
    m = (1 << a.w) - 1
    if isc(b):
        if cv(b) == 0: return b
        if cv(b) == m: return a
        if a.op == 'and' and isc(a.a[1]): return and_(a.a[0], const(cv(b) & cv(a.a[1]), a.w))
        if a.op == 'zext':
            i = a.a[0]
            if cv(b) & ((1 << i.w) - 1) == (1 << i.w) - 1: return a
            return zext(and_(i, const(cv(b), i.w)), a.w)
        if a.op == 'select' and isc(a.a[1]) and isc(a.a[2]): return select(a.a[0], and_(a.a[1], b), and_(a.a[2], b))
    if a is b: return a
    if a.w == 1:
        if not_(a) is b: return FALSE
    if not isc(b) and a.id > b.id: a, b = b, a
    return mk('and', a.w, a, b)

def or_(a, b):
    if isc(a): a, b = b, a
    if isc(a) and isc(b): return const(cv(a) | cv(b), a.w)
    m = (1 << a.w) - 1
    if isc(b):
        if cv(b) == 0: return a
        if cv(b) == m: return b
    if a is b: return a
    if a.w == 1 and not_(a) is b: return TRUE
    if not isc(b) and a.id > b.id: a, b = b, a
    return mk('or', a.w, a, b)

def xor(a, b):
    if isc(a): a, b = b, a
    if isc(a) and isc(b): return const(cv(a) ^ cv(b), a.w)
    if a is b: return const(0, a.w)
    if isc(b):
        if cv(b) == 0: return a
        if a.w == 1: return not_(a)
        if a.op == 'xor' and isc(a.a[1]): return xor(a.a[0], const(cv(b) ^ cv(a.a[1]), a.w))
        if cv(b) == (1 << a.w) - 1: return sub(const(-1, a.w), a)
    if not isc(b) and a.id > b.id: a, b = b, a
    return mk('xor', a.w, a, b)

def not_(a):
    if isc(a): return const(cv(a) ^ 1, 1)
    if a.op == 'not': return a.a[0]
    return mk('not', 1, a)

def shl(a, b):
    if isc(b):
        if cv(b) >= a.w: return const(0, a.w)
        if isc(a): return const(cv(a) << cv(b), a.w)
        return mulc(a, 1 << cv(b))
    if isc(a) and cv(a) == 0: return a
    return mk('shl', a.w, a, b)
def lshr(a, b):
    if isc(b):
        k = cv(b)
        if k == 0: return a
        if k >= a.w: return const(0, a.w)
        if isc(a): return const(cv(a) >> k, a.w)
        if a.op == 'zext' and k >= a.a[0].w: return const(0, a.w)
        if a.op == 'zext': return zext(lshr(a.a[0], const(k, a.a[0].w)), a.w)
        if a.op == 'lshr' and isc(a.a[1]): return lshr(a.a[0], const(k + cv(a.a[1]), a.w))
    if isc(a) and cv(a) == 0: return a
    return mk('lshr', a.w, a, b)
def ashr(a, b):
    if isc(b):
        k = cv(b)
        if k == 0: return a
        if isc(a): return const(sv(a) >> min(k, a.w - 1), a.w)
        if a.op == 'zext': return lshr(a, b)
    return mk('ashr', a.w, a, b)

def udiv(a, b):
    if isc(b) and cv(b) == 1: return a
    if isc(a) and isc(b) and cv(b): return const(cv(a) // cv(b), a.w)
    if a.op == 'zext' and isc(b) and 0 < cv(b) < (1 << a.a[0].w): return zext(udiv(a.a[0], const(cv(b), a.a[0].w)), a.w)
    if isc(b) and a.op == 'udiv' and isc(a.a[1]) and cv(a.a[1]) * cv(b) < 1 << a.w: return udiv(a.a[0], const(cv(a.a[1]) * cv(b), a.w))
    if isc(b) and cv(b) and cv(b) & (cv(b) - 1) == 0: return lshr(a, const(cv(b).bit_length() - 1, a.w))
    return mk('udiv', a.w, a, b)
def urem(a, b):
    if isc(a) and isc(b) and cv(b): return const(cv(a) % cv(b), a.w)
    if a.op == 'zext' and isc(b) and 0 < cv(b) < (1 << a.a[0].w): return zext(urem(a.a[0], const(cv(b), a.a[0].w)), a.w)
    if isc(b) and cv(b) and cv(b) & (cv(b) - 1) == 0: return and_(a, const(cv(b) - 1, a.w))
    return mk('urem', a.w, a, b)
def nonneg(e):
    """syntactically non-negative as a signed number"""
    if isc(e): return sv(e) >= 0
    if e.op == 'zext': return True
    if e.op == 'and': return nonneg(e.a[0]) or nonneg(e.a[1])
    if e.op == 'lshr': return isc(e.a[1]) and cv(e.a[1]) > 0
    if e.op in ('udiv', 'urem'): return nonneg(e.a[0])
    if e.op in ('sdiv', 'srem', 'sext'): return nonneg(e.a[0]) and (e.op != 'sdiv' or nonneg(e.a[1]))
    if e.op == 'select': return nonneg(e.a[1]) and nonneg(e.a[2])
    return False
def sdiv(a, b):
    if isc(b) and cv(b) == 1: return a
    if isc(a) and isc(b) and cv(b):
        x, y = sv(a), sv(b); q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, a.w)
    if nonneg(a) and isc(b) and sv(b) > 0: return udiv(a, b)
    return mk('sdiv', a.w, a, b)
def srem(a, b):
    if isc(a) and isc(b) and cv(b):
        x, y = sv(a), sv(b); r = abs(x) % abs(y)
        return const(-r if x < 0 else r, a.w)
    if nonneg(a) and isc(b) and sv(b) > 0: return urem(a, b)
    return mk('srem', a.w, a, b)

def select(c, a, b):
    if isc(c): return a if cv(c) else b
    if a is b: return a
    if c.op == 'not': return select(c.a[0], b, a)
    if a.w == 1:
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return not_(c)
        if b is FALSE: return and_(c, a)
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
    return mk('select', a.w, c, a, b)

# comparisons: canonical predicates eq, ult, slt (+ not)
def icmp(p, a, b):
    w = a.w
    if p == 'ne': return not_(icmp('eq', a, b))
    if p in ('sgt', 'ugt'): return icmp(p[0] + 'lt', b, a)
    if p in ('sge', 'uge'): return not_(icmp(p[0] + 'lt', a, b))
    if p in ('sle', 'ule'): return not_(icmp(p[0] + 'lt', b, a))
    if isc(a) and isc(b):
        if p == 'eq': return TRUE if cv(a) == cv(b) else FALSE
        if p == 'ult': return TRUE if cv(a) < cv(b) else FALSE
        return TRUE if sv(a) < sv(b) else FALSE
    if a is b: return TRUE if p == 'eq' else FALSE
    if p == 'eq':
        if isc(a): a, b = b, a
        if a.op == 'select' and isc(a.a[1]) and isc(a.a[2]) and isc(b):
            return select(a.a[0], icmp('eq', a.a[1], b), icmp('eq', a.a[2], b))
        if isc(b) and a.op == 'zext':
            i = a.a[0]
            if cv(b) >> i.w: return FALSE
            return icmp('eq', i, const(cv(b), i.w))
        if isc(b) and a.op == 'sext':
            i = a.a[0]
            if sext(const(cv(b), i.w), a.w) is not b: return FALSE
            return icmp('eq', i, const(cv(b), i.w))
        if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w: return icmp('eq', a.a[0], b.a[0])
        if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w: return icmp('eq', a.a[0], b.a[0])
        if a.op == 'zext' and b.op == 'zext':
            k = max(a.a[0].w, b.a[0].w)
            return icmp('eq', zext(a.a[0], k), zext(b.a[0], k))
        d = sub(a, b)
        if isc(d): return TRUE if cv(d) == 0 else FALSE
        if w == 1: return not_(xor(a, b)) if not isc(b) else (a if cv(b) else not_(a))
        if isc(b):
            c, t = lin_parts(a)
            if c: return icmp('eq', mklin(0, t, w), const(cv(b) - c, w))
        elif a.id > b.id: a, b = b, a
        return mk('eq', 1, a, b)
    for x, y in ((a, b), (b, a)):
        if x.op == 'select' and isc(y) and isc(x.a[1]) and isc(x.a[2]):
            return select(x.a[0], *[icmp(p, k, y) if x is a else icmp(p, y, k) for k in x.a[1:3]])
    if p in ('ult', 'slt') and a.op == 'zext' and b.op == 'zext' and a.a[0].w != b.a[0].w:
        k = max(a.a[0].w, b.a[0].w)
        return icmp('ult', zext(a.a[0], k), zext(b.a[0], k))
    # slt/ult with zext operands
    if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w: return icmp('ult', a.a[0], b.a[0])
    if p == 'slt' and a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w: return icmp('slt', a.a[0], b.a[0])
    if a.op == 'zext' and isc(b):
        i = a.a[0]; v = sv(b) if p == 'slt' else cv(b)
        if v <= 0: return FALSE
        if v >= (1 << i.w): return TRUE
        return icmp('ult', i, const(v, i.w))
    if b.op == 'zext' and isc(a):
        i = b.a[0]; v = sv(a) if p == 'slt' else cv(a)
        if v < 0: return TRUE
        if v >= (1 << i.w) - 1: return FALSE
        return icmp('ult', const(v, i.w), i)
    if p == 'slt' and a.op == 'sext' and isc(b):
        i = a.a[0]; v = sv(b)
        if v > (1 << (i.w - 1)) - 1: return TRUE
        if v <= -(1 << (i.w - 1)): return FALSE
        return icmp('slt', i, const(v, i.w))
    if p == 'slt' and b.op == 'sext' and isc(a):
        i = b.a[0]; v = sv(a)
        if v < -(1 << (i.w - 1)): return TRUE
        if v >= (1 << (i.w - 1)) - 1: return FALSE
        return icmp('slt', const(v, i.w), i)
    if p == 'ult' and isc(b):
        if cv(b) == 0: return FALSE
        if cv(b) == 1: return icmp('eq', a, const(0, w))
    if p == 'ult' and isc(a) and cv(a) == (1 << w) - 1: return FALSE
    if p == 'ult' and isc(a): return not_(icmp('ult', b, const(cv(a) + 1, w)))
    if p == 'slt' and isc(a):
        if sv(a) == (1 << (w - 1)) - 1: return FALSE
        return not_(icmp('slt', b, const(sv(a) + 1, w)))
    return mk(p, 1, a, b)

FNEG = {'oeq': 'une', 'one': 'ueq', 'ogt': 'ule', 'oge': 'ult', 'olt': 'uge', 'ole': 'ugt',
        'une': 'oeq', 'ueq': 'one', 'ule': 'ogt', 'ult': 'oge', 'uge': 'olt', 'ugt': 'ole', 'ord': 'uno', 'uno': 'ord'}
def fcmp(p, a, b):
    if p in ('une', 'ueq', 'ule', 'ult', 'uge', 'ugt', 'uno'): return not_(fcmp(FNEG[p], a, b))
    if p == 'ogt': return fcmp('olt', b, a)
    if p == 'oge': return fcmp('ole', b, a)
    if a.op == 'f' and b.op == 'f':
        x, y = fval(a), fval(b)
        r = {'oeq': x == y, 'olt': x < y, 'ole': x <= y, 'one': x != y and x == x and y == y, 'ord': x == x and y == y}[p]
        return TRUE if r else FALSE
    if a is b:
        if p in ('olt', 'one'): return FALSE
        p = 'ord'
    elif p == 'ord' and b.op == 'f': b = a
    elif p == 'ord' and a.op == 'f': a = b
    if p in ('oeq', 'one', 'ord') and a.id > b.id: a, b = b, a
    return mk('f' + p, 1, a, b)

def f2(op, a, b):
    if a.op == 'f' and b.op == 'f':
        x, y = fval(a), fval(b)
        try:
            r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
            if a.w == 32: r = struct.unpack('<f', struct.pack('<f', r))[0]
            return fconst(r, a.w)
        except (ZeroDivisionError, OverflowError): pass
    if op in ('fadd', 'fmul') and a.id > b.id: a, b = b, a
    return mk(op, a.w, a, b)

# ---- bit provenance -------------------------------------------------------------
# list (lsb first) of 0, 1, (leaf, bit) or None (unknown)
def bits(e):
    if e._bits is not None: return e._bits
    w = e.w; r = None
    if e.op == 'c': r = [(cv(e) >> i) & 1 for i in range(w)]
    elif e.op == 'zext': r = bits(e.a[0]) + [0] * (w - e.a[0].w)
    elif e.op == 'sext':
        b = bits(e.a[0]); r = b + [b[-1]] * (w - e.a[0].w)
    elif e.op == 'trunc': r = bits(e.a[0])[:w]
    elif e.op == 'and':
        r = []
        for x, y in zip(bits(e.a[0]), bits(e.a[1])):
            r.append(0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 else x if x == y and x is not None else None)
    elif e.op == 'or':
        r = []
        for x, y in zip(bits(e.a[0]), bits(e.a[1])):
            r.append(1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 else x if x == y and x is not None else None)
    elif e.op == 'xor':
        r = []
        for x, y in zip(bits(e.a[0]), bits(e.a[1])):
            r.append(y if x == 0 else x if y == 0 else 0 if x == y and x is not None else None)
    elif e.op == 'lshr' and isc(e.a[1]):
        k = cv(e.a[1]); r = bits(e.a[0])[k:] + [0] * k
    elif e.op == 'ashr' and isc(e.a[1]):
        k = cv(e.a[1]); b = bits(e.a[0]); r = b[k:] + [b[-1]] * k
    elif e.op == 'bswap':
        b = bits(e.a[0]); r = []
        for i in range(w // 8 - 1, -1, -1): r += b[8 * i:8 * i + 8]
    elif e.op == 'concat':
        r = []
        for x in e.a: r += bits(x)
    elif e.op == 'lin':
        c, t = lin_parts(e)
        acc = [(c >> i) & 1 for i in range(w)]
        ok = True
        for x, k in t.items():
            if k & (k - 1): ok = False; break
            s = k.bit_length() - 1
            b = ([0] * s + bits(x))[:w]
            for i in range(w):
                if acc[i] == 0: acc[i] = b[i]
                elif b[i] != 0: ok = False; break
            if not ok: break
        if ok: r = acc
    elif e.op == 'not':
        r = None
    if r is None:
        r = [(e, i) for i in range(w)]
    e._bits = r
    return r

def leaves(e, out=None, seen=None):
    if out is None: out = set(); seen = set()
    if e.id in seen: return out
    seen.add(e.id)
    kids = [x for x in e.a if isinstance(x, E)]
    if e.op in ('sym', 'init', 'ld', 'call', 'havoc') or not kids:
        if e.op not in ('c', 'f'): out.add(e)
        if e.op in ('call',):
            for k in kids: leaves(k, out, seen)
        return out
    for k in kids: leaves(k, out, seen)
    return out

def subst(e, m, memo=None):
    """rebuilds e with leaves replaced (constant propagation of a partition)"""
    if memo is None: memo = {}
    if e in m: return m[e]
    r = memo.get(e.id)
    if r is not None: return r
    kids = [x for x in e.a if isinstance(x, E)]
    if not kids or e.op in ('sym', 'init', 'ld', 'havoc'):
        r = e
    else:
        a = [subst(x, m, memo) if isinstance(x, E) else x for x in e.a]
        r = rebuild(e.op, e.w, a)
    memo[e.id] = r
    return r

def rebuild(op, w, a):
    if op == 'ovf':
        n, x, y = a
        if isc(x) and isc(y):
            p, q = (cv(x), cv(y)) if n[0] == 'u' else (sv(x), sv(y))
            z = {'add': p + q, 'sub': p - q, 'mul': p * q}[n[1:]]; b = x.w
            return const(0 if (0 <= z < 1 << b if n[0] == 'u' else -(1 << b - 1) <= z < 1 << b - 1) else 1, 1)
        return mk(op, w, *a)
    if op == 'lin':
        r = const(a[0], w)
        for x, k in zip(a[1::2], a[2::2]): r = add(r, mulc(x, k))
        return r
    if op == 'mul':
        r = a[0]
        for x in a[1:]: r = mul(r, x)
        return r
    f = {'and': and_, 'or': or_, 'xor': xor, 'lshr': lshr, 'ashr': ashr, 'shl': shl, 'udiv': udiv, 'sdiv': sdiv,
         'urem': urem, 'srem': srem, 'select': select, 'not': not_}.get(op)
    if f: return f(*a)
    if op == 'trunc': return trunc(a[0], w)
    if op == 'zext': return zext(a[0], w)
    if op == 'sext': return sext(a[0], w)
    if op in ('eq', 'slt', 'ult'): return icmp(op, a[0], a[1])
    if op in ('foeq', 'folt', 'fole', 'fone', 'ford'): return fcmp(op[1:], a[0], a[1])
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'): return f2(op, a[0], a[1])
    if op == 'call': return mkcall(a[0], w, a[1:])
    return mk(op, w, *a)

def mkcall(name, w, args):
    return mk('call', w, name, *args)

def show(e, d=0):
    if e.op == 'c': return str(sv(e)) if e.w > 1 else str(e.a[0])
    if e.op == 'f': return repr(fval(e))
    if e.op == 'sym': return str(e.a[0])
    if d > 12: return '...'
    if e.op == 'lin':
        c, t = lin_parts(e)
        s = ['%s%s' % ('' if signed(k, e.w) == 1 else '%d*' % signed(k, e.w), show(x, d + 1)) for x, k in t.items()]
        if c: s.append(str(signed(c, e.w)))
        return '(' + ' + '.join(s) + ')'
    return '%s(%s)' % (e.op, ', '.join(show(x, d + 1) if isinstance(x, E) else str(x) for x in e.a))
