"""Known-bits evaluation of value graphs: every bit is 0, 1 or None (unknown)."""
from expr import *

def addb(x, y, c):
    out = []
    for a, b in zip(x, y):
        k = [a, b, c]
        n1, n0 = k.count(1), k.count(0)
        out.append(None if None in k else (a + b + c) & 1)
        c = 1 if n1 >= 2 else 0 if n0 >= 2 else None
    return out
def inv(x): return [None if b is None else 1 - b for b in x]
def num(x): return None if None in x else sum(b << i for i, b in enumerate(x))

def ev(e, env, memo=None):
    if memo is None: memo = {}
    r = memo.get(e.id)
    if r is not None: return r
    r = _ev(e, env, memo); memo[e.id] = r
    return r
def _ev(e, env, memo):
    if e in env: return env[e]
    o, w = e.op, e.w
    V = lambda k: ev(e.a[k], env, memo)
    if o == 'c': return [(cv(e) >> i) & 1 for i in range(w)]
    if o == 'zext': return V(0) + [0] * (w - e.a[0].w)
    if o == 'sext': b = V(0); return b + [b[-1]] * (w - len(b))
    if o == 'trunc': return V(0)[:w]
    if o == 'not': return inv(V(0))
    if o in ('and', 'or', 'xor'):
        out = []
        for a, b in zip(V(0), V(1)):
            if o == 'and': out.append(0 if 0 in (a, b) else 1 if a == b == 1 else None)
            elif o == 'or': out.append(1 if 1 in (a, b) else 0 if a == b == 0 else None)
            else: out.append(None if None in (a, b) else a ^ b)
        return out
    if o in ('lshr', 'ashr', 'shl') and isc(e.a[1]):
        k = min(cv(e.a[1]), w); b = V(0)
        if o == 'shl': return [0] * k + b[:w - k]
        return b[k:] + [0 if o == 'lshr' else b[-1]] * k
    if o == 'lin':
        c, t = lin_parts(e); acc = [(c >> i) & 1 for i in range(w)]
        for x, k in t.items():
            b = ev(x, env, memo); m = k; s = 0
            neg_ = bin(k).count('1') > bin((1 << w) - k).count('1')
            if neg_: m = (1 << w) - k
            while m >> s:
                if m >> s & 1:
                    sh = ([0] * s + b)[:w]
                    acc = addb(acc, inv(sh), 1) if neg_ else addb(acc, sh, 0)
                s += 1
        return acc
    if o == 'select':
        c = V(0)[0]; a, b = V(1), V(2)
        if c is not None: return a if c else b
        return [x if x == y else None for x, y in zip(a, b)]
    if o == 'eq':
        a, b = V(0), V(1)
        if any(None not in (x, y) and x != y for x, y in zip(a, b)): return [0]
        return [1] if None not in a and None not in b else [None]
    if o in ('ult', 'slt'):
        a, b = list(V(0)), list(V(1))
        if o == 'slt': a[-1], b[-1] = (None if a[-1] is None else 1 - a[-1]), (None if b[-1] is None else 1 - b[-1])
        f = lambda x, u: sum((u if v is None else v) << i for i, v in enumerate(x))
        if f(a, 1) < f(b, 0): return [1]
        if f(a, 0) >= f(b, 1): return [0]
        return [None]
    return [None] * w
