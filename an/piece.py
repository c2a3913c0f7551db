"""A function of one character or byte as a finite map: the paths of its abstract interpretation partition the argument; the facts of each
path and its result are expressions over the argument alone, tabulated over the whole (finite) domain."""
from expr import *
from ai import AI, State, ptr, interval

class Untab(Exception): pass

def py(e, x):
    """the expression as Python source over the unsigned value x of the argument"""
    if isinstance(x, dict):
        if e in x: return x[e]
    elif e is x: return 'x'
    o = e.op; M = (1 << e.w) - 1
    if o == 'c': return str(cv(e))
    if o == 'lin':
        c, t = lin_parts(e)
        return '((%s) & %d)' % (' + '.join([str(c)] + ['%d * %s' % (k, py(y, x)) for y, k in t.items()]), M)
    if o == 'zext': return py(e.a[0], x)
    if o == 'trunc': return '(%s & %d)' % (py(e.a[0], x), M)
    if o == 'sext': return sg(e.a[0], x) + ' & %d' % M if 0 else '(%s & %d)' % (sg(e.a[0], x), M)
    if o in ('and', 'or', 'xor'): return '(%s)' % ({'and': ' & ', 'or': ' | ', 'xor': ' ^ '}[o]).join(py(y, x) for y in e.a)
    if o == 'not': return '(1 - %s)' % py(e.a[0], x)
    if o == 'eq': return 'int(%s == %s)' % (py(e.a[0], x), py(e.a[1], x))
    if o == 'ult': return 'int(%s < %s)' % (py(e.a[0], x), py(e.a[1], x))
    if o == 'slt': return 'int(%s < %s)' % (sg(e.a[0], x), sg(e.a[1], x))
    if o == 'select': return '(%s if %s else %s)' % (py(e.a[1], x), py(e.a[0], x), py(e.a[2], x))
    if o == 'lshr' and isc(e.a[1]): return '(%s >> %d)' % (py(e.a[0], x), cv(e.a[1]))
    if o == 'shl' and isc(e.a[1]): return '((%s << %d) & %d)' % (py(e.a[0], x), cv(e.a[1]), M)
    if o == 'udiv' and isc(e.a[1]): return '(%s // %d)' % (py(e.a[0], x), cv(e.a[1]))
    if o == 'urem' and isc(e.a[1]): return '(%s %% %d)' % (py(e.a[0], x), cv(e.a[1]))
    if o == 'mul': return '((%s) & %d)' % (' * '.join(py(y, x) for y in e.a), M)
    if o == 'tab' and isinstance(e.a[3], E): return 'T(%r, %d, %d, %s)' % (e.a[0], e.a[1], e.a[2], sg(e.a[3], x))
    raise Untab('%s in %s' % (o, e))
def sg(e, x):
    if isc(e): return str(sv(e))
    h = 1 << (e.w - 1)
    return '((%s ^ %d) - %d)' % (py(e, x), h, h)

def tabulate(A, outs, x, value):
    """{argument: value(outcome) as a number or other object}; every argument must lie on exactly one path"""
    T = {}
    def tab(g, off, size, i):
        k = g, off + i, size
        if k not in T:
            v = A.ginit(g, off + i, size)
            if v is None or not isc(v): raise Untab('table %s at %d' % (g, off + i))
            T[k] = cv(v)
        return T[k]
    res = {}; G = {'T': tab, '__builtins__': {'int': int}}
    for o in outs:
        lo, hi = interval(x, o.st); ne = o.st.rng.get(('ne', x), frozenset())
        conds = []
        for c, v in o.st.facts.items():
            if not isinstance(c, E) or x not in leaves(c): continue
            if c.op == 'eq' and c.a[0] is x and isc(c.a[1]): continue
            if any(y is not x for y in leaves(c)): continue
            conds.append('%s == %d' % (py(c, x), int(v)))
        f = eval('lambda x: ' + (' and '.join(conds) or 'True'), G)
        val = value(o)
        if isinstance(val, E):
            if any(y is not x for y in leaves(val)): raise Untab('the result %s does not depend on the argument alone' % val)
            g = eval('lambda x: ' + py(val, x), G)
        elif isinstance(val, (list, tuple)):
            g = eval('lambda x: (%s,)' % ', '.join(py(y, x) for y in val) if val else 'lambda x: ()', G)
        else: g = lambda x, val=val: val
        for v in range(lo, hi + 1):
            if v in ne or not f(v): continue
            r = g(v)
            if v in res and res[v] != r: raise Untab('argument %d has two results' % v)
            res[v] = r
    return res
