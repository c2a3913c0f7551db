"""Points, sizes, rectangles and extents."""
from fractions import Fraction
from expr import *
from ir import Anchor
import poly
from poly import lift
from vspec import Spec
from V01 import tolerance
LEVEL = 'other'
RULE = ('every operation is abstractly interpreted on symbolic components (also with operands that are one object); on every path and in every sign case of the '
        'compared quantities, the result, the changed object and the unchanged operands are compared with the formula over the edges (real algebra)')
EXPLANATION = RULE
ASSUMPTIONS = ['components are ordinary numbers (no NaN, no overflow); rounding is not considered']

def run(ck):
    S = Spec(ck); t = tolerance(ck)
    P, Z, R, E, V2, V3, D = 'jm::Point', 'jm::Size', 'jm::Rect', 'jm::Extents', 'jm::Vertex2', 'jm::Vertex3', 'double'
    def near(tr, r): return tr.sign(lift(r) - t) == '<' and tr.sign(lift(r) + t) == '>'
    def mn(tr, a, b): return a if tr.sign(a - b) == '<' else b
    def mx(tr, a, b): return a if tr.sign(a - b) == '>' else b
    half = lift(Fraction(1, 2)); zero = lift(0)
    C = lambda n, *t: '%s::%s(%s)' % (R, n, ', '.join(t))
    cr = ' const&'
    def M(cls, n, types, ops, spec, const=False, **k): S.case('%s::%s(%s)%s' % (cls, n, ', '.join(types), ' const' if const else ''), [(cls, 'this')] + ops, spec, **k)
    def F(n, types, ops, spec, **k): S.case('jm::%s(%s)' % (n, ', '.join(types)), ops, spec, method=False, **k)
    pt = lambda x, y: {'x': x, 'y': y}
    sz = lambda w, h: {'width': w, 'height': h}
    rc = lambda x, y, w, h: {'x': x, 'y': y, 'width': w, 'height': h}
    d = [(D, 'd')]
    # --- points and sizes
    for cls, a, b, mk in ((P, 'x', 'y', pt), (Z, 'width', 'height', sz)):
        short = cls[4:]
        M(cls, short, [], [], lambda tr, s, mk=mk: {'this': mk(zero, zero)})
        M(cls, short, [D, D], [(D, 'a'), (D, 'b')], lambda tr, s, p, q, mk=mk: {'this': mk(p[''], q[''])})
        for n in (a, b):
            M(cls, 'set' + n.capitalize(), [D], d, lambda tr, s, v, n=n: {'this': dict(s, **{n: v['']})})
            M(cls, 'r' + n.capitalize(), [], [], lambda tr, s, n=n: s[n])
        for n, g in (('cWiseMin', mn), ('cWiseMax', mx)):
            M(cls, n, [cls + cr], [(cls, 'other')], lambda tr, s, o, g=g, cls=cls, a=a, b=b: {'ret': (cls, {a: g(tr, s[a], o[a]), b: g(tr, s[b], o[b])})}, True)
        two = [(cls, 'p'), (cls, 'q')]
        F('operator-', [cls + cr] * 2, two, lambda tr, p, q, cls=cls: {'ret': (cls, {c: p[c] - q[c] for c in p})})
        F('operator*', ['double const&', cls + cr], [(D, 'd'), (cls, 'p')], lambda tr, v, p, cls=cls: {'ret': (cls, {c: p[c] * v[''] for c in p})})
    F('operator+', [P + cr] * 2, [(P, 'p'), (P, 'q')], lambda tr, p, q: {'ret': (P, {c: p[c] + q[c] for c in p})})
    F('operator*', [P + cr, 'double const&'], [(P, 'p'), (D, 'd')], lambda tr, p, v: {'ret': (P, {c: p[c] * v[''] for c in p})})
    for n, g in (('+=', lambda a, b: a + b), ('-=', lambda a, b: a - b)):
        M(P, 'operator' + n, [P + cr], [(P, 'other')], lambda tr, s, o, g=g: {'this': {c: g(s[c], o[c]) for c in s}, 'ret': (P, {c: g(s[c], o[c]) for c in s})})
    M(Z, 'Size', [P + cr], [(P, 'p')], lambda tr, s, p: {'this': sz(p['x'], p['y'])})
    M(Z, 'operator==', [Z + cr], [(Z, 'other')], lambda tr, s, o: all(near(tr, o[c] - s[c]) for c in s), True)
    M(Z, 'operator!=', [Z + cr], [(Z, 'other')], lambda tr, s, o: not all(near(tr, o[c] - s[c]) for c in s), True)
    # --- rectangles: construction and edges
    M(R, 'Rect', [], [], lambda tr, s: {'this': rc(zero, zero, zero, zero)})
    M(R, 'Rect', [D] * 4, [(D, c) for c in 'xywh'], lambda tr, s, x, y, w, h: {'this': rc(x[''], y[''], w[''], h[''])})
    M(R, 'Rect', [P, Z], [(P, 'p'), (Z, 's')], lambda tr, s, p, q: {'this': rc(p['x'], p['y'], q['width'], q['height'])})
    M(R, 'Rect', [D, D, Z + cr], [(D, 'x'), (D, 'y'), (Z, 's')], lambda tr, s, x, y, q: {'this': rc(x[''], y[''], q['width'], q['height'])})
    L, T = (lambda r: r['x']), (lambda r: r['y'])
    RI, B = (lambda r: r['x'] + r['width']), (lambda r: r['y'] + r['height'])
    CX, CY = (lambda r: r['x'] + half * r['width']), (lambda r: r['y'] + half * r['height'])
    for n, g in (('left', L), ('right', RI), ('top', T), ('bottom', B)): M(R, n, [], [], lambda tr, r, g=g: g(r), True)
    for n, gx, gy in (('origin', L, T), ('center', CX, CY), ('topLeft', L, T), ('topRight', RI, T), ('bottomLeft', L, B), ('bottomRight', RI, B), ('topCenter', CX, T), ('bottomCenter', CX, B), ('leftCenter', L, CY), ('rightCenter', RI, CY)):
        M(R, n, [], [], lambda tr, r, gx=gx, gy=gy: {'ret': (P, pt(gx(r), gy(r)))}, True)
    M(R, 'size', [], [], lambda tr, r: {'ret': (Z, sz(r['width'], r['height']))}, True)
    # --- changes of one component or edge
    for n, c in (('setX', 'x'), ('setY', 'y'), ('setWidth', 'width'), ('setHeight', 'height')): M(R, n, [D], d, lambda tr, r, v, c=c: {'this': dict(r, **{c: v['']})})
    M(R, 'setSize', [Z + cr], [(Z, 's')], lambda tr, r, q: {'this': dict(r, **q)})
    M(R, 'setSize', [D, D], [(D, 'w'), (D, 'h')], lambda tr, r, w, h: {'this': dict(r, width=w[''], height=h[''])})
    M(R, 'setOrigin', [P + cr], [(P, 'p')], lambda tr, r, p: {'this': dict(r, **p)})
    M(R, 'setOrigin', [D, D], [(D, 'x'), (D, 'y')], lambda tr, r, x, y: {'this': dict(r, x=x[''], y=y[''])})
    def edges(l, t_, r, b): return {'this': rc(l, t_, r - l, b - t_)}
    def edge(e, rel):
        def f(tr, r, v):
            q = {'l': L(r), 't': T(r), 'r': RI(r), 'b': B(r)}
            q[e] = q[e] + v[''] if rel else v['']
            return edges(q['l'], q['t'], q['r'], q['b'])
        return f
    for n, e in (('Left', 'l'), ('Top', 't'), ('Right', 'r'), ('Bottom', 'b')):
        M(R, 'set' + n, [D], d, edge(e, False)); M(R, 'shift' + n, [D], d, edge(e, True))
        if n != 'Top': M(R, 'move' + n, [D], d, edge(e, True))
    M(R, 'moveHorizontal', [D], d, lambda tr, r, v: {'this': dict(r, x=r['x'] + v[''])})
    M(R, 'moveVertical', [D], d, lambda tr, r, v: {'this': dict(r, y=r['y'] + v[''])})
    M(R, 'move', [P + cr], [(P, 'p')], lambda tr, r, p: {'this': dict(r, x=r['x'] + p['x'], y=r['y'] + p['y'])})
    o = [(R, 'other')]
    M(R, 'alignTopLeft', [R + cr], o, lambda tr, r, q: {'this': dict(r, x=L(q), y=T(q))})
    M(R, 'alignBottomLeft', [R + cr], o, lambda tr, r, q: {'this': dict(r, x=L(q), y=B(q) - r['height'])})
    def norm(tr, r):
        l, ri, t_, b = L(r), RI(r), T(r), B(r)
        if tr.sign(r['width']) == '<': l, ri = ri, l
        if tr.sign(r['height']) == '<': t_, b = b, t_
        return edges(l, t_, ri, b)
    M(R, 'normalize', [], [], norm)
    # --- set operations
    def inter(tr, r, q): return edges(mx(tr, L(r), L(q)), mx(tr, T(r), T(q)), mn(tr, RI(r), RI(q)), mn(tr, B(r), B(q)))
    def hit(tr, r, q): return tr.sign(L(r) - RI(q)) != '>' and tr.sign(RI(r) - L(q)) != '<' and tr.sign(T(r) - B(q)) != '>' and tr.sign(B(r) - T(q)) != '<'
    def positive(tr, *rs): return all(tr.sign(r['width']) != '<' and tr.sign(r['height']) != '<' for r in rs)
    M(R, 'unionWith', [R + cr], o, lambda tr, r, q: edges(mn(tr, L(r), L(q)), mn(tr, T(r), T(q)), mx(tr, RI(r), RI(q)), mx(tr, B(r), B(q))) if positive(tr, r, q) else {'this': None})
    M(R, 'intersect', [R + cr], o, lambda tr, r, q: inter(tr, r, q) if positive(tr, r, q) and hit(tr, r, q) else {'this': None})
    def isec(tr, r, q):
        if not positive(tr, r, q): return {'ret': None}
        return {'ret': (R, inter(tr, r, q)['this'] if hit(tr, r, q) else rc(zero, zero, zero, zero))}
    M(R, 'intersection', [R + cr], o, isec, True)
    opt = []
    M(R, 'intersects', [R + cr], o, lambda tr, r, q: hit(tr, r, q) if positive(tr, r, q) else None, True)
    M(R, 'isEmpty', [], [], lambda tr, r: near(tr, r['width']) or near(tr, r['height']), True)
    inside = lambda tr, r, x, y: tr.sign(x - L(r)) != '<' and tr.sign(x - RI(r)) != '>' and tr.sign(y - T(r)) != '<' and tr.sign(y - B(r)) != '>'
    M(R, 'contains', [D, D], [(D, 'x'), (D, 'y')], lambda tr, r, x, y: inside(tr, r, x[''], y['']), True)
    M(R, 'contains', [P + cr], [(P, 'p')], lambda tr, r, p: inside(tr, r, p['x'], p['y']), True)
    M(R, 'contains', [V2 + cr], [(V2, 'p')], lambda tr, r, p: inside(tr, r, p['x'], p['y']), True)
    # --- extents
    cs = 'xyz'
    big = []
    def fresh(tr, e): return {'this': None}
    K = start(ck, S)
    mi = lambda tr, e, g, keep=(): {k: v for k, v in e.items()}
    def grow(tr, e, p):
        out = dict(e)
        for c in p:
            out['min' + c] = lambda c=c: mn(tr, e['min' + c], p[c])
            out['max' + c] = lambda c=c: mx(tr, e['max' + c], p[c])
        return out
    M(E, 'add', [V2 + cr], [(V2, 'p')], lambda tr, e, p: {'this': grow(tr, e, p)}, split=True)
    M(E, 'add', [V3 + cr], [(V3, 'p')], lambda tr, e, p: {'this': grow(tr, e, p)}, split=True)
    LIM = lift(Fraction(10) ** 80)
    def ordinary(tr, e): return tr.sign(e['minx'] - LIM) == '<'
    def join(tr, e, o_):
        # the other box is either empty (as constructed) or ordered with ordinary coordinates
        if tr.sign(o_['minx'] - K) != '<': return {'this': dict(e)}
        if not ordinary(tr, o_): return {'this': None}
        def side(m, c): return None if tr.sign(o_['min' + c] - o_['max' + c]) == '>' else (mn if m == 'min' else mx)(tr, e[m + c], o_[m + c])
        return {'this': {m + c: (lambda m=m, c=c: side(m, c)) for m in ('min', 'max') for c in cs}}
    M(E, 'add', [E + cr], [(E, 'other')], join, split=True)
    M(E, 'isValid', [], [], lambda tr, e: False if tr.sign(e['minx'] - K) != '<' else True if ordinary(tr, e) else None, True)
    M(E, 'delta', [], [], lambda tr, e: {'ret': (V3, {c: e['max' + c] - e['min' + c] for c in cs})}, True)
    ck.need(S.n, 'operations x aliasing', 100)

def start(ck, S):
    """a new extents object is empty: every minimum is one large number, every maximum its negative; returns that number"""
    from ai import AI, State, ptr
    import abi
    f = S.lookup('jm::Extents::Extents()')
    A = AI(ck.mod); st = State(); v = abi.symval(S.lay, 'jm::Extents', 'this'); abi.place(A, st, S.lay, v, ptr(sym('&this', 64, True)))
    outs = [o for o in A.run(f, [v.addr], st)]
    ck.analysed |= A.analysed
    tr = poly.Tr()
    got = [(n, tr.rat(e)) for o in outs for n, e in abi.content(A, o.st, S.lay, v).items()]
    k = [r.n.const() if n.startswith('min') else -r.n.const() if r.n.const() is not None else None for n, r in got]
    ok = bool(k) and None not in k and len(set(k)) == 1 and k[0] >= Fraction(10) ** 85
    ck.ob('Extents::Extents() is empty', ok, '%s:%s' % (f.file, f.line), '' if ok else 'initial components %s' % got)
    return lift(k[0] if k and k[0] else 10 ** 90)
