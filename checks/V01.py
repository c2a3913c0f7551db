"""Vector arithmetic in two and three dimensions."""
from fractions import Fraction
from expr import *
from ai import AI, State
from ir import Anchor
import abi, poly
from poly import A_, lift, Tr, cases
from vspec import Spec
LEVEL = 'other'
RULE = ('every operation is abstractly interpreted on symbolic components (also with operands that are one object); on every path and every sign case of the '
        'compared quantities, result and operands are compared with the formula as rational functions (real algebra)')
EXPLANATION = RULE
ASSUMPTIONS = ['components are ordinary numbers (no NaN, no overflow); rounding is not considered']

def tolerance(ck):
    """the common tolerance of the comparisons"""
    mod = ck.mod
    f = mod.dem('jm::isEqual(double, double)')
    A = AI(mod); a = A.argsyms(f, ['a', 'b'])
    tol = set()
    for o in A.run(f, a):
        tr = Tr()
        es = [c for c, v in abi.facts(o.st)] + ([o.val] if o.val is not None else [])
        for e in es:
            stack = [e]
            while stack:
                x = stack.pop()
                if x.op in ('folt', 'fole'):
                    p = (tr.rat(x.a[0]) - tr.rat(x.a[1])).n
                    tol.add(abs(p.t.get((), Fraction(0))))
                elif x.op in ('not', 'and', 'or', 'zext', 'trunc'): stack += [y for y in x.a if isinstance(y, E)]
    if len(tol) != 1 or not min(tol) > 0: raise Anchor('no common tolerance in the comparison of numbers: %s' % tol)
    return R_(tol.pop())
def R_(x): return lift(x)

def run(ck):
    S = Spec(ck); t = tolerance(ck)
    V2, V3, D = 'jm::Vertex2', 'jm::Vertex3', 'double'
    def near(tr, r): return tr.sign(lift(r) - t) == '<' and tr.sign(lift(r) + t) == '>'
    s2 = lambda tr, v: tr.fn('sqrt', v['x'] * v['x'] + v['y'] * v['y'])
    s3 = lambda tr, v: tr.fn('sqrt', v['x'] * v['x'] + v['y'] * v['y'] + v['z'] * v['z'])
    dot = lambda a, b: sum((a[c] * b[c] for c in a), lift(0))
    for ty, cs, ab in ((V2, 'xy', s2), (V3, 'xyz', s3)):
        d2 = ty == V2
        T = lambda f, ty=ty, cs=cs: (ty, {c: f(c) for c in cs})
        C = '%s::' % ty; R1 = ty + ' const&'
        M = lambda name, ops, spec, **k: S.case(C + name, [(ty, 'this')] + ops, spec, **k)
        F = lambda name, ops, spec, **k: S.case('jm::' + name, ops, spec, method=False, **k)
        o = [(ty, 'other')]
        M('abs() const', [], lambda tr, a: ab(tr, a))
        def normd(tr, a):
            l = ab(tr, a)
            if near(tr, l): return dict(a)
            return {c: a[c] / l for c in cs}
        M('normalize()', [], lambda tr, a: {'this': normd(tr, a), 'ret': (ty, normd(tr, a))})
        M('normalized() const', [], lambda tr, a: {'ret': (ty, normd(tr, a))})
        M('dotProduct(%s) const' % R1, o, lambda tr, a, b: dot(a, b))
        if d2: M('crossProduct(%s) const' % R1, o, lambda tr, a, b: a['x'] * b['y'] - a['y'] * b['x'])
        else: M('crossProduct(%s) const' % R1, o, lambda tr, a, b: {'ret': (ty, {'x': a['y'] * b['z'] - a['z'] * b['y'], 'y': a['z'] * b['x'] - a['x'] * b['z'], 'z': a['x'] * b['y'] - a['y'] * b['x']})})
        if d2: M('isCollinear(%s) const' % R1, o, lambda tr, a, b: near(tr, a['x'] * b['y'] - a['y'] * b['x']))
        else:
            def col(tr, a, b):
                x, y, z = a['y'] * b['z'] - a['z'] * b['y'], a['z'] * b['x'] - a['x'] * b['z'], a['x'] * b['y'] - a['y'] * b['x']
                return near(tr, tr.fn('sqrt', x * x + y * y + z * z))
            M('isCollinear(%s) const' % R1, o, col)
        M('isOrthogonal(%s) const' % R1, o, lambda tr, a, b: near(tr, dot(a, b)))
        if d2:
            def ang(tr, a, b):
                x = tr.fn('acos', dot(a, b) / (s2(tr, a) * s2(tr, b)))
                return x if tr.sign(a['x'] * b['y'] - a['y'] * b['x']) == '>' else -x
            M('angleTo(%s) const' % R1, o, ang)
            M('isRightTo(%s) const' % R1, o, lambda tr, a, b: tr.sign(a['x'] * b['y'] - a['y'] * b['x']) == '>')
            M('isLeftTo(%s) const' % R1, o, lambda tr, a, b: tr.sign(a['x'] * b['y'] - a['y'] * b['x']) == '<')
            def rot(tr, a, w):
                c, s = tr.fn('cos', w['']), tr.fn('sin', w[''])
                return {'x': a['x'] * c - a['y'] * s, 'y': a['x'] * s + a['y'] * c}
            M('rotate(double)', [(D, 'angle')], lambda tr, a, w: {'this': rot(tr, a, w), 'ret': (ty, rot(tr, a, w))})
            M('rotated(double) const', [(D, 'angle')], lambda tr, a, w: {'ret': (ty, rot(tr, a, w))})
            S.case('jm::Vertex2::Vertex2(double, double)', [(ty, 'this'), (D, 'x'), (D, 'y')], lambda tr, t_, x, y: {'this': {'x': x[''], 'y': y['']}})
            S.case('jm::Vertex2::Vertex2()', [(ty, 'this')], lambda tr, t_: {'this': {'x': lift(0), 'y': lift(0)}})
            S.case('jm::Vertex2::Vertex2(jm::Vertex3 const&)', [(ty, 'this'), (V3, 'v')], lambda tr, t_, v: {'this': {'x': v['x'], 'y': v['y']}})
        else:
            M('angleTo(%s) const' % R1, o, lambda tr, a, b: tr.fn('acos', dot(a, b) / (s3(tr, a) * s3(tr, b))))
            M('isNull() const', [], lambda tr, a: near(tr, a['x']) and near(tr, a['y']) and near(tr, a['z']))
            def big(tr, a):
                m = a['x'] if tr.sign(a['x'] - a['y']) == '>' else a['y']
                return m if tr.sign(m - a['z']) == '>' else a['z']
            M('biggest() const', [], big)
            def axis(u, v):
                w = ({'x', 'y', 'z'} - {u, v}).pop()
                def f(tr, a, g):
                    c, s = tr.fn('cos', g['']), tr.fn('sin', g[''])
                    return {w: a[w], u: a[u] * c - a[v] * s, v: a[u] * s + a[v] * c}
                return f
            for n, u, v in (('X', 'y', 'z'), ('Y', 'z', 'x'), ('Z', 'x', 'y')):
                r = axis(u, v)
                M('rotate%s(double)' % n, [(D, 'angle')], lambda tr, a, g, r=r: {'this': r(tr, a, g)})
            r = axis('x', 'y')
            M('rotatedZ(double) const', [(D, 'angle')], lambda tr, a, g, r=r: {'ret': (ty, r(tr, a, g))})
            def rodrigues(tr, a, g, k):
                c, s = tr.fn('cos', g['']), tr.fn('sin', g['']); d = dot(a, k)
                x = {'x': k['y'] * a['z'] - k['z'] * a['y'], 'y': k['z'] * a['x'] - k['x'] * a['z'], 'z': k['x'] * a['y'] - k['y'] * a['x']}
                return {i: a[i] * c + x[i] * s + k[i] * d * (1 - c) for i in 'xyz'}
            M('rotate(double, %s)' % R1, [(D, 'angle'), (ty, 'axis')], lambda tr, a, g, k: {'this': rodrigues(tr, a, g, k)})
            S.case('jm::Vertex3::Vertex3(double, double, double)', [(ty, 'this'), (D, 'x'), (D, 'y'), (D, 'z')], lambda tr, t_, x, y, z: {'this': {'x': x[''], 'y': y[''], 'z': z['']}})
            S.case('jm::Vertex3::Vertex3(jm::Vertex2 const&, double)', [(ty, 'this'), (V2, 'v'), (D, 'z')], lambda tr, t_, v, z: {'this': {'x': v['x'], 'y': v['y'], 'z': z['']}})
            S.case('jm::Vertex3::Vertex3(jm::Vertex3 const&)', [(ty, 'this'), (V3, 'v')], lambda tr, t_, v: {'this': dict(v)}, alias=False)
            S.case('jm::Vertex3::operator=(jm::Vertex3 const&)', [(ty, 'this'), (V3, 'v')], lambda tr, t_, v: {'this': dict(v), 'ret': (V3, dict(v))})
        M('scale(%s) const' % R1, o, lambda tr, a, b: {'ret': T(lambda c: a[c] * b[c])})
        M('operator+=(%s)' % R1, o, lambda tr, a, b: {'this': T(lambda c: a[c] + b[c])[1], 'ret': T(lambda c: a[c] + b[c])})
        M('operator-=(%s)' % R1, o, lambda tr, a, b: {'this': T(lambda c: a[c] - b[c])[1], 'ret': T(lambda c: a[c] - b[c])})
        M('operator/(double) const', [(D, 'd')], lambda tr, a, d: {'ret': T(lambda c: a[c] / d[''])})
        two = [(ty, 'a'), (ty, 'b')]
        if d2:
            F('operator+(%s, %s)' % (R1, R1), two, lambda tr, a, b: {'ret': T(lambda c: a[c] + b[c])})
            F('operator-(%s, %s)' % (R1, R1), two, lambda tr, a, b: {'ret': T(lambda c: a[c] - b[c])})
        else:
            M('operator+(%s) const' % R1, o, lambda tr, a, b: {'ret': T(lambda c: a[c] + b[c])})
            M('operator-(%s) const' % R1, o, lambda tr, a, b: {'ret': T(lambda c: a[c] - b[c])})
        F('operator*(double, %s)' % R1, [(D, 'd'), (ty, 'v')], lambda tr, d, v: {'ret': T(lambda c: d[''] * v[c])})
        F('operator*(%s, double)' % R1, [(ty, 'v'), (D, 'd')], lambda tr, v, d: {'ret': T(lambda c: d[''] * v[c])})
        F('operator==(%s, %s)' % (R1, R1), two, lambda tr, a, b: all(near(tr, b[c] - a[c]) for c in cs))
        F('operator!=(%s, %s)' % (R1, R1), two, lambda tr, a, b: not all(near(tr, b[c] - a[c]) for c in cs))
    def solve(tr, a, b, r):
        d = a['x'] * b['y'] - b['x'] * a['y']
        return {'ret': (V2, {'x': (r['x'] * b['y'] - b['x'] * r['y']) / d, 'y': (a['x'] * r['y'] - r['x'] * a['y']) / d})}
    S.case('jm::solveLinearSystem(jm::Vertex2, jm::Vertex2, jm::Vertex2)', [(V2, 'a'), (V2, 'b'), (V2, 'r')], solve, method=False)
    # a vector is valid exactly when no component is NaN
    for ty, cs in ((V2, 'xy'), (V3, 'xyz')):
        for bad in range(2 ** len(cs)):
            nans = {c for i, c in enumerate(cs) if bad >> i & 1}
            S.case(ty + '::isValid() const', [(ty, 'this')], lambda tr, a: not nans, nans={('this', c) for c in nans}, key='%s::isValid() with NaN in {%s}' % (ty, ','.join(sorted(nans))))
    ck.need(S.n, 'operations x aliasing', 90)
