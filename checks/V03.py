"""Matrices and vectors."""
import itertools
from fractions import Fraction
from expr import *
from ir import Anchor
import poly
from poly import lift
from vspec import Spec
from V01 import tolerance
LEVEL = 'other'
RULE = ('every operation is abstractly interpreted on matrices with concrete dimensions and symbolic elements (also with operands that are one object); '
        'dimensions and every element of the results are compared with the formula as rational functions (real algebra)')
EXPLANATION = RULE
ASSUMPTIONS = ['elements are ordinary numbers (no NaN, no overflow); rounding is not considered', 'dimensions up to 4 (the generic loops are followed for those dimensions only)']

def perms(n):
    for p in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i): s = -s if p[j] > p[i] else s
        yield p, s
def det(a, rows, cols):
    out = lift(0)
    for p, s in perms(len(rows)):
        t = lift(s)
        for k in range(len(rows)): t = t * a['%d,%d' % (rows[k], cols[p[k]])]
        out = out + t
    return out
def mat(r, c, f): return {'%d,%d' % (i, j): f(i, j) for i in range(r) for j in range(c)}
def el(a, i, j): return a['%d,%d' % (i, j)]

def run(ck):
    S = Spec(ck); tol = tolerance(ck); mod = ck.mod
    st_enum = mod.enums.get('jm::Status') or {}; nm = mod.enums.get('jm::MatrixNorm') or {}
    if 'eOK' not in st_enum or 'kNorm1' not in nm: raise Anchor('enumerations not found')
    OK = int(st_enum['eOK']); ERR = int(st_enum['eError'])
    MX, D, V3 = 'jm::Matrix', 'double', 'jm::Vertex3'
    cr = 'jm::Matrix const&'; vr = 'jm::Vector const&'
    one, zero = lift(1), lift(0)
    T = lambda r, c: 'mat:%dx%d' % (r, c)
    VT = lambda n: 'vec:%d' % n
    def M(n, types, this, ops, spec, const=False, **k):
        d = k.pop('d', this)
        S.case('%s::%s(%s)%s' % (MX, n, ', '.join(types), ' const' if const else ''), [(this, 'this')] + ops, spec, key='%s(%s) on %s %s' % (n, ', '.join(types), this, ' '.join(t for t, _ in ops)), **k)
    def F(n, types, ops, spec, **k):
        S.case('jm::%s(%s)' % (n, ', '.join(types)), ops, spec, method=False, key='%s(%s) on %s' % (n, ', '.join(types), ' '.join(t for t, _ in ops)), **k)
    DIMS = [(1, 1), (1, 3), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (4, 2), (3, 1)]
    if ck.tier == 'thorough': DIMS = [(r, c) for r in range(1, 5) for c in range(1, 5)]
    for r, c in DIMS:
        t = T(r, c)
        M('transpose', [], t, [], lambda tr, a: {'this': ('@', T(c, r), mat(c, r, lambda i, j: el(a, j, i)))})
        M('zeros', [], t, [], lambda tr, a: {'this': mat(r, c, lambda i, j: zero)})
        M('diag', [D], t, [(D, 'd')], lambda tr, a, d: {'this': mat(r, c, lambda i, j: d[''] if i == j else el(a, i, j))})
        M('trace', [], t, [], lambda tr, a: sum((el(a, i, i) for i in range(min(r, c))), zero), True)
        M('Matrix', ['long', 'long'], t, [('=%d' % r, 'rows'), ('=%d' % c, 'cols')], lambda tr, a, *_: {'this': mat(r, c, lambda i, j: zero)})
        M('Matrix', [cr], t, [(t, 'other')], lambda tr, a, b: {'this': dict(b)}, alias=False)
        M('Matrix', ['jm::Matrix const*'], t, [(t, 'other')], lambda tr, a, b: {'this': dict(b)}, alias=False)
        for r2, c2 in ((r, c), (c, r), (2, 2), (4, 3)):
            M('operator=', [cr], T(r2, c2), [(t, 'other')], lambda tr, a, b: {'this': ('@', t, dict(b)), 'ret': (t, dict(b))})
        for i, j in {(0, 0), (r - 1, 0), (0, c - 1), (r - 1, c - 1)}:
            ij = [('=%d' % i, 'i'), ('=%d' % j, 'j')]
            M('set', ['long', 'long', D], t, ij + [(D, 'd')], lambda tr, a, x, y, d: {'this': mat(r, c, lambda p, q: d[''] if (p, q) == (i, j) else el(a, p, q))})
            M('add', ['long', 'long', D], t, ij + [(D, 'd')], lambda tr, a, x, y, d: {'this': mat(r, c, lambda p, q: el(a, p, q) + (d[''] if (p, q) == (i, j) else 0))})
            M('get', ['long', 'long'], t, ij, lambda tr, a, x, y: el(a, i, j), True)
        for n, g in (('operator+', lambda a, b: a + b), ('operator-', lambda a, b: a - b)):
            F(n, [cr, cr], [(t, 'A'), (t, 'B')], lambda tr, a, b: {'ret': (t, mat(r, c, lambda i, j: g(el(a, i, j), el(b, i, j))))})
        F('operator*', ['double const&', cr], [(D, 'd'), (t, 'A')], lambda tr, d, a: {'ret': (t, mat(r, c, lambda i, j: d[''] * el(a, i, j)))})
        F('operator*', [cr, 'double const&'], [(t, 'A'), (D, 'd')], lambda tr, a, d: {'ret': (t, mat(r, c, lambda i, j: d[''] * el(a, i, j)))})
        F('operator/', [cr, 'double const&'], [(t, 'A'), (D, 'd')], lambda tr, a, d: {'ret': (t, mat(r, c, lambda i, j: el(a, i, j) / d['']))})
        F('operator*', [cr, vr], [(t, 'A'), (VT(c), 'b')], lambda tr, a, b: {'ret': (VT(r), {str(i): sum((el(a, i, k) * b[str(k)] for k in range(c)), zero) for i in range(r)})})
        for n in (1, 3, 4):
            k = T(c, n)
            F('operator*', [cr, cr], [(t, 'A'), (k, 'B')], lambda tr, a, b: {'ret': (T(r, n), mat(r, n, lambda i, j: sum((el(a, i, k) * el(b, k, j) for k in range(c)), zero)))})
        F('operator*', [cr, cr], [(t, 'A'), (T(c + 1, 2), 'B')], None, throws=True)
        F('operator*', [cr, vr], [(t, 'A'), (VT(c + 1), 'b')], None, throws=True)
        for n in ('operator+', 'operator-'):
            for r2, c2 in ((r + 1, c), (r, c + 1), (c, r), (c, c)):
                if (r2, c2) != (r, c): F(n, [cr, cr], [(t, 'A'), (T(r2, c2), 'B')], None, throws=True)
        if (r, c) != (3, 3): F('operator*', [cr, V3 + ' const&'], [(t, 'A'), (V3, 'b')], None, throws=True)
        # insertion
        for r2, c2 in ((1, 2), (2, 2), (3, 3), (4, 4)):
            M('insert', [cr], t, [(T(r2, c2), 'A')], lambda tr, a, b: {'this': mat(r, c, lambda i, j: el(b, i, j) if i < r2 and j < c2 else el(a, i, j))}, alias=None if (r, c) == (r2, c2) else False)
            for p, q in ((0, 0), (1, 0), (0, 1), (1, 2)):
                if p < r and q < c:
                    M('insert', [cr, 'long', 'long'], t, [(T(r2, c2), 'A'), ('=%d' % p, 'r'), ('=%d' % q, 'c')], lambda tr, a, b, *_: {'this': mat(r, c, lambda i, j: el(b, i - p, j - q) if 0 <= i - p < r2 and 0 <= j - q < c2 else el(a, i, j))}, alias=False)
        # determinant and inverse
        if r == c and r <= 4:
            S.case('jm::Matrix::det(double&) const', [(t, 'this'), (D, 'det')], lambda tr, a, d: {'det': {'': det(a, range(r), range(r))}, 'ret': ('int', OK)}, key='det on %s' % t)
            def inv(tr, a):
                dt = det(a, list(range(r)), list(range(r)))
                def cof(i, j):
                    if r == 1: return one
                    return lift((-1) ** (i + j)) * det(a, [k for k in range(r) if k != i], [k for k in range(r) if k != j])
                return {'this': mat(r, r, lambda i, j: cof(j, i) / dt), 'ret': ('int', OK)}
            M('inverse', [], t, [], inv)
        else:
            S.case('jm::Matrix::det(double&) const', [(t, 'this'), (D, 'det')], lambda tr, a, d: {'ret': ('int', ERR)}, key='det on %s' % t)
            M('inverse', [], t, [], lambda tr, a: {'ret': ('int', ERR)})
        if r * c <= 6:
            for k, outer in (('kNorm1', c), ('kNormInf', r)):
                def norm(tr, a, _):
                    best = zero
                    for x in range(outer):
                        s = sum(((lambda v: v if tr.sign(v) != '<' else -v)(el(a, *((i, x) if k == 'kNorm1' else (x, i)))) for i in range(r if k == 'kNorm1' else c)), zero)
                        if tr.sign(s - best) == '>': best = s
                    return best
                M('norm', ['jm::MatrixNorm'], t, [('=%d' % int(nm[k]), 'norm')], norm, True)
    t5 = T(5, 5)
    S.case('jm::Matrix::det(double&) const', [(t5, 'this'), (D, 'det')], lambda tr, a, d: {'ret': ('int', ERR)}, key='det on %s' % t5)
    M('inverse', [], t5, [], lambda tr, a: {'ret': ('int', ERR)})
    M('Matrix', [D], T(1, 1), [(D, 'd')], lambda tr, a, d: {'this': {'0,0': d['']}})
    for rw in (0, 1):
        def three(tr, a, *cs):
            return {'this': mat(3, 3, lambda i, j: cs[i]['xyz'[j]] if rw else cs[j]['xyz'[i]])}
        M('Matrix', [V3 + ' const&'] * 3 + ['bool'], T(3, 3), [(V3, 'c1'), (V3, 'c2'), (V3, 'c3'), ('=%d' % rw, 'rowwise')], three, alias=False)
    mv = lambda a, v: {'xyz'[i]: sum((el(a, i, k) * v['xyz'[k]] for k in range(3)), zero) for i in range(3)}
    F('operator*', [cr, V3 + ' const&'], [(T(3, 3), 'A'), (V3, 'b')], lambda tr, a, b: {'ret': (V3, mv(a, b))})
    # transformations: the image of an arbitrary point
    t4 = T(4, 4)
    M('trans', [V3 + ' const&'], t4, [(V3, 'p')], lambda tr, a, p: {'ret': (V3, {'xyz'[i]: sum((el(a, i, k) * p['xyz'[k]] for k in range(3)), zero) + el(a, i, 3) for i in range(3)})}, True)
    def H(f):
        """4x4 matrix of the affine map f (f acts on dicts of R)"""
        o = f({'x': zero, 'y': zero, 'z': zero}); e = {}
        for j, c in enumerate('xyz'):
            u = {k: one if k == c else zero for k in 'xyz'}; im = f(u)
            for i in range(3): e['%d,%d' % (i, j)] = im['xyz'[i]] - o['xyz'[i]]
        for i in range(3): e['%d,3' % i] = o['xyz'[i]]; e['3,%d' % i] = zero
        e['3,3'] = one
        return e
    dot = lambda a, b: sum((a[c] * b[c] for c in a), zero)
    add3 = lambda a, b: {c: a[c] + b[c] for c in 'xyz'}
    sub3 = lambda a, b: {c: a[c] - b[c] for c in 'xyz'}
    cross = lambda k, a: {'x': k['y'] * a['z'] - k['z'] * a['y'], 'y': k['z'] * a['x'] - k['x'] * a['z'], 'z': k['x'] * a['y'] - k['y'] * a['x']}
    def rot(tr, g, k):
        c, s = tr.fn('cos', g), tr.fn('sin', g)
        def f(a):
            d = dot(a, k); x = cross(k, a)
            return {i: a[i] * c + x[i] * s + k[i] * d * (1 - c) for i in 'xyz'}
        return f
    ax = lambda c: {k: one if k == c else zero for k in 'xyz'}
    for t in (t4, T(3, 3), T(2, 3)):
        R4 = lambda f: {'this': ('@', t4, H(f))}
        M('initIdentity', [], t, [], lambda tr, a: R4(lambda p: p))
        M('initMoving', [V3 + ' const&'], t, [(V3, 'd')], lambda tr, a, d: R4(lambda p: add3(p, d)))
        M('initScaling', [V3 + ' const&'], t, [(V3, 'f')], lambda tr, a, f: R4(lambda p: {c: p[c] * f[c] for c in 'xyz'}))
        M('initScaling', [V3 + ' const&', D], t, [(V3, 'b'), (D, 'f')], lambda tr, a, b, f: R4(lambda p: {c: b[c] + f[''] * (p[c] - b[c]) for c in 'xyz'}))
        M('initMirroring', [V3 + ' const&'] * 2, t, [(V3, 'p'), (V3, 'n')], lambda tr, a, q, n: R4(lambda p: (lambda k: {c: p[c] - 2 * k * n[c] for c in 'xyz'})(dot(sub3(p, q), n))))
        M('initRotationZ', [D], t, [(D, 'g')], lambda tr, a, g: R4(rot(tr, g[''], ax('z'))))
        M('initRotation', [V3 + ' const&', V3 + ' const&', D], t, [(V3, 'p'), (V3, 'k'), (D, 'g')], lambda tr, a, q, k, g: R4(lambda p: add3(q, rot(tr, g[''], k)(sub3(p, q)))))
    G = MX + '::generate3x3Rotation'
    lin = lambda f: {'%d,%d' % (i, j): f(ax('xyz'[j]))['xyz'[i]] for i in range(3) for j in range(3)}
    for c in 'xyz':
        S.case('%s%sMatrix(double)' % (G, c.upper()), [(D, 'g')], lambda tr, g: {'ret': (T(3, 3), lin(rot(tr, g[''], ax(c))))}, method=False)
    S.case(G + 'Matrix(double, jm::Vertex3 const&)', [(D, 'g'), (V3, 'k')], lambda tr, g, k: {'ret': (T(3, 3), lin(rot(tr, g[''], k)))}, method=False)
    # vectors
    for n in (1, 2, 3, 4, 6):
        t = VT(n); ix = [str(i) for i in range(n)]
        W = lambda name, types, ops, spec, const=False, **k: S.case('jm::Vector::%s(%s)%s' % (name, ', '.join(types), ' const' if const else ''), [(t, 'this')] + ops, spec, key='Vector::%s on %s %s' % (name, t, ' '.join(x for x, _ in ops)), **k)
        ab = lambda tr, a: tr.fn('sqrt', sum((a[i] * a[i] for i in ix), zero))
        W('abs', [], [], lambda tr, a: ab(tr, a), True)
        W('normalize', [], [], lambda tr, a: {'this': {i: a[i] / ab(tr, a) for i in ix}})
        W('zeros', [], [], lambda tr, a: {'this': {i: zero for i in ix}})
        W('ones', [], [], lambda tr, a: {'this': {i: one for i in ix}})
        W('dotProduct', [vr], [(t, 'other')], lambda tr, a, b: sum((a[i] * b[i] for i in ix), zero), True)
        W('Vector', ['long'], [('=%d' % n, 'rows')], lambda tr, a, _: {'this': {i: zero for i in ix}})
        W('Vector', [vr], [(t, 'other')], lambda tr, a, b: {'this': dict(b)}, alias=False)
        for n2 in (n, 2, 5):
            S.case('jm::Vector::operator=(jm::Vector const&)', [(VT(n2), 'this'), (t, 'other')], lambda tr, a, b: {'this': ('@', t, dict(b)), 'ret': (t, dict(b))}, key='Vector::operator= on %s %s' % (VT(n2), t))
        for nme, g in (('operator+', lambda a, b: a + b), ('operator-', lambda a, b: a - b)):
            F(nme, [vr, vr], [(t, 'a'), (t, 'b')], lambda tr, a, b: {'ret': (t, {i: g(a[i], b[i]) for i in ix})})
            F(nme, [vr, vr], [(t, 'a'), (VT(n + 1), 'b')], None, throws=True)
        F('operator*', ['double const&', vr], [(D, 'd'), (t, 'a')], lambda tr, d, a: {'ret': (t, {i: d[''] * a[i] for i in ix})})
    ck.need(S.n, 'operations x dimensions x aliasing', 600)
