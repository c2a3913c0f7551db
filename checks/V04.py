"""Numeric helpers."""
from fractions import Fraction
from expr import *
from ai import AI, State, ptr, Limit
from ir import Anchor
import poly, abi, kb
from poly import lift
from vspec import Spec
from V01 import tolerance
LEVEL = 'other'
RULE = ('every helper is abstractly interpreted on symbolic arguments; floating results are compared as rational functions in every sign case, exchanges by '
        'symbolic memory, integer division per sign class, powers of two per position of the leading bits (known-bits domain)')
EXPLANATION = RULE
ASSUMPTIONS = ['floating arguments are ordinary numbers unless NaN is the subject; rounding is not considered']
PI = Fraction('3.14159265358979323846264338327950288')

def run(ck):
    S = Spec(ck); t = tolerance(ck); mod = ck.mod; D = 'double'
    F = lambda n, types, ops, spec, **k: S.case('jm::%s(%s)' % (n, ', '.join(types)), ops, spec, method=False, **k)
    ab = [(D, 'a'), (D, 'b')]
    lo = lambda tr, d: tr.sign(lift(d) + t)      # sign of d + tolerance
    hi = lambda tr, d: tr.sign(lift(d) - t)
    cmpr = {'isEqual': lambda tr, d: hi(tr, d) == '<' and lo(tr, d) == '>', 'isNotEqual': lambda tr, d: not (hi(tr, d) == '<' and lo(tr, d) == '>'),
            'isLess': lambda tr, d: hi(tr, d) != '<', 'isLessEqual': lambda tr, d: lo(tr, d) == '>',
            'isGreater': lambda tr, d: lo(tr, d) != '>', 'isGreaterEqual': lambda tr, d: hi(tr, d) == '<'}
    for n, g in cmpr.items(): F(n, [D, D], ab, lambda tr, a, b, g=g: g(tr, b[''] - a['']))
    one = [(D, 'd')]
    F('isNaN', [D], one, lambda tr, d: False); F('isNaN', [D], one, lambda tr, d: True, nans={('d', '')}, key='isNaN(NaN)')
    F('degToRad', [D], one, lambda tr, d: d[''] * (PI / 180)); F('radToDeg', [D], one, lambda tr, d: d[''] * (180 / PI))
    F('sign', [D], one, lambda tr, d: ('int', {'<': (1 << 16) - 1, '=': 0, '>': 1}[tr.sign(d[''])]))
    half = lift(Fraction(1, 2))
    def rnd(tr, x):
        s = tr.sign(x)
        return lift(0) if s == '=' else tr.fn('floor', x + half) if s == '>' else tr.fn('ceil', x - half)
    F('round', [D], one, lambda tr, d: ('real', rnd(tr, d[''])))
    def rfrac(tr, d, n):
        f = tr.fn('pow', lift(10), n[''])
        return rnd(tr, d[''] * f) / f
    F('roundFrac', [D, 'long'], [(D, 'd'), ('int64', 'n')], rfrac); F('roundFrac', ['float', 'int'], [('float', 'd'), ('int32', 'n')], lambda tr, d, n: {'ret': ('float', {'': rfrac(tr, d, n)})})
    def ip(tr, a, b, p): return a[''] + p[''] * (b[''] - a[''])
    abp = lambda ty: [(ty, x) for x in 'abp']
    F('interpolate', [D] * 3, abp(D), ip)
    F('interpolate', ['float'] * 3, abp('float'), lambda tr, a, b, p: {'ret': ('float', {'': ip(tr, a, b, p)})})
    F('interpolate', [D] * 5, [(D, x) for x in ('va', 'vb', 'a', 'b', 'p')], lambda tr, va, vb, a, b, p: va[''] + (p[''] - a['']) / (b[''] - a['']) * (vb[''] - va['']))
    # exchange of two variables
    for ty, s in (('double', 8), ('int', 4), ('unsigned int', 4), ('unsigned short', 2), ('unsigned char', 1)):
        f = S.lookup('jm::swap(%s&, %s&)' % (ty, ty)); bad = []
        for same in (False, True):
            S.n += 1
            A = AI(mod); st = State(); p = ptr(sym('&a', 64, True)); q = p if same else ptr(sym('&b', 64, True))
            x, y = sym('a', s * 8), sym('b', s * 8)
            A.store(st, q, y, s); A.store(st, p, x, s)
            if same: y = x
            else: A.assume(st, icmp('eq', p, q), False)
            outs = A.run(f, [p, q], st); ck.analysed |= A.analysed
            for o in outs:
                g = A.load(o.st, p, s, False, s == 8), A.load(o.st, q, s, False, s == 8)
                if o.kind != 'ret': bad.append('may throw')
                elif g != (y, x):
                    if all(None not in r and r == w for r, w in zip(map(bits, g), map(bits, (y, x)))): continue
                    bad.append('the variables hold %s and %s%s' % (g + (' (one variable)' if same else '',)))
        ck.ob('swap(%s&, %s&)' % (ty, ty), not bad, '%s:%s' % (f.file, f.line), '; '.join(bad))
    # integer division rounding down, per sign class of remainder and divisor
    for n in ('divFloor', 'modFloor'):
        f = S.lookup('jm::%s(long, long)' % n); bad = []
        x, y = sym('x', 64), sym('y', 64); q, r = sdiv(x, y), srem(x, y); z = const(0, 64)
        for ry in ('neg', 'pos'):
            for rr in ('neg', 'zero', 'pos'):
                S.n += 1
                A = AI(mod); st = State()
                A.assume(st, icmp('eq', y, z), False); A.assume(st, icmp('slt', y, z), ry == 'neg')
                A.assume(st, icmp('eq', r, z), rr == 'zero'); A.assume(st, icmp('slt', r, z), rr == 'neg'); A.assume(st, icmp('slt', z, r), rr == 'pos')
                if rr != 'zero': A.assume(st, icmp('slt', x, z), rr == 'neg'); A.assume(st, icmp('slt', xor(r, y), z), rr != ry); A.assume(st, icmp('slt', xor(x, y), z), rr != ry)
                down = rr != 'zero' and rr != ry
                want = {'divFloor': [add(q, const(-1, 64)) if down else q], 'modFloor': [add(r, y) if down else r] + ([z] if rr == 'zero' else [])}[n]
                want += [subst(w, {r: sub(x, mul(q, y))}) for w in want]
                for o in A.run(f, [x, y], st):
                    if o.kind != 'ret': bad.append('may throw')
                    elif o.val not in want: bad.append('remainder %s, divisor %s: %s instead of %s' % (rr, ry, o.val, want[0]))
                ck.analysed |= A.analysed
        if n == 'modFloor':
            A = AI(mod)
            for o in A.run(f, [x, z]):
                if o.kind != 'ret' or o.val is not z: bad.append('divisor 0: %s %s' % (o.kind, o.val))
        ck.ob(n, not bad, '%s:%s' % (f.file, f.line), '; '.join(bad[:6]))
    # powers of two
    def evaluate(f, envs, outs, what):
        bad = []; und = None
        for env, want, name in envs:
            S.n += 1; hit = False
            for o in outs:
                fs = [(kb.ev(c, env)[0], v) for c, v in o.st.facts.items() if isinstance(c, E)]
                if any(k is not None and bool(k) != v for k, v in fs): continue
                sure = all(k is not None for k, v in fs)
                hit = True
                if o.kind != 'ret': bad.append('%s: throws' % name); continue
                g = kb.num(kb.ev(o.val, env))
                if g is None or not sure: und = 'argument %s is not decided' % name
                elif g != want: bad.append('%s: %d instead of %d' % (name, g, want))
            if not hit: und = 'no path for %s' % name
        ck.ob(what, (not bad) if bad or und is None else None, '%s:%s' % (f.file, f.line), '; '.join(bad[:5]) or und or '')
    f = S.lookup('jm::powerOf2(int)'); A = AI(mod); x = sym('x', 32); outs = A.run(f, [x]); ck.analysed |= A.analysed
    envs = []
    for k in range(32):
        for j in range(k + 1):
            b = [0] * j + [1] + [None] * (k - j - 1) + ([1] if k > j else []) + [0] * (31 - k)
            envs.append(({x: b}, int(k == j and k < 31), 'highest bit %d, lowest bit %d' % (k, j)))
    envs.append(({x: [0] * 32}, 0, '0'))
    evaluate(f, envs, outs, 'powerOf2')
    f = S.lookup('jm::ceilPowerOf2(unsigned int)'); A = AI(mod); outs = A.run(f, [x]); ck.analysed |= A.analysed
    envs = []
    for k in range(32):
        envs.append(({x: [0] * k + [1] + [0] * (31 - k)}, 1 << k, '2^%d' % k))
        if k < 31:
            # 2^k < x < 2^(k+1): highest bit k, some lower bit j
            for j in range(k):
                envs.append(({x: [0] * j + [1] + [None] * (k - j - 1) + [1] + [0] * (31 - k)}, 2 << k, 'between 2^%d and 2^%d' % (k, k + 1)))
    evaluate(f, envs, outs, 'ceilPowerOf2')
    ck.need(S.n, 'cases', 900)
