"""Numbers and their text."""
from expr import *
from ai import ptr
from text import Text, table, IMAX, IMIN, Q
LEVEL = 'other'
RULE = ('conversions from numbers to text are interpreted once per sign and number of digits with an otherwise arbitrary number (interval domain), conversions from text to numbers '
        'once per length with arbitrary characters; every character or value produced is compared with the positional definition; other characters must be refused')
EXPLANATION = RULE
ASSUMPTIONS = ['text to number: up to 18 digits (thorough: 19 digits without overflow are the same expression)', 'floating point text is not covered']

def run(ck):
    T = Text(ck); deep = ck.tier == 'thorough'
    P = 'jm::String::'
    V = lambda e: ('any', e)
    def decimal(m, k):
        """the k digits of m, most significant first"""
        out = []
        for j in range(k): out.append(add(trunc(urem(udiv(m, const(10 ** j, 64)) if j else m, const(10, 64)), 16), const(48, 16)))
        return out[::-1]
    def rng(lo, hi, m, extra=()):
        def pre(A, st): A.narrow(st, m, lo, hi)
        return pre
    minus = const(ord('-'), 16)
    for k in range(1, 21):
        m = sym('m', 64); lo, hi = (10 ** (k - 1) if k > 1 else 0), 10 ** k - 1
        for ty, top, neg_, w in (('long', IMAX, True, 64), ('unsigned long', (1 << 64) - 1, False, 64), ('int', (1 << 31) - 1, True, 32), ('unsigned int', (1 << 32) - 1, False, 32)):
            if lo > top: continue
            for s in ((0, 1) if neg_ else (0,)):
                b = min(hi, top); mm = sym('m', w)
                l = max(lo, 1) if s else lo
                if l > b: continue
                want = lambda q, v, k=k, s=s, mm=mm, w=w: {'ret': ([minus] if s else []) + decimal(zext(mm, 64) if w == 32 else mm, k)}
                T.case('valueOf(%s)[%s%d digits]' % (ty, '-' * s, k), P + 'valueOf(%s)' % ty, [V(neg(mm) if s else mm)], want, pre=rng(l, b, mm))
    T.case('valueOf(long)[smallest]', P + 'valueOf(long)', [V(const(IMIN, 64))], lambda q, v: {'ret': [const(ord(c), 16) for c in str(IMIN)]})
    T.case('valueOf(int)[smallest]', P + 'valueOf(int)', [V(const(-(1 << 31), 32))], lambda q, v: {'ret': [const(ord(c), 16) for c in str(-(1 << 31))]})
    for b in (0, 1): T.case('valueOf(bool)[%d]' % b, P + 'valueOf(bool)', [V(const(b, 1))], lambda q, v, b=b: {'ret': [const(ord(c), 16) for c in ('true' if b else 'false')]})
    # number of digits
    for k in range(1, 20):
        m = sym('m', 64); lo, hi = (10 ** (k - 1) if k > 1 else 0), min(10 ** k - 1, IMAX)
        T.case('digits[%d]' % k, 'jm::Integer::digits(long)', [V(m)], lambda q, v, k=k: k, pre=rng(lo, hi, m))
        T.case('digits[-%d]' % k, 'jm::Integer::digits(long)', [V(neg(m))], lambda q, v, k=k: k + 1, pre=rng(max(lo, 1), hi, m))
    T.case('digits[smallest]', 'jm::Integer::digits(long)', [V(const(IMIN, 64))], lambda q, v: 20)
    # hexadecimal
    for k in range(1, 17):
        m = sym('m', 64); lo, hi = (16 ** (k - 1) if k > 1 else 1), 16 ** k - 1
        def hexd(q, v, k=k):
            out = []
            for j in range(k):
                d = and_(lshr(m, const(4 * j, 64)), const(15, 64))
                out.append(table('hex', b'0123456789ABCDEF', d))
            return {'ret': out[::-1]}
        T.case('toHexString[%d digits]' % k, 'jm::Integer::toHexString(long)', [V(m)], hexd, pre=rng(lo, hi, m))
    T.case('toHexString[0]', 'jm::Integer::toHexString(long)', [V(const(0, 64))], lambda q, v: {'ret': [const(48, 16)]})
    def hexval(q, s):
        v = const(0, 64)
        for c in s:
            if q.within(c, 48, 57): d = add(zext(c, 64), const(-48, 64))
            elif q.within(c, 65, 70): d = add(zext(c, 64), const(-55, 64))
            elif q.within(c, 97, 102): d = add(zext(c, 64), const(-87, 64))
            else: return None
            v = ('x', v, d)
        return v
    def flat(q, v):
        """16 * v + d, with the digit below 16"""
        if isinstance(v, tuple): return add(mulc(flat(q, v[1]), 16), v[2])
        return v
    for n in (1, 2, 3):
        so = ('str', 's', n, 16, False)
        def sp(q, s):
            v = hexval(q, s)
            return None if v is None else flat(q, v)
        T.case('fromHex[%d]' % n, 'jm::Integer::fromHex(jm::String const&)', [so], sp)
    for n in (8, 9, 16):
        for i in range(n):
            cs = [const(ord('7'), 16)] * n; cs[i] = sym('c', 16)
            T.case('fromHex[%d at %d]' % (n, i), 'jm::Integer::fromHex(jm::String const&)', [('str', 's', n, 16, False, cs)], sp)
    for b, n in ((0, 1), (1, 2), (2, 2), (0, 4)):
        T.case('fromHex(%d,%d)' % (b, n), 'jm::Integer::fromHex(jm::String const&, unsigned int, unsigned int)', [('str', 's', 4, 16, False), ('int', b, 32), ('int', n, 32)],
               lambda q, s, b, n: sp(q, s[b:b + n]))
    # decimal text to number
    for n in list(range(0, 5)) + [9, 10, 11, 18] + ([19] if deep else []):
        for s in (0, 1):
            cs = ([minus] if s else []) + [sym('s[%d]' % i, 16) for i in range(n)]
            if n == 0 and s: continue
            def dig(A, st, n=n):
                for i in range(n): A.narrow(st, sym('s[%d]' % i, 16), 48, 57)
            def val(q, t, s=s):
                v = const(0, 64)
                for c in t[s:]: v = add(mulc(v, 10), add(zext(c, 64), const(-48, 64)))
                return neg(v) if s else v
            T.case('toInt[%s%d digits]' % ('-' * s, n), P + 'toInt() const', [('str', 's', len(cs), None, False, cs)], val, pre=dig)
    for n in (1, 2, 3):
        for i in range(n):
            def other(A, st, n=n, i=i):
                for j in range(n):
                    if j != i: A.narrow(st, sym('s[%d]' % j, 16), 48, 57)
            def val(q, s, i=i):
                if q.within(s[i], 48, 57): return None
                if i == 0 and q.eq(s[i], minus): return None
                return {'throw': True}
            T.case('toInt[refuses other characters %d/%d]' % (i, n), P + 'toInt() const', [('str', 's', n, 16, False)], val, pre=other, leak=False)
    low = lambda c: mkcall('lower', 16, [c])
    for n in (0, 3, 4, 5):
        T.case('toBool[%d]' % n, P + 'toBool() const', [('str', 's', n, 16, False)], lambda q, s: len(s) == 4 and all(q.eq(low(a), low(const(ord(b), 16))) for a, b in zip(s, 'true')))
    # letters: 1 = A .. 26 = Z, 27 = AA ..
    m = sym('m', 64); tot = 0
    for k in range(1, 8):
        lo = tot + 1; tot += 26 ** k
        def let(q, v, k=k):
            out = []; x = sub(m, const(1, 64))
            for j in range(k):
                out.append(add(trunc(q.A.widen(urem(x, const(26, 64)), 64, q.st, False), 16), const(65, 16)))
                x = sub(udiv(x, const(26, 64)), const(1, 64))
            return {'ret': out[::-1]}
        T.case('toLatinAlphabetString[%d letters]' % k, 'jm::Integer::toLatinAlphabetString(long)', [V(m)], let, pre=rng(lo, tot, m))
    ck.need(len({o[0].split('[')[0] for o in ck.obl}), 'conversions', 11)
    ck.counts['cases'] = T.n; ck.counts['paths'] = T.paths
