"""Edits of strings and strings derived from strings."""
from expr import *
from ai import ptr
from text import Text, IMAX, IMIN, Q
LEVEL = 'other'
RULE = ('every edit and derivation is abstractly interpreted on strings of each small length, at and over the capacity of the storage, with arbitrary characters and a '
        'remembered hash; receiver and argument distinct and the same string; the content of every string afterwards is compared with the definition on sequences; '
        'storage extents, double release, leaks, sharing between strings and the remembered hash are checked on every path')
EXPLANATION = RULE
ASSUMPTIONS = ['lengths up to the stated bound (and exactly at the capacity of 16); characters and positions outside the string are arbitrary', 'case mapping and white space of a single character are opaque functions here (decided by T04)']

def run(ck):
    T = Text(ck); deep = ck.tier == 'thorough'
    P = 'jm::String::'
    N = (0, 1, 2, 3) + ((4, 5, 6) if deep else ())
    big = [(15, 16), (16, 16), (17, 32)]
    shapes = [(n, None) for n in N] + big
    S = lambda n, name='s', cap=None, h=True: ('str', name, n, cap or max(16, (n + 15) // 16 * 16), h)
    I = lambda i: ('int', i)
    C = lambda n='c': ('char', n)
    A0 = lambda name='s': ptr(sym('&' + name, 64, True))
    pos = lambda n: sorted({-1, 0, 1, n - 1, n, n + 1, IMAX, IMIN})
    thr = {'throw': True}
    for n, cap in shapes:
        k = '[%d]' % n; s1 = S(n, cap=cap)
        T.case('append(c)' + k, P + 'append(jm::Char)', [s1, C()], lambda q, s, c: {'s': s + [c]})
        T.case('<<c' + k, 'jm::operator<<(jm::String&, jm::Char const&)', [s1, C()], lambda q, s, c: {'s': s + [c], 'ret': A0()})
        T.case('clear' + k, P + 'clear()', [s1], lambda q, s: {'s': []})
        T.case('zero' + k, P + 'zero()', [s1], lambda q, s: {'s': []})
        T.case('copy' + k, P + 'String(jm::String const&)', [('raw', 't'), s1], lambda q, t, s: {'t': s})
        T.case('destroy' + k, P + '~String()', [s1], lambda q, s: {'s': 'gone'})
        T.case('toWString' + k, P + 'toWString() const', [s1], lambda q, s: {'ret': s}, ret='wide')
        T.case('reverse' + k, P + 'reverse() const', [s1], lambda q, s: {'ret': s[::-1]})
        T.case('toLowerCase' + k, P + 'toLowerCase() const', [s1], lambda q, s: {'ret': [mkcall('lower', 16, [c]) for c in s]})
        T.case('toUpperCase' + k, P + 'toUpperCase() const', [s1], lambda q, s: {'ret': [mkcall('upper', 16, [c]) for c in s]})
        if n <= 6:
            T.case('replace(c,c)' + k, P + 'replace(jm::Char, jm::Char) const', [s1, C('o'), C('w')], lambda q, s, o, w: {'ret': [w if q.eq(c, o) else c for c in s]})
            def trim(q, s):
                ws = [q.true(mkcall('space', 1, [c])) for c in s]
                a, b = 0, len(s)
                while a < b and ws[a]: a += 1
                while b > a and ws[b - 1]: b -= 1
                return {'ret': s[a:b]}
            T.case('trim' + k, P + 'trim() const', [s1], trim)
        for i in pos(n):
            T.case('setCharAt(%d)%s' % (i, k), P + 'setCharAt(long, jm::Char)', [s1, I(i), C()], lambda q, s, i, c: {'s': s[:i] + [c] + s[i + 1:]} if 0 <= i < len(s) else thr)
            T.case('insert(%d,c)%s' % (i, k), P + 'insert(long, jm::Char)', [s1, I(i), C()], lambda q, s, i, c: {'s': s[:i] + [c] + s[i:]} if 0 <= i <= len(s) else thr)
            T.case('deleteCharAt(%d)%s' % (i, k), P + 'deleteCharAt(long)', [s1, I(i)], lambda q, s, i: {'s': s[:i] + s[i + 1:]} if 0 <= i < len(s) else thr)
            T.case('substring(%d)%s' % (i, k), P + 'substring(long) const', [s1, I(i)], lambda q, s, i: {'ret': s[max(i, 0):]})
            for j in pos(n) if n <= 6 else (0, 2, n, IMAX):
                kk = '(%d,%d)%s' % (i, j, k)
                T.case('substring' + kk, P + 'substring(long, long) const', [s1, I(i), I(j)], lambda q, s, i, j: {'ret': s[max(i, 0):max(max(i, 0), min(j, len(s)))]})
                T.case('deleteCharRangeAt' + kk, P + 'deleteCharRangeAt(long, long)', [s1, I(i), I(j)],
                       lambda q, s, i, j: {'s': s[:i] + s[i + j:]} if 0 <= i <= len(s) and 0 <= j <= len(s) - i else thr)
        for m in sorted({0, 1, 2, n} | ({3, 15, 16, 17, 33} if n in (3, 16) else set())):
            km = '[%d,%d]' % (n, m); s2 = S(m, 'p'); al = [(0, 1)] if m == n else []
            al2 = [(0, 2)] if m == n else []
            T.case('append(s)' + km, P + 'append(jm::String const&)', [s1, s2], lambda q, s, p: {'s': s + p}, alias=al)
            T.case('+=' + km, P + 'operator+=(jm::String const&)', [s1, s2], lambda q, s, p: {'s': s + p, 'ret': A0()}, alias=al)
            T.case('<<s' + km, 'jm::operator<<(jm::String&, jm::String const&)', [s1, s2], lambda q, s, p: {'s': s + p, 'ret': A0()}, alias=al)
            T.case('=' + km, P + 'operator=(jm::String const&)', [s1, s2], lambda q, s, p: {'s': p, 'ret': A0()}, alias=al)
            T.case('+' + km, 'jm::operator+(jm::String const&, jm::String const&)', [s1, s2], lambda q, s, p: {'ret': s + p}, alias=al)
            for i in pos(n): T.case('insert(%d,s)%s' % (i, km), P + 'insert(long, jm::String const&)', [s1, I(i), s2], lambda q, s, i, p: {'s': s[:i] + p + s[i:]} if 0 <= i <= len(s) else thr, alias=al2)
    s1, s2 = ('str', 's'), ('str', 'p')
    T.capacity('append(c)[any length]', P + 'append(jm::Char)', [s1, ('x', sym('c', 16))], lambda L: {'s': add(L['s'], const(1, 64))})
    T.capacity('append(s)[any length]', P + 'append(jm::String const&)', [s1, s2], lambda L: {'s': add(L['s'], L['p']), 'p': L['p']})
    T.capacity('+=[any length]', P + 'operator+=(jm::String const&)', [s1, s2], lambda L: {'s': add(L['s'], L['p']), 'p': L['p']})
    T.capacity('+[any length]', 'jm::operator+(jm::String const&, jm::String const&)', [s1, s2], lambda L: {'ret': add(L['s'], L['p']), 'p': L['p'], 's': L['s']})
    T.capacity('=[any length]', P + 'operator=(jm::String const&)', [s1, s2], lambda L: {'s': L['p'], 'p': L['p']})
    T.capacity('copy[any length]', P + 'String(jm::String const&)', [('raw', 't'), s2], lambda L: {'t': L['p'], 'p': L['p']})
    T.capacity('clear[any length]', P + 'clear()', [s1], lambda L: {'s': const(0, 64)})
    i, j = sym('i', 64), sym('j', 64)
    T.capacity('substring[any length]', P + 'substring(long, long) const', [s1, ('x', i), ('x', j)], lambda L: {'s': L['s']})
    T.capacity('toWString[any length]', P + 'toWString() const', [s1], lambda L: {'s': L['s']})
    def repl(q, s, o, w):
        out = []; i = 0
        if not o: return {'ret': s}
        while i < len(s):
            if i + len(o) <= len(s) and all(q.eq(s[i + j], o[j]) for j in range(len(o))): out += w; i += len(o)
            else: out.append(s[i]); i += 1
        return {'ret': out}
    for n in (0, 1, 2, 3) + ((4,) if deep else ()):
        for m in (0, 1, 2, 3):
            for r in (0, 1, 2) + ((5,) if deep else ()):
                T.case('replace(s,s)[%d,%d,%d]' % (n, m, r), P + 'replace(jm::String const&, jm::String const&) const', [S(n), S(m, 'o'), S(r, 'w')], repl,
                       alias=([(0, 1)] if n == m else []) + ([(0, 2)] if n == r else []) + ([(1, 2)] if m == r else []))
    for n, m, r in ((4, 2, 1), (5, 2, 3), (5, 3, 1)) + (((6, 3, 2), (6, 2, 0)) if deep else ()):
        T.case('replace(s,s)[%d,%d,%d]' % (n, m, r), P + 'replace(jm::String const&, jm::String const&) const', [S(n), S(m, 'o'), S(r, 'w')], repl)
    # place markers
    pats = ['', 'a', '%', 'a%', '%x', '%1', 'a%1b', '%1%2', '%2%1', '%3a%2b%1c', '%12', '%12%3', '%3%12', '%1%1', '%%1', '%9%10', '%x%4', '%99', '%10', 'a%10b', 'ab%2', '%0%1', '12%', '%12x%11']
    def marker(t):
        best = None; i = 0
        while i < len(t) - 1:
            if t[i] == '%' and t[i + 1].isdigit():
                j = i + 2
                if j < len(t) and t[j].isdigit(): j += 1
                if best is None or int(t[i + 1:j]) < best[0]: best = (int(t[i + 1:j]), i, j)
            i += 1
        return best
    def chars(t): return [const(ord(c), 16) if not c.isalpha() else sym("'%s'" % c, 16) for c in t]
    def other(t):
        def pre(A, st):
            for c in t:
                if c.isalpha():
                    x = sym("'%s'" % c, 16)
                    A.assume(st, icmp('eq', x, const(37, 16)), False); A.assume(st, icmp('ult', x, const(0x3A, 16)), False)
        return pre
    import re
    nd = [f.dem for f in ck.mod.fns.values() if f.dem.startswith('jm::String::arg(')]
    for t in pats:
        b = marker(t); cs = chars(t)
        for fw in (0, 1, 3, -1, -3, 5) if t in ('a%1b', '%2%1', 'a') else (0, 2):
            def spec(q, s, v, fw, fc, b=b):
                if b is None: return {'ret': s}
                pad = [fc] * max(0, abs(fw) - len(v))
                return {'ret': s[:b[1]] + (pad if fw > 0 else []) + v + (pad if fw < 0 else []) + s[b[2]:]}
            k = "(%d)['%s']" % (fw, t)
            so = ('str', 's', len(t), 16, True, cs)
            for m in (0, 2) if fw or t == 'a%1b' else (1,):
                T.case('arg(s)%s,%d' % (k, m), P + 'arg(jm::String const&, long, jm::Char) const', [so, S(m, 'v'), I(fw), C('fill')], spec, pre=other(t), alias=[(0, 1)] if m == len(t) else [])
            T.case('arg(c)' + k, P + 'arg(jm::Char, long, jm::Char) const', [so, C('v'), I(fw), C('fill')], lambda q, s, v, fw, fc, spec=spec: spec(q, s, [v], fw, fc), pre=other(t))
            for ty, bits_, vs in (('long', 64, (0, -1, 42, IMAX, IMIN)), ('int', 32, (0, -7, 2147483647, -2147483648)), ('unsigned int', 32, (0, 4294967295)), ('unsigned long', 64, (0, 10, (1 << 64) - 1))):
                if not (fw in (0, 3) and t in ('a%1b', 'a', '%2%1')): continue
                for v in vs:
                    T.case('arg(%s %d)%s' % (ty, v, k), P + 'arg(%s, long, jm::Char) const' % ty, [so, ('int', v, bits_), I(fw), C('fill')],
                           lambda q, s, v, fw, fc, spec=spec: spec(q, s, [const(ord(c), 16) for c in str(v)], fw, fc), pre=other(t))
    # numbers and other text appended
    dig = lambda v: [const(ord(c), 16) for c in str(v)]
    for n, cap in ((0, None), (2, None), (15, 16)):
        so = S(n, cap=cap)
        for v in (0, 7, -1, 42, IMAX, IMIN):
            op = ('cell', 'v', const(v, 64)); k = '(%d)[%d]' % (v, n)
            T.case('number+' + k, 'jm::operator+(long&, jm::String const&)', [op, so], lambda q, v, s: {'ret': dig(sv(v)) + s})
            T.case('+number' + k, 'jm::operator+(jm::String const&, long&)', [so, op], lambda q, s, v: {'ret': s + dig(sv(v))})
            T.case('<<number' + k, 'jm::operator<<(jm::String&, long const&)', [so, op], lambda q, s, v: {'s': s + dig(sv(v)), 'ret': A0()})
        for ty, w, vs in (('int', 32, (0, -5, 2147483647, -2147483648)), ('unsigned int', 32, (0, 9, 4294967295)), ('unsigned long', 64, (0, 10, (1 << 64) - 1))):
            for v in vs:
                T.case('<<%s(%d)[%d]' % (ty, v, n), 'jm::operator<<(jm::String&, %s const&)' % ty, [so, ('cell', 'v', const(v, w))], lambda q, s, x, v=v: {'s': s + dig(v), 'ret': A0()})
    for n in (0, 1, 3, 16, 17):
        T.case('from characters[%d]' % n, P + 'String(unsigned short const*, long)', [('raw', 't'), ('wide', 'w', n), ('int', n)], lambda q, t, w, n: {'t': w})
    ck.need(len({o[0].split('[')[0].split('(')[0] for o in ck.obl}), 'edit operations', 20)
    ck.counts['cases'] = T.n; ck.counts['paths'] = T.paths
