"""Questions about strings."""
from expr import *
from ai import ptr
from text import Text, IMAX, IMIN, Q
LEVEL = 'other'
RULE = ('every query is abstractly interpreted on strings of each small length with arbitrary characters (distinct strings and the same string twice, with and without '
        'remembered hash) and every position class including extreme ones; the result on every path is compared with the definition on sequences of characters; '
        'every access is checked against the extent of the storage')
EXPLANATION = RULE
ASSUMPTIONS = ['lengths up to the stated bound; characters, positions outside the string and remembered hashes are arbitrary', 'case mapping of a single character is an opaque function here (decided by T04)']
M1 = (1 << 64) - 1

def lower(c): return mkcall('lower', 16, [c])
def run(ck):
    T = Text(ck); deep = ck.tier == 'thorough'
    N = (0, 1, 2, 3) + ((4, 5) if deep else ()); M = (0, 1, 2) + ((3,) if deep else ())
    P = 'jm::String::'
    S = lambda n, name='s', h=False: ('str', name, n, None, h)
    I = lambda i: ('int', i)
    eqs = lambda q, s, a, p, f=lambda c: c: all(q.eq(f(s[a + j]), f(p[j])) for j in range(len(p)))
    def first(q, s, p, i):
        for a in range(max(i, 0), len(s) - len(p) + 1):
            if a < len(s) and eqs(q, s, a, p): return a
        return M1
    def last(q, s, p, i):
        for a in range(min(i, len(s) - len(p)), -1, -1):
            if eqs(q, s, a, p): return a
        return M1
    pos = lambda n: sorted({-1, 0, 1, n - 1, n, n + 1, IMAX, IMIN})
    for n in N:
        k = '[%d]' % n
        T.case('size' + k, P + 'size() const', [S(n)], lambda q, s: len(s))
        T.case('isEmpty' + k, P + 'isEmpty() const', [S(n)], lambda q, s: len(s) == 0)
        for h in (False, True):
            def hv(q, s, n=n, h=h): return q.A.widen(sym('hash(s)', 32) if h else T.hashof(s), 64, q.st, True)
            T.case('hashCode%s%s' % (k, ' remembered' * h), P + 'hashCode()', [S(n, h=h)], hv)
            T.case('constHashCode%s%s' % (k, ' remembered' * h), P + 'constHashCode() const', [S(n, h=h)], hv)
        T.case('count' + k, P + 'count(jm::Char) const', [S(n), ('char', 'c')], lambda q, s, c: sum(q.eq(x, c) for x in s))
        T.case('indexOf(c)' + k, P + 'indexOf(jm::Char) const', [S(n), ('char', 'c')], lambda q, s, c: first(q, s, [c], 0))
        T.case('lastIndexOf(c)' + k, P + 'lastIndexOf(jm::Char) const', [S(n), ('char', 'c')], lambda q, s, c: last(q, s, [c], IMAX))
        for i in pos(n):
            T.case('charAt(%d)%s' % (i, k), P + 'charAt(long) const', [S(n), I(i)], lambda q, s, i: s[i] if 0 <= i < len(s) else {'throw': True})
            T.case('indexOf(c,%d)%s' % (i, k), P + 'indexOf(jm::Char, long) const', [S(n), ('char', 'c'), I(i)], lambda q, s, c, i: first(q, s, [c], i))
            T.case('lastIndexOf(c,%d)%s' % (i, k), P + 'lastIndexOf(jm::Char, long) const', [S(n), ('char', 'c'), I(i)],
                   lambda q, s, c, i: {'throw': True} if i >= len(s) else last(q, s, [c], max(i, 0)) if s else M1)
        for m in sorted(set(M) | ({n} if n < 4 else set())):
            km = '[%d,%d]' % (n, m); ops = [S(n), S(m, 'p')]; al = [(0, 1)] if m == n else []
            T.case('startsWith' + km, P + 'startsWith(jm::String const&) const', ops, lambda q, s, p: len(p) <= len(s) and eqs(q, s, 0, p), alias=al)
            T.case('endsWith' + km, P + 'endsWith(jm::String const&) const', ops, lambda q, s, p: len(p) <= len(s) and eqs(q, s, len(s) - len(p), p), alias=al)
            T.case('indexOf(s)' + km, P + 'indexOf(jm::String const&) const', ops, lambda q, s, p: first(q, s, p, 0), alias=al)
            T.case('lastIndexOf(s)' + km, P + 'lastIndexOf(jm::String const&) const', ops, lambda q, s, p: last(q, s, p, len(s) - 1), alias=al)
            same = lambda q, s, p, f=lambda c: c: len(s) == len(p) and eqs(q, s, 0, p, f)
            T.case('equals' + km, P + 'equals(jm::String const&) const', ops, same, alias=al)
            T.case('==' + km, 'jm::operator==(jm::String const&, jm::String const&)', ops, same, method=False, alias=al)
            T.case('!=' + km, 'jm::operator!=(jm::String const&, jm::String const&)', ops, lambda q, s, p: not same(q, s, p), method=False, alias=al)
            T.case('equalsIgnoreCase' + km, P + 'equalsIgnoreCase(jm::String const&) const', ops, lambda q, s, p: same(q, s, p, lower), alias=al)
            def cmp(q, s, p):
                for a, b in zip(s, p):
                    if not q.eq(a, b): return -1 if q.lt(a, b) else 1
                return (len(s) > len(p)) - (len(s) < len(p))
            T.case('compareTo' + km, P + 'compareTo(jm::String const&) const', ops, lambda q, s, p: cmp(q, s, p) & 0xffffffff, alias=al)
            T.case('<' + km, 'jm::operator<(jm::String const&, jm::String const&)', ops, lambda q, s, p: cmp(q, s, p) < 0, method=False, alias=al)
            for i in pos(n):
                T.case('indexOf(s,%d)%s' % (i, km), P + 'indexOf(jm::String const&, long) const', ops + [I(i)], lambda q, s, p, i: first(q, s, p, i), alias=al)
                T.case('lastIndexOf(s,%d)%s' % (i, km), P + 'lastIndexOf(jm::String const&, long) const', ops + [I(i)], lambda q, s, p, i: last(q, s, p, i), alias=al)
                aop = [S(n), I(i), S(m, 'p')]; aal = [(0, 2)] if m == n else []
                T.case('atIs(%d)%s' % (i, km), P + 'atIs(long, jm::String const&)', aop, lambda q, s, i, p: 0 <= i <= len(s) - len(p) and eqs(q, s, i, p), alias=aal)
                T.case('atIsIgnoreCase(%d)%s' % (i, km), P + 'atIsIgnoreCase(long, jm::String const&)', aop, lambda q, s, i, p: 0 <= i <= len(s) - len(p) and eqs(q, s, i, p, lower), alias=aal)
    # search strings that overlap themselves
    for n, m in ((4, 3), (5, 2), (5, 3), (6, 3), (6, 4)) + (((7, 4), (8, 3)) if deep else ()):
        km = '[%d,%d]' % (n, m); ops = [S(n), S(m, 'p')]
        T.case('indexOf(s)' + km, P + 'indexOf(jm::String const&) const', ops, lambda q, s, p: first(q, s, p, 0))
        T.case('lastIndexOf(s)' + km, P + 'lastIndexOf(jm::String const&) const', ops, lambda q, s, p: last(q, s, p, len(s) - 1))
        T.case('indexOf(s,1)' + km, P + 'indexOf(jm::String const&, long) const', ops + [I(1)], lambda q, s, p, i: first(q, s, p, i))
        T.case('lastIndexOf(s,%d)%s' % (n - m, km), P + 'lastIndexOf(jm::String const&, long) const', ops + [I(n - m)], lambda q, s, p, i: last(q, s, p, i))
    # longer strings for the operations whose number of paths stays linear
    for n in (8, 17) + ((33,) if deep else ()):
        k = '[%d]' % n; same = lambda q, s, p, f=lambda c: c: len(s) == len(p) and eqs(q, s, 0, p, f)
        T.case('size' + k, P + 'size() const', [S(n)], lambda q, s: len(s))
        T.case('hashCode' + k, P + 'hashCode()', [S(n)], lambda q, s: q.A.widen(T.hashof(s), 64, q.st, True))
        T.case('constHashCode' + k, P + 'constHashCode() const', [S(n)], lambda q, s: q.A.widen(T.hashof(s), 64, q.st, True))
        T.case('indexOf(c)' + k, P + 'indexOf(jm::Char) const', [S(n), ('char', 'c')], lambda q, s, c: first(q, s, [c], 0))
        T.case('lastIndexOf(c)' + k, P + 'lastIndexOf(jm::Char) const', [S(n), ('char', 'c')], lambda q, s, c: last(q, s, [c], IMAX))
        T.case('indexOf(s)[%d,1]' % n, P + 'indexOf(jm::String const&) const', [S(n), S(1, 'p')], lambda q, s, p: first(q, s, p, 0))
        T.case('lastIndexOf(s)[%d,1]' % n, P + 'lastIndexOf(jm::String const&) const', [S(n), S(1, 'p')], lambda q, s, p: last(q, s, p, len(s) - 1))
        for m in (n, n - 1, n + 1):
            km = '[%d,%d]' % (n, m); ops = [S(n), S(m, 'p')]
            T.case('startsWith' + km, P + 'startsWith(jm::String const&) const', ops, lambda q, s, p: len(p) <= len(s) and eqs(q, s, 0, p))
            T.case('endsWith' + km, P + 'endsWith(jm::String const&) const', ops, lambda q, s, p: len(p) <= len(s) and eqs(q, s, len(s) - len(p), p))
            T.case('equals' + km, P + 'equals(jm::String const&) const', ops, same)
            T.case('equalsIgnoreCase' + km, P + 'equalsIgnoreCase(jm::String const&) const', ops, lambda q, s, p: same(q, s, p, lower))
            T.case('compareTo' + km, P + 'compareTo(jm::String const&) const', ops, lambda q, s, p: cmp(q, s, p) & 0xffffffff)
            T.case('<' + km, 'jm::operator<(jm::String const&, jm::String const&)', ops, lambda q, s, p: cmp(q, s, p) < 0, method=False)
    ck.need(len({o[0].split('[')[0].split('(')[0] for o in ck.obl}), 'query operations', 18)
    ck.counts['cases'] = T.n; ck.counts['paths'] = T.paths
