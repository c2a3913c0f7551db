"""Byte arrays."""
from expr import *
from ai import ptr
from text import Text, IMAX, IMIN
LEVEL = 'other'
RULE = ('every operation is abstractly interpreted on arrays of each small size (exactly filled, with spare room whose old content is arbitrary, and null), with arbitrary bytes; operands distinct and '
        'the same array; content, termination, capacity, sharing and release of the storage and every access are compared with the definition on sequences of bytes on every path')
EXPLANATION = RULE
ASSUMPTIONS = ['sizes up to the stated bound; bytes, and the numbers outside of the array, are arbitrary', 'index arguments of get, set and [] are inside the array (the interface leaves them unchecked)']

def run(ck):
    T = Text(ck); deep = ck.tier == 'thorough'
    P = 'jm::ByteArray::'
    N = (0, 1, 2, 3) + ((4, 5) if deep else ())
    shapes = [(n, c) for n in N for c in (None, n + 2)] + [(0, 'null')]
    B = lambda n, c=None, name='b': ('bytes', name, n) + ((c,) if c is not None else ())
    I = lambda i, w=64: ('int', i, w)
    CH = ('any', sym('c', 8)); c = sym('c', 8)
    Y = lambda name: ('any', sym(name, 8))
    RAW = ('raw', 't', 'bytes')
    Z = const(0, 8)
    def owns(t): return lambda q, *a: {'t': t(*a[1:])}
    def null(v): return lambda q, b: v
    # -- construction
    T.case('ByteArray()', P + 'ByteArray()', [RAW], lambda q, t: {'t': []})
    for sg in ('signed char', 'unsigned char'):
        d = P + 'ByteArray(%s const*, long)' % sg
        for n in N:
            T.case('%s[%d]' % (d, n), d, [RAW, ('cstr', 'p', n, 0, True), I(n)], lambda q, t, p, i: {'t': p})
            T.case('%s[%d] shorter' % (d, n), d, [RAW, ('cstr', 'p', n + 1, 1, True), I(n)], lambda q, t, p, i: {'t': p[:i]})
            for m in (-1, IMIN):
                def text(q, t, p, i):
                    k = 0
                    while k < len(p) and not q.eq(p[k], 0): k += 1
                    return {'t': p[:k]}
                T.case('%s[%d] terminated (%d)' % (d, n, m), d, [RAW, ('cstr', 'p', n, 1, True), I(m)], text)
        T.case(d + ' null', d, [RAW, ('int', 0), I(3)], lambda q, t, p, i: {'t': []})
    for n in N:
        T.case('ByteArray(%d, c)' % n, P + 'ByteArray(long, unsigned char)', [RAW, I(n), CH], lambda q, t, n, c: {'t': [c] * n})
        T.case('ByteArray{%d}' % n, P + 'ByteArray(std::initializer_list<unsigned char>)', [RAW, ('cstr', 'p', n, 0, True), I(n)], lambda q, t, p, n: {'t': p})
    for n, cap in shapes:
        k = '[%d%s]' % (n, '' if cap is None else ' of %s' % cap); b = B(n, cap)
        T.case('copy' + k, P + 'ByteArray(jm::ByteArray const&)', [RAW, b], lambda q, t, b: {'t': b})
        T.case('destroy' + k, P + '~ByteArray()', [b], lambda q, b: {'b': 'gone'})
        T.case('size' + k, P + 'size() const', [b], lambda q, b: len(b))
        T.case('isEmpty' + k, P + 'isEmpty() const', [b], lambda q, b: len(b) == 0)
        T.case('isNull' + k, P + 'isNull() const', [b], null(cap == 'null'))
        if cap != 'null':
            at = lambda A, o, home: None if o.val is home['b'] else 'gives %s instead of the storage' % o.val
            T.case('data' + k, P + 'data()', [b], lambda q, b: {'ret': at})
            T.case('constData' + k, P + 'constData() const', [b], lambda q, b: {'ret': at})
        T.case('fill' + k, P + 'fill(unsigned char)', [b, CH], lambda q, b, c: {'b': [c] * len(b)})
        def srt(q, b):
            b = list(b)
            for i in range(1, len(b)):
                j = i
                while j and q.true(icmp('ult', b[j], b[j - 1])): b[j - 1], b[j] = b[j], b[j - 1]; j -= 1
            return {'b': b}
        if n <= 4: T.case('sort' + k, P + 'sort()', [b], srt)
        T.case('replace(o,w)' + k, P + 'replace(unsigned char, unsigned char)', [b, Y('o'), Y('w')], lambda q, b, o, w: {'b': [w if q.eq(x, o) else x for x in b]})
        for i in range(n):
            T.case('get(%d)%s' % (i, k), P + 'get(long) const', [b, I(i)], lambda q, b, i: b[i])
            T.case('[%d]%s const' % (i, k), P + 'operator[](long) const', [b, I(i)], lambda q, b, i: b[i])
            def ref(i): return lambda A, o, home: None if o.val is add(home['b'], const(i, 64)) else 'refers to %s' % o.val
            T.case('[%d]%s' % (i, k), P + 'operator[](long)', [b, I(i)], lambda q, b, i: {'ret': ref(i)})
            T.case('set(%d)%s' % (i, k), P + 'set(long, unsigned char)', [b, I(i), CH], lambda q, b, i, c: {'b': b[:i] + [c] + b[i + 1:]})
        for m in sorted({0, 1, n - 1, n, n + 1, n + 2, n + 3, n + 9}):
            if m < 0: continue
            T.case('resize(%d)%s' % (m, k), P + 'resize(long)', [b, I(m)], lambda q, b, m: {'b': (b + [Z] * m)[:m]})
        for m, c2 in [(0, None), (1, None), (2, None), (n, None), (n + 1, n + 2), (0, 'null')]:
            o = B(m, c2, 'o'); km = k + '[%d%s]' % (m, '' if c2 is None else ' of %s' % c2)
            al = [(0, 1)] if m == n and c2 is None else []
            T.case('=' + km, P + 'operator=(jm::ByteArray const&)', [b, o], lambda q, b, o: {'b': o, 'ret': ptr(sym('&b', 64, True))}, alias=al)
            T.case('==' + km, 'jm::operator==(jm::ByteArray const&, jm::ByteArray const&)', [b, o], lambda q, b, o: len(b) == len(o) and all(q.eq(x, y) for x, y in zip(b, o)), alias=al)
            for t in sorted({-1, 0, 1, n - 1, n, n + 1, IMAX}):
                for s in sorted({-1, 0, 1, m, m + 1, IMAX}):
                    for l in (0, 1, 2, n, IMAX, -1):
                        def rep(q, b, t, s, o, l):
                            if t < 0 or s < 0: return {'b': b}
                            r = max(0, min(l, len(b) - t, len(o) - s))
                            return {'b': b[:t] + o[s:s + r] + b[t + r:]}
                        if not deep and (t == IMAX) + (s == IMAX) + (l == IMAX) > 1: continue
                        T.case('replace(%d,%d,%d)%s' % (t, s, l, km), P + 'replace(long, long, jm::ByteArray const&, long)', [b, I(t), I(s), o, I(l)], rep, alias=[(0, 3)] if al else [])
    ck.need(T.n, 'operations x shapes', 400); ck.counts['paths'] = T.paths
