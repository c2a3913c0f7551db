"""Streams: memory streams, the convenience functions of streams, resources."""
from expr import *
from ai import AI, State, ptr, isptr, obj, Limit, sinterval, nonneg_proof
from ir import Anchor
from text import Text, Bad, nodes, IMAX, IMIN
import models
LEVEL = 'other'
RULE = ('every stream operation is abstractly interpreted on buffers of each small size at every position with arbitrary bytes, for lengths and targets inside, at and beyond the limits up to the extreme '
        'integers: transferred bytes, result, position, remaining content and every access are compared with the definition; for buffers of any size the transfer and positioning operations are '
        'interpreted once with symbolic size, position and argument and compared case by case through linear inequalities; a resource is interpreted on an opaque stream: same call, same arguments, same result, and balanced references')
EXPLANATION = RULE
ASSUMPTIONS = ['the buffer handed to a stream has the stated size', 'a resource has a backing stream (always so on this platform)']
MS = 'jm::MemoryStream::'; Z = const(0, 64)

def run(ck):
    mod = ck.mod; T = Text(ck); deep = ck.tier == 'thorough'
    F = {n: (o, s) for n, o, s, t in mod.fields('jm::MemoryStream')}
    for n in ('mStream', 'mStreamOwner', 'mStreamlength', 'mPosition', 'mWritelength'):
        if n not in F: raise Anchor('MemoryStream has no %s' % n)
    fld = lambda a, n: add(a, const(F[n][0], 64))
    for f in mod.fns.values():
        if f.dem in ('jm::Object::Object()', 'jm::Object::~Object()'): T.models[f.name] = models.m_nop
    text = {'n': 0}
    def m_cstr(ai, st, av, x):
        h = T.place_bytes(ai, st, av[0], 'utf8', [sym('utf8[%d]' % i, 8) for i in range(text['n'])])
        st.event('new', '_Znam', h, None, x)
        return [(st, 'ret', None)]
    n = 0
    for f in mod.fns.values():
        if f.dem == 'jm::String::toCString() const' or f.dem.startswith('jm::String::toCString(jm::CharsetEncoder'): T.models[f.name] = m_cstr; n += 1
    # -- every operation on small buffers
    def place(A, st, a, name, n, pos=0, wr=0, owner=0):
        A.store(st, a, add(obj('global', T.vtable('jm::MemoryStream')), const(16, 64)), 8)
        h = T.heap(A, name, n)
        cs = [sym('%s[%d]' % (name, i), 8) for i in range(n)]
        for i, c in enumerate(cs): A.store(st, add(h, const(i, 64)), c, 1)
        rest = [const(pos, 64), const(wr, 64), const(owner, 8)]
        A.store(st, fld(a, 'mStream'), h, 8); A.store(st, fld(a, 'mStreamlength'), const(n, 64), 8)
        for x, v in zip(('mPosition', 'mWritelength', 'mStreamOwner'), rest): A.store(st, fld(a, x), v, v.w // 8)
        return cs + rest, h
    def read(A, st, a, what):
        b, d, o = A.split(A.load(st, fld(a, 'mStream'), 8, True))
        n = T.num(A, st, fld(a, 'mStreamlength'), 'size of ' + what)
        if b in st.freed or b.op != 'obj' or d is not None or o: raise Bad('%s does not refer to its buffer' % what)
        if A.size.get(b) != n: raise Bad('%s has %d bytes but a buffer of %s' % (what, n, A.size.get(b)))
        return [A.load(st, add(b, const(i, 64)), 1) for i in range(n)] + [A.resolve(A.load(st, fld(a, x), s), st) for x, s in (('mPosition', 8), ('mWritelength', 8), ('mStreamOwner', 1))], b, None
    T.kinds['mem'] = (place, read, None)
    N = (0, 1, 2, 3) + ((4, 5) if deep else ())
    I = lambda i: ('int', i, 64)
    at = lambda p: const(p, 64)
    def amount(n, p, l): return max(0, min(l, n - p))
    for n in N:
        for p in range(n + 1):
            S = ('mem', 's', n, p, p); key = '[%d at %d]' % (n, p)
            moved = lambda s, to: s[:-3] + [at(to)] + s[-2:]
            for l in sorted({-1, 0, 1, n - p - 1, n - p, n - p + 1, n + 1, IMIN, IMAX, IMAX - p}):
                B = ('block', 'b', max(0, min(l, n + 2))); k = amount(n, p, l)
                T.case('read(%d)%s' % (l, key), MS + 'read(unsigned char*, long)', [S, B, I(l)], lambda q, s, b, l, k=k, p=p: {'s': moved(s, p + k), 'b': s[p:p + k] + b[k:], 'ret': k})
                T.case('write(%d)%s' % (l, key), MS + 'write(unsigned char const*, long)', [S, B, I(l)],
                       lambda q, s, b, l, k=k, p=p: {'s': s[:p] + b[:k] + s[p + k:-3] + [at(p + k), at(p + k), s[-1]], 'ret': k})
                for m in sorted({0, 1, 2, n}):
                    T.case('readFully(%d, %d)%s' % (m, l, key), MS + 'readFully(jm::ByteArray&, long)', [S, ('bytes', 'b', m), I(l)],
                           lambda q, s, b, l, k=amount(n, p, min(l, m)), p=p: {'s': moved(s, p + k), 'b': s[p:p + k] + b[k:], 'ret': k})
            for m in range(n + 2):
                k = amount(n, p, m)
                T.case('readFully(%d)%s' % (m, key), 'jm::Stream::readFully(jm::ByteArray&)', [S, ('bytes', 'b', m)], lambda q, s, b, k=k, p=p: {'s': moved(s, p + k), 'b': s[p:p + k] + b[k:], 'ret': k})
                text['n'] = m
                T.case('write(text %d)%s' % (m, key), 'jm::Stream::write(jm::String const&)', [S, ('str', 't', 1)],
                       lambda q, s, t, k=k, p=p: {'s': s[:p] + [sym('utf8[%d]' % i, 8) for i in range(k)] + s[p + k:-3] + [at(p + k), at(p + k), s[-1]], 'ret': k})
            for t in sorted({IMIN, IMIN + p, -n - 1, -p - 1, -p, -1, 0, 1, n - p - 1, n - p, n - 1, n, n + 1, IMAX - p, IMAX}):
                T.case('seek(%d)%s' % (t, key), MS + 'seek(long)', [S, I(t)], lambda q, s, t, n=n, p=p: {'s': moved(s, t if 0 <= t < n else p)})
                T.case('move(%d)%s' % (t, key), MS + 'move(long)', [S, I(t)], lambda q, s, t, n=n, p=p: {'s': moved(s, p + t if 0 <= p + t < n else p)})
            T.case('position' + key, MS + 'position()', [S], lambda q, s, p=p: p)
            T.case('size' + key, MS + 'size() const', [S], lambda q, s, n=n: n)
            T.case('isOpen' + key, MS + 'isOpen()', [S], lambda q, s: True)
            T.case('close' + key, MS + 'close()', [S], lambda q, s: {'s': moved(s, 0)})
            T.case('buffer' + key, MS + 'buffer()', [S], lambda q, s: {'ret': lambda A, o, home: None if A.resolve(o.val, o.st) is home['s'] else 'gives %s instead of the buffer' % o.val})
            for m in (0, 1, 2): T.case('open(%d)%s' % (m, key), MS + 'open(jm::FileMode)', [S, ('int', m, 32)], lambda q, s, m: {'s': s[:-3] + [Z, Z, s[-1]], 'ret': const(1, 32)})
        for own in (0, 1):
            T.case('MemoryStream(%d, %d)' % (n, own), MS + 'MemoryStream(unsigned char*, long, bool)', [('raw', 't', 'mem'), ('block', 'b', n), I(n), ('int', own, 1)],
                   lambda q, t, b, l, o: {'t': b + [Z, Z, const(o, 8)]})
            T.case('~MemoryStream(%d, %d)' % (n, own), MS + '~MemoryStream()', [('mem', 's', n, 0, 0, own)], lambda q, s, own=own: {'s': 'gone' if own else s})
    ck.need(T.n, 'operations x shapes', 300); ck.counts['paths'] = T.paths
    anysize(ck, T, F)
    resources(ck, T)

def anysize(ck, T, F):
    """size, position and argument are numbers: 0 <= position <= size; the result of every path equals the definition in each of its cases"""
    mod = ck.mod; n = sym('size', 64); p = sym('position', 64); l = sym('argument', 64)
    this = ptr(sym('stream', 64, True)); D = ptr(sym('content', 64, True)); buf = ptr(sym('buffer', 64, True)); fld = lambda x: add(this, const(F[x][0], 64))
    one = const(1, 64); rest = sub(n, p); to = add(p, l)
    # cases: conditions (each >= 0) and the value
    amount = [([neg(l)], Z), ([neg(rest)], Z), ([sub(l, one), sub(rest, l)], l), ([sub(rest, one), sub(sub(l, rest), one)], rest)]
    seek = [([neg(add(l, one))], p), ([l, sub(n, add(l, one))], l), ([sub(l, n)], p)]
    move = [([neg(add(to, one))], p), ([to, sub(n, add(to, one))], to), ([sub(to, n)], p)]
    big = lambda f: {'read(unsigned char*, long)': ('r', amount), 'write(unsigned char const*, long)': ('w', amount), 'seek(long)': ('s', seek), 'move(long)': ('s', move)}[f]
    def wraps(c):
        """a comparison whose sides may leave the 64 bit range says nothing about the numbers"""
        for x in c.a:
            k, t = lin_parts(x); lo = hi = signed(k, 64)
            for y, m in t.items():
                m = signed(m, 64); a, b = sinterval(y, st); lo += min(m * a, m * b); hi += max(m * a, m * b)
            if lo < IMIN or hi > IMAX: return True
        return False
    for name in ('read(unsigned char*, long)', 'write(unsigned char const*, long)', 'seek(long)', 'move(long)'):
        kind, cases = big(name); f = mod.dem(MS + name, strict=False)
        if f is None: raise Anchor('no ' + name)
        A = AI(mod, T.models, unroll=3); st = State(); copies = []
        A.narrow(st, n, 0, 1 << 40); A.narrow(st, p, 0, 1 << 40); A.assume(st, icmp('slt', n, p), False)
        A.store(st, this, add(obj('global', T.vtable('jm::MemoryStream')), const(16, 64)), 8)
        for x, v in (('mStream', D), ('mStreamlength', n), ('mPosition', p)): A.store(st, fld(x), v, 8)
        cm = A.copymem
        def copymem(st, dst, src, k, ins=None):
            st.event('copy', dst, src, k)
        A.copymem = copymem
        bad = []; und = None
        try: outs = A.run(f, [this, buf, l] if kind != 's' else [this, l], st)
        except Limit as e: outs = []; und = str(e)
        ck.analysed |= A.analysed
        for o in outs:
            if o.kind != 'ret': bad.append('does not return'); continue
            st = o.st.copy()
            st.facts = {c: v for c, v in st.facts.items() if not (isinstance(c, E) and c.op in ('slt', 'ult') and wraps(c))}
            now = A.resolve(A.load(o.st, fld('mPosition'), 8), o.st)
            cp = [e for e in o.st.events() if e[0] == 'copy']
            def never(conds):
                s2 = st.copy()
                for c in conds: A.assume(s2, icmp('slt', c, Z), False)
                return any(nonneg_proof(A, s2, neg(add(c, one))) for c in conds), s2
            atoms = set()
            for g in list(o.st.facts) + [now, o.val] + [e[3] for e in cp]:
                if isinstance(g, E): atoms |= {x for x in nodes(g, set()) if x.op in ('slt', 'ult') and x.a[0].w == 64 and not wraps(x)}
            def deciding(s2, left):
                """every way to decide the comparisons that the case leaves open"""
                if not left: yield s2; return
                c = left[0]; d = s2.facts.get(c)
                for v in (True, False) if d is None else (d,):
                    s3 = s2.copy(); A.assume(s3, c, v)
                    g = sub(c.a[0], c.a[1]) if v else sub(sub(c.a[1], c.a[0]), one)
                    if nonneg_proof(A, s2, g): continue
                    yield from deciding(s3, left[1:])
            def final(g, s2):
                for _ in range(3): g = A.resolve(subst(g, {c: TRUE if v else FALSE for c, v in s2.facts.items() if isinstance(c, E) and c.w == 1}), s2)
                return g
            for conds, want in cases:
                imp, s2 = never(conds)
                if imp: continue
                for s3 in deciding(s2, sorted(atoms, key=lambda c: c.id)):
                    if any((lambda r: isc(r) and bool(cv(r)) != v)(subst(c, {x: TRUE if y else FALSE for x, y in s3.facts.items() if isinstance(x, E) and x.op in ('slt', 'ult')})) for c, v in st.facts.items() if isinstance(c, E) and c.w == 1 and c.op in ('and', 'or', 'not', 'select')): continue
                    for c, v in list(s3.facts.items()):
                        if isinstance(c, E) and c.op == 'slt' and any(x.op == 'select' for y in c.a for x in nodes(y, set())):
                            r = icmp('slt', final(c.a[0], s3), final(c.a[1], s3))
                            if not isc(r) and not (r.op == 'slt' and wraps(r)): A.assume(s3, r, v)
                    if any(nonneg_proof(A, s3, neg(add(c, one))) for c in conds): continue
                    def eq(g, w, what):
                        nonlocal und
                        g = final(g, s3)
                        if g is w or (nonneg_proof(A, s3, sub(g, w)) and nonneg_proof(A, s3, sub(w, g))): return
                        und = 'cannot show that %s %s is %s when %s are not negative' % (what, g, w, ', '.join(map(str, conds)))
                    if kind == 's': eq(now, want, 'the position'); continue
                    eq(o.val, want, 'the result'); eq(sub(final(now, s3), p), want, 'the advance')
                    tot = Z
                    for e in cp:
                        tot = add(tot, final(e[3], s3)); inside = add(D, p)
                        a, b = (e[1], e[2]) if kind == 'r' else (e[2], e[1])
                        if a is not buf or b is not inside: bad.append('copies from %s to %s' % (e[2], e[1]))
                    if len(cp) > 1: und = 'several copies'
                    eq(tot, want, 'the number of bytes transferred')
        key = name.split('(')[0] + ' [any size]'
        if und and not bad: ck.notes.setdefault('not shown for every size (only for the enumerated ones)', []).append('%s: %s' % (key, und[:300]))
        else: ck.ob(key, not bad, '%s:%s' % (f.file, f.line), '; '.join(dict.fromkeys(bad)))

def resources(ck, T):
    mod = ck.mod; R = 'jm::Resource::'; off = mod.off('jm::Resource', 'mStream')
    base = dict(T.models)
    def ev(k):
        def f(ai, st, av, x):
            st.event(k, av[0]); return [(st, 'ret', av[0] if k == 'retain' else None)]
        return f
    for f in mod.fns.values():
        if f.dem == 'jm::Object::retain()': base[f.name] = ev('retain')
        elif f.dem == 'jm::Object::release()': base[f.name] = ev('release')
    base['__dynamic_cast'] = models.dyncast
    this, other = [ptr(sym(x, 64, True)) for x in ('resource', 'other')]; S, S2 = [ptr(sym(x, 64, True)) for x in ('backing', 'backing2')]
    def where(f): return '%s:%s' % (f.file, f.line)
    def need(dem):
        f = mod.dem(R + dem, strict=False)
        if f is None: raise Anchor('no ' + R + dem)
        return f
    def slots(sname): return {o for c in ('jm::MemoryStream', 'jm::File') for o, f in models.vslot(mod, T.vtable(c), 16, sname) if o >= 0 and o < 400}
    n = 0
    for dem in ('size() const', 'open(jm::FileMode)', 'isOpen()', 'close()', 'read(unsigned char*, long)', 'readFully(jm::ByteArray&, long)', 'seek(long)', 'move(long)', 'position()', 'write(unsigned char const*, long)'):
        f = need(dem); A = AI(mod, base); args = A.argsyms(f); st = State(); n += 1
        A.store(st, add(args[0], const(off, 64)), S, 8); A.assume(st, icmp('eq', S, Z), False)
        bad = []
        for o in A.run(f, args, st):
            if o.kind != 'ret': bad.append('does not return (%s)' % o.kind); continue
            calls = [e for e in o.st.events() if e[0] in ('icall', 'call')]
            ic = [e for e in calls if e[0] == 'icall']
            if len(ic) != 1: bad.append('makes %d calls to the backing stream' % len(ic)); continue
            t = ic[0][1]
            good = t.op == 'init' and t.a[1] in slots(dem.split('(')[0]) and t.a[0].op == 'init' and t.a[0].a[0] is S
            if not good: bad.append('calls another operation of the backing stream')
            if ic[0][2][0] is not S or list(ic[0][2][1:]) != list(args[1:]): bad.append('passes %s' % ', '.join(str(a) for a in ic[0][2]))
            if o.val is not None:
                v = o.val
                r = [leaf for leaf in leaves(v)]
                if not (v.op == 'sym' and 'indirect' in v.a[0] or len(r) == 1 and 'indirect' in str(r[0])): bad.append('gives %s instead of the result of the stream' % v)
            if A.load(o.st, add(args[0], const(off, 64)), 8, True) is not S: bad.append('exchanges the stream')
        ck.analysed |= A.analysed
        ck.ob('resource ' + dem, not bad, where(f), '; '.join(dict.fromkeys(bad)))
    def life(key, f, args, mine, its):
        """references held by the two resources before and after"""
        A = AI(mod, base); st = State(); bad = []
        for a, v in ((this, mine), (other, its)):
            A.assume(st, icmp('eq', a, Z), False)
            if v is not None: A.store(st, add(a, const(off, 64)), v, 8)
            if v is S or v is S2: A.assume(st, icmp('eq', v, Z), False)
        A.assume(st, icmp('eq', S, S2), False); A.assume(st, icmp('eq', this, other), False)
        for o in A.run(f, args, st):
            if o.kind != 'ret': bad.append('does not return (%s)' % o.kind); continue
            end = [None if key.startswith('~') and a is this else A.resolve(A.load(o.st, add(a, const(off, 64)), 8, True), o.st) for a in (this, other)]
            if args[-1] is this and len(args) == 2 and end[0] is not mine: bad.append('assignment to itself exchanges the stream')
            want = None if key.startswith('~') else mine if args[-1] is this else its
            if end[0] is not want: bad.append('ends with the stream %s instead of %s' % (end[0], want))
            if end[1] is not its and its is not None: bad.append('changes the other resource')
            for s in (S, S2):
                before = (mine is s) + (its is s); after = (end[0] is s) + (end[1] is s); k = before
                for e in o.st.events():
                    if e[0] in ('retain', 'release') and A.resolve(e[1], o.st) is s:
                        k += 1 if e[0] == 'retain' else -1
                        if k <= 0 and after: bad.append('releases a stream that is still used')
                if k != after: bad.append('holds %d references to a stream referred to by %d resources' % (k, after))
            for e in o.st.events():
                if e[0] in ('retain', 'release') and isc(e[1]): bad.append('%ss nothing' % e[0])
        ck.analysed |= A.analysed
        ck.ob('resource ' + key, not bad, where(f), '; '.join(dict.fromkeys(bad)))
    cp, asg, d = need('Resource(jm::Resource const&)'), need('operator=(jm::Resource const&)'), need('~Resource()')
    for its in (S, Z): life('copy %s' % its, cp, [this, other], None, its)
    for mine in (S, Z):
        life('~ %s' % mine, d, [this], mine, None)
        life('= itself %s' % mine, asg, [this, this], mine, None)
        for its in (S, S2, Z): life('= %s %s' % (mine, its), asg, [this, other], mine, its)
    ck.need(n, 'delegated operations', 10)
