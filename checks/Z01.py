"""ZipFile: entries and their content are those of the archive; damaged archives are rejected."""
from expr import *
from ai import ptr, obj, isptr, State, Limit
from ir import Anchor
from text import Bad, every, consistent
from world import Files, C, show, EXC
LEVEL = 'other'
RULE = ('ZipFile is abstractly interpreted on archives whose numbers are put at every boundary and whose texts and data are arbitrary bytes, with a stream that may fail to open and may deliver less than asked for: on every path entries, '
        'sizes, comment and data are those a reader written from the format finds, archives it rejects are rejected, every access stays inside the storage, everything allocated is given back')
EXPLANATION = RULE
ASSUMPTIONS = ['archives up to the stated size', 'File transports bytes (decided by F02)', 'Inflater produces what the compressed data describe or throws (decided by X01)', 'the encoding of names is decided by C02']

def u16(v): return [v & 255, v >> 8 & 255]
def u32(v): return [v >> 8 * i & 255 for i in range(4)]
def b(s): return list(s.encode('utf-8'))
def local(name, data, method=0, extra=(), size=None, sig=0x04034b50, csize=None):
    return u32(sig) + u16(20) + u16(0) + u16(method) + u16(0x6020) + u16(0x5040) + u32(0x11223344) + u32(len(data) if csize is None else csize) + u32(len(data) if size is None else size) + u16(len(name)) + u16(len(extra)) + list(name) + list(extra)
def record(name, data, at, method=0, extra=(), comment=(), size=None):
    return (u32(0x02014b50) + u16(0x0314) + u16(20) + u16(0) + u16(method) + u16(0x6121) + u16(0x5141) + u32(0x11223344) + u32(len(data)) + u32(len(data) if size is None else size) + u16(len(name)) + u16(len(extra)) + u16(len(comment))
            + u16(0x7171) + u16(0x7272) + u32(0x73737373) + u32(at) + list(name) + list(extra) + list(comment))
def ending(n, size, at, comment=()): return u32(0x06054b50) + u16(0) + u16(0) + u16(n) + u16(n) + u32(size) + u32(at) + u16(len(comment)) + list(comment)
def archive(entries, comment=(), first=(), lextra=()):
    """entries: (name, data, method, size, extra, comment)"""
    d = list(first); rec = []
    for name, data, method, size, extra, com in entries:
        rec += record(name, data, len(d), method, extra, com, size)
        d += local(name, data, method, lextra, 0 if method else None, csize=0 if method else None) + list(data)
    return d + rec + ending(len(entries), len(rec), len(d), comment)

class Broken(Exception): pass
def number(d, i, n):
    if i < 0 or i + n > len(d): raise Broken
    x = d[i:i + n]
    if any(not isinstance(v, int) for v in x): raise Limit('a number of the archive')
    return sum(v << 8 * k for k, v in enumerate(x))
def read(d):
    """(entries, comment); an entry: name, size, function that returns (method, bytes) or raises"""
    if not d: return [], []
    k = len(d) - 22
    while k >= 0:
        if d[k:k + 4] == u32(0x06054b50): break
        k -= 1
    if k < 0: raise Broken
    n, size, at, cl = number(d, k + 10, 2), number(d, k + 12, 4), number(d, k + 16, 4), number(d, k + 20, 2)
    if at + size > k or k + 22 + cl > len(d): raise Broken
    out = []; i = at; end = at + size
    for _ in range(n):
        if i + 46 > end or number(d, i, 4) != 0x02014b50: raise Broken
        nl, el, kl = (number(d, i + o, 2) for o in (28, 30, 32)); c, u, h = number(d, i + 20, 4), number(d, i + 24, 4), number(d, i + 42, 4)
        if i + 46 + nl + el + kl > end: raise Broken
        out.append((d[i + 46:i + 46 + nl], u, c, h)); i += 46 + nl + el + kl
    return out, d[k + 22:k + 22 + cl]
def content(d, e):
    name, u, c, h = e
    if number(d, h, 4) != 0x04034b50: raise Broken
    m = number(d, h + 8, 2); at = h + 30 + number(d, h + 26, 2) + number(d, h + 28, 2)
    if at + c > len(d) or m not in (0, 8) or m == 0 and c != u: raise Broken
    return m, d[at:at + c]

def archives(deep):
    """name, data, the names of the entries whose data are asked for"""
    n = 0
    def v(k, what='data'): return [sym('%s[%d]' % (what, i), 8) for i in range(k)]
    yield 'empty file', []
    yield 'no entries', ending(0, 0, 0)
    yield 'no entries, comment', ending(0, 0, 0, v(3))
    yield 'something in front', [7, 7, 7] + ending(0, 0, 3)
    for k in (0, 1, 3): yield 'one stored entry of %d bytes' % k, archive([(b('a'), v(k), 0, None, (), ())])
    yield 'name of arbitrary characters', archive([(v(2, 'name'), v(1), 0, None, (), ())])
    yield 'extra fields and comments', archive([(b('x/y'), v(2), 0, None, b('EXT'), b('note')), (b('b'), v(1, 'more'), 0, None, b('E'), ())], b('all'), (), b('LX'))
    yield 'something between', archive([(b('x'), v(2), 0, None, (), ()), (b('d/'), [], 0, None, (), ()), (b('d/e'), v(1, 'more'), 0, None, (), ())], (), b('MZ..'))
    yield 'characters beyond ASCII', archive([(b('\xe4\u20ac/'), v(2), 0, None, b('E'), b('\xdf')), (b('z\xe4'), v(1, 'more'), 0, None, (), ())], b('\u20ac'))
    yield 'a name without characters', archive([([], v(1), 0, None, (), ())])
    yield 'the same name twice', archive([(b('a'), v(1), 0, None, (), ()), (b('a'), v(1, 'more'), 0, None, (), ())])
    for u in (0, 1, 3): yield 'deflated entry of %d bytes' % u, archive([(b('a'), v(2), 8, u, (), ()), (b('b'), v(1, 'more'), 0, None, (), ())], (), (), b('LX'))
    yield 'the signature in front of the directory', archive([(b('a'), u32(0x06054b50) + [1] * 30, 0, None, (), ())])
    for m in (1, 7, 9, 12, 0xFFFF, 0x100, 0x800): yield 'compression method %d' % m, archive([(b('a'), v(2), m, 2, (), ())])
    good = archive([(b('a'), b('xy'), 0, None, b('E'), b('C')), (b('bc'), b('zw.'), 8, 2, (), ())]); L = len(good)
    d0 = next(i for i in range(L) if good[i:i + 4] == u32(0x02014b50)); d1 = next(i for i in range(d0 + 1, L) if good[i:i + 4] == u32(0x02014b50)); e = L - 22
    for k in (1, 4, 21, 22, 30, e, e + 4, L - 1): yield 'truncated to %d bytes' % k, good[:k]
    yield 'something behind', good + b('tail')
    for i in range(4):
        for nm, at in (('end', e), ('first record', d0), ('second record', d1), ('local header', 0)):
            d = list(good); d[at + i] ^= 1 << (2 * i); yield 'signature of the %s, byte %d' % (nm, i), d
    def put(at, n, x): d = list(good); d[at:at + n] = [x >> 8 * i & 255 for i in range(n)]; return d
    for x in (0, 1, 3, 0xFF, 0x100, 0xFFFF): yield 'number of entries %d' % x, put(e + 10, 2, x)
    S = e - d0
    for x in (0, d1 - d0 + 45, d1 - d0 + 46, d1 - d0 - 1, S - 1, S + 1, S + 22, L, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x100000000 - d0): yield 'size of the directory %d' % x, put(e + 12, 4, x)
    for x in (0, d0 - 1, d0 + 1, d1, e, L - 1, L, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x100000000 - S): yield 'offset of the directory %d' % x, put(e + 16, 4, x)
    for x in (1, 2, 0xFFFF): yield 'length of the comment %d' % x, put(e + 20, 2, x)
    for nm, r in (('first', d0), ('second', d1)):
        for what, o in (('name', 28), ('extra field', 30), ('comment', 32)):
            for x in (0, 1, 2, 3, 4, 0x100, 0xFFFF): yield '%s record: length of the %s %d' % (nm, what, x), put(r + o, 2, x)
        for x in (0, 1, 3, L, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF): yield '%s record: compressed size %d' % (nm, x), put(r + 20, 4, x)
        for x in (0, 1, 3, 4, 0x100, 0xFFFFFFFF): yield '%s record: size %d' % (nm, x), put(r + 24, 4, x)
        for x in (1, d0, L - 30, L - 29, L - 4, L, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFE2): yield '%s record: offset %d' % (nm, x), put(r + 42, 4, x)
    for what, o in (('name', 26), ('extra field', 28)):
        for x in (0, 2, d0 - 33, L - 33, L - 32, L - 31, 0x8000, 0xFFFF): yield 'local header: length of the %s %d' % (what, x), put(o, 2, x)
    last = archive([(b('a'), b('xy'), 0, None, (), ())]); 
    # the data may reach up to the end of the file, and no further
    d0 = next(i for i in range(len(last)) if last[i:i + 4] == u32(0x02014b50)); t = len(last) - 31
    for x in (t, t + 1, t - 1): d = list(last); d[d0 + 20:d0 + 28] = u32(x) + u32(x); yield 'data of %d bytes' % x, d

def run(ck):
    mod = ck.mod; deep = ck.tier == 'thorough'
    X = Files(ck); T = X.T; Z = 'jm::ZipFile::'; M = T.models
    fn = lambda n: mod.dem(Z + n)
    F = dict(new=fn('ZipFile(jm::Stream*)'), open=fn('open()'), close=fn('close()'), comment=fn('comment()'), entry=fn('entry(jm::String const&)'), count=fn('entryCount() const'), stream=fn('stream(jm::ZipEntry const*)'),
             name=mod.dem('jm::ZipEntry::name() const'), size=mod.dem('jm::ZipEntry::uncompressedSize() const'), dir=mod.dem('jm::ZipEntry::isDirectory() const'))
    F['del'] = [g for g in mod.fns.values() if g.dem == Z + '~ZipFile()' and not g.decl and 'D0Ev' not in g.name][0]
    F['drop'] = [g for g in mod.fns.values() if g.dem == 'jm::MemoryStream::~MemoryStream()' and not g.decl and 'D0Ev' in g.name][0]
    F['it'] = fn('entryIterator()'); F['hasnext'] = mod.dem('jm::LinkedListIterator::hasNext() const') if any(g.dem == 'jm::LinkedListIterator::hasNext() const' for g in mod.fns.values()) else mod.dem('jm::LinkedListIterator::hasNext()')
    F['next'] = mod.dem('jm::LinkedListIterator::next()')
    S = {nm: off for nm, off, sz, ty in mod.fields('jm::MemoryStream')}
    where = {k: '%s:%s' % (f.file, f.line) for k, f in F.items()}
    # Inflater: what X01 decides
    def m_inf(A, st, av, x): st.event('inflater', str(A.split(av[0])[0]), A.resolve(av[1], st)); return [(st, 'ret', None)]
    def m_input(A, st, av, x):
        n = A.resolve(av[2], st)
        if not isc(n): raise Limit('the number of compressed bytes')
        st.event('input', str(A.split(av[0])[0]), tuple(A.load(st, add(av[1], const(i, 64)), 1) for i in range(cv(n)))); return [(st, 'ret', None)]
    def m_inflate(A, st, av, x):
        f = str(A.split(av[0])[0]); ev = st.events(); i = [e for e in ev if e[0] == 'input' and e[1] == f]; w = [e for e in ev if e[0] == 'inflater' and e[1] == f]
        if not i: raise Bad('nothing is given to Inflater')
        if not w or not isc(w[-1][2]) or not cv(w[-1][2]): raise Bad('Inflater expects a zlib header')
        r = []; want = X.want
        for k in sorted({want, max(want - 1, 0), want + 1}):
            if k > 64: continue
            s = st.copy(); T.n += 1; h = T.heap(A, 'inflated', k); s.event('new', '_Znam', h, None, x)
            for j in range(k): A.store(s, add(h, const(j, 64)), sym('inflated[%d]' % j, 8), 1)
            s.event('inflated', i[-1][2], k); A.store(s, av[1], h, 8); A.store(s, av[2], const(k, 64), 8); r.append((s, 'ret', None))
        s = st.copy(); s.event('corrupt'); r.append((s, 'throw', EXC))
        return r
    for f in mod.fns.values():
        if f.dem == 'jm::Inflater::Inflater(bool)': M[f.name] = m_inf
        elif f.dem == 'jm::Inflater::SetInput(unsigned char*, long)': M[f.name] = m_input
        elif f.dem == 'jm::Inflater::Inflate(unsigned char*&, long&)': M[f.name] = m_inflate
        elif f.dem == 'jm::Inflater::~Inflater()': M[f.name] = lambda A, st, av, x: [(st, 'ret', None)]
    total = 0
    def story(key, data):
        nonlocal total
        bad = []; und = None; A, s0 = X.begin(); done = set(); mine = set()
        d = [x if isinstance(x, E) else const(x, 8) for x in data]
        for x in d:
            if not isc(x): A.narrow(s0, x, 1, 127); X.back[x] = zext(x, 16)
        def outs(k, args, s):
            nonlocal total
            r = []
            for o in A.run(F[k], args, s):
                if o.kind == 'noreturn' or not consistent(A, o.st): continue
                total += 1; r.append(o)
            return r
        def one(k, args, s):
            o = outs(k, args, s)
            if any(q.kind != 'ret' for q in o): raise Bad('%s throws' % k)
            if len(o) != 1: raise Limit('%s has %d outcomes' % (k, len(o)))
            return A.resolve(o[0].val, o[0].st) if o[0].val is not None else None, o[0].st
        def string(k, this, s):
            r = X.obj(A, s, 'r%d' % len(s.events())); _, s = one(k, [r, this], s)
            q = A.load(s, add(r, const(T.S['mValue'], 64)), 8, True)
            if not isc(q): mine.add(A.split(q)[0])
            return [A.resolve(c, s) for c in T.read_string(A, s, r, k)[0]], s
        def text(t): return X.chars([const(c, 8) if isinstance(c, int) else c for c in t])
        def same(s, a, w): return len(a) == len(w) and all(x is A.resolve(y, s) or A.decide(s, icmp('eq', x, y)) is True for x, y in zip(a, w))
        def failed(s, mark): return [e[0] for e in s.events()[mark:] if e[0] in ('openfail', 'short')]
        def null(v): return isc(v) and cv(v) == 0
        def gone(s, h): return h in {A.split(e[2])[0] for e in s.events() if e[0] == 'delete' and not isc(e[2])}
        def finish(s, what):
            for o in outs('del', [z], s):
                if o.kind != 'ret': bad.append('the destructor throws')
                l = X.leak(A, o.st, mine)
                if l: bad.append('%s: %s' % (what, l))
        try:
            f = X.file(A, s0, 'archive', 'a.zip', d); z = X.obj(A, s0, 'zip'); _, s0 = one('new', [z, f], s0)
            try: want, com = read(data)
            except Broken: want = None
            def check(s, again):
                """everything of an archive that is open"""
                v, s = one('count', [z], s)
                if not isc(v) or cv(v) != len(want): bad.append('%s entries instead of %d' % (v, len(want))); return
                t, s = string('comment', z, s)
                if not same(s, t, text(com)): bad.append('the comment is "%s"' % show(t))
                # the iterator delivers the entries in their order
                it = X.obj(A, s, 'iterator%d' % again); _, s = one('it', [it, z], s); es = []
                for w in want:
                    h, s = one('hasnext', [it], s)
                    if not isc(h) or not cv(h): bad.append('the iterator ends early'); return
                    p, s = one('next', [it], s); es.append(p)
                    t, s = string('name', p, s)
                    if not same(s, t, text(w[0])): bad.append('an entry is named "%s"' % show(t))
                    u, s = one('size', [p], s)
                    if not isc(u) or cv(u) != w[1]: bad.append('the size of an entry is %s instead of %d' % (u, w[1]))
                    slash = icmp('eq', text(w[0])[-1], const(47, 16)) if w[0] else FALSE
                    for o in outs('dir', [p], s.copy()):
                        if o.kind != 'ret': bad.append('isDirectory throws'); continue
                        g = A.resolve(o.val, o.st); k = A.decide(o.st, slash)
                        if not isc(g) or k is None: raise Limit('isDirectory')
                        if bool(cv(g)) != k: bad.append('isDirectory of "%s" is %s' % (show(text(w[0])), bool(cv(g))))
                h, s = one('hasnext', [it], s)
                if not isc(h) or cv(h): bad.append('the iterator delivers more entries')
                seen = []
                for w, p in zip(want, es):
                    if w[0] in seen: continue
                    seen.append(w[0])
                    for o in outs('entry', [z, X.string(A, s, text(w[0]), 'name%d%d' % (again, len(seen)))], s.copy()):
                        if o.kind != 'ret' or A.resolve(o.val, o.st) is not p: bad.append('entry("%s") is not the entry of this name' % show(text(w[0])))
                o = outs('entry', [z, X.string(A, s, C('none'), 'none%d' % again)], s.copy())
                if any(q.kind != 'ret' or not null(A.resolve(q.val, q.st)) for q in o): bad.append('an entry is found that does not exist')
                o = outs('stream', [z, const(0, 64)], s.copy())
                if any(q.kind != 'ret' or not null(A.resolve(q.val, q.st)) for q in o): bad.append('a stream is returned for an entry that does not exist')
                for w, p in zip(want, es):
                    try: m, cs = content(data, w)
                    except Broken: m = None
                    X.want = w[1]
                    for o in outs('stream', [z, p], s.copy()):
                        mark = len(s.events()); ev = o.st.events()[mark:]
                        inf = [e for e in ev if e[0] == 'inflated']
                        wrong = m is None or failed(o.st, mark) or any(e[0] == 'corrupt' for e in ev) or inf and inf[-1][2] != w[1]
                        if inf and m == 8 and not failed(o.st, mark) and (len(inf[-1][1]) != len(cs) or any(A.resolve(x, o.st) is not (const(y, 8) if isinstance(y, int) else A.resolve(y, o.st)) for x, y in zip(inf[-1][1], cs))): bad.append('other data are inflated')
                        if o.kind != 'ret':
                            if not wrong: bad.append('the data of "%s" are rejected' % show(text(w[0])))
                            done.add('error'); finish(o.st, 'after an error'); continue
                        if wrong: bad.append('data are returned though %s' % ('the archive is damaged' if m is None else 'they cannot be read completely' if failed(o.st, mark) else 'the compressed data are damaged')); continue
                        done.add('data')
                        r = A.resolve(o.val, o.st); n = A.resolve(A.load(o.st, add(r, const(S['mStreamlength'], 64)), 8), o.st); pos = A.resolve(A.load(o.st, add(r, const(S['mPosition'], 64)), 8), o.st); q = A.load(o.st, add(r, const(S['mStream'], 64)), 8, True)
                        if not isc(n) or cv(n) != w[1]: bad.append('a stream of %s bytes instead of %d' % (n, w[1])); continue
                        if not isc(pos) or cv(pos): bad.append('the stream is not at its beginning')
                        bs = cs if m == 0 else [sym('inflated[%d]' % j, 8) for j in range(w[1])]
                        if m == 8 and not inf: bad.append('nothing is inflated')
                        g = [A.resolve(A.load(o.st, add(q, const(i, 64)), 1), o.st) for i in range(w[1])] if w[1] else []
                        for i, (x, y) in enumerate(zip(g, bs)):
                            y = const(y, 8) if isinstance(y, int) else A.resolve(y, o.st)
                            if x is not y: bad.append('byte %d of "%s" is %s instead of %s' % (i, show(text(w[0])), x, y)); break
                        _, s2 = one('drop', [r], o.st); finish(s2, 'with a stream')
                return s
            for o in outs('open', [z], s0):
                why = failed(o.st, 0)
                if o.kind != 'ret':
                    if want is not None and not why: bad.append('the archive is rejected')
                    done.add('rejected'); finish(o.st, 'after an error'); continue
                if why or want is None: bad.append('no error though %s' % ('the archive is damaged' if not why else 'the file cannot be %s' % ('opened' if 'openfail' in why else 'read'))); continue
                done.add('open'); s = check(o.st, 0)
                if s is None: continue
                for q in outs('close', [z], s.copy()):
                    if q.kind != 'ret': bad.append('close throws'); continue
                    if X.mode(q.st, X.fid(A, f)) is not None: bad.append('the file is left open')
                    finish(q.st, 'after closing'); mark = len(q.st.events())
                    # the object is used again
                    for r in outs('open', [z], q.st.copy()):
                        if r.kind == 'ret':
                            v, s3 = one('count', [z], r.st)
                            if not isc(v) or cv(v) != len(want): bad.append('%s entries instead of %d after opening again' % (v, len(want)))
                            finish(s3, 'after opening again')
                        elif not failed(r.st, mark): bad.append('the archive is rejected when it is opened again')
            if not bad and (want is not None and 'open' not in done or 'rejected' not in done): und = 'not every outcome is reached: %s' % sorted(done)
        except Bad as e: bad.append(str(e))
        except Limit as e: und = str(e)
        if bad: und = None
        ck.analysed |= A.analysed
        ck.ob(key, None if und else not bad, where['open'], und or '; '.join(list(dict.fromkeys(bad))[:3]))
    n = 0
    for key, data in archives(deep):
        n += 1; story(key, data)
    ck.need(n, 'archives', 60); ck.counts['paths'] = total
