"""ZipOutputFile: what is written is an archive with the entries and data that were put in."""
import zlib, itertools
from expr import *
from ai import ptr, obj, isptr, State, Limit
from ir import Anchor
from text import Bad, every, consistent
from world import Files, C, show, EXC, encode
import Z01
from Z01 import u16, u32, number, read, Broken
LEVEL = 'other'
RULE = ('ZipOutputFile is abstractly interpreted on sequences of calls whose data are arbitrary bytes, with files that may fail to open and may deliver less than asked for; on every path the content of the archive is taken apart by a reader '
        'written from the format: names, sizes, checksum and data of every entry, in the local header and in the directory, nothing else in the file; no other file is changed, everything is closed and given back')
EXPLANATION = RULE
ASSUMPTIONS = ['sequences up to the stated length', 'files take all bytes that are written to them', 'File transports bytes (decided by F02)', 'the encoding of names is decided by C02']

def crc32(bs):
    c = 0xFFFFFFFF
    for x in bs:
        c ^= x
        for _ in range(8): c = c >> 1 ^ (0xEDB88320 if c & 1 else 0)
    return c ^ 0xFFFFFFFF

def run(ck):
    mod = ck.mod; deep = ck.tier == 'thorough'
    X = Files(ck); T = X.T; Z = 'jm::ZipOutputFile::'; M = T.models
    fn = lambda n: mod.dem(Z + n)
    F = dict(new=fn('ZipOutputFile(jm::File*)'), open=fn('open()'), close=fn('close()'), end=fn('closeEntry()'), file=fn('writeAndClose(jm::File*)'), put=fn('putNextEntry(jm::ZipEntry*)'), write=fn('write(unsigned char*, long, long)'),
             entry=mod.dem('jm::ZipEntry::ZipEntry(jm::String const&)'), size=mod.dem('jm::ZipEntry::uncompressedSize() const'))
    gone = [g for g in mod.fns.values() if g.dem == Z + '~ZipOutputFile()' and not g.decl and 'D0Ev' not in g.name]
    if not gone: raise Anchor('no destructor of ZipOutputFile')
    F['del'] = gone[0]
    where = {k: '%s:%s' % (f.file, f.line) for k, f in F.items()}
    crcs = [g for g in mod.fns.values() if g.dem == 'CRC32(char const*, unsigned int)' and not g.decl]
    memo = {}
    def checksum(bs):
        """of these bytes: a number when they are known"""
        if all(isc(x) for x in bs): return const(crc32([cv(x) for x in bs]), 32)
        k = tuple(bs)
        if k not in memo: memo[k] = sym('crc%d' % len(memo), 32)
        return memo[k]
    def m_crc(A, st, av, x):
        n = A.resolve(av[1], st)
        if not isc(n): raise Limit('the checksum of %s bytes' % n)
        return [(st, 'ret', checksum([A.resolve(A.load(st, add(av[0], const(i, 64)), 1), st) for i in range(cv(n))]))]
    total = 0
    # ---- the checksum itself
    if crcs:
        bad = []; und = None; A, s0 = X.begin(); f = crcs[0]; n = 0
        def one(bs):
            nonlocal n, total
            A, s = X.begin(); p = T.heap(A, 'data', len(bs)); n += 1
            for i, x in enumerate(bs): A.store(s, add(p, const(i, 64)), const(x, 8), 1)
            o = [o for o in A.run(f, [p, const(len(bs), f.args[1].get('w') or 32)], s) if o.kind != 'noreturn']; total += len(o); ck.analysed.update(A.analysed)
            if len(o) != 1 or o[0].kind != 'ret': raise Limit('the checksum has several outcomes')
            v = A.resolve(o[0].val, o[0].st)
            if not isc(v): raise Limit('the checksum is %s' % v)
            if cv(v) != crc32(bs): bad.append('the checksum of %s is %08x instead of %08x' % (bs, cv(v), crc32(bs)))
        try:
            one([])
            for x in range(256): one([x])
            for k in range(2, 7):
                for i in range(k):
                    for j in range(8): one([1 << j if q == i else 0 for q in range(k)])
                one([0] * k); one([255] * k)
            one(list(b'123456789')); one(list(range(240, 256)) + list(range(20)))
        except Bad as e: bad.append(str(e))
        except Limit as e: und = str(e)
        if bad: und = None
        ck.ob('checksum', None if und else not bad, '%s:%s' % (f.file, f.line), und or '; '.join(bad[:3]))
        M[f.name] = m_crc; ck.counts['checksums'] = n
    # ---- archives
    class Go:
        def __init__(self):
            self.A, st = X.begin(); self.states = [st]; self.ended = []; self.bad = []; self.n = 0
        def step(self, k, args, fail=()):
            """every state; what throws (allowed only after one of the failures) is kept apart"""
            nonlocal total
            new = []
            for s in self.states:
                mark = len(s.events())
                for o in self.A.run(F[k], [a(self.A, s) if callable(a) else a for a in args], s):
                    if o.kind == 'noreturn' or not consistent(self.A, o.st): continue
                    total += 1; ev = [e[0] for e in o.st.events()[mark:] if e[0] in ('openfail', 'short')]
                    if o.kind != 'ret':
                        if not ev: self.bad.append('%s throws' % k)
                        self.ended.append(o.st); continue
                    if ev: self.bad.append('%s reports no error though %s' % (k, 'a file cannot be opened' if 'openfail' in ev else 'a file cannot be read completely')); continue
                    new.append(o.st)
            self.states = new
            if not new and not self.bad: raise Limit('%s never succeeds' % k)
    def story(key, at, body):
        g = Go(); und = None
        try: body(g)
        except Bad as e: g.bad.append(str(e))
        except Limit as e: und = str(e)
        ck.analysed.update(g.A.analysed)
        if g.bad: und = None
        ck.ob(key, None if und else not g.bad, where[at], und or '; '.join(list(dict.fromkeys(g.bad))[:3]))
    def dissect(g, s, path, want, what='the archive'):
        """want: (name, data)"""
        A = g.A; d = X.content(s, path)
        if d is None: g.bad.append('there is no archive'); return
        d = [A.resolve(x, s) for x in d]; d = [cv(x) if isc(x) else x for x in d]; bad = g.bad
        try:
            es, com = read(d)
            if com: bad.append('%s has a comment' % what)
            k = len(d) - 22
            if d[k:k + 4] != u32(0x06054b50): bad.append('something follows the end of the directory'); return
            if number(d, k + 8, 2) != len(want) or number(d, k + 10, 2) != len(want): bad.append('%s has %d entries instead of %d' % (what, number(d, k + 10, 2), len(want))); return
            if number(d, k + 4, 4): bad.append('%s has several parts' % what)
            at = number(d, k + 16, 4)
            if at + number(d, k + 12, 4) != k: bad.append('the directory does not end where it should')
            pos = 0; r = at
            for (n, u, c, h), (name, data) in zip(es, want):
                w = encode(name, {})
                def name_ok(x): return len(x) == len(w) and all((const(p, 8) if isinstance(p, int) else p) is A.resolve(q, s) for p, q in zip(x, w))
                if h != pos: bad.append('an entry begins at %d instead of %d' % (h, pos)); return
                if number(d, h, 4) != 0x04034b50: bad.append('no local header'); return
                nl, el = number(d, h + 26, 2), number(d, h + 28, 2)
                if not name_ok(d[h + 30:h + 30 + nl]): bad.append('the local header has another name')
                if not name_ok(n): bad.append('the directory has another name: %s' % n)
                b0 = h + 30 + nl + el
                crc = checksum([A.resolve(x, s) for x in data])
                for nm, o in (('local header', h + 6), ('directory', r + 8)):
                    if number(d, o, 2) & ~0x800: bad.append('flags in the %s' % nm)
                    if number(d, o + 2, 2): bad.append('method %d in the %s' % (number(d, o + 2, 2), nm))
                    for q, f in ((12, 'compressed size'), (16, 'size')):
                        if number(d, o + q, 4) != len(data): bad.append('%s %d instead of %d in the %s' % (f, number(d, o + q, 4), len(data), nm))
                    got = [const(x, 8) if isinstance(x, int) else x for x in d[o + 8:o + 12]]
                    for i, x in enumerate(got):
                        y = trunc(lshr(crc, const(8 * i, 32)), 8) if not isc(crc) else const(cv(crc) >> 8 * i, 8)
                        if not (x is y or bits(x) == bits(y) and None not in bits(x)): bad.append('another checksum in the %s' % nm); break
                if number(d, r + 34, 2): bad.append('an entry lies in another part')
                got = d[b0:b0 + len(data)]
                for i, (x, y) in enumerate(zip(got, data)):
                    y = A.resolve(y, s); y = cv(y) if isc(y) else y
                    if x is not y and x != y: bad.append('byte %d of the data is %s instead of %s' % (i, x, y)); break
                pos = b0 + len(data); r += 46 + len(n) + number(d, r + 30, 2) + number(d, r + 32, 2)
            if pos != at: bad.append('there is something between the entries and the directory')
        except Broken: bad.append('%s cannot be read' % what)
    def finish(g, objs, files, keep):
        """objects are destroyed; nothing is left"""
        nonlocal total
        for s in g.states + g.ended:
            ss = [s]
            for z in objs:
                nx = []
                for q in ss:
                    for o in g.A.run(F['del'], [z], q):
                        if o.kind == 'noreturn': continue
                        if o.kind != 'ret': g.bad.append('the destructor throws'); continue
                        nx.append(o.st)
                ss = nx
            for q in ss:
                total += 1
                l = X.leak(g.A, q, g.mine)
                if l: g.bad.append(l)
                for e in q.events():
                    if e[0] == 'content' and e[1] not in files and e[1] not in keep:
                        p = e[1]
                        if '/' in files[0] and not p.startswith(files[0][:files[0].rfind('/') + 1]) or '/' not in files[0] and '/' in p: g.bad.append('a file is written outside of the folder of the archive: %s' % p)
                        elif X.content(q, p) is not None and p not in keep: g.bad.append('the file %s is left' % p)
                for p, c in keep.items():
                    if any(e[0] == 'content' and e[1] == p for e in q.events()) and X.content(q, p) != c: g.bad.append('the file %s is changed' % p)
                if q not in g.ended and s in g.states:
                    for e in q.events():
                        if e[0] == 'open' and X.mode(q, e[1]) is not None: g.bad.append('a file is left open'); break
    # writing goes through arrays of the caller
    def source(g, data, off=0):
        A = g.A; h = T.heap(A, 'data', len(data) + off)
        for s in g.states:
            for i, x in enumerate(data): A.store(s, add(h, const(off + i, 64)), x, 1)
        return h
    def start(g, path='dir/a.zip', old=None, name='archive'):
        A = g.A; s = g.states[0]; g.mine = getattr(g, 'mine', set())
        f = X.file(A, s, name, path, old); z = X.obj(A, s, 'zip' + name); g.step('new', [z, f]); return z, f
    def entry(g, name):
        g.n += 1; e = X.obj(g.A, g.states[0], 'entry%d' % g.n)
        for s in g.states:
            for c in name:
                if not isc(c): g.A.narrow(s, c, 1, 127)
        k = g.n
        mark = [len(s.events()) for s in g.states]
        g.step('entry', [e, lambda A, s: X.string(A, s, name, 'name%d' % k)])
        for s in g.states:
            for ev in s.events():
                if ev[0] == 'new': g.mine.add(ev[2])      # storage of an entry belongs to the caller
        return e
    V = lambda n, k: [sym('%s[%d]' % (k, i), 8) for i in range(n)] if crcs else [const((17 * i + 31 * len(k) + 200) & 255, 8) for i in range(n)]
    B = lambda s: [const(ord(c) if isinstance(c, str) else c, 8) for c in s]
    def write(entries, path='dir/a.zip', old=None, keep=None, again=False):
        """entries: (name, list of pieces or ('file', data))"""
        def body(g, keep=keep):
            keep = dict(keep or {})
            for p, c in keep.items(): g.states[0].event('content', p, c)
            z, f = start(g, path, old)
            for turn in range(2 if again else 1):
                g.step('open', [z]); want = []
                for name, pieces in entries:
                    e = entry(g, name); g.step('put', [z, e])
                    if pieces[0:1] == ['file']:
                        data = pieces[1]
                        g.n += 1; src = None
                        for s in g.states: src = X.file(g.A, s, 'source%d' % g.n, 'other/in%d' % g.n, data); keep['other/in%d' % g.n] = tuple(data)
                        g.step('file', [z, src])
                    else:
                        for off, p in pieces:
                            a = source(g, p, off); g.step('write', [z, a, const(off, 64), const(len(p), 64)])
                        data = [x for _, p in pieces for x in p]
                        g.step('end', [z])
                    want.append((name, data))
                g.step('close', [z])
                for s in g.states: dissect(g, s, path, want)
            finish(g, [z], [path], keep)
        return body
    N = 6 if deep else 4
    S = [('no entries', 'close', write([]))]
    for n in range(N): S.append(('one entry of %d bytes' % n, 'end', write([(C('a'), [(0, V(n, 'x'))])])))
    S.append(('an entry nothing is written to', 'end', write([(C('a'), [])])))
    S.append(('several pieces', 'write', write([(C('a/b.txt'), [(0, V(2, 'x')), (3, V(1, 'y')), (0, []), (1, V(3, 'z'))])])))
    S.append(('name of arbitrary characters', 'put', write([([sym('name[%d]' % i, 16) for i in range(3)], [(0, V(1, 'x'))])])))
    S.append(('characters beyond ASCII', 'put', write([(C('a\xe4\u20ac'), [(0, V(2, 'x'))]), (C('\xdf'), ['file', V(1, 'y')])])))
    S.append(('known data', 'end', write([(C('a'), [(0, B([0, 255, 128, 10, 13, 26]))]), (C('b'), [(0, B('123456789'))])])))
    S.append(('three entries', 'close', write([(C('a'), [(0, V(2, 'x'))]), (C('dir/'), []), (C('dir/b'), [(0, V(3, 'y'))])])))
    for n in (0, 1, 3): S.append(('a file of %d bytes' % n, 'file', write([(C('f'), ['file', V(n, 'x')])])))
    S.append(('files and data', 'file', write([(C('f'), ['file', V(2, 'x')]), (C('g'), [(0, V(1, 'y'))]), (C('h'), ['file', V(1, 'z')])])))
    S.append(('data that look like an archive', 'close', write([(C('a'), [(0, B(u32(0x06054b50) + [0] * 18))]), (C('b'), [(0, V(1, 'x'))])])))
    S.append(('a longer file is replaced', 'open', write([(C('a'), [(0, V(1, 'x'))])], old=B(Z01.archive([(Z01.b('old'), [1] * 200, 0, None, (), ())])))))
    S.append(('a shorter file is replaced', 'open', write([(C('a'), [(0, V(1, 'x'))])], old=B('old'))))
    S.append(('an archive in the working folder', 'put', write([(C('a'), [(0, V(1, 'x'))])], path='a.zip')))
    S.append(('an archive in the root folder', 'put', write([(C('a'), [(0, V(1, 'x'))])], path='/a.zip')))
    S.append(('other files of the folder', 'put', write([(C('a'), [(0, V(1, 'x'))])], keep={'dir/jmzipdata.tmp': tuple(B('theirs')), 'dir/a': tuple(B('theirs')), 'dir/a.tmp': tuple(B('theirs'))})))
    S.append(('used again', 'open', write([(C('a'), [(0, V(2, 'x'))]), (C('b'), [(0, V(1, 'y'))])], again=True)))
    def two(g):
        """two archives of a folder are written at the same time"""
        z1, _ = start(g, 'dir/a.zip', None, 'first'); z2, _ = start(g, 'dir/b.zip', None, 'second')
        g.step('open', [z1]); g.step('open', [z2]); x, y = V(2, 'x'), V(3, 'y')
        e1, e2 = entry(g, C('a')), entry(g, C('bb'))
        g.step('put', [z1, e1]); a = source(g, x); g.step('write', [z1, a, const(0, 64), const(2, 64)])
        g.step('put', [z2, e2]); b = source(g, y); g.step('write', [z2, b, const(0, 64), const(3, 64)])
        g.step('end', [z1]); g.step('end', [z2]); g.step('close', [z1]); g.step('close', [z2])
        for s in g.states: dissect(g, s, 'dir/a.zip', [(C('a'), x)], 'the first archive'); dissect(g, s, 'dir/b.zip', [(C('bb'), y)], 'the second archive')
        finish(g, [z1, z2], ['dir/a.zip', 'dir/b.zip'], {})
    S.append(('two archives at once', 'put', two))
    def unfinished(g):
        z, f = start(g); g.step('open', [z]); e = entry(g, C('a')); g.step('put', [z, e]); a = source(g, V(2, 'x')); g.step('write', [z, a, const(0, 64), const(2, 64)])
        finish(g, [z], ['dir/a.zip'], {})
        g.bad = [b for b in g.bad if b != 'a file is left open']
    S.append(('an entry that is not closed', 'del', unfinished))
    n = 0
    for key, at, body in S: n += 1; story(key, at, body)
    ck.need(n, 'sequences', 15); ck.counts['paths'] = total
