"""Files by their content: File and Stream are replaced by what F02 decides about them; texts are ASCII."""
from expr import *
from ai import ptr, obj, isptr, State, Limit
from text import Text, Bad, every, consistent
import models
C = lambda s: [const(ord(c), 16) for c in s]
B8 = lambda s: [const(c if isinstance(c, int) else ord(c), 8) for c in s]
def show(t): return ''.join(chr(cv(c)) if isc(c) and 32 <= cv(c) < 127 else '\\x%x' % cv(c) if isc(c) else '?' for c in t)
def encode(t, back):
    """the bytes of a text; unknown characters are ASCII"""
    out = []
    for c in t:
        if isc(c): out += [const(b, 8) for b in chr(cv(c)).encode('utf-8', 'replace')]
        else:
            b = trunc(c, 8); back[b] = c; out.append(b)
    return out
def decode(bs, back):
    out = []; i = 0
    while i < len(bs):
        b = bs[i]; n = 1
        if isc(b) and cv(b) >= 0xC2:
            n = 2 if cv(b) < 0xE0 else 3
            if all(isc(x) for x in bs[i:i + n]):
                try: out.append(const(ord(bytes(cv(x) for x in bs[i:i + n]).decode('utf-8')), 16)); i += n; continue
                except (UnicodeDecodeError, TypeError): pass
        out.append(back[b] if b in back else zext(b, 16)); i += 1
    return out
EXC = obj('global', '_ZTIN2jm9ExceptionE')

class Files:
    """events: ('path', object, text), ('content', path, bytes or None), ('open', object, mode), ('close', object), ('pos', object, n), ('openfail', ..), ('short', ..)"""
    def __init__(self, ck, fail=True):
        T = self.T = Text(ck, charfns=False); mod = self.mod = ck.mod; self.back = {}; self.fail = fail; self.partial = False
        M = T.models
        def last(st, kind, key):
            for e in reversed(list(st.events())):
                if e[0] == kind and e[1] == key: return e[2]
        def fid(A, p): return str(A.split(p)[0])
        def path(A, st, p):
            r = last(st, 'path', fid(A, p))
            if r is None: raise Limit('an unknown file')
            return r
        def content(st, path): return last(st, 'content', path)
        def mode(st, f):
            for e in reversed(list(st.events())):
                if e[0] in ('open', 'close') and e[1] == f: return e[2] if e[0] == 'open' else None
        self.content, self.mode, self.fid, self.path = content, mode, fid, path
        def text(A, st, p): return show([A.resolve(c, st) for c in T.read_string(A, st, p, 'a path')[0]])
        def m_new(A, st, av, x):
            st.event('path', fid(A, av[0]), text(A, st, av[1])); A.store(st, av[0], add(obj('global', T.vtable('jm::File')), const(16, 64)), 8)
            return [(st, 'ret', None)]
        def m_new2(A, st, av, x):
            p, c = text(A, st, av[1]), text(A, st, av[2]); st.event('path', fid(A, av[0]), (p + '/' + c) if p else '/' + c)
            A.store(st, av[0], add(obj('global', T.vtable('jm::File')), const(16, 64)), 8)
            return [(st, 'ret', None)]
        def m_newf(A, st, av, x):
            st.event('path', fid(A, av[0]), path(A, st, av[1])); A.store(st, av[0], add(obj('global', T.vtable('jm::File')), const(16, 64)), 8)
            return [(st, 'ret', None)]
        def m_del(A, st, av, x):
            if mode(st, fid(A, av[0])) is not None: st.event('close', fid(A, av[0]))
            return [(st, 'ret', None)]
        def m_exists(A, st, av, x): return [(st, 'ret', FALSE if content(st, path(A, st, av[0])) is None else TRUE)]
        def m_size(A, st, av, x): return [(st, 'ret', const(len(content(st, path(A, st, av[0])) or ()), 64))]
        def m_open(A, st, av, x):
            f = fid(A, av[0]); p = path(A, st, av[0]); m = A.resolve(av[1], st)
            if not isc(m): raise Limit('the mode of a file')
            m = cv(m); r = []
            if mode(st, f) is not None: st.event('close', f)
            if self.fail or m != 1 and content(st, p) is None:
                s2 = st.copy(); s2.event('openfail', f, p); r.append((s2, 'ret', const(2, 32)))
            if m == 1 or content(st, p) is not None:
                if m == 1: st.event('content', p, ())
                st.event('open', f, m); st.event('pos', f, 0); r.append((st, 'ret', const(1, 32)))
            return r
        def opened(A, st, p, what):
            if mode(st, fid(A, p)) is None: raise Bad('%s a file that is not open' % what)
        def num(A, st, e, what):
            e = A.resolve(e, st)
            if not isc(e): raise Limit('%s is %s' % (what, e))
            return sv(e)
        def m_write(A, st, av, x):
            opened(A, st, av[0], 'writes to'); f = fid(A, av[0]); p = path(A, st, av[0]); n = num(A, st, av[2], 'number of bytes'); c = list(content(st, p)); k = last(st, 'pos', f)
            if n < 0: raise Bad('writes %d bytes' % n)
            if mode(st, f) == 0: raise Bad('writes to a file that is open for reading')
            if k > len(c): raise Bad('writes behind the end of the file')
            c[k:k + n] = [A.load(st, add(av[1], const(i, 64)), 1) for i in range(n)]
            st.event('content', p, tuple(c)); st.event('pos', f, k + n); return [(st, 'ret', const(n, 64))]
        def get(A, st, f, p, dst, n):
            c = content(st, p) or (); k = last(st, 'pos', f); n = min(n, len(c) - k) if k < len(c) else 0; r = []
            if n < 0: n = 0
            s2 = st.copy()
            for i in range(n): A.store(st, add(dst, const(i, 64)), c[k + i], 1)
            st.event('pos', f, k + n); r.append((st, 'ret', const(n, 64)))
            if n and self.fail:
                s2.event('short', f, p)
                for i in range(n - 1): A.store(s2, add(dst, const(i, 64)), c[k + i], 1)
                s2.event('pos', f, k + n - 1); r.append((s2, 'ret', const(n - 1, 64)))
            return r
        def m_read(A, st, av, x):
            opened(A, st, av[0], 'reads from'); return get(A, st, fid(A, av[0]), path(A, st, av[0]), av[1], num(A, st, av[2], 'number of bytes'))
        def m_full(A, st, av, x):
            opened(A, st, av[0], 'reads from'); s = T.B
            n = T.num(A, st, add(av[1], const(s['mArrSize'], 64)), 'size of the buffer'); q = A.load(st, add(av[1], const(s['mData'], 64)), 8, True)
            if len(av) > 2: n = min(n, num(A, st, av[2], 'number of bytes'))
            return get(A, st, fid(A, av[0]), path(A, st, av[0]), q, n)
        def m_seek(A, st, av, x):
            opened(A, st, av[0], 'seeks in'); n = num(A, st, av[1], 'position')
            if n < 0: raise Bad('seeks to %d' % n)
            st.event('pos', fid(A, av[0]), n); return [(st, 'ret', None)]
        def m_move(A, st, av, x):
            opened(A, st, av[0], 'moves in'); n = num(A, st, av[1], 'offset') + last(st, 'pos', fid(A, av[0]))
            st.event('pos', fid(A, av[0]), n); return [(st, 'ret', None)]
        def m_pos(A, st, av, x):
            opened(A, st, av[0], 'asks the position of'); return [(st, 'ret', const(last(st, 'pos', fid(A, av[0])), 64))]
        def m_close(A, st, av, x): st.event('close', fid(A, av[0])); return [(st, 'ret', None)]
        def m_isopen(A, st, av, x): return [(st, 'ret', FALSE if mode(st, fid(A, av[0])) is None else TRUE)]
        def m_remove(A, st, av, x):
            p = path(A, st, av[0]); c = content(st, p); st.event('removed', p, c is not None); st.event('content', p, None)
            return [(st, 'ret', FALSE if c is None else TRUE)]
        def m_create(A, st, av, x):
            p = path(A, st, av[0]); c = content(st, p)
            if c is None: st.event('content', p, ())
            return [(st, 'ret', TRUE if c is None else FALSE)]
        def m_text(how):
            def f(A, st, av, x):
                void = x.d['ty'] == 'void'; this = av[1] if void else av[0]; T.n += 1
                r = av[0] if void else ptr(sym('&path%d' % T.n, 64, True))
                h = T.place_string(A, st, r, 'path%d' % T.n, C(how(path(A, st, this))))
                if void: st.event('new', '_Znam', h, None, x)
                return [(st, 'ret', None if void else r)]
            return f
        def m_bytes(A, st, av, x):
            """UTF-8, see C02"""
            out = encode([A.resolve(c, st) for c in T.read_string(A, st, av[1], 'a text')[0]], self.back)
            T.n += 1; h = T.place_bytes(A, st, av[0], 'bytes%d' % T.n, out); st.event('new', '_Znam', h, None, x)
            return [(st, 'ret', None)]
        def chars(bs): return decode([b for b in bs], self.back)
        self.chars = chars
        def m_chars(A, st, av, x):
            bs = T.read_bytes(A, st, av[1], 'the data')[0]; T.n += 1
            h = T.place_string(A, st, av[0], 'decoded%d' % T.n, chars(bs)); st.event('new', '_Znam', h, None, x)
            return [(st, 'ret', None)]
        def m_part(A, st, av, x):
            n = num(A, st, av[2], 'length of a text')
            if n < 0: raise Bad('a text of %d bytes' % n)
            bs = [A.load(st, add(av[1], const(i, 64)), 1) for i in range(n)]; T.n += 1
            h = T.place_string(A, st, av[0], 'decoded%d' % T.n, chars(bs)); st.event('new', '_Znam', h, None, x)
            return [(st, 'ret', None)]
        F = {'exists': m_exists, 'size': m_size, 'open': m_open, 'write': m_write, 'read': m_read, 'readFully': m_full, 'seek': m_seek, 'move': m_move, 'position': m_pos, 'close': m_close, 'isOpen': m_isopen, 'remove': m_remove,
             'createNewFile': m_create, 'parent': m_text(lambda p: p[:p.rfind('/')] if '/' in p else ''), 'absolutePath': m_text(lambda p: p), 'path': m_text(lambda p: p), 'name': m_text(lambda p: p[p.rfind('/') + 1:])}
        for f in mod.fns.values():
            d = f.dem
            if d.startswith('jm::File::'):
                n = d.split('(')[0].split('::')[-1]
                if n in F and '(jm::String' not in d: M[f.name] = F[n]
                elif d == 'jm::File::File(jm::String const&)': M[f.name] = m_new
                elif d == 'jm::File::File(jm::String, jm::String)': M[f.name] = m_new2
                elif d == 'jm::File::File(jm::File const&)': M[f.name] = m_newf
                elif n == '~File' and 'D0Ev' not in f.name: M[f.name] = m_del
            elif d.startswith('jm::System::log('): M[f.name] = models.m_nop
            elif d in ('jm::String::toCString() const', 'jm::String::toCString(jm::Charset*) const'): M[f.name] = m_bytes
            elif d in ('jm::String::String(jm::ByteArray const&)', 'jm::String::String(jm::ByteArray const&, jm::Charset*)'): M[f.name] = m_chars
            elif d == 'jm::String::String(char const*, long)': M[f.name] = m_part
            elif d.startswith('jm::Exception::printStackTrace'): M[f.name] = models.m_nop
            elif d == 'jm::System::autoreleasePool()': M[f.name] = lambda A, st, av, x: [(st, 'ret', self.pool)]
            elif d.startswith('jm::Mutex::') and d.split('::')[-1].split('(')[0] in ('lock', 'unlock'): M[f.name] = models.m_nop
        self.pool = ptr(sym('&pool', 64, True))
    def begin(self):
        A = self.T.ai(); A.unroll = 5000; A.max_steps = 30000000; st = State(); self.T.constants(A, st); A.assume(st, icmp('eq', self.pool, const(0, 64)), False); decide = A.decide
        def thrown(st, c):
            """what is thrown here is a jm::Exception and caught as one"""
            if isinstance(c, E) and c.op == 'eq' and any(x.op == 'sym' and str(x.a[0]).startswith('eh') for x in c.a): return True
            return decide(st, c)
        A.decide = thrown
        return A, st
    def obj(self, A, st, name):
        A.ctr += 1; return obj('heap', '%s#%d' % (name, A.ctr))
    def string(self, A, st, chars, name):
        p = self.obj(A, st, name); self.T.place_string(A, st, p, name, chars); return p
    def file(self, A, st, name, path, content=None):
        p = self.obj(A, st, name); A.store(st, p, add(obj('global', self.T.vtable('jm::File')), const(16, 64)), 8)
        st.event('path', self.fid(A, p), path)
        if content is not None: st.event('content', path, tuple(content))
        return p
    def leak(self, A, st, keep=()):
        """storage that is never given back"""
        gone = {A.split(e[2])[0] for e in st.events() if e[0] == 'delete' and not isc(e[2])}
        for e in st.events():
            if e[0] == 'new' and e[2] not in gone and e[2] not in keep: return 'storage of %s is never given back' % str(e[2].a[1]).split('#')[0]
