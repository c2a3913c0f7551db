"""Files and the operating system: queries, opening and closing, transfer, directories."""
from expr import *
from ai import ptr, obj, State, Limit
from ir import Anchor
from text import Text, Bad
import models, F01
from F01 import P, enc, norm
LEVEL = 'other'
RULE = ('every operation of File is abstractly interpreted against a model of the operating system that answers each call in every permitted way (success with arbitrary data, every error, changed contents in between); '
        'on every path the calls made (function, path, arguments, order), the result, the state of the object and the handles left open are compared with the definition')
EXPLANATION = RULE
ASSUMPTIONS = ['the calls of the operating system and of the C library behave as specified; layout of struct stat and struct dirent as on x86-64 Linux', 'opaque answers of the system are arbitrary; paths up to the stated length with arbitrary characters']
ZERO = const(0, 64); M1 = const(-1 & 0xffffffff, 32)
ERR = {'EACCES': (13, 'eNotAllowed'), 'ENOENT': (2, 'eNotFound'), 'ETIMEDOUT': (110, 'eTimeout'), 'ENOTDIR': (20, 'eNoDirectory')}
MODE, SIZE, SEC, NSEC = 24, 48, 88, 96

def system(T):
    """the model of the operating system; every call becomes an event ('os', call, arguments, result)"""
    M = T.models; errno = obj('global', 'errno')
    def ev(st, call, args, res): st.event('os', call, tuple(args), res)
    def text(ai, st, p):
        """the bytes up to the end of the block of a terminated text"""
        p = ai.resolve(p, st)
        if isc(p): return None
        t = models.cstr(ai, p)
        if t is not None: return t
        b, d, o = ai.split(p)
        if b not in ai.size or d is not None: raise Bad('passes %s as a name' % p)
        if b in st.freed: raise Bad('passes a released name')
        out = []
        for i in range(ai.size[b] - o):
            c = ai.resolve(ai.load(st, add(p, const(i, 64)), 1), st)
            if isc(c) and cv(c) == 0: return tuple(out)
            out.append(c)
        raise Bad('passes a name without end')
    T.name = text
    def fails(ai, st, e=None): ai.store(st, errno, e if e is not None else ai.fresh('errno', 32), 4)
    def simple(call, names=1, w=32):
        def f(ai, st, av, x):
            a = [text(ai, st, p) for p in av[:names]] + list(av[names:]); s2 = st.copy()
            ev(st, call, a, 0); ev(s2, call, a, -1); fails(ai, s2)
            return [(st, 'ret', const(0, w)), (s2, 'ret', const(-1 & ((1 << w) - 1), w))]
        M[call] = f
    for c, k in (('access', 1), ('mkdir', 1), ('rmdir', 1), ('remove', 1), ('unlink', 1), ('rename', 2)): simple(c, k)
    def m_stat(call):
        def f(ai, st, av, x):
            a = [text(ai, st, av[0])]; s2 = st.copy()
            v = [ai.fresh(n, w) for n, w in (('mode', 32), ('size', 64), ('seconds', 64), ('nanoseconds', 64))]
            ai.narrow(st, v[3], 0, 999999999); ai.assume(st, icmp('slt', v[2], const(-(1 << 50) & (2 ** 64 - 1), 64)), False); ai.assume(st, icmp('slt', v[2], const(1 << 50, 64)), True)
            for o, e in zip((MODE, SIZE, SEC, NSEC), v): ai.store(st, add(av[1], const(o, 64)), e, e.w // 8)
            ev(st, call, a + v, 0); ev(s2, call, a, -1); fails(ai, s2)
            return [(st, 'ret', const(0, 32)), (s2, 'ret', M1)]
        M[call] = f
    m_stat('stat'); m_stat('lstat')
    def m_fopen(ai, st, av, x):
        a = [text(ai, st, av[0]), text(ai, st, av[1])]; outs = []
        h = ptr(ai.fresh('handle', 64, True)); s2 = st.copy()
        ai.assume(s2, icmp('eq', h, ZERO), False); ev(s2, 'fopen', a, h); outs.append((s2, 'ret', h))
        e = sym('errno', 32)
        ai.store(st, errno, e, 4); ev(st, 'fopen', a, ZERO); outs.append((st, 'ret', ZERO))
        return outs
    M['fopen'] = M['fopen64'] = m_fopen
    def m_open(ai, st, av, x):
        a = [text(ai, st, av[0])] + list(av[1:]); h = ai.fresh('fd', 32); s2 = st.copy()
        ai.narrow(s2, h, 0, 1 << 20); ev(s2, 'open', a, h); ev(st, 'open', a, M1); fails(ai, st)
        return [(s2, 'ret', h), (st, 'ret', M1)]
    M['open'] = M['open64'] = m_open
    def m_close(call):
        def f(ai, st, av, x):
            s2 = st.copy(); h = ai.resolve(av[0], st)
            ev(st, 'close', [h], 0); ev(s2, 'close', [h], -1); fails(ai, s2)
            return [(st, 'ret', const(0, 32)), (s2, 'ret', M1)]
        M[call] = f
    for c in ('fclose', 'close', 'closedir'): m_close(c)
    M['__errno_location'] = lambda ai, st, av, x: [(st, 'ret', errno)]
    def m_log(ai, st, av, x):
        fails(ai, st); return [(st, 'ret', None)]
    def m_seek(ai, st, av, x):
        s2 = st.copy(); ev(st, 'fseek', av, 0); ev(s2, 'fseek', av, -1); return [(st, 'ret', const(0, 32)), (s2, 'ret', M1)]
    M['fseek'] = M['fseeko'] = m_seek
    def m_num(call):
        def f(ai, st, av, x):
            r = ai.fresh(call, 64); ev(st, call, av, r); return [(st, 'ret', r)]
        for c in (call, call + 'o'): M[c] = f
    m_num('ftell')
    def m_move(call, writes):
        def f(ai, st, av, x):
            """some number of elements up to the requested one; a symbolic request gives a symbolic number"""
            buf, sz, n, h = av
            if isc(n) and isc(sz) and cv(n) * cv(sz) < 64:
                outs = []
                for k in range(cv(n) + 1):
                    s = st.copy()
                    for j in range(k * cv(sz)) if writes else ():
                        c = ai.fresh('data', 8); ai.store(s, add(buf, const(j, 64)), c, 1); s.event('data', add(buf, const(j, 64)), c)
                    ev(s, call, av, const(k, 64)); outs.append((s, 'ret', const(k, 64)))
                return outs
            r = ai.fresh(call, 64); ev(st, call, av, r); return [(st, 'ret', r)]
        M[call] = f
    m_move('fread', True); m_move('fwrite', False)
    # directories: the entries may change between two passes
    def m_opendir(ai, st, av, x):
        a = [text(ai, st, av[0])]; h = ptr(ai.fresh('dir', 64, True)); s2 = st.copy()
        ai.assume(st, icmp('eq', h, ZERO), False); ev(st, 'opendir', a, h); ev(s2, 'opendir', a, ZERO); fails(ai, s2)
        return [(st, 'ret', h), (s2, 'ret', ZERO)]
    M['opendir'] = m_opendir
    def m_rewind(ai, st, av, x): ev(st, 'rewinddir', av, 0); return [(st, 'ret', None)]
    M['rewinddir'] = m_rewind
    def m_readdir(ai, st, av, x):
        seen = 0; done = False
        for e in st.events():
            if e[0] != 'os': continue
            if e[1] == 'rewinddir' or e[1] == 'opendir': seen = 0; done = False
            elif e[1] == 'readdir':
                if e[3] is None: done = True
                else: seen += 1
        outs = []
        if seen < T.entries and not done:
            s = st.copy(); ai.ctr += 1; o = obj('alloca', 'dirent#%d' % ai.ctr); c = sym('entry%d' % seen, 8)
            ai.assume(s, icmp('eq', c, const(0, 8)), False); ai.size[o] = 280
            ai.store(s, add(o, const(19, 64)), c, 1); ai.store(s, add(o, const(20, 64)), const(0, 8), 1)
            ev(s, 'readdir', av, c); outs.append((s, 'ret', o))
        ev(st, 'readdir', av, None); outs.append((st, 'ret', ZERO))
        return outs
    M['readdir'] = M['readdir64'] = m_readdir
    def m_decode(ai, st, av, x):
        t = text(ai, st, av[1])
        if isinstance(t, str): return NotImplemented
        T.place_string(ai, st, av[0], 'decoded', [mkcall('decoded', 16, [c]) for c in t or ()])
        b = ai.load(st, add(av[0], const(T.S['mValue'], 64)), 8, True); st.event('new', '_Znam', b, None, x)
        return [(st, 'ret', None)]
    def m_order(ai, st, av, x):
        return [(st, 'ret', mkcall('order', 32, [mk('path', 64, *T.read_string(ai, st, a, 'a path')[0]) for a in av[:2]]))]
    for f in T.mod.fns.values():
        d = f.dem
        if d.startswith('jm::System::log('): M[f.name] = m_log
        elif d == 'jm::String::String(char const*)': T.models[f.name] = m_decode
        elif d == 'jm::String::compareTo(jm::String const&) const': M[f.name] = m_order
        elif d.startswith('jm::String::arg('): M.setdefault(f.name, models.m_text)

def isdir(q, e): return q.true(icmp('eq', and_(e[2][1], const(0xf000, 32)), const(0x4000, 32)))
def impossible(q):
    """the decided conditions contradict a condition of the path"""
    m = {c: const(int(v), 1) for c, v in q.st.facts.items() if isinstance(c, E) and c.w == 1 and c.op in ('eq', 'slt', 'ult')}
    for c, v in q.st.facts.items():
        if not isinstance(c, E): continue
        r = subst(c, {k: x for k, x in m.items() if k is not c})
        if isc(r) and bool(cv(r)) != bool(v): return True
def picked(q, v):
    while v.op == 'select': v = v.a[1] if q.true(v.a[0]) else v.a[2]
    return v

class Sys:
    """the calls of one path"""
    def __init__(s, A, o): s.A = A; s.o = o; s.ev = [e for e in o.st.events() if e[0] == 'os']
    def of(s, *c): return [e for e in s.ev if e[1] in c]
    def handles(s, first, now):
        """every handle is closed exactly once unless it is the one the object still has"""
        opened = ([first] if first is not None else []) + [e[3] for e in s.of('fopen', 'open', 'opendir') if not (isc(e[3]))]
        for e in s.of('close'):
            h = e[2][0]
            if h not in opened: return 'closes %s, which is not open' % h
            opened.remove(h)
        if now is not None and not isc(now):
            if now not in opened: return 'keeps the handle %s, which is closed' % now
            opened.remove(now)
        if opened: return '%s is never closed' % opened[0]

def run(ck):
    T = Text(ck); deep = ck.tier == 'thorough'; mod = T.mod
    F, fld = F01.setup(T); system(T); T.entries = 3 if deep else 2
    FM = {k: int(v) for k, v in (mod.enums.get('jm::FileMode') or {}).items()}; ST = {k: int(v) for k, v in (mod.enums.get('jm::Status') or {}).items()}
    if not {'kRead', 'kWrite', 'kReadWrite'} <= set(FM) or 'eOK' not in ST: raise Anchor('file modes')
    f2 = ('file', 'f', 2); CS = [sym('f[%d]' % i, 16) for i in range(2)]; B = tuple(enc(CS)); H = ptr(sym('handle(f)', 64, True))
    fopen_ = ('file', 'f', 2, 1)
    def named(q, s, want=B, what=('access', 'stat', 'lstat', 'mkdir', 'rmdir', 'remove', 'unlink', 'opendir', 'fopen', 'open')):
        for e in s.of(*what):
            if e[2][0] is None or isinstance(e[2][0], str) or len(e[2][0]) != len(want) or any(x is not y for x, y in zip(e[2][0], want)): return '%s is called with another path' % e[1]
    def handle(A, o, a='f'): return A.resolve(A.load(o.st, fld(ptr(sym('&' + a, 64, True)), 'mHandle'), 8, True), o.st)
    def boolean(A, q, v):
        return q.true(v if v.w == 1 else trunc(v, 1))
    def case(key, dem, ops, judge, first=None, gone=False, keep=True, **kw):
        """judge(A, q, o, s) -> message; the handle stays as it is unless keep is False"""
        def spec(q, *vals):
            def post(A, q, o):
                s = Sys(A, o); now = None if gone else handle(A, o, ops[0][1])
                m = named(q, s) or s.handles(first, now)
                if keep and not gone and now is not (first if first is not None else ZERO): m = m or 'changes the handle'
                m = m or judge(A, q, o, s, now)
                return None if m and impossible(q) else m
            r = {'post': post, 'ret': lambda A, o, home: None, ops[0][1]: None if kw.get('free') else vals[0]}
            if gone: r[ops[0][1]] = 'gone'
            if kw.get('thrown'): r['throw'] = None
            return r
        def spec2(q, *vals):
            # an exception is judged by the caller: mark both endings as permitted
            r = spec(q, *vals)
            p = r['post']
            def post(A, q, o):
                r['throw'] = True if o.kind == 'throw' else None
                return p(A, q, o)
            r['post'] = post
            return r
        T.case(key, dem, ops, spec2, leak=kw.get('leak', False), pre=kw.get('pre'), alias=kw.get('alias', ()))
    def nothrow(o): return 'throws an exception' if o.kind == 'throw' else None
    # queries
    def access(mode):
        def j(A, q, o, s, now):
            e = s.of('access', 'stat', 'lstat')
            if nothrow(o): return nothrow(o)
            if len(e) != 1 or e[0][1] != 'access' and mode: return 'asks %d times' % len(e)
            if e[0][1] == 'access' and not (isc(e[0][2][1]) and cv(e[0][2][1]) == mode): return 'asks for the permission %s instead of %d' % (e[0][2][1], mode)
            if boolean(A, q, o.val) != (e[0][3] == 0): return 'reports %s where the system says %s' % (not (e[0][3] == 0), e[0][3] == 0)
        return j
    for n, m in (('exists', 0), ('canRead', 4), ('canWrite', 2), ('canExecute', 1)): case(n, P + n + '() const', [f2], access(m))
    def kind(bits, call):
        def j(A, q, o, s, now):
            if nothrow(o): return nothrow(o)
            e = s.of('lstat', 'stat')
            if len(e) != 1 or call and e[0][1] != call: return 'does not ask for the entry itself'
            if e[0][3]:
                return 'reports a missing entry' if boolean(A, q, o.val) else None
            m = and_(e[0][2][1], const(0xf000, 32)); v = o.val if o.val.w == 1 else trunc(o.val, 1); w = icmp('eq', m, const(bits, 32))
            if v is w: return None
            for k in range(16):
                s2 = q.st.copy(); A.assume(s2, icmp('eq', m, const(k << 12, 32)), True)
                if A.decide(s2, icmp('eq', m, const(k << 12, 32))) is False: continue
                r = subst(v, {m: const(k << 12, 32)}); d = A.decide(s2, r)
                old = A.decide(q.st, w)
                if old is not None and old != (k << 12 == bits): continue
                if any(subst(c, {m: const(k << 12, 32)}).op == 'c' and bool(cv(subst(c, {m: const(k << 12, 32)}))) != v_ for c, v_ in q.st.facts.items() if isinstance(c, E)): continue
                if d is None: raise Limit('the result %s is not decided' % v)
                if d != (k << 12 == bits): return 'reports %s for the kind %#o' % (d, k << 12)
        return j
    for n, b, c in (('isDirectory', 0x4000, 'lstat'), ('isFile', 0x8000, 'lstat'), ('isLink', 0xa000, 'lstat'), ('isPipe', 0x1000, 'lstat')): case(n, P + n + '() const', [f2], kind(b, c))
    def size(A, q, o, s, now):
        if nothrow(o): return nothrow(o)
        e = s.of('stat', 'lstat')
        if len(e) != 1: return 'asks %d times' % len(e)
        w = ZERO if e[0][3] else e[0][2][2]
        if o.val is not w: return 'gives %s instead of %s' % (o.val, w)
    case('size', P + 'size() const', [f2], size)
    dt = mod.off('jm::Date', 'mTime')
    def modified(A, q, o, s, now):
        if nothrow(o): return nothrow(o)
        e = s.of('stat', 'lstat')
        if len(e) != 1: return 'asks %d times' % len(e)
        v = A.load(o.st, add(obj('alloca', 'result'), const(dt, 64)), 8)
        if e[0][3]: return None if isc(v) and cv(v) == 0 else 'a missing file has the time %s' % v
        d = sub(v, mulc(e[0][2][3], 1000))
        for n in (0, 1, 999999, 1000000, 1999999, 123456789, 999000000, 999999999):
            r = A.resolve(subst(d, {e[0][2][4]: const(n, 64)}), q.st)
            if not isc(r): return 'gives %s' % v
            if sv(r) != n // 1000000: return '%d nanoseconds are counted as %d milliseconds' % (n, sv(r))
    case('lastModified', P + 'lastModified() const', [f2], modified)
    # changes of the directory
    def mkdir(A, q, o, s, now):
        e = s.of('mkdir')
        if nothrow(o): return nothrow(o)
        if len(e) != 1: return 'makes %d directories' % len(e)
        if boolean(A, q, o.val) != (e[0][3] == 0): return 'reports another result'
    case('makeDirectory', P + 'makeDirectory()', [f2], mkdir)
    def remove(A, q, o, s, now):
        e = s.of('rmdir', 'remove', 'unlink')
        if nothrow(o): return nothrow(o)
        ok = [x for x in e if x[3] == 0]
        if not e: return 'removes nothing'
        if len(ok) > 1: return 'removes twice'
        if boolean(A, q, o.val) != bool(ok): return 'reports %s although %s' % (not ok, 'it was removed' if ok else 'nothing was removed')
        if not ok:
            st = s.of('lstat', 'stat'); isd = None
            if st: isd = st[-1][3] == 0 and isdir(q, st[-1])
            tried = {x[1] for x in e}
            if not ('remove' in tried or 'unlink' in tried and isd is False or 'rmdir' in tried and isd): return 'gives up without the call that removes this kind of entry'
    case('remove', P + 'remove()', [f2], remove)
    for m in range(0, 4):
        N = [sym('n[%d]' % i, 16) for i in range(m)]
        def spec(q, f, n):
            r = {}
            def post(A, q, o):
                s = Sys(A, o); e = s.of('rename')
                if o.kind == 'throw': return 'throws an exception'
                if len(e) != 1: return 'renames %d times' % len(e)
                if [tuple(x or ()) for x in e[0][2]] != [B, tuple(enc(n))]: return 'renames other paths'
                if boolean(A, q, o.val) != (e[0][3] == 0): return 'reports another result'
                r['f'] = norm(q, n) if e[0][3] == 0 else f
                return s.handles(None, handle(A, o))
            r['post'] = post; r['ret'] = lambda A, o, home: None
            return r
        T.case('renameTo[%d]' % m, P + 'renameTo(jm::String const&)', [f2, ('str', 'n', m)], spec, leak=False)
    # opening and closing
    def create(first):
        def j(A, q, o, s, now):
            fo = s.of('fopen', 'open'); cl = s.of('close')
            if o.kind == 'throw': return None if any(e[3] for e in cl) else 'throws an exception'
            if len(fo) != 1: return 'opens %d times' % len(fo)
            e = fo[0]; ok = not isc(e[3])
            if e[1] == 'fopen' and not (isinstance(e[2][1], str) and e[2][1][0] in 'wa' and ('x' in e[2][1] or e[2][1][0] == 'a')): return 'empties an existing file (mode %s)' % e[2][1]
            if e[1] == 'open' and not (isc(e[2][1]) and cv(e[2][1]) & 0x40 and (cv(e[2][1]) & 0x80 or not cv(e[2][1]) & 0x200)): return 'opens with the flags %s' % e[2][1]
            excl = e[1] == 'fopen' and 'x' in e[2][1] or e[1] == 'open' and cv(e[2][1]) & 0x80
            if not excl: return 'does not tell an existing file from a new one'
            if boolean(A, q, o.val) != ok: return 'reports %s' % (not ok)
        return j
    case('createNewFile', P + 'createNewFile()', [f2], create(None), keep=False)
    case('createNewFile (open)', P + 'createNewFile()', [fopen_], create(H), first=H, keep=False)
    def opening(mode):
        want = {'kRead': ('rb', 'r'), 'kWrite': ('wb', 'w'), 'kReadWrite': ('rb+', 'r+b', 'r+')}[mode]
        def j(A, q, o, s, now):
            fo = s.of('fopen'); cl = s.of('close')
            if o.kind == 'throw' and not fo: return None if any(e[3] for e in cl) else 'throws an exception'
            if len(fo) != 1: return 'opens %d times' % len(fo)
            e = fo[0]
            if e[2][1] not in want: return 'opens with the mode %s instead of %s' % (e[2][1], want[0])
            if not isc(e[3]):
                if o.kind == 'throw': return 'throws although the file is open'
                v = A.resolve(o.val, q.st)
                if not (isc(v) and cv(v) == ST['eOK']): return 'reports %s although the file is open' % v
                if now is not e[3]: return 'loses the handle'
                return
            if now is not ZERO: return 'has the handle %s after a failure' % now
            en = sym('errno', 32); known = [(n, k) for n, k in ERR.values()]
            match = [(n, k) for n, k in known if A.decide(q.st, icmp('eq', en, const(n, 32))) is not False]
            fixed = [(n, k) for n, k in known if A.decide(q.st, icmp('eq', en, const(n, 32)))]
            if o.kind == 'throw':
                return None if not match else 'throws an exception for error %d' % match[0][0]
            v = A.resolve(o.val, q.st)
            for n, k in fixed or match:
                r = A.resolve(subst(v, {en: const(n, 32)}), q.st)
                if not (isc(r) and cv(r) == ST[k]): return 'reports %s for error %d instead of %s' % (v, n, k)
            if not fixed and isc(v) and cv(v) == ST['eOK']: return 'reports success after a failure'
            if not match: return 'reports %s for an error that has no status' % v
        return j
    for k in ('kRead', 'kWrite', 'kReadWrite'):
        for first, op in ((None, f2), (H, fopen_)):
            case('open(%s)%s' % (k, ' (open)' if first is not None else ''), P + 'open(jm::FileMode)', [op, ('int', FM[k], 32)], opening(k), first=first, keep=False)
    def closing(A, q, o, s, now):
        cl = s.of('close')
        if now is not ZERO: return 'keeps a handle'
        if len(s.ev) != len(cl): return 'does something else'
        if (o.kind == 'throw') != any(e[3] for e in cl): return 'reports no error' if o.kind != 'throw' else 'throws an exception'
    case('close', P + 'close()', [f2], closing, keep=False); case('close (open)', P + 'close()', [fopen_], closing, first=H, keep=False)
    def opened(w):
        def j(A, q, o, s, now):
            if nothrow(o) or s.ev: return 'does something else'
            if boolean(A, q, o.val) != w: return 'reports %s' % (not w)
        return j
    case('isOpen', P + 'isOpen()', [f2], opened(False)); case('isOpen (open)', P + 'isOpen()', [fopen_], opened(True), first=H)
    case('~', P + '~File()', [f2], lambda A, q, o, s, now: nothrow(o), gone=True)
    case('~ (open)', P + '~File()', [fopen_], lambda A, q, o, s, now: nothrow(o), first=H, gone=True)
    for t1 in (0, 1):
        for t2 in (0, 1):
            def spec(q, t, f, t1=t1, t2=t2):
                HT = ptr(sym('handle(t)', 64, True)); r = {'ret': lambda A, o, home: None}
                def post(A, q, o):
                    s = Sys(A, o); r['throw'] = True if o.kind == 'throw' else None
                    if o.kind == 'throw' and not any(e[3] for e in s.of('close')): return 'throws an exception'
                    r['t'] = None if o.kind == 'throw' else f
                    if handle(A, o, 'f') is not (H if t2 else ZERO): return 'changes the handle of the other file'
                    if any(e[2][0] is H for e in s.of('close')): return 'closes the other file'
                    if handle(A, o, 't') is not ZERO: return 'the assigned file still has a handle'
                    return s.handles(HT if t1 else None, ZERO)
                r['post'] = post; r['t'] = f
                return r
            T.case('= %d%d' % (t1, t2), P + 'operator=(jm::File const&)', [('file', 't', 1, t1), ('file', 'f', 2, t2)], spec, leak=False)
    def copyspec(q, t, f):
        r = {'t': f}
        def post(A, q, o):
            if handle(A, o, 't') is not ZERO: return 'the copy uses the handle of the original'
            if handle(A, o, 'f') is not H: return 'the original loses its handle'
            return Sys(A, o).handles(H, handle(A, o, 'f'))
        r['post'] = post; return r
    T.case('copy (open)', P + 'File(jm::File const&)', [('raw', 't', 'file'), fopen_], copyspec, leak=False)
    # transfer
    buf = ptr(sym('buffer', 64, True)); L = sym('length', 64); POS = sym('target', 64)
    def moved(call, whence):
        def j(A, q, o, s, now):
            e = s.of('fseek')
            if len(e) != 1 or len(s.ev) != 1: return 'moves %d times' % len(e)
            a = e[0][2]
            if a[0] is not H or a[1] is not POS or not isc(a[2]) or cv(a[2]) != whence: return 'moves by %s (%s)' % (a[1], a[2])
            if (o.kind == 'throw') != (e[0][3] != 0): return 'reports no error' if o.kind != 'throw' else 'throws an exception'
        return j
    case('seek', P + 'seek(long)', [fopen_, ('any', POS)], moved('seek', 0), first=H); case('move', P + 'move(long)', [fopen_, ('any', POS)], moved('move', 1), first=H)
    def tell(A, q, o, s, now):
        e = s.of('ftell')
        if len(e) != 1 or e[0][2][0] is not H or o.val is not e[0][3]: return 'is not the position of the file'
    case('position', P + 'position()', [fopen_], tell, first=H)
    def transfer(call):
        def j(A, q, o, s, now):
            if nothrow(o): return nothrow(o)
            e = s.of('fread', 'fwrite')
            if len(e) != 1 or e[0][1] != call: return 'transfers %d times' % len(e)
            b, k, n, h = e[0][2]
            if b is not buf or h is not H or not (isc(k) and cv(k) == 1 and n is L): return 'transfers %s elements of %s bytes' % (n, k)
            if o.val is not e[0][3]: return 'reports %s instead of the number of bytes transferred' % o.val
        return j
    case('read', P + 'read(unsigned char*, long)', [fopen_, ('any', buf), ('any', L)], transfer('fread'), first=H)
    case('write', P + 'write(unsigned char const*, long)', [fopen_, ('any', buf), ('any', L)], transfer('fwrite'), first=H)
    for n in range(0, 4 if deep else 3):
        for l in range(0, 5):
            def spec(q, f, b, want, n=n, l=l):
                r = {'b': b}
                def post(A, q, o):
                    s = Sys(A, o); r['throw'] = True if o.kind == 'throw' else None
                    if o.kind == 'throw': return 'throws an exception'
                    e = s.of('fread'); tot = sum(cv(x[3]) for x in e)
                    if tot < min(n, l) and not (e and isc(e[-1][3]) and cv(e[-1][3]) == 0): return 'gives up before the end of the file'
                    data = [x[2] for x in o.st.events() if x[0] == 'data']
                    r['b'] = data + b[len(data):]; r['ret'] = len(data)
                    return s.handles(H, handle(A, o))
                r['post'] = post; return r
            T.case('readFully[%d] of %d' % (n, l), P + 'readFully(jm::ByteArray&, long)', [fopen_, ('bytes', 'b', n), ('int', l)], spec, leak=False)
    # directories
    AO = {n: mod.off('jm::Array<jm::File>', n) for n in ('mData', 'mSize')}
    def listing(A, q, o, s, now):
        if o.kind == 'throw':
            od = s.of('opendir')
            return None if od and isc(od[0][3]) else 'throws an exception'
        st = s.of('lstat', 'stat'); dirs = bool(st and st[0][3] == 0 and isdir(q, st[0]))
        v = A.resolve(o.val, q.st)
        if isc(v): return 'gives no list' if dirs or s.of('opendir') else None
        if s.of('opendir') == []: return 'a list without a directory'
        got = []
        for e in reversed(s.ev):
            if e[1] == 'readdir' and e[3] is not None: got.insert(0, e[3])
            elif e[1] in ('rewinddir', 'opendir'): break
        n = T.num(A, o.st, add(v, const(AO['mSize'], 64)), 'size of the list'); d = A.load(o.st, add(v, const(AO['mData'], 64)), 8, True)
        b, dd, off = A.split(d)
        full = any(e[1] == 'readdir' and e[3] is None for e in s.ev[-2:])
        if n < len(got): return '%d entries for %d files' % (n, len(got))
        if n > len(got) and not full: return 'the list is not filled'
        step = (A.size[b] - off) // n if n else 0
        for i, c in enumerate(got):
            cs = T.read_string(A, o.st, fld(add(d, const(i * step, 64)), 'mPathname'), 'entry')[0]
            w = norm(q, norm(q, CS) + [const(47, 16)] + norm(q, [mkcall('decoded', 16, [c])]))
            if len(cs) != len(w) or any(not q.eq(x, y) for x, y in zip(cs, w)): return 'entry %d is %s' % (i, ''.join(map(str, cs)))
    case('listFiles', P + 'listFiles() const', [f2], listing)
    def cmpspec(q, f, g):
        r = {'ret': lambda A, o, home: None}
        def post(A, q, o):
            s = Sys(A, o)
            if o.kind == 'throw': return 'throws an exception'
            d = {}
            for x in s.of('lstat', 'stat'): d[x[2][0]] = bool(x[3] == 0 and isdir(q, x))
            b2 = tuple(enc(g))
            if B not in d or b2 not in d: return 'compares without looking at both files'
            v = picked(q, A.resolve(o.val, q.st))
            if impossible(q): return
            if d[B] != d[b2]:
                if not isc(v) or (sv(v) < 0) != d[B] or sv(v) == 0: return 'gives %s where one of them is a directory' % v
            elif v is not mkcall('order', 32, [mk('path', 64, *f), mk('path', 64, *g)]): return 'does not give the order of the paths (%s)' % v
        r['post'] = post; return r
    T.case('compareTo', P + 'compareTo(jm::File const&) const', [f2, ('file', 'g', 1)], cmpspec, leak=False)
    ck.need(T.n, 'operations x shapes', 40); ck.counts['paths'] = T.paths
