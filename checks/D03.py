"""Preferences give back what was stored, after saving and loading too; translations are those of the file."""
import itertools
from expr import *
from ai import ptr, obj, isptr, State, Limit
from ir import Anchor
from text import Text, Bad, every, consistent
from world import encode, decode
import models
LEVEL = 'other'
RULE = ('Preferences are filled with texts of arbitrary characters, written and read again by abstract interpretation: the lines that reach the file are those another object is loaded from. On every path the values found are compared with '
        'those that were set; I18nBundle::appendMo is interpreted on files whose numbers are put at every boundary: every access stays inside the data, the entries are those of the file')
EXPLANATION = RULE
ASSUMPTIONS = ['texts up to the stated length', 'the encoding of characters beyond ASCII is decided by C02', 'File transports bytes (decided by F02)', 'texts do not contain U+0000']
C = lambda s: [const(ord(c), 16) for c in s]
def show(t): return ''.join(chr(cv(c)) if isc(c) and 32 <= cv(c) < 127 else '\\x%x' % cv(c) if isc(c) else '?' for c in t)

class World:
    def __init__(self, ck):
        T = self.T = Text(ck, charfns=False); T.realconst = True; mod = self.mod = ck.mod; self.back = {}
        M = T.models
        def file_of(A, st, p): return 'file'
        def log(A, st, av, x): st.event('log'); return [(st, 'ret', None)]
        def ev(st, kind): return [e for e in st.events() if e[0] == kind]
        def content(st):
            e = ev(st, 'content'); return list(e[-1][1]) if e else None
        self.content = content
        def m_exists(A, st, av, x): return [(st, 'ret', TRUE if content(st) is not None else FALSE)]
        def m_size(A, st, av, x): return [(st, 'ret', const(len(content(st) or []), 64))]
        def m_open(A, st, av, x):
            s2 = st.copy(); s2.event('openfail'); w = isc(A.resolve(av[1], st)) and cv(A.resolve(av[1], st)) == 1
            if content(st) is None and not w: return [(s2, 'ret', const(2, 32))]
            st.event('open', av[1])
            if w: st.event('content', ())
            return [(st, 'ret', const(1, 32)), (s2, 'ret', const(2, 32))]
        def opened(st): 
            k = [e[0] for e in st.events() if e[0] in ('open', 'close')]
            return bool(k) and k[-1] == 'open'
        def m_write(A, st, av, x):
            if not opened(st): raise Bad('writes to a file that is not open')
            n = A.resolve(av[2], st)
            if not isc(n): raise Limit('writes %s bytes' % n)
            st.event('content', tuple(content(st)) + tuple(A.load(st, add(av[1], const(i, 64)), 1) for i in range(cv(n)))); return [(st, 'ret', av[2])]
        def m_read(A, st, av, x):
            if not opened(st): raise Bad('reads from a file that is not open')
            b = content(st); s = T.B; n = T.num(A, st, add(av[1], const(s['mArrSize'], 64)), 'size of the buffer'); p = A.load(st, add(av[1], const(s['mData'], 64)), 8, True)
            outs = []
            s2 = st.copy()
            k = min(n, len(b))
            for i in range(k): A.store(st, add(p, const(i, 64)), b[i], 1)
            outs.append((st, 'ret', const(k, 64)))
            if k:
                s2.event('short'); 
                for i in range(k - 1): A.store(s2, add(p, const(i, 64)), b[i], 1)
                outs.append((s2, 'ret', const(k - 1, 64)))
            return outs
        def m_close(A, st, av, x): st.event('close'); return [(st, 'ret', None)]
        def m_text(A, st, av, x):
            T.n += 1; r = av[0] if x.d['ty'] == 'void' else ptr(sym('&path%d' % T.n, 64, True))
            h = T.place_string(A, st, r, 'path%d' % T.n, C('p'))
            if r is av[0]: st.event('new', '_Znam', h, None, x)
            return [(st, 'ret', None if r is av[0] else r)]
        def m_status(A, st, av, x): return [(st, 'ret', const(1, 32))]
        def m_bytes(A, st, av, x):
            """UTF-8, see C02"""
            out = encode([A.resolve(c, st) for c in T.read_string(A, st, av[1], 'a text')[0]], self.back)
            T.n += 1; h = T.place_bytes(A, st, av[0], 'bytes%d' % T.n, out); st.event('new', '_Znam', h, None, x)
            return [(st, 'ret', None)]
        def chars(A, st, bs): return decode([A.resolve(b, st) for b in bs], self.back)
        def m_chars(A, st, av, x):
            bs = T.read_bytes(A, st, av[1], 'the data')[0]; T.n += 1
            h = T.place_string(A, st, av[0], 'decoded%d' % T.n, chars(A, st, bs)); st.event('new', '_Znam', h, None, x)
            return [(st, 'ret', None)]
        def m_part(A, st, av, x):
            n = A.resolve(av[2], st)
            if not isc(n): raise Limit('a text of %s bytes' % n)
            if sv(n) < 0: raise Bad('a text of %d bytes' % sv(n))
            bs = [A.load(st, add(av[1], const(i, 64)), 1) for i in range(cv(n))]; T.n += 1
            h = T.place_string(A, st, av[0], 'decoded%d' % T.n, chars(A, st, bs)); st.event('new', '_Znam', h, None, x)
            return [(st, 'ret', None)]
        def m_number(A, st, av, x):
            T.n += 1; t = [sym('digit%d' % T.n, 16)]; st.event('number', av[1], t[0])
            A.narrow(st, t[0], 0x30, 0x39); h = T.place_string(A, st, av[0], 'number%d' % T.n, t); st.event('new', '_Znam', h, None, x)
            return [(st, 'ret', None)]
        def m_parse(A, st, av, x):
            t = T.read_string(A, st, av[0], 'a text')[0]; s2 = st.copy(); dbl = x.d.get('w') is None or x.d['ty'] == 'double'
            r = sym('parsed%d' % len(st.events()), 64); st.event('parse', tuple(t), r); s2.event('noparse', tuple(t))
            return [(st, 'ret', r), (s2, 'throw', obj('global', '_ZTIN2jm9ExceptionE'))]
        for f in mod.fns.values():
            d = f.dem
            if d.startswith('jm::File::') or d.startswith('jm::Stream::') or d.startswith('jm::Resource::'):
                n = d.split('(')[0].split('::')[-1]
                m = {'exists': m_exists, 'size': m_size, 'open': m_open, 'write': m_write, 'readFully': m_read, 'close': m_close, 'parent': m_text, 'absolutePath': m_text, 'createNewFile': m_status, 'makeDirectory': m_status}.get(n)
                if m: M[f.name] = m
                elif n in ('File', '~File'): M[f.name] = models.m_nop
            elif d.startswith('jm::System::log('): M[f.name] = log
            elif d == 'jm::String::toCString() const' or d == 'jm::String::toCString(jm::Charset*) const': M[f.name] = m_bytes
            elif d == 'jm::String::String(jm::ByteArray const&)' or d == 'jm::String::String(jm::ByteArray const&, jm::Charset*)': M[f.name] = m_chars
            elif d == 'jm::String::String(char const*, long)': M[f.name] = m_part
            elif d.startswith('jm::String::valueOf('): M[f.name] = m_number
            elif d in ('jm::String::toInt() const', 'jm::String::toDouble() const', 'jm::String::toInt(jm::NumberFormat) const', 'jm::String::toInt(unsigned char) const') or d.startswith('jm::String::toInt(') : M[f.name] = m_parse
            elif d.startswith('jm::Exception::printStackTrace') : M[f.name] = models.m_nop
    def begin(self):
        A = self.T.ai(); A.unroll = 3000; A.max_steps = 30000000; st = State(); T = self.T
        T.constants(A, st); decide = A.decide
        def thrown(st, c):
            """what is thrown here is a jm::Exception and caught as one"""
            if isinstance(c, E) and c.op == 'eq' and any(x.op == 'sym' and str(x.a[0]).startswith('eh') for x in c.a): return True
            return decide(st, c)
        A.decide = thrown
        return A, st
    def obj(self, A, st, name):
        p = ptr(sym('&' + name, 64, True)); A.assume(st, icmp('eq', p, const(0, 64)), False); return p
    def string(self, A, st, chars, name):
        p = self.obj(A, st, name); self.T.place_string(A, st, p, name, chars); return p

KEYS = ['k', 'a=b', ' a', 'a ', '', '\\', '=', 'a\nb', 'a\\=b', '\t', '\\e', 'a\r\nb', '\\t', '==', '#k', 'n', '\xe4\u20ac']
VALUES = ['', 'x', '\\n', 'a\\nb', '\n', '\r\n', ' x ', '\\\\n', '\\', 'a\\', '=', 'a=b', '\t', '\\t', '\\e', 'e\\e', '\\\\e\n', ' ', '\n\n', 'a\rb', '\\=', '"x"', '\xe4\u20ac=\xdf']

def run(ck):
    mod = ck.mod; deep = ck.tier == 'thorough'
    X = World(ck); T = X.T
    P = 'jm::Preferences::'
    fn = lambda n: mod.dem(P + n)
    F = dict(new=fn('Preferences()'), load=fn('load(jm::File)'), save=fn('save(jm::File)'), set=fn('setValue(jm::String const&, jm::String const&)'), get=fn('value(jm::String const&) const'),
             get2=fn('value(jm::String const&, jm::String const&) const'), has=fn('hasValue(jm::String const&) const'), setint=fn('setValue(jm::String const&, long)'), setdbl=fn('setValue(jm::String const&, double)'),
             setbool=fn('setValue(jm::String const&, bool)'), int=fn('valueInt(jm::String const&, long) const'), dbl=fn('valueDouble(jm::String const&, double) const'), bool=fn('valueBool(jm::String const&, bool) const'))
    F['del'] = [g for g in mod.fns.values() if g.dem == 'jm::Preferences::~Preferences()' and not g.decl and 'D0Ev' not in g.name][0]
    F['size'] = [g for g in mod.fns.values() if g.dem.startswith('jm::Hashtable::size()') and not g.decl][0]
    where = {k: '%s:%s' % (f.file, f.line) for k, f in F.items()}
    V = lambda n, k='v': [sym('%s[%d]' % (k, i), 16) for i in range(n)]
    class Go:
        """one story: every step continues all states"""
        def __init__(self):
            self.A, st = X.begin(); self.states = [st]; self.n = 0; self.bad = []
        def ascii(self, t):
            for c in t:
                if not isc(c): self.A.narrow(self.states[0], c, 1, 127)
        def step(self, f, args, throws=None, ret=None):
            new = []; mark = {}
            for s in self.states:
                a = []; s = s.copy(); k0 = len(s.events())
                for x in args:
                    if isinstance(x, list): self.n += 1; a.append(X.string(self.A, s, x, 'arg%d' % self.n))
                    else: a.append(x)
                for o in self.A.run(F[f], a, s):
                    if o.kind == 'noreturn': continue
                    T.paths += 1
                    if not consistent(self.A, o.st): continue
                    ev = [e[0] for e in o.st.events()[k0:]]
                    if throws and throws(ev):
                        if o.kind == 'ret': self.bad.append('%s reports no error though %s' % (f, 'the file cannot be opened' if 'openfail' in ev else 'the file cannot be read completely'))
                        else: self.end.append(o.st)
                        continue
                    if o.kind != 'ret': self.bad.append('%s throws' % f); continue
                    if ret is not None and ret(o) is False: continue
                    new.append(o.st)
            self.states = new
            if len(new) > 20000: raise Limit('too many cases')
        def text(self, p, key, want, what):
            """value(key) is want"""
            for s in list(self.states):
                s = s.copy(); A = self.A; self.n += 1; r = X.obj(A, s, 'result%d' % self.n); k = X.string(A, s, key, 'key%d' % self.n)
                for o in A.run(F['get'], [r, p, k], s):
                    if o.kind == 'noreturn' or not consistent(A, o.st): continue
                    if o.kind != 'ret': self.bad.append('value throws'); continue
                    got = [A.resolve(c, o.st) for c in T.read_string(A, o.st, r, 'the value')[0]]
                    def body(q):
                        if consistent(A, q.st) and not (len(got) == len(want) and all(x is y or q.A.decide(q.st, icmp('eq', x, y)) is True for x, y in zip(got, want))):
                            w = [A.resolve(c, o.st) for c in want]
                            self.bad.append('%s "%s" is "%s" instead of "%s"' % (what, show(key), show(got), show(w)))
                    every(A, o.st, body)
        def num(self, f, args, want, what):
            for s in list(self.states):
                s = s.copy(); A = self.A; a = []
                for x in args:
                    if isinstance(x, list): self.n += 1; a.append(X.string(A, s, x, 'arg%d' % self.n))
                    else: a.append(x)
                for o in A.run(F[f], a, s):
                    if o.kind == 'noreturn' or not consistent(A, o.st): continue
                    if o.kind != 'ret': self.bad.append('%s throws' % f); continue
                    v = A.resolve(o.val, o.st)
                    if not isc(v): raise Limit('%s is %s' % (f, v))
                    if cv(v) != want: self.bad.append('%s: %s is %d instead of %d' % (what, f, cv(v), want))
        def leaks(self, states):
            for s in states:
                gone = {self.A.split(e[2])[0] for e in s.events() if e[0] == 'delete' and not isc(e[2])}
                for e in s.events():
                    if e[0] == 'new' and e[2] not in gone: self.bad.append('storage of %s is never given back' % str(e[2].a[1]).split('#')[0]); break
    def story(key, at, body):
        g = Go(); g.end = []; und = None
        try: body(g)
        except Bad as e: g.bad.append(str(e))
        except Limit as e: und = str(e)
        ck.analysed |= g.A.analysed
        if g.bad: und = None
        ck.ob(key, None if und else not g.bad, where[at], und or '; '.join(list(dict.fromkeys(g.bad))[:3]))
    file = ptr(sym('&file', 64, True))
    stories = 0
    def trip(pairs, absent):
        def body(g):
            A = g.A; p, q = X.obj(A, g.states[0], 'first'), X.obj(A, g.states[0], 'second')
            for k, v in pairs: g.ascii(v)
            g.step('new', [p])
            for k, v in pairs: g.step('set', [p, C(k), v])
            last = {}
            for k, v in pairs: last[k] = v
            for k, v in last.items(): g.text(p, C(k), v, 'the value of'); g.num('has', [p, C(k)], 1, 'a stored value')
            for k in absent: g.text(p, C(k), [], 'the absent value'); g.num('has', [p, C(k)], 0, 'an absent value')
            g.num('size', [p], len(last), 'after setting values')
            g.step('save', [p, file])
            for k, v in last.items(): g.text(p, C(k), v, 'after saving the value of')
            failed = [s for s in g.states if any(e[0] == 'openfail' for e in s.events())]; g.states = [s for s in g.states if s not in failed]
            for s in g.states:
                if [e[0] for e in s.events() if e[0] in ('open', 'close')][-1] != 'close': g.bad.append('the file is left open')
                elif not isc(s.events()[[e[0] for e in s.events()].index('open')][1]) : raise Limit('the mode of the file')
            if not g.states and not g.bad: raise Limit('nothing is saved')
            keep = g.states; g.states = failed; g.step('del', [p]); g.leaks(g.states); g.states = keep
            g.step('del', [p]); g.step('new', [q])
            g.step('load', [q, file], throws=lambda ev: 'openfail' in ev or 'short' in ev)
            if not g.states and not g.bad: raise Limit('nothing is loaded')
            for k, v in last.items(): g.text(q, C(k), v, 'after loading the value of'); g.num('has', [q, C(k)], 1, 'a loaded value')
            g.num('size', [q], len(last), 'after loading')
            g.step('del', [q]); g.leaks(g.states)
            g.states = g.end; g.end = []; g.step('del', [q]); g.leaks(g.states)
        return body
    N = 3 if deep else 2
    S = []
    for n in range(N + 1): S.append(('save and load: %d characters' % n, 'load', trip([('k', V(n))], ['', 'j'])))
    S.append(('save and load: an entry behind', 'load', trip([('k', V(1)), ('m', C('y')), ('l', V(1, 'w'))], ['n'])))
    S.append(('save and load: replaced', 'set', trip([('k', C('old')), ('k', V(1)), ('l', C('z'))], ['n'])))
    for k in KEYS: S.append(('save and load: key %s' % repr(k)[1:-1], 'load', trip([(k, V(1)), ('z', C('y'))], ['none'])))
    for v in VALUES: S.append(('save and load: value %s' % repr(v)[1:-1], 'load', trip([('k', C(v)), ('a', C('b'))], ['none'])))
    S.append(('save and load: nothing', 'load', trip([], ['k'])))
    def read(content, want, absent=()):
        def body(g):
            A = g.A; q = X.obj(A, g.states[0], 'second')
            if content is not None: g.states[0].event('content', tuple(const(ord(c), 8) for c in content))
            g.step('new', [q]); g.step('load', [q, file], throws=lambda ev: content is not None and 'openfail' in ev or 'short' in ev)
            for k, v in want.items(): g.text(q, C(k), C(v), 'the value of')
            g.num('size', [q], len(want), 'after loading')
            g.step('del', [q]); g.leaks(g.states)
            g.states = g.end; g.end = []; g.step('del', [q]); g.leaks(g.states)
        return body
    for c, w in ((None, {}), ('', {}), ('a=b', {'a': 'b'}), (' a = b \n', {'a': 'b'}), ('a=b\r\nc=d\r\n', {'a': 'b', 'c': 'd'}), ('#x\n\na=b\n\n\nc=d', {'a': 'b', 'c': 'd'}), ('a=b=c', {'a': 'b=c'}), ('a=\n', {'a': ''}),
                 ('a=x\\ty\\\\z', {'a': 'x\ty\\z'}), ('a=1\na=2', {'a': '2'})):
        S.append(('load: %s' % ('no file' if c is None else repr(c)[1:-1]), 'load', read(c, w)))
    # values of other types
    def typed(kind):
        def body(g):
            A = g.A; p = X.obj(A, g.states[0], 'first'); g.step('new', [p])
            r = X.obj(A, g.states[0], 'default')
            if kind == 'bool':
                for v, w in ((1, 'true'), (0, 'false')):
                    g.step('setbool', [p, C('k'), const(v, F['setbool'].args[2].get('w', 1))]); g.text(p, C('k'), C(w), 'the value of')
                    for d in (0, 1): g.num('bool', [p, C('k'), const(d, 1)], v, 'a stored value')
                for d in (0, 1): g.num('bool', [p, C('none'), const(d, 1)], d, 'the default')
                return
            v = sym('number', 64); d = sym('default', 64)
            setter, getter = ('setint', 'int') if kind == 'int' else ('setdbl', 'dbl')
            for o in A.run(F[getter], [p, X.string(A, g.states[0], C('k'), 'none'), d], g.states[0].copy()):
                if o.kind != 'noreturn' and (o.kind != 'ret' or o.val is not d): g.bad.append('the default is not returned for an absent value')
            g.step(setter, [p, C('k'), v])
            for s in g.states:
                e = [e for e in s.events() if e[0] == 'number']
                if not e or e[-1][1] is not v: g.bad.append('the number is not what is stored'); continue
                for o in A.run(F[getter], [p, X.string(A, s, C('k'), 'name'), d], s.copy()):
                    if o.kind == 'noreturn': continue
                    ev = [x for x in o.st.events() if x[0] in ('parse', 'noparse')]
                    if o.kind != 'ret': g.bad.append('a value that is no number throws'); continue
                    if not ev: raise Limit('the text is not read as a number')
                    if ev[-1][1] != (e[-1][2],): g.bad.append('another text is read as a number')
                    if ev[-1][0] == 'parse' and o.val is not ev[-1][2]: g.bad.append('the number is not returned')
                    if ev[-1][0] == 'noparse' and o.val is not d: g.bad.append('the default is not returned for a value that is no number')
            g.step('del', [p]); g.leaks(g.states)
        return body
    for k, at in (('int', 'setint'), ('double', 'setdbl'), ('bool', 'setbool')): S.append(('values of type ' + k, at, typed(k)))
    def fallback(g):
        A = g.A; p = X.obj(A, g.states[0], 'first'); g.step('new', [p]); g.step('set', [p, C('k'), C('v')])
        for k, w in (('k', 'v'), ('j', 'd')):
            s = g.states[0].copy(); r = X.obj(A, s, 'r')
            for o in A.run(F['get2'], [r, p, X.string(A, s, C(k), 'n'), X.string(A, s, C('d'), 'd')], s):
                if o.kind == 'noreturn': continue
                if o.kind != 'ret': g.bad.append('value throws'); continue
                t = T.read_string(A, o.st, r, 'the value')[0]
                if show(t) != w: g.bad.append('value("%s", "d") is "%s"' % (k, show(t)))
    S.append(('default of a text', 'get2', fallback))
    for k, at, body in S: stories += 1; story(k, at, body)
    # ---- translations
    B = 'jm::I18nBundle::'
    F.update(bundle=mod.dem(B + 'I18nBundle(jm::String const&)'), append=mod.dem(B + 'appendMo(jm::Stream*)'), translate=mod.dem(B + 'translate(jm::String const&) const'))
    F['delbundle'] = [g for g in mod.fns.values() if g.dem == B + '~I18nBundle()' and not g.decl and 'D0Ev' not in g.name][0]
    for k in ('append', 'translate'): where[k] = '%s:%s' % (F[k].file, F[k].line)
    stream = ptr(sym('&stream', 64, True))
    def bundle(data, pairs):
        def body(g):
            A = g.A; q = X.obj(A, g.states[0], 'bundle')
            s = g.states[0]; s.event('content', tuple(const(b, 8) if isinstance(b, int) else b for b in data))
            A.store(s, stream, add(obj('global', T.vtable('jm::File')), const(16, 64)), 8)
            for b in data:
                if not isinstance(b, int): A.narrow(s, b, 1, 127); X.back[b] = zext(b, 16)
            g.step('bundle', [q, C('de')])
            g.step('append', [q, stream])
            good = [s for s in g.states if not any(e[0] in ('openfail', 'short') for e in s.events())]; rest = [s for s in g.states if s not in good]
            for sts, want in ((good, pairs), (rest, [])):
                g.states = sts; last = dict(want)
                for k, v in last.items():
                    g.text(q, C(k), [X.back[c] if c in X.back else const(c, 16) for c in v], 'the translation of')
                g.num('size', [q], len(last), 'after reading the file')
                if data and want is pairs and pairs is REJECTED and any(not any(e[0] == 'log' for e in s.events()) for s in sts): g.bad.append('a corrupt file is not reported')
                for s in sts:
                    k = [e[0] for e in s.events() if e[0] in ('open', 'close')]
                    if k and k[-1] != 'close': g.bad.append('the file is left open')
            if not good and not g.bad: raise Limit('the file is never read')
            g.states = good + rest; g.step('delbundle', [q]); g.leaks(g.states)
        return body
    REJECTED = []
    n = 0
    for name, data in files(deep):
        n += 1
        try: want = parse(data)
        except ValueError: want = REJECTED
        story('translations: ' + name, 'append', bundle(data, want))
    def translate(g):
        A = g.A; q = X.obj(A, g.states[0], 'bundle'); g.step('bundle', [q, C('de')]); v = V(2); g.ascii(v)
        g.step('set', [q, C('k'), v]); g.step('set', [q, C('e'), []])
        for k, w in (('k', v), ('e', C('e')), ('none', C('none')), ('', [])):
            for s0 in g.states:
                s = s0.copy(); r = X.obj(A, s, 'r' + k)
                for o in A.run(F['translate'], [r, q, X.string(A, s, C(k), 'n' + k)], s):
                    if o.kind == 'noreturn': continue
                    if o.kind != 'ret': g.bad.append('translate throws'); continue
                    t = T.read_string(A, o.st, r, 'the translation')[0]
                    if len(t) != len(w) or any(A.resolve(x, o.st) is not A.resolve(y, o.st) for x, y in zip(t, w)): g.bad.append('translate("%s") is "%s" instead of "%s"' % (k, show(t), show(w)))
        g.step('delbundle', [q]); g.leaks(g.states)
    story('translations: of one text', 'translate', translate)
    ck.need(n, 'translation files', 20)
    ck.need(stories, 'stories', 40); ck.counts['paths'] = T.paths

def u32(v): return [v >> 8 * i & 255 for i in range(4)]
def mo(pairs, first=28, gap=0):
    """a translation file; the texts are lists of bytes"""
    n = len(pairs); o = first; t = o + 8 * n + gap; at = t + 8 * n; text = []; A = []; B = []
    for tab, k in ((A, 0), (B, 1)):
        for p in pairs: tab += u32(len(p[k])) + u32(at + len(text)); text += list(p[k]) + [0]
    return u32(0x950412de) + u32(0) + u32(n) + u32(o) + u32(t) + [0] * (first - 20) + A + [0] * gap + B + text
def number(d, i):
    if i + 4 > len(d): raise ValueError
    return sum(b << 8 * k for k, b in enumerate(d[i:i + 4]))
def parse(d):
    """entries of a translation file"""
    if not d: return []
    if number(d, 0) != 0x950412de or number(d, 4): raise ValueError
    n, o, t = number(d, 8), number(d, 12), number(d, 16); out = []
    if max(o, t) + 8 * n > len(d): raise ValueError
    for i in range(n):
        r = []
        for b in (o, t):
            l, a = number(d, b + 8 * i), number(d, b + 8 * i + 4)
            if a + l > len(d): raise ValueError
            r.append(d[a:a + l])
        if any(not isinstance(b, int) for b in r[0]): raise Limit('a key')
        out.append((''.join(map(chr, r[0])), r[1]))
    return out
def files(deep):
    v = lambda n: [sym('text[%d]' % i, 8) for i in range(n)]
    b = lambda s: [ord(c) for c in s]
    yield 'empty file', []
    yield 'no entries', mo([])
    yield 'one entry', mo([(b('a'), v(2))])
    yield 'two entries', mo([(b('ab'), v(1)), (b('b'), b('x\ny'))])
    yield 'header entry', mo([([], b('h: 1')), (b('b'), v(1))])
    yield 'tables elsewhere', mo([(b('a'), v(1)), (b('b'), b('y'))], 40, 8)
    yield 'the same text twice', mo([(b('a'), b('x')), (b('a'), b('y'))])
    good = mo([(b('a'), b('x')), (b('bc'), b('yz'))]); n = len(good)
    for k in (1, 4, 19, 20, 28, n - 1): yield 'truncated to %d bytes' % k, good[:k]
    def put(i, x): d = list(good); d[i:i + 4] = u32(x & 0xFFFFFFFF); return d
    for i in range(4): d = list(good); d[i] ^= 1; yield 'wrong magic, byte %d' % i, d
    yield 'wrong version', put(4, 1)
    for x in (3, (n - 28) // 8, 1 << 29, (1 << 29) + 2, 0xFFFFFFFF): yield 'number of entries %d' % x, put(8, x)
    for nm, i in (('originals', 12), ('translations', 16)):
        for x in (n - 16, n - 15, n, 0xFFFFFFF0, 0xFFFFFFF8, 0xFFFFFFFF): yield 'table of %s at %d' % (nm, x), put(i, x)
    for e in range(2):
        for nm, i in (('original', 28), ('translation', 44)):
            for x in (n, n + 1, 0x80000000, 0xFFFFFFFF): yield 'length of %s %d: %d' % (nm, e, x), put(i + 8 * e, x)
            for x in (n - 1, n, n + 1, 0x7FFFFFFF, 0xFFFFFFFF, 0xFFFFFFFE): yield 'offset of %s %d: %d' % (nm, e, x), put(i + 8 * e + 4, x)
