"""String lists, tokenizing, splitting and joining, stacks and arrays."""
from expr import *
from ai import ptr, obj, State, Limit
from ir import Anchor
from text import Text, Bad, every, consistent, IMAX, IMIN
import models
LEVEL = 'other'
RULE = ('every operation of StringList is abstractly interpreted on lists of each small size and filling with opaque strings (equality and order of two strings split the trace), receiver and '
        'argument distinct, the same list, or an element of the list; tokenizing, splitting and joining on arbitrary characters; stacks and arrays with opaque elements; contents, results, exceptions, extents '
        'and ownership of the storage are compared with the definition on sequences on every path')
EXPLANATION = RULE
ASSUMPTIONS = ['sizes up to the stated bound; characters, strings and positions outside of the list are arbitrary', 'comparison of strings is a consistent order (decided by T01)']

def run(ck):
    mod = ck.mod; deep = ck.tier == 'thorough'
    lists(ck, mod, deep); tokens(ck, mod, deep); arrays(ck, mod, deep); stacks(ck, mod, deep)

def strsize(mod):
    for n, o, s, t in mod.fields('jm::StringTokenizer'):
        if t == 'jm::String': return s
    raise Anchor('size of a string')

def lists(ck, mod, deep):
    T = Text(ck)
    T.models.update(models.string_models(mod))
    for f in mod.fns.values():
        d = f.dem
        if d == 'jm::String::compareTo(jm::String const&) const':
            T.models[f.name] = lambda ai, st, av, x: [(st, 'ret', mkcall('order', 32, [models.sval(ai, st, av[0]), models.sval(ai, st, av[1])]))]
        elif d.startswith('jm::String::arg('): T.models[f.name] = models.m_text
        elif d.startswith('jm::I18nBundle::translate('): T.models[f.name] = models.m_text
    S = strsize(mod); models.STR = T.S['mValue']     # the object keeps its type in front of the opaque value
    F = {n: mod.off('jm::StringList', n) for n in ('mData', 'mSize', 'mLength')}
    E0 = mk('strlit', 64, '')
    def place(A, st, a, name, n, cap=8):
        A.store(st, a, add(obj('global', T.vtable('jm::StringList')), const(16, 64)), 8)
        h = T.heap(A, name, 8 + S * cap)
        A.store(st, h, const(cap, 64), 8)
        cs = [sym('%s[%d]' % (name, i), 64) for i in range(n)]
        for i in range(cap):
            models.vptr(A, st, add(h, const(8 + S * i, 64)))
            models.sset(A, st, add(h, const(8 + S * i, 64)), cs[i] if i < n else sym('old(%s)[%d]' % (name, i), 64))
        A.store(st, add(a, const(F['mData'], 64)), add(h, const(8, 64)), 8)
        A.store(st, add(a, const(F['mSize'], 64)), const(n, 64), 8); A.store(st, add(a, const(F['mLength'], 64)), const(cap, 64), 8)
        return cs, h
    def read(A, st, a, what):
        n = T.num(A, st, add(a, const(F['mSize'], 64)), 'size of ' + what); cap = T.num(A, st, add(a, const(F['mLength'], 64)), 'capacity of ' + what)
        if n < 0 or cap < n: raise Bad('%s has %d elements but capacity %d' % (what, n, cap))
        p = A.resolve(A.load(st, add(a, const(F['mData'], 64)), 8, True), st)
        if isc(p):
            if cap: raise Bad('%s has no storage' % what)
            return [], None, None
        b, d, o = A.split(p)
        if b in st.freed: raise Bad('%s refers to released storage' % what)
        if b.op != 'obj' or d is not None or o != 8: raise Bad('%s does not refer to storage of its own' % what)
        c = A.resolve(A.load(st, b, 8), st)
        if not isc(c) or cv(c) < cap or A.size.get(b, 0) < 8 + S * cap: raise Bad('%s has capacity %d but storage of %s bytes' % (what, cap, A.size.get(b)))
        return [models.sval(A, st, add(p, const(S * i, 64))) for i in range(n)], b, None
    T.kinds['list'] = (place, read, lambda cs, h, i: (cs[i], add(h, const(8 + S * i, 64))))
    def pstr(A, st, a, name):
        t = sym(name, 64); models.vptr(A, st, a); models.sset(A, st, a, t); return [t], None
    T.kinds['ostr'] = (pstr, lambda A, st, a, what: ([models.sval(A, st, a)], None, None), None)
    T.kinds['olds'] = (lambda A, st, a, name: (None, None), read, None)
    P = 'jm::StringList::'
    N = (0, 1, 2, 3) + ((4,) if deep else ())
    shapes = [(n, 8) for n in N] + [(n, n) for n in N if n] + [(1, 3)]
    L = lambda n, cap=8, name='l': ('list', name, n, cap)
    I = lambda i: ('int', i)
    s = ('ostr', 's'); RAW = ('raw', 't', 'list'); A0 = lambda name='l': ptr(sym('&' + name, 64, True))
    thr = {'throw': True}
    def at(i): return lambda A, o, home: None if o.val is add(home['l'], const(8 + S * i, 64)) else 'refers to %s' % o.val
    T.case('StringList()', P + 'StringList()', [RAW], lambda q, t: {'t': []})
    for n in N: T.case('StringList(%d)' % n, P + 'StringList(long)', [RAW, I(n)], lambda q, t, n: {'t': [E0] * n})
    T.case('StringList(s)', P + 'StringList(jm::String const&)', [RAW, s], lambda q, t, s: {'t': s})
    for n, cap in shapes:
        k = '[%d of %d]' % (n, cap); l = L(n, cap)
        T.case('copy' + k, P + 'StringList(jm::StringList const&)', [RAW, l], lambda q, t, l: {'t': l})
        T.case('destroy' + k, P + '~StringList()', [l], lambda q, l: {'l': 'gone'})
        T.case('size' + k, P + 'size() const', [l], lambda q, l: len(l))
        T.case('clear' + k, P + 'clear()', [l], lambda q, l: {'l': []})
        for m in (0, 1, 2, 8, 9, 17): T.case('reserve(%d)%s' % (m, k), P + 'reserve(long)', [l, I(m)], lambda q, l, m: {})
        one = lambda x: x if isinstance(x, E) else x[0]
        for v, vn in [(s, '')] + [(('elem', 'l', i), ' own element %d' % i) for i in range(n)]:
            T.case('append%s%s' % (k, vn), P + 'append(jm::String const&)', [l, v], lambda q, l, s: {'l': l + [one(s)]})
            T.case('<<%s%s' % (k, vn), 'jm::operator<<(jm::StringList&, jm::String const&)', [l, v], lambda q, l, s: {'l': l + [one(s)], 'ret': A0()})
            T.case('remove%s%s' % (k, vn), P + 'remove(jm::String const&)', [l, v], lambda q, l, s: {'l': [x for x in l if not q.eq(x, one(s))]})
            T.case('contains%s%s' % (k, vn), P + 'contains(jm::String const&) const', [l, v], lambda q, l, s: any([q.eq(x, one(s)) for x in l]))
            for i in sorted({-1, 0, 1, n - 1, n, n + 1, IMAX, IMIN}):
                T.case('set(%d)%s%s' % (i, k, vn), P + 'set(long, jm::String const&)', [l, I(i), v], lambda q, l, i, s: {'l': l[:i] + [one(s)] + l[i + 1:]} if 0 <= i < len(l) else thr)
        for i in sorted({-1, 0, 1, n - 1, n, n + 1, IMAX, IMIN}):
            for d in ('get(long) const', 'operator[](long) const'):
                T.case('%s(%d)%s' % (d.split('(')[0], i, k), P + d, [l, I(i)], lambda q, l, i: {'ret': at(i)} if 0 <= i < len(l) else thr)
        T.case('begin' + k, P + 'begin()', [l], lambda q, l: {'ret': at(0)})
        T.case('end' + k, P + 'end()', [l], lambda q, l: {'ret': at(len(l))})
        for m, c2 in ((0, 8), (1, 8), (2, 2), (n, cap)):
            al = [(0, 1)] if (m, c2) == (n, cap) else []
            T.case('=%s[%d of %d]' % (k, m, c2), P + 'operator=(jm::StringList const&)', [l, L(m, c2, 'o')], lambda q, l, o: {'l': o, 'ret': A0()}, alias=al)
    # sorting: a permutation in which no neighbour is found to be in the wrong order
    f = mod.dem(P + 'sort()')
    for n, cap in shapes:
        A = T.ai(); st = State(); a = A0()
        cs, h = place(A, st, a, 'l', n, cap); bad = []; und = None
        try:
            for o in A.run(f, [a], st):
                if o.kind == 'noreturn': continue
                if o.kind != 'ret': bad.append('throws'); continue
                g, b, _ = read(A, o.st, a, 'the list')
                if sorted(x.id for x in g) != sorted(x.id for x in cs): bad.append('the sorted list holds %s' % [show(x) for x in g]); continue
                le = {}
                def known(x, y):
                    """x <= y is known on this path"""
                    r = mkcall('order', 32, [x, y]); q = mkcall('order', 32, [y, x]); z = const(0, 32)
                    return A.decide(o.st, icmp('slt', z, r)) is False or A.decide(o.st, icmp('slt', q, z)) is False
                for x in cs:
                    for y in cs: le[(x, y)] = x is y or known(x, y)
                for z in cs:
                    for x in cs:
                        for y in cs: le[(x, y)] = le[(x, y)] or le[(x, z)] and le[(z, y)]
                for x, y in zip(g, g[1:]):
                    if le[(x, y)]: continue
                    if A.decide(o.st, icmp('slt', const(0, 32), mkcall('order', 32, [x, y]))) or not le[(x, y)] and le[(y, x)] or not any(le[(u, v)] for u in cs for v in cs if u is not v): bad.append('%s is left in front of %s' % (show(x), show(y)))
                    else: bad.append('%s is left in front of %s without being compared' % (show(x), show(y)))
        except Bad as e: bad.append(str(e))
        except Limit as e: und = str(e)
        ck.analysed |= A.analysed
        ck.ob('sort[%d of %d]' % (n, cap), None if und and not bad else not bad, '%s:%s' % (f.file, f.line), und or '; '.join(dict.fromkeys(bad)))
        T.n += 1
    ck.need(T.n, 'list operations x shapes', 250); ck.counts['paths'] = T.paths

def tokens(ck, mod, deep):
    """the sequence of tokens for every text, whatever the order of hasNext and next"""
    T = Text(ck); T.models.pop(None, None)
    ctor = mod.dem('jm::StringTokenizer::StringTokenizer(jm::String const&, jm::String const&, bool)')
    has, nxt = mod.dem('jm::StringTokenizer::hasNext()'), mod.dem('jm::StringTokenizer::next()')
    dtor = [f for f in mod.fns.values() if f.dem == 'jm::StringTokenizer::~StringTokenizer()' and 'D0' not in f.name]
    where = '%s:%s' % (nxt.file, nxt.line)
    cnt = 0
    for n in (0, 1, 2, 3) + ((4,) if deep else ()):
        for m in (0, 1, 2):
            if n >= 3 and m == 2 and not deep: continue
            for rd in (False, True):
                for script in ('n' * (n + 1), 'hn' * (n + 1), 'hhn' * (n + 1)):
                    cnt += 1
                    A = T.ai(); st = State(); bad = []; und = None
                    for g in T.empties: T.place_string(A, st, obj('global', g), 'empty', [], 16)
                    a = ptr(sym('&tokenizer', 64, True)); ps = ptr(sym('&s', 64, True)); pd = ptr(sym('&d', 64, True))
                    s = [sym('s[%d]' % i, 16) for i in range(n)]; d = [sym('d[%d]' % i, 16) for i in range(m)]
                    T.place_string(A, st, ps, 's', s); T.place_string(A, st, pd, 'd', d)
                    def spec(q):
                        dl = [any([q.eq(c, x) for x in d]) for c in s]
                        out = []; i = 0
                        while i < n:
                            if dl[i]:
                                if rd: out.append([s[i]])
                                i += 1; continue
                            j = i
                            while j < n and not dl[j]: j += 1
                            out.append(s[i:j]); i = j
                        return out
                    try:
                        states = [(o.st, []) for o in A.run(ctor, [a, ps, pd, const(rd, ctor.args[3].get('w') or 1)], st) if o.kind == 'ret']
                        for k, c in enumerate(script):
                            new = []
                            for s0, log in states:
                                if log and log[-1][0] == 'throw': new.append((s0, log)); continue
                                r = obj('alloca', 'token%d' % k)
                                for o in A.run(has if c == 'h' else nxt, [a] if c == 'h' else [r, a], s0):
                                    if o.kind == 'throw': new.append((o.st, log + [('throw', c, None)]))
                                    elif o.kind == 'ret': new.append((o.st, log + [('h', o.val, None) if c == 'h' else ('n', T.read_string(A, o.st, r, 'the token')[0], None)]))
                            states = new
                            if len(states) > 20000: raise Limit('too many cases')
                        for s0, log in states:
                            def body(q):
                                want = spec(q)
                                if not consistent(A, q.st): return
                                T.paths += 1
                                k = 0
                                for e in log:
                                    if e[0] == 'throw':
                                        if e[1] == 'h': bad.append('hasNext throws')
                                        elif k < len(want): bad.append('no more tokens after %d of %d' % (k, len(want)))
                                        return
                                    if e[0] == 'h':
                                        v = e[1] if e[1].w == 1 else trunc(e[1], 1)
                                        g = A.decide(q.st, v)
                                        if g is None: raise Limit('hasNext is %s' % v)
                                        if g != (k < len(want)): bad.append('hasNext says %s with %d tokens left' % (g, len(want) - k))
                                    else:
                                        if k >= len(want): bad.append('a token after the last one'); return
                                        if len(e[1]) != len(want[k]) or any(x is not y and A.decide(q.st, icmp('eq', x, y)) is not True for x, y in zip(e[1], want[k])): bad.append('token %d is %s instead of %s' % (k, [show(x) for x in e[1]], [show(x) for x in want[k]]))
                                        k += 1
                            every(A, s0, body)
                    except Bad as e: bad.append(str(e))
                    except Limit as e: und = str(e)
                    ck.analysed |= A.analysed
                    ck.ob('tokens[%d by %d%s] %s' % (n, m, ' returned' if rd else '', script), None if und and not bad else not bad, where, und or '; '.join(list(dict.fromkeys(bad))[:5]))
    ck.need(cnt, 'token sequences', 60)
    # splitting at a character and joining
    L = {n: mod.off('jm::StringList', n) for n in ('mData', 'mSize', 'mLength')}; S = strsize(mod)
    def rlist(A, st, a):
        k = T.num(A, st, add(a, const(L['mSize'], 64)), 'size of the list')
        p = A.load(st, add(a, const(L['mData'], 64)), 8, True)
        return [T.read_string(A, st, add(p, const(S * i, 64)), 'element %d' % i)[0] for i in range(k)]
    f = mod.dem('jm::String::split(jm::Char)')
    for n in (0, 1, 2, 3) + ((4,) if deep else ()):
        A = T.ai(); st = State(); bad = []; und = None
        for g in T.empties: T.place_string(A, st, obj('global', g), 'empty', [], 16)
        a = ptr(sym('&s', 64, True)); s = [sym('s[%d]' % i, 16) for i in range(n)]; T.place_string(A, st, a, 's', s)
        r = obj('alloca', 'list'); c = sym('c', 16)
        ca = c
        if f.args[2]['ty'] == 'ptr': ca = obj('alloca', 'c'); A.store(st, ca, c, 2)
        try:
            for o in A.run(f, [r, a, ca], st):
                if o.kind == 'noreturn': continue
                if o.kind != 'ret': bad.append('throws'); continue
                def body(q):
                    dl = [q.eq(x, c) for x in s]
                    if not consistent(A, q.st): return
                    T.paths += 1
                    want = []; cur = []
                    for x, y in zip(s, dl):
                        if y:
                            if cur: want.append(cur)
                            cur = []
                        else: cur.append(x)
                    if cur: want.append(cur)
                    got = rlist(A, q.st, r)
                    if [len(x) for x in got] != [len(x) for x in want] or any(x is not y and A.decide(q.st, icmp('eq', x, y)) is not True for u, v in zip(got, want) for x, y in zip(u, v)): bad.append('gives %s instead of %s' % ([[show(x) for x in u] for u in got], [[show(x) for x in u] for u in want]))
                every(A, o.st, body)
        except Bad as e: bad.append(str(e))
        except Limit as e: und = str(e)
        ck.analysed |= A.analysed
        ck.ob('split[%d]' % n, None if und and not bad else not bad, '%s:%s' % (f.file, f.line), und or '; '.join(list(dict.fromkeys(bad))[:5]))
    import itertools
    f = mod.dem('jm::StringList::join(jm::Char) const')
    for lens in [()] + [x for k in (1, 2, 3) for x in itertools.product((0, 1, 3) if k < 3 else (0, 1), repeat=k)] + [(9, 9), (16, 1), (17,)]:
        A = T.ai(); st = State(); bad = []; und = None
        for g in T.empties: T.place_string(A, st, obj('global', g), 'empty', [], 16)
        a = ptr(sym('&l', 64, True)); h = T.heap(A, 'l', 8 + 8 * S); A.store(st, h, const(8, 64), 8)
        A.store(st, add(a, const(L['mData'], 64)), add(h, const(8, 64)), 8); A.store(st, add(a, const(L['mSize'], 64)), const(len(lens), 64), 8); A.store(st, add(a, const(L['mLength'], 64)), const(8, 64), 8)
        els = [[sym('l[%d][%d]' % (i, j), 16) for j in range(k)] for i, k in enumerate(lens)]
        for i in range(8): T.place_string(A, st, add(h, const(8 + S * i, 64)), 'l%d' % i, els[i] if i < len(els) else [], None if i < len(els) and els[i] else 16)
        c = sym('c', 16); ca = c; r = obj('alloca', 'text')
        if f.args[2]['ty'] == 'ptr': ca = obj('alloca', 'c'); A.store(st, ca, c, 2)
        want = []
        for i, e in enumerate(els): want += ([c] if i else []) + e
        try:
            for o in A.run(f, [r, a, ca], st):
                if o.kind == 'noreturn': continue
                if o.kind != 'ret': bad.append('throws'); continue
                T.paths += 1
                got = T.read_string(A, o.st, r, 'the text')[0]
                if len(got) != len(want) or any(x is not y for x, y in zip(got, want)): bad.append('gives %s instead of %s' % ([show(x) for x in got], [show(x) for x in want]))
                if rlist(A, o.st, a) != els: bad.append('the list changes')
        except Bad as e: bad.append(str(e))
        except Limit as e: und = str(e)
        ck.analysed |= A.analysed
        ck.ob('join%s' % list(lens), None if und and not bad else not bad, '%s:%s' % (f.file, f.line), und or '; '.join(list(dict.fromkeys(bad))[:5]))
    ck.counts['paths'] += T.paths

def going(A, f, args, st):
    return [o for o in A.run(f, args, st) if o.kind != 'noreturn']

def only(outs):
    if len(outs) != 1 or outs[0].kind != 'ret': raise Bad('%d outcomes where one was expected (%s)' % (len(outs), [o.kind for o in outs]))
    return outs[0]

class Elements:
    """how the elements of a container are written, read and compared"""
    def __init__(self, T, mod, what):
        self.T = T; self.mod = mod; self.what = what; self.date = mod.off('jm::Date', 'mTime') if what.startswith('Date') else None
    def fresh(self, A, st, n):
        if self.what == 'float': return [sym(n, 32)]
        return [sym(n, 64)]
    def value(self, A, st, name):
        v = sym(name, 64, self.what == 'Date*') if self.what != 'float' else mk('sym', 32, name)
        if self.what == 'Date*':
            v = ptr(v); A.assume(st, icmp('eq', v, const(0, 64)), False)
            only(going(A, self.mod.dem('jm::Date::Date(long)'), [v, sym('time(%s)' % name, 64)], st))
        return v
    def put(self, A, st, a, v, new=False):
        """an element of that value at a"""
        if self.what == 'String':
            if new: models.vptr(A, st, a)
            models.sset(A, st, a, v)
        elif self.what == 'Date':
            if new: only(going(A, self.mod.dem('jm::Date::Date(long)'), [a, v], st))
            else: A.store(st, add(a, const(self.date, 64)), v, 8)
        else: A.store(st, a, v, 4 if self.what == 'float' else 8)
    def get(self, A, st, a):
        if self.what == 'String': return models.sval(A, st, a)
        if self.what == 'Date': return A.load(st, add(a, const(self.date, 64)), 8)
        if self.what == 'float': return A.load(st, a, 4, False, True)
        return A.load(st, a, 8, True)
    def arg(self, A, st, v, k):
        """an argument of that value"""
        if self.what in ('float', 'Date*'): return v
        o = obj('alloca', 'argument%d' % k); self.put(A, st, o, v, True); return o
    def result(self, A, o, sret): return self.get(A, o.st, sret) if sret is not None else o.val
    def above(self, A, st, x, y):
        """x is known to come after y"""
        if self.what == 'float': c = fcmp('ogt', x, y), fcmp('olt', y, x)
        else:
            if self.what == 'Date*': x, y = [A.load(st, add(p, const(self.date, 64)), 8) for p in (x, y)]
            c = icmp('slt', y, x),
        r = [A.decide(st, k) for k in c]
        return True if True in r else False if False in r else None

def arrays(ck, mod, deep):
    """every array has its own elements, checked indices, value semantics and a sort by the order of the elements"""
    N = (0, 1, 2, 3) + ((4,) if deep else ())
    count = 0
    for what, cls, idx in (('String', 'jm::Array<jm::String>', 'long'), ('Date', 'jm::Array<jm::Date>', 'long'), ('Date*', 'jm::Array<jm::Date*>', 'unsigned int'), ('float', 'jm::FloatArray', 'unsigned int')):
        T = Text(ck)
        if what == 'String': T.models.update(models.string_models(mod))
        E_ = Elements(T, mod, what)
        base = cls.split('<')[0].split('::')[-1]; fl = what == 'float'; w = 64 if idx == 'long' else 32
        elt = {'String': 'jm::String', 'Date': 'jm::Date', 'Date*': 'jm::Date*', 'float': 'float'}[what]
        F = lambda n: mod.dem('%s::%s' % (cls, n))
        fs = dict(make=F('%s(%s)' % (base, idx)), none=F('%s()' % base), copy=F('%s(%s const&)' % (base, cls)), size=F('Length() const' if fl else 'size() const'), at=F('operator[](%s) const' % idx),
                  get=F(('Get' if fl else 'get') + '(%s) const' % idx), set=F(('Set' if fl else 'set') + '(%s, %s)' % (idx, elt)), sort=F('Sort()' if fl else 'sort()'), assign=F('operator=(%s const&)' % cls),
                  gone=[f for f in mod.fns.values() if f.dem == '%s::~%s()' % (cls, base) and 'D0' not in f.name][0])
        sym_ = lambda n: ptr(sym('&' + n, 64, True))
        def new(A, st, n, name):
            """an array of n elements with arbitrary contents; its address, elements and contents"""
            a = sym_(name); A.assume(st, icmp('eq', a, const(0, 64)), False)
            o = only(going(A, fs['make'], [a, const(n, w)], st)); st = o.st
            vs = []; 
            for i in range(n):
                p = only(going(A, fs['at'], [a, const(i, w)], st)); st = p.st
                v = E_.value(A, st, '%s[%d]' % (name, i)); vs.append(v); E_.put(A, st, p.val, v)
            return st, a, vs
        def contents(A, st, a, what):
            n = only(going(A, fs['size'], [a], st)); st = n.st
            k = A.resolve(n.val, st)
            if not isc(k): raise Bad('the size of %s is %s' % (what, k))
            out = []; home = []
            for i in range(cv(k)):
                p = only(going(A, fs['at'], [a, const(i, w)], st)); st = p.st
                b = A.split(p.val)[0]
                if b in st.freed: raise Bad('%s refers to released storage' % what)
                out.append(E_.get(A, st, p.val)); home.append(p.val)
            if len(set(home)) != len(home): raise Bad('two elements of %s are stored at one place' % what)
            return out, {A.split(h)[0] for h in home}, home
        def leaks(A, st, arrays):
            """when every array is destroyed too, no storage is left"""
            for a in arrays: st = only(going(A, fs['gone'], [a], st)).st
            dead = {A.split(e[2])[0] for e in st.events() if e[0] == 'delete' and not isc(e[2])}
            for e in st.events():
                if e[0] == 'new' and e[2] not in dead and not e[2].a[1].startswith('exc'): raise Bad('storage allocated at %s is never released' % e[2].a[1].split('#')[0])
        def expect(A, st, a, want, what, live=()):
            got, h, home = contents(A, st, a, what)
            if len(got) != len(want): raise Bad('%s has %d elements instead of %d' % (what, len(got), len(want)))
            for i, (g, x) in enumerate(zip(got, want)):
                if g is not x and A.decide(st, icmp('eq', g, x)) is not True: raise Bad('element %d of %s is %s instead of %s' % (i, what, show(g), show(x)))
            if h & set(live): raise Bad('%s shares its storage' % what)
            return h
        def case(key, f, body):
            nonlocal count
            count += 1
            A = T.ai(); st = State(); bad = None; und = None
            for g in T.empties: T.place_string(A, st, obj('global', g), 'empty', [], 16)
            try: body(A, st)
            except Bad as e: bad = str(e)
            except Limit as e: und = str(e)
            ck.analysed |= A.analysed
            ck.ob('%s %s' % (cls.replace('jm::', ''), key), None if und else bad is None, '%s:%s' % (f.file, f.line), und or bad or '')
        def empty(A, st):
            o = only(going(A, fs['none'], [sym_('a')], st)); expect(A, o.st, sym_('a'), [], 'the array')
        case('()', fs['none'], empty)
        for n in N:
            def make(A, st):
                st, a, v = new(A, st, n, 'a'); expect(A, st, a, v, 'the array'); leaks(A, st, [a])
            case('(%d)' % n, fs['make'], make)
            def copy(A, st):
                st, a, v = new(A, st, n, 'a'); b = sym_('b')
                o = only(going(A, fs['copy'], [b, a], st)); h = expect(A, o.st, a, v, 'the source'); expect(A, o.st, b, v, 'the copy', h); leaks(A, o.st, [a, b])
            case('copy(%d)' % n, fs['copy'], copy)
            def gone(A, st):
                st, a, v = new(A, st, n, 'a')
                for o in going(A, fs['gone'], [a], st):
                    if o.kind != 'ret': raise Bad('throws')
                    leaks(A, o.st, [])
            case('destroy(%d)' % n, fs['gone'], gone)
            for m in N:
                def assign(A, st):
                    st, a, v = new(A, st, n, 'a'); st, b, u = new(A, st, m, 'b')
                    A.assume(st, icmp('eq', a, b), False)
                    o = only(going(A, fs['assign'], [a, b], st)); h = expect(A, o.st, b, u, 'the source'); expect(A, o.st, a, u, 'the target', h); leaks(A, o.st, [a, b])
                    if o.val is not a: raise Bad('the result is not the target')
                case('%d = %d' % (n, m), fs['assign'], assign)
            def self_(A, st):
                st, a, v = new(A, st, n, 'a')
                o = only(going(A, fs['assign'], [a, a], st)); expect(A, o.st, a, v, 'the array'); leaks(A, o.st, [a])
            case('%d = itself' % n, fs['assign'], self_)
            top = (1 << (w - 1))
            for i in sorted({0, 1, n - 1, n, n + 1, (1 << w) - 1, top, top - 1}):
                if i < 0: continue
                inside = i < n
                if fl and not inside: continue      # FloatArray leaves indices unchecked on purpose
                def idx_(name):
                    def body(A, st):
                        st, a, v = new(A, st, n, 'a'); f = fs[name]; args = [a, const(i, w)]; sret = None
                        if f.args[0]['sret']: sret = obj('alloca', 'result'); args = [sret] + args
                        x = None; want = list(v)
                        if name == 'set':
                            x = E_.value(A, st, 'x'); args.append(E_.arg(A, st, x, 0))
                            if inside: want[i] = x
                        for o in going(A, f, args, st):
                            if (o.kind == 'throw') == inside: raise Bad('throws an exception' if inside else 'no exception')
                            if inside and name == 'get' and E_.result(A, o, sret) is not v[i]: raise Bad('the result is %s instead of %s' % (show(E_.result(A, o, sret)), show(v[i])))
                            if inside and name == 'at' and E_.get(A, o.st, o.val) is not v[i]: raise Bad('the result refers to %s instead of %s' % (show(E_.get(A, o.st, o.val)), show(v[i])))
                            expect(A, o.st, a, want, 'the array')
                            if o.kind == 'ret': leaks(A, o.st, [a])
                    return body
                for name in ('get', 'set', 'at'): case('%s(%d) of %d' % (name, i, n), fs[name], idx_(name))
            if what != 'String':
                def sort(A, st):
                    st, a, v = new(A, st, n, 'a')
                    for o in going(A, fs['sort'], [a], st):
                        if o.kind != 'ret': raise Bad('throws')
                        g, h, _ = contents(A, o.st, a, 'the array')
                        if sorted(x.id for x in g) != sorted(x.id for x in v): raise Bad('the sorted array holds %s' % [show(x) for x in g])
                        le = {(x, y): x is y or E_.above(A, o.st, x, y) is False or E_.above(A, o.st, y, x) is True for x in v for y in v}
                        for z in v:
                            for x in v:
                                for y in v: le[(x, y)] = le[(x, y)] or le[(x, z)] and le[(z, y)]
                        for x, y in zip(g, g[1:]):
                            if not le[(x, y)]: raise Bad('%s is left in front of %s' % (show(x), show(y)))
                        leaks(A, o.st, [a])
                case('sort(%d)' % n, fs['sort'], sort)
    ck.need(count, 'array operations', 200)

def stacks(ck, mod, deep):
    """last in, first out, for every sequence of operations up to a length"""
    import itertools
    count = 0
    for what in ('String',):
        cls = 'jm::Stack<jm::%s>' % what
        T = Text(ck); T.models.update(models.string_models(mod)); E_ = Elements(T, mod, what)
        F = lambda n: mod.dem('%s::%s' % (cls, n))
        fs = dict(new=F('Stack()'), push=F('push(jm::String)'), pop=F('pop()'), top=F('top() const'), ref=F('topRef()'), top2=F('top2()'), top3=F('top3()'), clear=F('clear()'), size=F('size() const'),
                  has=F('hasElements() const'), reverse=F('reverse()'), gone=[f for f in mod.fns.values() if f.dem == '%s::~Stack()' % cls and 'D0' not in f.name][0])
        steps = ('push', 'pop', 'reverse', 'clear')
        def observe(A, st, a, model):
            """everything that can be asked of the stack"""
            for name, want in (('size', len(model)), ('has', bool(model)), ('top', model[-1:]), ('ref', model[-1:]), ('top2', model[-2:-1]), ('top3', model[-3:-2])):
                if name in ('top', 'ref') and not model: continue      # asks for an element of an empty stack
                f = fs[name]; args = [a]; sret = None
                if f.args[0]['sret']: sret = obj('alloca', 'result'); args = [sret, a]
                o = going(A, f, args, st)
                if name in ('top2', 'top3') and not want:
                    if any(x.kind != 'throw' for x in o): raise Bad('%s of a stack of %d elements does not throw' % (name, len(model)))
                    continue
                o = only(o)
                if name in ('size', 'has'):
                    g = A.resolve(o.val, o.st)
                    if not isc(g): g = {True: const(1, 1), False: const(0, 1)}.get(A.decide(o.st, o.val), g)
                    if not isc(g) or cv(g) != want: raise Bad('%s is %s with %d elements' % ('size' if name == 'size' else 'hasElements', g, len(model)))
                    continue
                g = E_.get(A, o.st, o.val if sret is None else sret)
                if g is not want[0]: raise Bad('%s is %s instead of %s' % (name, show(g), show(want[0])))
        for length in range(1, 6 if deep else 5):
            for script in list(itertools.product(steps, repeat=length)) + ([('push',) * k + t for k in (4, 5, 7) for t in (('reverse',), ('reverse', 'pop', 'push', 'reverse'), ('clear', 'push'), ('pop',) * k)] if length == 1 else []):
                depth = 0; ok = True
                for s in script:
                    if s == 'push': depth += 1
                    elif s == 'pop':
                        if not depth: ok = False; break
                        depth -= 1
                    elif s == 'clear': depth = 0
                if not ok: continue
                count += 1
                A = T.ai(); st = State(); bad = None; und = None; f = fs[script[-1]]
                for g in T.empties: T.place_string(A, st, obj('global', g), 'empty', [], 16)
                try:
                    a = ptr(sym('&stack', 64, True)); st = only(going(A, fs['new'], [a], st)).st; model = []
                    for k, s in enumerate(script):
                        args = [a]; sret = None
                        if s == 'push': v = E_.value(A, st, 'v%d' % k); args.append(E_.arg(A, st, v, k)); model.append(v)
                        if s == 'pop': sret = obj('alloca', 'popped%d' % k); args = [sret, a]
                        o = only(going(A, fs[s], args, st)); st = o.st
                        if s == 'pop':
                            w = model.pop()
                            if E_.get(A, st, sret) is not w: raise Bad('pop gives %s instead of %s' % (show(E_.get(A, st, sret)), show(w)))
                        elif s == 'reverse': model.reverse()
                        elif s == 'clear': model = []
                        if k == len(script) - 1 or not model: observe(A, st, a, model)
                    o = only(going(A, fs['gone'], [a], st))
                    dead = [A.split(e[2])[0] for e in o.st.events() if e[0] == 'delete' and not isc(e[2])]
                    for e in o.st.events():
                        if e[0] == 'new' and e[2] not in dead: raise Bad('an element is never released')
                except Bad as e: bad = str(e)
                except Limit as e: und = str(e)
                ck.analysed |= A.analysed
                ck.ob('stack: ' + ' '.join(script), None if und else bad is None, '%s:%s' % (f.file, f.line), und or bad or '')
    ck.need(count, 'stack histories', 100)
