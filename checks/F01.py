"""Paths of files: normal form, joining, splitting, copies."""
from expr import *
from ai import ptr, obj
from ir import Anchor
from text import Text, Bad
import models
LEVEL = 'other'
RULE = ('every constructor, assignment and path query of File is abstractly interpreted on paths of each small length with arbitrary characters (every position may or may not be a separator or a dot); '
        'the stored path, the encoded name handed to the operating system and every result are compared with the definition on sequences on every path')
EXPLANATION = RULE
ASSUMPTIONS = ['the encoder is a function of the characters (decided by C02)', 'lengths up to the stated bound; characters are arbitrary']
P = 'jm::File::'; SEP = ord('/')

def enc(cs): return [mkcall('encoded', 8, [c]) for c in cs]

def setup(T):
    mod = T.mod
    F = {n: mod.off('jm::File', n) for n in ('mPathname', 'mCstr', 'mHandle')}
    def m_encode(ai, st, av, x):
        cs, b, h = T.read_string(ai, st, av[1], 'the path')
        hb = T.place_bytes(ai, st, av[0], 'encoded', enc(cs))
        st.event('new', '_Znam', hb, None, x)
        return [(st, 'ret', None)]
    n = 0
    for f in mod.fns.values():
        if f.dem in ('jm::String::toCString() const', 'jm::String::toCString(jm::Charset*) const'): T.models[f.name] = m_encode; n += 1
        elif f.dem.startswith('jm::Charset::forName('): T.models[f.name] = lambda ai, st, av, x: [(st, 'ret', ptr(sym('charset', 64, True)))]
        elif f.dem in ('jm::Object::Object()', 'jm::Object::~Object()'): T.models[f.name] = models.m_nop
    if n < 1: raise Anchor('no encoder')
    fld = lambda a, n: add(a, const(F[n], 64))
    def place(A, st, a, name, n, handle=0, cs=None):
        A.store(st, a, add(obj('global', T.vtable('jm::File')), const(16, 64)), 8)
        if cs is None: cs = [sym('%s[%d]' % (name, j), 16) for j in range(n)]
        h = T.place_string(A, st, fld(a, 'mPathname'), name, cs)
        hb = T.place_bytes(A, st, fld(a, 'mCstr'), name + ' encoded', enc(cs), None if n else 'null')
        hd = ptr(sym('handle(%s)' % name, 64, True)); A.assume(st, icmp('eq', hd, const(0, 64)), False)
        A.store(st, fld(a, 'mHandle'), hd if handle else const(0, 64), 8)
        return cs, h
    def read(A, st, a, what):
        cs, h, _ = T.read_string(A, st, fld(a, 'mPathname'), 'the path of ' + what)
        bs, b, _ = T.read_bytes(A, st, fld(a, 'mCstr'), 'the encoded path of ' + what)
        if len(bs) != len(cs) or any(x is not y for x, y in zip(bs, enc(cs))): raise Bad('the name of %s for the operating system is not its path' % what)
        return cs, h, None
    T.kinds['file'] = (place, read, None)
    return F, fld

def norm(q, cs):
    out = []
    for c in cs:
        if out and q.eq(out[-1], SEP) and q.eq(c, SEP): continue
        out.append(c)
    if len(out) > 1 and q.eq(out[-1], SEP): out.pop()
    return out
def last(q, cs, ch):
    for i in range(len(cs) - 1, -1, -1):
        if q.eq(cs[i], ch): return i
    return -1
def name(q, p): return p[last(q, p, SEP) + 1:]
def parent(q, p):
    i = last(q, p, SEP)
    return p[:1] if i == 0 and len(p) > 1 else p[:max(i, 0)]
def extension(q, p):
    n = name(q, p); i = last(q, n, ord('.'))
    return n[i + 1:] if i >= 0 else []

def run(ck):
    T = Text(ck); deep = ck.tier == 'thorough'
    setup(T)
    N = range(0, 6 if deep else 5); M = range(0, 4)
    T.case('File()', P + 'File()', [('raw', 't', 'file')], lambda q, t: {'t': []}, leak=False)
    for n in N:
        k = '[%d]' % n; f = ('file', 'f', n)
        T.case('File(path)' + k, P + 'File(jm::String const&)', [('raw', 't', 'file'), ('str', 'p', n)], lambda q, t, p: {'t': norm(q, p)}, leak=False)
        T.case('name' + k, P + 'name() const', [f], lambda q, f: name(q, f))
        T.case('parent' + k, P + 'parent() const', [f], lambda q, f: parent(q, f))
        T.case('extension' + k, P + 'extension() const', [f], lambda q, f: extension(q, f))
        T.case('path' + k, P + 'path() const', [f], lambda q, f: f)
        T.case('isNull' + k, P + 'isNull() const', [f], lambda q, f: not f)
        T.case('isHidden' + k, P + 'isHidden() const', [f], lambda q, f: bool(name(q, f)) and q.eq(name(q, f)[0], ord('.')))
        T.case('isAbsolute' + k, P + 'isAbsolute() const', [f], lambda q, f: bool(f) and q.eq(f[0], SEP))
        T.case('copy' + k, P + 'File(jm::File const&)', [('raw', 't', 'file'), f], lambda q, t, f: {'t': f}, leak=False)
    for n in M:
        for m in M:
            if n + m > (6 if deep else 5): continue
            k = '[%d][%d]' % (n, m)
            def join(q, t, p, c, n=n):
                if not c: return {'throw': True}
                return {'t': norm(q, norm(q, p) + [const(SEP, 16)] + norm(q, c))}
            T.case('File(parent, child)' + k, P + 'File(jm::String, jm::String)', [('raw', 't', 'file'), ('str', 'p', n), ('str', 'c', m)], join, leak=False)
            def join2(q, t, p, c):
                if not c: return {'throw': True}
                return {'t': norm(q, p + [const(SEP, 16)] + norm(q, c))}
            T.case('File(file, child)' + k, P + 'File(jm::File const&, jm::String)', [('raw', 't', 'file'), ('file', 'p', n), ('str', 'c', m)], join2, leak=False)
            T.case('=' + k, P + 'operator=(jm::File const&)', [('file', 't', n), ('file', 'f', m)], lambda q, t, f: {'t': f}, alias=[(0, 1)] if n == m else [], leak=False)
    ck.need(T.n, 'operations x shapes', 60); ck.counts['paths'] = T.paths
