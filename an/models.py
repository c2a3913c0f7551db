"""Summaries (models) of library facilities whose internals are the subject of other checks."""
from expr import *
from ai import AI, obj, ptr, isptr, State
import ir

def ret(ai, st, v=None): return [(st, 'ret', v)]

def m_nop(ai, st, av, x):
    return [(st, 'ret', None)]

# ---- String as an opaque value: one abstract cell at offset STR of the object -------------------
STR = 0
def sval(ai, st, p): return ai.load(st, add(p, const(STR, 64)), 8)
def sset(ai, st, p, v): ai.store(st, add(p, const(STR, 64)), v, 8)

def vptr(ai, st, p):
    if STR: ai.store(st, p, add(obj('global', '_ZTVN2jm6StringE'), const(16, 64)), 8)
def str_copy(ai, st, av, x):
    vptr(ai, st, av[0])
    sset(ai, st, av[0], sval(ai, st, av[1])); return [(st, 'ret', None)]
def str_assign(ai, st, av, x):
    sset(ai, st, av[0], sval(ai, st, av[1])); return [(st, 'ret', av[0])]
def str_default(ai, st, av, x):
    vptr(ai, st, av[0])
    sset(ai, st, av[0], mk('strlit', 64, '')); return [(st, 'ret', None)]
def cstr(ai, p):
    """bytes of a NUL-terminated constant"""
    b, d, o = ai.split(p)
    if b.op == 'obj' and b.a[0] == 'global' and d is None:
        out = []
        while True:
            v = ai.ginit(b.a[1], o + len(out), 1)
            if v is None or not isc(v): return None
            if cv(v) == 0: return bytes(out).decode('utf8', 'replace')
            out.append(cv(v))
            if len(out) > 4000: return None
    return None
def str_cstr(ai, st, av, x):
    t = cstr(ai, av[1])
    vptr(ai, st, av[0])
    sset(ai, st, av[0], mk('strlit', 64, t) if t is not None else mk('strof', 64, av[1])); return [(st, 'ret', None)]
def str_eq(ai, st, av, x):
    a, b = sval(ai, st, av[0]), sval(ai, st, av[1])
    return [(st, 'ret', icmp('eq', a, b))]

def string_models(mod):
    m = {}
    for f in mod.fns.values():
        d = f.dem
        if d == 'jm::String::String(jm::String const&)' or d == 'jm::String::String(jm::String&&)': m[f.name] = str_copy
        elif d in ('jm::String::operator=(jm::String const&)', 'jm::String::operator=(jm::String&&)'): m[f.name] = str_assign
        elif d == 'jm::String::String()': m[f.name] = str_default
        elif d == 'jm::String::String(char const*)': m[f.name] = str_cstr
        elif d == 'jm::String::~String()': m[f.name] = m_nop
        elif d in ('jm::String::equals(jm::String const&) const', 'jm::operator==(jm::String const&, jm::String const&)'): m[f.name] = str_eq
        elif d.startswith(('jm::operator<<(std::', 'std::basic_ostream')) or 'std::ostream' in d.split('(')[0]: m[f.name] = m_first
    return m

def m_first(ai, st, av, x): return [(st, 'ret', av[0] if x.d['ty'] != 'void' else None)]

def dyncast(ai, st, av, x):
    """dynamic_cast: null or the operand"""
    e = ptr(mk('dyn', 64, av[0], av[2])); z = const(0, 64); c = icmp('eq', e, z)
    d = ai.decide(st, c); out = []
    for null in (False, True):
        if d is not None and d is not null: continue
        s = st.copy() if d is None else st
        ai.assume(s, c, null)
        s.event('dyncast', av[0], av[2], not null)
        out.append((s, 'ret', z if null else e))
    return out

def vslot(mod, vt, off, sname):
    """offsets of the entries of a vtable global that hold a function named sname"""
    g = mod.globals.get(vt)
    out = []
    if not g or 'init' not in g: return out
    for o, f in vt_entries(mod, vt):
        if mod.fns.get(f) is not None and mod.fns[f].sname == sname: out.append((o - off, f))
    return out

def vt_entries(mod, vt):
    out = []
    def walk(o, base):
        if o[0] == 'agg':
            for eo, es, v in o[1]: walk(v, base + eo)
        elif o[0] == 'g':
            n = mod.alias.get(o[1], o[1])
            out.append((base, n))
    g = mod.globals.get(vt)
    if g and 'init' in g: walk(g['init'], 0)
    return out

def vtable_of(A, st, p):
    """(vtable global, offset) stored in an object"""
    v = A.load(st, p, 8, True)
    b, d, o = A.split(v)
    if b.op == 'obj' and b.a[0] == 'global' and d is None: return b.a[1], o
    return None

def vcall(A, st, p, sname, args=()):
    vt = vtable_of(A, st, p)
    if vt is None: raise ir.Anchor('no known vtable in %s' % p)
    r = vslot(A.mod, vt[0], vt[1], sname)
    r = [x for x in r if x[0] >= 0]
    if not r: raise ir.Anchor('no %s in %s' % (sname, vt[0]))
    return A.run(A.mod.fns[r[0][1]], [p] + list(args), st), A.mod.fns[r[0][1]]

# ---- std::min/std::max of floating values: a temporary holding the chosen value (the reference is read at once) ----
def m_pick(ismax, size):
    def f(ai, st, av, x):
        a, b = ai.load(st, av[0], size, False, True), ai.load(st, av[1], size, False, True)
        c = fcmp('olt', a, b) if ismax else fcmp('olt', b, a)
        d = ai.decide(st, c)
        ai.ctr += 1
        o = obj('alloca', 'pick#%d' % ai.ctr)
        ai.store(st, o, select(c, b, a) if d is None else (b if d else a), size)
        return [(st, 'ret', o)]
    return f
def num_models(mod):
    m = {}
    for f in mod.fns.values():
        for n in ('min', 'max'):
            for t, s in (('double', 8), ('float', 4)):
                if f.dem == '%s const& std::%s<%s>(%s const&, %s const&)' % (t, n, t, t, t): m[f.name] = m_pick(n == 'max', s)
    return m
def m_text(ai, st, av, x):
    """a text computed from anything (translated message): an opaque value written to the result object"""
    if x.d['ty'] == 'void' and av: sset(ai, st, av[0], ai.fresh('text', 64))
    return [(st, 'ret', None)]
def throw_models(mod):
    """construction of exceptions, logging and message translation do not matter for what is computed"""
    m = {}
    for f in mod.fns.values():
        d = f.dem
        if d.startswith(('jm::Exception::Exception(', 'jm::Exception::~Exception(', 'jm::System::log(')): m[f.name] = m_nop
        elif d.startswith('jm::Tr('): m[f.name] = m_text
    return m
