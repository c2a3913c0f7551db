"""Change records of the undo manager: recording, exchange, lifetime."""
import re
from expr import *
from ai import AI, State, ptr, isptr, obj, Limit
from ir import Anchor
import models
from mem import same
LEVEL = 'proof'
RULE = ('for every value type accepted by UndoManager::registerChange: abstract interpretation of the record constructor, of three '
        'exchanges with an arbitrary overwrite in between, and of the destructor; memory of the recorded variable compared field by field')
EXPLANATION = RULE
ASSUMPTIONS = ['String values are opaque tokens copied by String copy construction/assignment (their own properties are checked separately)',
               'the recorded variable, its object and the record do not overlap', 'raw byte buffers are excluded: that recording interface throws "not implemented"']

SCALAR = {'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8,
          'float': 4, 'double': 8, 'bool': 1, 'jm::Object*': 8, 'char': 1}

def fields_of(mod, ty):
    """[(offset, size, isptr, isfloat, name)] of the state carried by a value of type ty"""
    if ty in SCALAR: return [(0, SCALAR[ty], ty.endswith('*'), ty in ('float', 'double'), '*')]
    if ty == 'jm::String': return [(models.STR, 8, False, False, 'string value')]
    if ty not in mod.types: raise Anchor('type %s unknown' % ty)
    out = []
    for n, o, s, t in mod.fields(ty):
        if n.startswith('_vptr'): continue
        if t == 'jm::String': out.append((o + models.STR, 8, False, False, n))
        elif t in mod.types and not t.endswith(('*', '::')) and mod.fields(t):
            out += [(o + a, b, c, d, n + '.' + e) for a, b, c, d, e in fields_of(mod, t)]
        else: out.append((o, s, t.endswith('*'), t in ('float', 'double'), n))
    return out

def run(ck):
    mod = ck.mod
    base = models.string_models(mod)
    base['jm::Object::retain() const'] = base['jm::Object::retain()'] = lambda ai, st, av, x: (st.event('retain', av[0]), [(st, 'ret', av[0])])[1]
    base['jm::Object::release() const'] = base['jm::Object::release()'] = lambda ai, st, av, x: (st.event('release', av[0]), [(st, 'ret', None)])[1]
    base['__dynamic_cast'] = models.dyncast
    def capture(ai, st, av, x):
        st.event('record', av[1]); return [(st, 'ret', None)]
    base['jm::UndoManager::registerChange(jm::UndoChange*)'] = capture
    regs = [f for f in mod.method('jm::UndoManager', 'registerChange') if len(f.args) >= 3]
    eovt = {o: n for o, n in models.vt_entries(mod, '_ZTVN2jm14EditableObjectE')}
    reg_slot = [o - 16 for o, n in eovt.items() if mod.fns.get(n) and mod.fns[n].sname == 'regenerate']
    if not reg_slot: raise Anchor('EditableObject::regenerate is not virtual any more')
    n = 0
    for f in sorted(regs, key=lambda f: f.dem):
        ty = re.match(r'.*\(jm::Object\*, (.*)\*(, .*)?\)$', f.dem).group(1)
        if ty == 'unsigned char*': continue
        n += 1
        where = '%s:%s' % (f.file, f.line)
        A = AI(mod, base)
        um, o, p = ptr(sym('manager', 64, True)), ptr(sym('object', 64, True)), ptr(sym('variable', 64, True))
        flds = fields_of(mod, ty)
        def content(st): return [A.load(st, add(p, const(fo, 64)), fs, ip, fl) for fo, fs, ip, fl, nm in flds]
        st0 = State()
        for q in (um, o, p): A.assume(st0, icmp('eq', q, const(0, 64)), False)
        old = content(st0)
        if ty == 'bool': A.narrow(st0, old[0], 0, 1)
        problems = []
        outs = A.run(f, [um, o, p], st0)
        nrec = 0
        for r in outs:
            recs = [e for e in r.st.events() if e[0] == 'record']
            if r.kind != 'ret' or len(recs) != 1: problems.append('a path %s without handing over exactly one record' % r.kind); continue
            nrec += 1
            rec = recs[0][1]
            if not all(same(a, b) for a, b in zip(content(r.st), old)): problems.append('recording changes the variable')
            st = r.st
            new = []
            for fo, fs, ip, fl, nm in flds:
                e = sym('new.%s' % nm, fs * 8, ip)
                if ip: ptr(e)
                if ty == 'bool': A.narrow(st, e, 0, 1)
                new.append(e); A.store(st, add(p, const(fo, 64)), e, fs)
            # links of the record within its step belong to the step
            links = []
            for nm in ('mNext', 'mPrev'):
                e = ptr(sym('record.' + nm, 64, True)); A.store(st, add(rec, const(mod.off('jm::UndoChange', nm), 64)), e, 8); links.append((nm, e))
            front = [(st, 0)]
            try:
                for k in range(3):
                    nf = []
                    for st, _ in front:
                        mark = len(st.events())
                        res, sf = models.vcall(A, st, rec, 'swap')
                        for q in res:
                            if q.kind == 'noreturn' or q.kind == 'unreachable': continue
                            if q.kind != 'ret': problems.append('exchange %d leaves by %s (%s)' % (k + 1, q.kind, q.where.loc if q.where else '')); continue
                            want = (old, new, old)[k]; got = content(q.st)
                            for a, b, fl in zip(want, got, flds):
                                if not same(A.resolve(a, q.st), A.resolve(b, q.st)): problems.append('after exchange %d, %s holds %s instead of %s' % (k + 1, fl[4], b, 'the recorded value' if k != 1 else 'the value before undo'))
                            for nm, e in links:
                                if A.load(q.st, add(rec, const(mod.off('jm::UndoChange', nm), 64)), 8, True) is not e: problems.append('exchange %d changes the link %s of the record' % (k + 1, nm))
                            ev = q.st.events()[mark:]
                            if any(e[0] == 'record' for e in ev): problems.append('exchange %d records a further change' % (k + 1))
                            dc = [e for e in ev if e[0] == 'dyncast' and e[1] is o]
                            if not dc: problems.append('exchange %d does not ask the object to regenerate' % (k + 1))
                            elif dc[-1][3]:
                                if not any(e[0] == 'icall' and e[2] and e[2][0] is ptr(mk('dyn', 64, dc[-1][1], dc[-1][2])) and slot_is(e[1], reg_slot) for e in ev):
                                    problems.append('exchange %d does not regenerate an editable object' % (k + 1))
                            nf.append((q.st, 0))
                    front = nf[:16]
                    if not nf: problems.append('no path through exchange %d' % (k + 1))
                for st, _ in front:
                    dt = [x for x in models.vt_entries(mod, models.vtable_of(A, st, rec)[0]) if mod.fns.get(x[1]) and mod.fns[x[1]].sname.startswith('~')]
                    d = [mod.fns[x[1]] for x in dt if 'D0E' not in x[1]]
                    for q in A.run(d[0], [rec], st):
                        if q.kind != 'ret': continue
                        bal = {}
                        for e in q.st.events():
                            if e[0] in ('retain', 'release'):
                                t = A.resolve(e[1], q.st)
                                bal[t] = bal.get(t, 0) + (1 if e[0] == 'retain' else -1)
                                if bal[t] < 0: problems.append('%s is released more often than retained' % t)
                        for t, c in bal.items():
                            if c: problems.append('%s retained %+d time(s) over the life of the record' % (t, c))
                        if not any(e[0] == 'retain' and e[1] is o for e in q.st.events()): problems.append('the record does not keep its object alive')
                        if ty == 'jm::Object*':
                            for v, tag in ((old[0], 'recorded'), (new[0], 'replaced')):
                                c0 = q.st.facts.get(icmp('eq', v, const(0, 64)))
                                if c0 is not True and not any(e[0] == 'retain' and e[1] is v for e in q.st.events()): problems.append('the %s reference is not kept alive by the record' % tag)
            except Limit as e:
                ck.ob('record:' + ty, None, where, str(e)); problems = None
                break
            ck.analysed |= A.analysed
        if problems is None: continue
        if not nrec and not problems: problems.append('no record is created')
        ck.ob('record:' + ty, not problems, where, '; '.join(dict.fromkeys(problems)))
    ck.need(n, 'recordable types', 18)

def slot_is(target, slots):
    """the called pointer was loaded from the given vtable slot"""
    if target.op != 'init': return False
    c = target.a[1]
    return c in slots
