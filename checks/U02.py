"""Editing through EditableObject::setMember."""
import re
from expr import *
from ai import AI, State, ptr, isptr, Limit
from ir import Anchor
import models
from mem import same
from U01 import fields_of
LEVEL = 'proof'
RULE = ('for every setMember overload, abstract interpretation over all paths; on each returning path the returned status, the recorded '
        'registrations (with the variable content at that moment) and the final content of the variable are compared with the editing rule')
EXPLANATION = RULE
ASSUMPTIONS = ['String equality/assignment act on the string value (checked separately)', 'variable, object, document and manager do not overlap']

def run(ck):
    mod = ck.mod
    base = models.string_models(mod)
    st_enum = mod.enums.get('jm::Status') or {}
    if 'eOK' not in st_enum or 'eNotChanged' not in st_enum: raise Anchor('Status enumeration not found')
    OK, NC = int(st_enum['eOK']), int(st_enum['eNotChanged'])
    CUR = {}
    def reg(ai, st, av, x):
        st.event('reg', av[0], av[1], av[2], tuple(ai.load(st, add(CUR['p'], const(o, 64)), s, ip, fl) for o, s, ip, fl, n in CUR['f']), x)
        return [(st, 'ret', None)]
    for f in mod.method('jm::UndoManager', 'registerChange'):
        if len(f.args) >= 3: base[f.name] = reg
    def rts(ai, st, av, x):
        st.event('fail', av[0], av[1]); return [(st, 'ret', None)]
    base['jm::UndoManager::registerTransactionStatus'] = rts
    fs = [f for f in mod.method('jm::EditableObject', 'setMember')]
    n = 0
    for f in sorted(fs, key=lambda f: f.dem):
        m = re.match(r'.*setMember\(([^,]*)\*, (.*)\)$', f.dem)
        if not m: raise Anchor('unexpected signature %s' % f.dem)
        ty = m.group(1); n += 1
        where = '%s:%s' % (f.file, f.line)
        A = AI(mod, base)
        args = A.argsyms(f)
        this, p = args[0], args[1]
        flds = fields_of(mod, ty)
        CUR['p'] = p; CUR['f'] = flds
        st0 = State()
        for q in (this, p): A.assume(st0, icmp('eq', q, const(0, 64)), False)
        rd = lambda st, q: [A.load(st, add(q, const(o, 64)), s, ip, fl) for o, s, ip, fl, nm in flds]
        old = rd(st0, p)
        byref = ty in mod.types
        if byref:
            A.assume(st0, icmp('eq', args[2], const(0, 64)), False); A.assume(st0, icmp('eq', args[2], p), False); new = rd(st0, args[2])
        else:
            new = [args[2] if args[2].w == old[0].w else zext(args[2], old[0].w)]
        if ty == 'bool': A.narrow(st0, old[0], 0, 1)
        # the document's manager as the accessors deliver it
        doc = acc(mod, base, 'jm::EditableObject::document() const', this)
        man = acc(mod, base, 'jm::Document::undoManager()', doc)
        isn = lambda st, q: A.decide(st, icmp('eq', q, const(0, 64)))
        bad = []; kinds = {'ok': 0, 'nc': 0, 'rej': 0}; und = None
        opeq = None; eqs = None
        if byref and ty != 'jm::String': opeq = mod.dem('jm::operator==(%s const&, %s const&)' % (ty, ty))
        else: eqs = fcmp('oeq', old[0], new[0]) if ty in ('double', 'float') else icmp('eq', old[0], new[0])
        try: outs = A.run(f, args, st0)
        except Limit as e:
            ck.ob('set:' + f.dem, None, where, str(e)); continue
        ck.analysed |= A.analysed
        for o in outs:
            if o.kind in ('unreachable', 'noreturn'): continue
            if o.kind != 'ret': bad.append('leaves by %s' % o.kind); continue
            s = A.resolve(o.val, o.st)
            if not isc(s): bad.append('status is not determined on a path (%s)' % s); continue
            s = cv(s)
            fin = rd(o.st, p)
            regs = [e for e in o.st.events() if e[0] == 'reg']; fails = [e for e in o.st.events() if e[0] == 'fail']
            has_man = isn(o.st, doc) is False and isn(o.st, man) is False
            no_man = isn(o.st, doc) is True or isn(o.st, man) is True
            unchanged = all(same(A.resolve(a, o.st), A.resolve(b, o.st)) for a, b in zip(fin, old))
            changed = all(same(A.resolve(a, o.st), A.resolve(b, o.st)) for a, b in zip(fin, new))
            iseq = None
            if opeq is not None:
                for pair in ([p, args[2]], [args[2], p]):
                    s2 = o.st.copy(); s2.mem = {}
                    rs = {cv(r.val) if isc(r.val) else None for r in [q for q in A.run(opeq, pair, s2) if q.kind == 'ret']}
                    if rs == {1}: iseq = True
                    elif rs == {0}: iseq = False
            else: iseq = A.decide(o.st, eqs)
            stray = [b for b in o.st.mem if b not in (p,) and o.st.mem[b] and not (b.op == 'obj' and b.a[0] in ('alloca', 'heap'))]
            if stray: bad.append('writes to %s' % stray[0])
            if s == OK:
                kinds['ok'] += 1
                if not changed: bad.append('reports success but the variable holds %s' % fin)
                if iseq is True: bad.append('an unchanged value is reported as a change')
                if no_man:
                    if regs: bad.append('registers without a manager')
                else:
                    if not has_man: bad.append('accepts the edit without looking whether an undo manager is present')
                    elif len(regs) != 1: bad.append('accepted edit with %d registrations while an undo manager is present' % len(regs))
                for e in regs:
                    if e[1] is not man or e[2] is not this or e[3] is not p: bad.append('registration names another manager, object or variable')
                    if not all(same(a, b) for a, b in zip(e[4], old)): bad.append('registered after the variable was overwritten')
                if len(args) == 5:
                    if A.decide(o.st, icmp('slt', args[2], args[3])) is not False or A.decide(o.st, icmp('slt', args[4], args[2])) is not False:
                        bad.append('a value outside the permitted range may be accepted')
                if ty == 'double' and not A.decide(o.st, fcmp('ord', new[0], new[0])):
                    bad.append('a not-a-number value may be accepted')
                if fails: bad.append('accepted edit marks the transaction as failed')
            else:
                if not unchanged: bad.append('status %d but the variable changed' % s)
                if regs: bad.append('status %d but a change was registered' % s)
                if s == NC:
                    kinds['nc'] += 1
                    if iseq is not True: bad.append('"not changed" reported although the values may differ')
                else:
                    kinds['rej'] += 1
                    inr = len(args) == 5 and A.decide(o.st, icmp('slt', args[2], args[3])) is False and A.decide(o.st, icmp('slt', args[4], args[2])) is False
                    if inr: bad.append('a value inside the permitted range is rejected')
                    if ty not in ('double', 'long'): bad.append('a valid value is rejected')
                    if ty == 'double' and not A.decide(o.st, fcmp('ord', new[0], new[0])) is False: bad.append('a number is rejected')
                    if not no_man and not (has_man and [e for e in fails if e[1] is man and isc(A.resolve(e[2], o.st)) and cv(A.resolve(e[2], o.st)) == s]):
                        bad.append('rejected edit does not mark an open transaction as failed')
        if not kinds['ok'] or not kinds['nc']: bad.append('no path accepts a new value or none reports an unchanged one')
        ck.ob('set:' + f.dem, not bad, where, '; '.join(dict.fromkeys(bad)))
    ck.need(n, 'setMember overloads', 7)

def acc(mod, base, dem, this):
    A = AI(mod, base)
    for o in A.run(mod.dem(dem), [this]):
        if o.kind == 'ret' and o.val.op == 'init': return o.val
    raise Anchor('%s is not a plain accessor' % dem)

