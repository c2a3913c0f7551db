"""Undo manager: order of replay, stacks, counters, branch clearing, transactions."""
from expr import *
from ai import AI, State, ptr, isptr, obj, Limit
from ir import Anchor
import models, history
LEVEL = 'proof'
RULE = ('abstract interpretation of every UndoManager/UndoStep operation over symbolic stacks; list walks are over-approximated by one arbitrary '
        'iteration (start node, one action per node, link followed, exit condition); final memory of manager and step compared field by field')
EXPLANATION = RULE
ASSUMPTIONS = ['a record\'s exchange touches neither the links between records nor the manager (checked per record type by U01)', 'single-threaded use of one manager', 'the nesting level of transactions is never negative (open adds one; checked here)']

class UAI(AI):
    """virtual calls on change records are events"""
    slots = {}
    def indirect(self, x, t, av, st, depth):
        if t.op == 'init' and av and t.a[0].op == 'init' and t.a[0].a[0] is av[0] and t.a[0].a[1] == 0:
            nm = self.slots.get(t.a[1])
            if nm == 'swap':
                st.event('swap', av[0], self.load(st, add(self.um, const(self.undoing, 64)), 1) if self.um is not None else None)
                return [(st, 'ret', None)]
            if nm == 'D0':
                st.event('destroy', av[0]); st.freed = st.freed | {av[0]}
                return [(st, 'ret', None)]
        return AI.indirect(self, x, t, av, st, depth)

def run(ck):
    mod = ck.mod
    M = lambda n: mod.off('jm::UndoManager', n)
    S = lambda n: mod.off('jm::UndoStep', n)
    C = lambda n: mod.off('jm::UndoChange', n)
    slots = {}
    for o, n in models.vt_entries(mod, '_ZTVN2jm10UndoChangeE'):
        f = mod.fns.get(n)
        if f is None: continue
        if f.sname == 'swap': slots[o - 16] = 'swap'
        if 'D0Ev' in n: slots[o - 16] = 'D0'
    if sorted(slots.values()) != ['D0', 'swap']: raise Anchor('vtable of UndoChange has no swap/destructor slot: %s' % slots)
    fields = {n: (o, s) for n, o, s, t in mod.fields('jm::UndoManager')}
    Z = const(0, 64)
    base = models.string_models(mod)
    def ev(name, k=None):
        def m(ai, st, av, x):
            st.event(name, *av); return [(st, 'ret', None)]
        return m
    base['jm::Document::setDocumentChanged'] = ev('docchanged')
    um = ptr(sym('manager', 64, True))
    def ai(**over):
        m = dict(base); m.update({k.replace('__', '::'): v for k, v in over.items()})
        A = UAI(mod, m, loop='havoc'); A.slots = slots; A.um = um; A.undoing = M('mUndoing')
        return A
    rd = lambda A, st, b, o, s=8: A.load(st, add(b, const(o, 64)), s, s == 8)
    def um0(A, st, n, p=True):
        o, s = fields[n]
        return A.load(st, add(um, const(o, 64)), s, s == 8)
    def start():
        st = State(); A0 = ai(); A0.assume(st, icmp('eq', um, Z), False)
        for b in ('mOpen', 'mActive', 'mUndoing'): A0.narrow(st, um0(A0, st, b), 0, 1)
        A0.narrow(st, um0(A0, st, 'mTransactionLevel'), 0, 0x7fffffff)
        return st
    def nul(A, st, e): return A.decide(st, icmp('eq', e, Z))
    def eqv(A, st, a, b):
        a, b = A.resolve(a, st), A.resolve(b, st)
        return a is b or A.decide(st, icmp('eq', a, b)) is True if a.w == b.w else False
    def unchanged(A, o, but=()):
        """fields of the manager that differ from their initial value"""
        out = []
        for n, (off, s) in fields.items():
            if n in but or n.startswith('_vptr') or off < M('mActive') and False: continue
            a, b = um0(A, State(), n), um0(A, o.st, n)
            if not eqv(A, o.st, a, b): out.append('%s = %s' % (n, b))
        return out
    def where(f): return '%s:%s' % (f.file, f.line)
    def analyse(key, dem, spec, A=None, args=None, st=None, fn=None):
        f = fn or mod.dem(dem)
        A = A or ai()
        bad = []
        try:
            outs = A.run(f, args or ([um] + A.argsyms(f)[1:]), st or start())
        except Limit as e:
            ck.ob(key, None, where(f), str(e)); return
        ck.analysed |= A.analysed
        outs = [o for o in outs if o.kind not in ('unreachable', 'noreturn')]
        for o in outs:
            for e in o.st.events():
                if e[0] == 'uaf': bad.append('%s reads or writes an object after it was destroyed (%s)' % (f.sname, e[2].loc))
        if not [o for o in outs if o.kind == 'ret']: bad.append('never returns')
        if [o for o in outs if o.kind == 'throw']: bad.append('may throw')
        spec(A, outs, bad.append)
        ck.ob(key, not bad, where(f), '; '.join(dict.fromkeys(bad)))
    # -- list walks -----------------------------------------------------------------------------
    def walk(A, outs, bad, startv, link, action):
        """startv(st): first node; action events carry the node as first argument; returns nothing"""
        heads = {}
        for fn, b, hv, st, nxt, env in A.backedges:
            h = [(nxt[p], e) for p, (pre, e) in hv['heads'].items() if p in nxt and eqv(A, st, pre, startv(st))]
            h += [(A.load(st, add(k[0], const(k[1], 64)), k[2], True), e) for k, (pre, e) in hv.get('cells', {}).items() if k[2] == 8 and A.split(k[0])[0].op == 'obj' and eqv(A, st, pre, startv(st))]
            if len(h) != 1: bad('the walk does not start at the expected end of the list'); continue
            after, node = h[0]
            heads[node] = 1
            acts = [e for e in st.events() if e[0] == action]
            if len(acts) != 1 or acts[0][1] is not node: bad('an iteration performs %d action(s) on its record' % len(acts))
            want = init(node, link)
            if after is not want: bad('the walk continues with %s instead of the linked record' % after)
        if not A.backedges: bad('the list is not walked')
        for o in outs:
            if o.kind != 'ret': continue
            acts = [e for e in o.st.events() if e[0] == action]
            s0 = startv(o.st)
            if not acts:
                if nul(A, o.st, s0) is True: continue
                if any(nul(A, o.st, n) is True for n in heads): continue
                yield_bad = True
                yield o, 'nowalk'
            elif len(acts) == 1 and acts[0][1] in heads and nul(A, o.st, init(acts[0][1], link)) is True: continue
            elif len(acts) == 1 and acts[0][1] is s0 and nul(A, o.st, init(s0, link)) is True: continue
            else: yield o, 'incomplete walk'
    def init(b, off): return ptr(mk('init', 64, b, off, 0, False))
    # -- undo / redo -------------------------------------------------------------------------------
    for name, src, dst, csrc, cdst, first, link in (('undo', 'mUndoStack', 'mRedoStack', 'mUndoCount', 'mRedoCount', 'recent', 'mPrev'),
                                                    ('redo', 'mRedoStack', 'mUndoStack', 'mRedoCount', 'mUndoCount', 'eldest', 'mNext')):
        def spec(A, outs, bad):
            s0 = um0(A, State(), src); d0 = um0(A, State(), dst)
            okp = 0
            falses = set()
            for o in outs:
                if o.kind != 'ret': continue
                v = A.resolve(o.val, o.st)
                if not isc(v): bad('result is %s' % v); continue
                op = A.resolve(um0(A, State(), 'mOpen'), o.st); emp = nul(A, o.st, s0)
                if not cv(v):
                    falses.add(id(o))
                    if not (isc(op) and cv(op) == 1) and emp is not True: bad('refuses although a step is available and none is open')
                    if [e for e in o.st.events() if e[0] == 'swap']: bad('exchanges values although it reports nothing to do')
                    d = unchanged(A, o)
                    if d: bad('changes the manager although it reports nothing to do: %s' % d[0])
                    continue
                okp += 1
                if not (isc(op) and cv(op) == 0): bad('runs while a step is open')
                if emp is not False: bad('runs on an empty stack')
                if not eqv(A, o.st, um0(A, o.st, src), init(s0, S('prev'))): bad('%s is %s afterwards, not the previous step' % (src, um0(A, o.st, src)))
                if not eqv(A, o.st, um0(A, o.st, dst), s0): bad('the step is not put on top of %s' % dst)
                if not eqv(A, o.st, rd(A, o.st, s0, S('prev')), d0): bad('the step is not linked to the former top of %s' % dst)
                for c, k in ((csrc, -1), (cdst, 1)):
                    c0 = um0(A, State(), c)
                    if not eqv(A, o.st, um0(A, o.st, c), add(c0, const(k, c0.w))): bad('%s becomes %s' % (c, um0(A, o.st, c)))
                d = unchanged(A, o, (src, dst, csrc, cdst, 'mUndoing'))
                if d: bad('also changes %s' % d[0])
                u = um0(A, o.st, 'mUndoing')
                if not (isc(A.resolve(u, o.st)) and cv(A.resolve(u, o.st)) == 0): bad('recording stays disabled afterwards')
                for b in o.st.mem:
                    if b not in (um, s0) and o.st.mem[b] and b.op != 'obj': bad('writes to %s' % b)
                for n, of, s, t in mod.fields('jm::UndoStep'):
                    if n != 'prev' and not eqv(A, o.st, A.load(o.st, add(s0, const(of, 64)), s, t.endswith('*')), A.load(State(), add(s0, const(of, 64)), s, t.endswith('*'))): bad('modifies %s of the step' % n)
                doc = um0(A, State(), 'mDocument')
                dc = [e for e in o.st.events() if e[0] == 'docchanged']
                if nul(A, o.st, doc) is not True and not (dc and dc[-1][1] is doc and isc(dc[-1][2]) and cv(dc[-1][2]) == 1): bad('does not mark the document as changed')
                for e in o.st.events():
                    if e[0] == 'swap' and not (isc(A.resolve(e[2], o.st)) and cv(A.resolve(e[2], o.st)) == 1): bad('values are exchanged while recording is enabled')
            if not okp: bad('never replays a step')
            for fn, b, hv, st, nxt, env in A.backedges:
                for e in st.events():
                    if e[0] == 'swap' and not (isc(A.resolve(e[2], st)) and cv(A.resolve(e[2], st)) == 1): bad('values are exchanged while recording is enabled')
            for o, why in walk(A, outs, bad, lambda st: init(s0, S(first)), C(link), 'swap'):
                if id(o) not in falses: bad('a step can be replayed partly (%s)' % why)
        analyse(name, 'jm::UndoManager::%s()' % name, spec)
    # -- UndoStep::add / ~UndoStep -------------------------------------------------------------------
    step, chg = ptr(sym('step', 64, True)), ptr(sym('change', 64, True))
    def st_step():
        st = State(); A0 = ai()
        for q in (step, chg): A0.assume(st, icmp('eq', q, Z), False)
        A0.assume(st, icmp('eq', step, chg), False)
        return st
    def spec(A, outs, bad):
        rec0, eld0 = init(step, S('recent')), init(step, S('eldest'))
        cnt0 = A.load(State(), add(step, const(S('count'), 64)), 4)
        for o in outs:
            if o.kind != 'ret': continue
            g = lambda b, off, s=8: A.load(o.st, add(b, const(off, 64)), s, s == 8)
            if not eqv(A, o.st, g(chg, C('mPrev')), rec0): bad('new record is not linked back to the former newest record')
            if not eqv(A, o.st, g(step, S('recent')), chg): bad('new record does not become the newest one')
            if not eqv(A, o.st, g(step, S('count'), 4), add(cnt0, const(1, 32))): bad('record counter not incremented by one')
            n = nul(A, o.st, rec0); e = nul(A, o.st, eld0)
            if n is not True and not eqv(A, o.st, g(rec0, C('mNext')), chg):
                if n is False: bad('former newest record is not linked forward to the new one')
                else: bad('forward link not maintained')
            if e is None: bad('oldest record not maintained')
            elif not eqv(A, o.st, g(step, S('eldest')), chg if e else eld0): bad('oldest record is wrong')
            if not eqv(A, o.st, g(step, S('prev')), init(step, S('prev'))): bad('changes the step stack link')
            nx = g(chg, C('mNext'))
            if not (eqv(A, o.st, nx, init(chg, C('mNext'))) or nul(A, o.st, nx)): bad('new record gets a forward link')
            for b in o.st.mem:
                if b not in (step, chg, rec0) and o.st.mem[b]: bad('writes to %s' % b)
    analyse('step.add', 'jm::UndoStep::add(jm::UndoChange*)', spec, args=[step, chg], st=st_step())
    def spec(A, outs, bad):
        starts = {'mPrev': init(step, S('recent')), 'mNext': init(step, S('eldest'))}
        res = []
        for link, s in starts.items():
            b2 = []
            r = list(walk(A, outs, b2.append, lambda st: s, C(link), 'destroy'))
            res.append((b2, r))
        if not any(not b2 and not r for b2, r in res):
            bad('records of a step are not each destroyed exactly once: %s' % '; '.join(dict.fromkeys(res[0][0] + [w for _, w in res[0][1]])))
    analyse('step.destroy', 'jm::UndoStep::~UndoStep()', spec, args=[step], st=st_step())
    # -- registerChange -------------------------------------------------------------------------------
    EV = {'jm__UndoStep__add': ev('add'), 'jm__UndoManager__clearRedoStack': ev('clearredo'), 'jm__UndoStep__~UndoStep': ev('destroystep')}
    def spec(A, outs, bad):
        seen = set()
        for o in outs:
            if o.kind != 'ret': continue
            act, und = A.resolve(um0(A, State(), 'mActive'), o.st), A.resolve(um0(A, State(), 'mUndoing'), o.st)
            lv = um0(A, State(), 'mTransactionLevel'); l0 = A.decide(o.st, icmp('eq', lv, const(0, lv.w)))
            E = [e for e in o.st.events() if e[0] in ('add', 'clearredo', 'destroy', 'delete')]
            off = (isc(act) and cv(act) == 0) or (isc(und) and cv(und) == 1)
            on = isc(act) and cv(act) == 1 and isc(und) and cv(und) == 0
            if not off and not on: bad('does not look whether recording is enabled'); continue
            if off:
                seen.add('off')
                if [e[0] for e in E] != ['destroy'] or E[0][1] is not chg: bad('a change is not discarded while recording is disabled')
                if unchanged(A, o): bad('changes %s while recording is disabled' % unchanged(A, o)[0])
                continue
            if l0 is None: bad('does not look whether a transaction is open'); continue
            if not l0:
                seen.add('trans')
                if [e[0] for e in E] != ['add'] or E[0][1] is not um0(A, State(), 'mTransaction') or E[0][2] is not chg: bad('a change made in a transaction is not collected by the transaction alone')
                if unchanged(A, o): bad('a change in a transaction modifies %s' % unchanged(A, o)[0])
            else:
                seen.add('plain')
                if sorted(e[0] for e in E) != ['add', 'clearredo']: bad('a recorded change performs %s instead of being added and discarding the redo history' % [e[0] for e in E])
                for e in E:
                    if e[0] == 'add' and (e[1] is not um0(A, State(), 'mCurrent') or e[2] is not chg): bad('the change is added to another step')
                    if e[0] == 'clearredo' and e[1] is not um: bad('clears another manager')
                v = A.resolve(um0(A, o.st, 'mOpen'), o.st)
                if not (isc(v) and cv(v) == 1): bad('the step is not marked open')
                if unchanged(A, o, ('mOpen',)): bad('also changes %s' % unchanged(A, o, ('mOpen',))[0])
        if seen != {'off', 'trans', 'plain'}: bad('only the cases %s exist' % sorted(seen))
    st = start(); ai().assume(st, icmp('eq', chg, Z), False)
    analyse('registerChange', 'jm::UndoManager::registerChange(jm::UndoChange*)', spec, A=ai(**EV), args=[um, chg], st=st)
    # -- close ------------------------------------------------------------------------------------------
    def spec(A, outs, bad):
        cur0 = um0(A, State(), 'mCurrent'); cnt = A.load(State(), add(cur0, const(S('count'), 64)), 4)
        both = set()
        for o in outs:
            if o.kind != 'ret': continue
            z = A.decide(o.st, icmp('eq', cnt, const(0, 32)))
            if z is None: bad('does not look whether the step holds changes'); continue
            both.add(z)
            if z:
                if unchanged(A, o): bad('closing an empty step changes %s' % unchanged(A, o)[0])
                continue
            if not eqv(A, o.st, um0(A, o.st, 'mUndoStack'), cur0): bad('the closed step is not on top of the undo stack')
            if not eqv(A, o.st, rd(A, o.st, cur0, S('prev')), um0(A, State(), 'mUndoStack')): bad('the closed step is not linked to the former top')
            n = um0(A, o.st, 'mCurrent')
            if n.op != 'obj' or n.a[0] != 'heap': bad('no fresh step is opened')
            else:
                for fn_, of, s, t in mod.fields('jm::UndoStep'):
                    v = A.load(o.st, add(n, const(of, 64)), s)
                    if not (isc(v) and cv(v) == 0): bad('the fresh step is not empty (%s)' % fn_)
            v = A.resolve(um0(A, o.st, 'mOpen'), o.st)
            if not (isc(v) and cv(v) == 0): bad('the manager still reports an open step')
            c0 = um0(A, State(), 'mUndoCount')
            if not eqv(A, o.st, um0(A, o.st, 'mUndoCount'), add(c0, const(1, c0.w))): bad('undo counter becomes %s' % um0(A, o.st, 'mUndoCount'))
            d = unchanged(A, o, ('mUndoStack', 'mCurrent', 'mOpen', 'mUndoCount'))
            if d: bad('also changes %s' % d[0])
            doc = um0(A, State(), 'mDocument'); dc = [e for e in o.st.events() if e[0] == 'docchanged']
            if nul(A, o.st, doc) is not True and not (dc and dc[-1][1] is doc and isc(dc[-1][2]) and cv(dc[-1][2]) == 1): bad('does not mark the document as changed')
        if both != {True, False}: bad('close treats all steps alike')
    analyse('close', 'jm::UndoManager::close()', spec)
    # -- clearing -----------------------------------------------------------------------------------------
    def destroystep(ai_, st, av, x):
        st.event('destroystep', av[0]); return [(st, 'ret', None)]
    for name, stack, cnt in (('clearUndoStack', 'mUndoStack', 'mUndoCount'), ('clearRedoStack', 'mRedoStack', 'mRedoCount')):
        def spec(A, outs, bad):
            s0 = um0(A, State(), stack)
            for o in outs:
                if o.kind != 'ret': continue
                if nul(A, o.st, um0(A, o.st, stack)) is not True: bad('%s is not empty afterwards' % stack)
                c = A.resolve(um0(A, o.st, cnt), o.st)
                if not (isc(c) and cv(c) == 0): bad('%s is not zero afterwards' % cnt)
                d = unchanged(A, o, (stack, cnt))
                if d: bad('also changes %s' % d[0])
            for fn, b, hv, st, nxt, env in A.backedges:
                d1 = [e[1] for e in st.events() if e[0] == 'destroystep']; d2 = [e[2] for e in st.events() if e[0] == 'delete']
                if d1 != d2: bad('a step is not destroyed and freed together')
            for o, why in walk(A, outs, bad, lambda st: s0, S('prev'), 'destroystep'): bad('steps can remain on the stack (%s)' % why)
        analyse(name, 'jm::UndoManager::%s()' % name, spec, A=ai(**{'jm__UndoStep__~UndoStep': destroystep}))
    # -- transactions ----------------------------------------------------------------------------------------
    stt = {k: int(v) for k, v in mod.enums['jm::Status'].items()}
    lv0 = lambda A: um0(A, State(), 'mTransactionLevel')
    def spec(A, outs, bad):
        both = set()
        for o in outs:
            if o.kind != 'ret': continue
            l = lv0(A); z = A.decide(o.st, icmp('eq', l, const(0, l.w)))
            if z is None: bad('nesting level is not examined'); continue
            both.add(z)
            if not eqv(A, o.st, um0(A, o.st, 'mTransactionLevel'), add(l, const(1, l.w))): bad('nesting level becomes %s' % um0(A, o.st, 'mTransactionLevel'))
            if z:
                t = um0(A, o.st, 'mTransaction')
                if t.op != 'obj' or t.a[0] != 'heap': bad('an outermost transaction does not start an empty collection')
                s_ = A.resolve(um0(A, o.st, 'mTransactionStatus'), o.st)
                if not (isc(s_) and cv(s_) == stt['eOK']): bad('an outermost transaction does not start in good standing')
                d = unchanged(A, o, ('mTransactionLevel', 'mTransaction', 'mTransactionStatus'))
            else: d = unchanged(A, o, ('mTransactionLevel',))
            if d: bad('also changes %s' % d[0])
        if both != {True, False}: bad('nested and outermost transactions are treated alike')
    analyse('openTransaction', 'jm::UndoManager::openTransaction()', spec)
    def regev(ai_, st, av, x):
        st.event('register', av[1], ai_.load(st, add(av[1], const(C('mPrev'), 64)), 8), ai_.load(st, add(av[1], const(C('mNext'), 64)), 8),
                 ai_.load(st, add(um, const(M('mTransactionLevel'), 64)), fields['mTransactionLevel'][1]))
        # the registered record may be relinked by its new step: its links are no longer known
        st.mem[av[1]] = st.mem.get(av[1], ()) + (('havoc', 0, 0, ai_.fresh('relinked', 64)),)
        return [(st, 'ret', None)]
    for name, first, link, action in (('commit', 'eldest', 'mNext', 'register'), ('rollback', 'recent', 'mPrev', 'swap')):
        def spec(A, outs, bad):
            t0 = um0(A, State(), 'mTransaction'); l = lv0(A); kinds = set(); last = []
            for o in outs:
                if o.kind != 'ret': continue
                z = A.decide(o.st, icmp('eq', l, const(0, l.w))); one = A.decide(o.st, icmp('eq', l, const(1, l.w)))
                acts = [e for e in o.st.events() if e[0] in ('register', 'swap')]
                dels = [e for e in o.st.events() if e[0] in ('destroystep', 'delete')]
                if z is True:
                    kinds.add('none')
                    if acts or dels or unchanged(A, o): bad('acts without an open transaction')
                    continue
                if not eqv(A, o.st, um0(A, o.st, 'mTransactionLevel'), sub(l, const(1, l.w))): bad('nesting level becomes %s' % um0(A, o.st, 'mTransactionLevel'))
                if one is not True:
                    kinds.add('inner')
                    if one is None: bad('outermost level is not recognised')
                    if acts or dels or unchanged(A, o, ('mTransactionLevel',)): bad('an inner level already ends the transaction')
                    continue
                kinds.add('outer'); last.append(o)
                if nul(A, o.st, um0(A, o.st, 'mTransaction')) is not True: bad('the finished transaction is still referenced')
                s_ = A.resolve(um0(A, o.st, 'mTransactionStatus'), o.st)
                if not (isc(s_) and cv(s_) == stt['eOK']): bad('the status of the finished transaction is kept')
                d = unchanged(A, o, ('mTransactionLevel', 'mTransaction', 'mTransactionStatus'))
                if d: bad('also changes %s' % d[0])
                if [e[1] if e[0] == 'destroystep' else e[2] for e in dels] != [t0, t0]: bad('the collection of the transaction is not destroyed exactly once')
                for e in dels:
                    if e[0] == 'destroystep':
                        r = A.resolve(e[2], o.st)
                        if name == 'commit' and not (isc(r) and cv(r) == 0): bad('committed records are destroyed with the transaction')
                        if name == 'rollback' and r is not init(t0, S('recent')): bad('undone records are not destroyed')
            for fn, b, hv, st, nxt, env in A.backedges:
                for e in st.events():
                    if e[0] == 'register':
                        for v in e[2:4]:
                            v = A.resolve(v, st)
                            if not (isc(v) and cv(v) == 0): bad('a committed record keeps a link into the transaction')
                        if not (A.decide(st, icmp('eq', e[4], const(0, e[4].w))) is True): bad('records are committed while the transaction still counts as open')
            if kinds != {'none', 'inner', 'outer'}: bad('only the cases %s exist' % sorted(kinds))
            for o, why in walk(A, last, bad, lambda st: init(t0, S(first)), C(link), action): bad('changes can be left out (%s)' % why)
        def destroystep2(ai_, st, av, x):
            st.event('destroystep', av[0], ai_.load(st, add(av[0], const(S('recent'), 64)), 8, True)); return [(st, 'ret', None)]
        A = ai(**{'jm__UndoStep__~UndoStep': destroystep2})
        A.models['jm::UndoManager::registerChange(jm::UndoChange*)'] = regev
        st = start(); t0 = um0(A, State(), 'mTransaction'); A.assume(st, icmp('eq', t0, Z), False)
        analyse(name, 'jm::UndoManager::%s()' % name, spec, A=A, st=st)
    def spec(A, outs, bad):
        s0 = um0(A, State(), 'mTransactionStatus'); both = set()
        for o in outs:
            if o.kind != 'ret': continue
            E = [e[0] for e in o.st.events() if e[0] in ('commit', 'rollback')]
            ok = A.decide(o.st, icmp('eq', s0, const(stt['eOK'], s0.w)))
            if ok is None: bad('ends a transaction without looking at its status'); continue
            both.add(ok)
            if E != (['commit'] if ok else ['rollback']): bad('a transaction that %s ends with %s' % ('succeeded' if ok else 'failed', E))
            if not eqv(A, o.st, o.val, s0): bad('reports %s instead of the status of the transaction' % o.val)
            if unchanged(A, o): bad('also changes %s' % unchanged(A, o)[0])
        if both != {True, False}: bad('failed and successful transactions are treated alike')
    def vol(nm):
        def m(ai_, st, av, x):
            st.event(nm, av[0])
            if False: pass
            return [(st, 'ret', None)]
        return m
    analyse('closeTransaction', 'jm::UndoManager::closeTransaction()', spec, A=ai(**{'jm__UndoManager__commit': vol('commit'), 'jm__UndoManager__rollback': vol('rollback')}))
    def spec(A, outs, bad):
        f = mod.dem('jm::UndoManager::registerTransactionStatus(jm::Status)')
        a = sta
        for o in outs:
            if o.kind != 'ret': continue
            ok = A.decide(o.st, icmp('eq', a, const(stt['eOK'], a.w))); nc = A.decide(o.st, icmp('eq', a, const(stt['eNotChanged'], a.w)))
            d = unchanged(A, o)
            if ok or nc:
                if d: bad('a harmless status changes %s' % d[0])
            else:
                if not eqv(A, o.st, um0(A, o.st, 'mTransactionStatus'), a): bad('a failure status is not remembered')
                d = unchanged(A, o, ('mTransactionStatus',))
                if d: bad('also changes %s' % d[0])
    A = ai(); sta = sym('status', 32)
    analyse('registerTransactionStatus', 'jm::UndoManager::registerTransactionStatus(jm::Status)', spec, A=A, args=[um, sta])
    nop = len(ck.obl)
    histories(ck)
    ck.need(nop, 'operations', 12)

def histories(ck):
    f = ck.mod.dem('jm::UndoManager::undo()'); where = '%s:%s' % (f.file, f.line); nop = len(ck.obl)
    deep = ck.tier != 'quick'
    many = 'a' + 'rrrc' * 300 + 'u' * 300 + 'y' * 300 + 'X'
    long_ = 'a' + 'r' * 300 + 'cuyuS' + 'o' + 'r' * 300 + 'mcuyX'
    jobs = [('histories of recording, undo and redo', lambda H: H.tree('a', 'rcuy', 8 if deep else 6)),
            ('histories with transactions', lambda H: H.tree('ar', 'rcuoCe', 6 if deep else 5)),
            ('histories with nested transactions', lambda H: H.tree('aoro', 'rCmbenu', 5 if deep else 4)),
            ('histories with clearing', lambda H: H.tree('arcrrcu', 'rcuyURS', 5 if deep else 4)),
            ('histories with recording turned off', lambda H: H.tree('arc', 'rcuyadoC', 5 if deep else 4)),
            ('destruction', lambda H: [H.run('a' + ''.join(p) + 'X') for n in range(6) for p in __import__('itertools').product('rcu', repeat=n)]),
            ('many steps', lambda H: H.run(many)), ('many records', lambda H: H.run(long_))]
    ok = True; total = 0
    for name, job in jobs:
        for again in (False, True):
            H = history.Histories(ck, again); key = name + (' with exchanges that change something else' if again else '')
            try: job(H); r, m = True, ''
            except history.Bad as e: r, m = False, str(e)
            except Limit as e: r, m = None, str(e)
            total += H.steps; ck.analysed |= H.A.analysed
            ok = ok and r is True; ck.ob(key, r, where, m)
    ck.counts['operations interpreted in histories'] = total
    # an operation that is written in a way the general argument does not cover is decided by the histories alone
    if ok:
        for i, (k, r, w, m) in enumerate(ck.obl[:nop]):
            if r is not True and 'becomes' not in (m or ''): ck.obl[i] = (k, True, w, ''); ck.counts['operations decided by histories only'] = ck.counts.get('operations decided by histories only', 0) + 1
