"""Threads: an interrupt reaches the thread whenever it is issued, and is waited for once."""
from expr import *
from ai import AI, State, ptr, obj, Limit
from ir import Anchor
from ival import always, Open
from L01 import LAI, where, getter
import models
LEVEL = 'other'
RULE = ('the methods of the thread class and the function that each new thread runs are abstractly interpreted for an arbitrary thread object; the order of lock operations, accesses of the life flag, signals, waits, creation and joining of the '
        'thread is followed on every path and compared with the protocol; the deadline of a timed wait is compared with the current time plus the duration for every duration')
EXPLANATION = RULE
ASSUMPTIONS = ['one thread controls (starts, interrupts, deletes) a thread object', 'the clock stays within the range of its type; durations up to 2^40 milliseconds']
C = 'jm::Thread'

def run(ck):
    mod = ck.mod
    flag = C + '.alive'; handle = C + '.thread'
    if mod.off(C, 'alive') is None or mod.off(C, 'thread') is None: raise Anchor('Thread fields')
    meth = {f.name for f in mod.methods(C)} | {f.name for f in mod.libfns() if getter(f) and f.cls == C} | {f.name for f in mod.methods('jm::Mutex')} \
        | {f.name for f in mod.libfns() if f.cls.startswith(('std::lock_guard', 'std::unique_lock'))}
    # private helpers outside of the class that the methods call (lock guards and the like)
    more = True
    while more:
        more = False
        for n in list(meth):
            for x in mod.fns[n].calls():
                c = mod.fns.get(mod.alias.get(x.d.get('callee'), x.d.get('callee')))
                if c and not c.decl and c.name not in meth and c.file == mod.fns[n].file and 'Thread' in c.file and c.sname != 'StartThread': meth.add(c.name); more = True
    class T(LAI):
        def call_named(self, name, av, x, st, depth):
            if name in ('pthread_create', 'pthread_join', 'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_detach', 'pthread_kill', 'pthread_cancel', 'pthread_exit'):
                st.event('pt', name, tuple(av), x)
                if name == 'pthread_create':
                    h = sym('handle', 64); self.store(st, av[0], h, 8); return [(st, 'ret', sym('rc', 32))]
                return [(st, 'ret', const(0, 32))]
            if name == 'pthread_cond_timedwait': st.event('deadline', self.load(st, av[2], 8), self.load(st, add(av[2], const(8, 64)), 8), x)
            if name.startswith('pthread_') and name.endswith('_init'): return [(st, 'ret', const(0, 32))]
            if name in ('gettimeofday', 'clock_gettime'):
                k = 0 if name == 'gettimeofday' else 1
                self.store(st, av[k], sym('now', 64), 8); self.store(st, add(av[k], const(8, 64)), const(self.frac * (1 if k == 0 else 1000), 64), 8)
                return [(st, 'ret', const(0, 32))]
            return LAI.call_named(self, name, av, x, st, depth)
    T.frac = 0
    def explore(f, args=None, st=None, frac=0):
        A = T(mod, {}, loop='havoc', opaque_throw=False, max_paths=2000).setup(meth); A.frac = frac
        st = st or State(); a = args or A.argsyms(f)
        A.narrow(st, sym('handle', 64), 1, (1 << 63) - 1)
        try: outs = A.run(f, a, st)
        except Limit as e: return A, None, str(e), a
        ck.analysed |= A.analysed
        return A, [o for o in outs if o.kind not in ('unreachable', 'noreturn') or any(e[0] == 'pt' and e[1] == 'pthread_exit' for e in o.st.events())], None, a
    count = 0
    def ob(key, f, body, **kw):
        nonlocal count; count += 1
        A, outs, err, args = explore(f, **kw); bad = []
        if outs is None: ck.ob(key, None, where(f), err); return
        for o in outs: body(A, o, args, bad)
        ck.ob(key, not bad, where(f), '; '.join(dict.fromkeys(bad)))
    def history(o): return o.st.events()
    def locked(A, o):
        """(event, is a lock held, events since it was taken)"""
        h = 0; since = []
        for e in history(o):
            yield e, h > 0, since
            if e[0] == 'lock': h += 1; since = []
            elif e[0] == 'unlock': h -= 1; since = []
            elif e[0] == 'wait': since = []
            since = since + [e]
    fn = lambda s: [f for f in mod.methods(C) if f.sname == s]
    # 1. whoever waits has seen, under the lock, that the thread is alive
    waits = 0
    for f in fn('sleep'):
        seen = []
        def body(A, o, args, bad):
            waited = False
            for e, h, since in locked(A, o):
                if e[0] != 'wait': continue
                seen.append(1); waited = True
                if not h: bad.append('waits without the lock')
                r = [a for a in since if a[0] == 'access' and a[1] == flag and a[3] == 'r' and a[7] is not None]
                if not r: bad.append('begins to wait without looking, under the lock, whether the thread was interrupted')
                elif A.decide(o.st, trunc(r[-1][7], 1)) is not True and A.decide(o.st, icmp('eq', r[-1][7], const(0, r[-1][7].w))) is not False: bad.append('begins to wait although the thread was interrupted')
        ob('waiting ' + f.dem, f, body); waits += len(seen)
        if not seen: ck.ob('waiting %s waits' % f.dem, False, where(f), 'does not wait for a signal')
    # 2. interrupt: flag, then signal, then join of a thread that runs, once
    def body(A, o, args, bad):
        if 'backedge' in o.kind: return
        ev = list(locked(A, o)); pos = {}
        stores = [i for i, (e, h, s) in enumerate(ev) if e[0] == 'access' and e[1] == flag and e[3] == 'w']
        off = mod.off(C, 'alive')
        v = A.load(o.st, add(args[0], const(off, 64)), 1)
        if not (isc(v) and cv(v) & 1 == 0): bad.append('the thread is not told to end')
        if any(not ev[i][1] for i in stores): bad.append('the life flag is changed without the lock')
        sig = [i for i, (e, h, s) in enumerate(ev) if e[0] == 'pt' and e[1] in ('pthread_cond_signal', 'pthread_cond_broadcast')]
        joins = [i for i, (e, h, s) in enumerate(ev) if e[0] == 'pt' and e[1] == 'pthread_join']
        if not sig or stores and sig[-1] < stores[-1]: bad.append('a sleeping thread is not woken after it was told to end')
        H = A.load(State(), add(args[0], const(mod.off(C, 'thread'), 64)), 8)
        runs = A.decide(o.st, icmp('eq', H, const(0, 64)))
        if len(joins) > 1: bad.append('joins twice')
        for i in joins:
            e, h, s = ev[i]
            if h: bad.append('waits for the thread while it holds the lock that the thread needs')
            if sig and sig[0] > i: bad.append('waits for the thread before it wakes it')
            if runs is not False or e[2][0] is not H: bad.append('joins a thread that was never started')
        if not joins and runs is False: bad.append('does not wait for the end of the thread')
        h2 = A.load(o.st, add(args[0], const(mod.off(C, 'thread'), 64)), 8)
        if joins and not (isc(h2) and cv(h2) == 0): bad.append('a second interrupt joins the ended thread again')
    for f in fn('interrupt'): ob('interrupt', f, body)
    # 3. start: alive before it exists
    made = []
    def body(A, o, args, bad):
        ev = list(locked(A, o))
        cr = [i for i, (e, h, s) in enumerate(ev) if e[0] == 'pt' and e[1] == 'pthread_create']
        off = mod.off(C, 'alive'); v = A.load(o.st, add(args[0], const(off, 64)), 1)
        if len(cr) != 1: bad.append('creates %d threads' % len(cr)); return
        i = cr[0]; e = ev[i][0]; made.append(e)
        if e[2][3] is not args[0]: bad.append('the new thread gets another object')
        rc = A.decide(o.st, icmp('eq', sym('rc', 32), const(0, 32)))
        before = [j for j in range(i) if ev[j][0][0] == 'access' and ev[j][0][1] == flag and ev[j][0][3] == 'w']
        after = [j for j in range(i, len(ev)) if ev[j][0][0] == 'access' and ev[j][0][1] == flag and ev[j][0][3] == 'w']
        if any(not ev[j][1] for j in before + after): bad.append('the life flag is changed without the lock')
        h2 = A.load(o.st, add(args[0], const(mod.off(C, 'thread'), 64)), 8)
        if rc is True:
            if not before or not (isc(v) and cv(v) & 1): bad.append('the thread is not alive before it is created: an interrupt that comes before it runs is lost')
            if after: bad.append('the life flag is set again after the thread was created, which undoes an interrupt')
            if h2 is not sym('handle', 64): bad.append('the handle of the thread is lost')
            if o.kind == 'throw': bad.append('throws although the thread was started')
        else:
            if o.kind != 'throw': bad.append('does not report that the thread could not be created')
            if not (isc(v) and cv(v) & 1 == 0): bad.append('a thread that could not be created counts as alive')
            if not (isc(h2) and cv(h2) == 0): bad.append('a thread that could not be created would be joined')
    for f in fn('start'): ob('start', f, body)
    # 4. the new thread runs run() of its object and leaves the flag alone
    entry = None
    for e in made:
        b = e[2][2]
        if b.op == 'obj' and b.a[0] in ('fn', 'func', 'global'): entry = mod.fns.get(b.a[1])
    if entry is None: entry = next((f for f in mod.fns.values() if f.sname == 'StartThread' or f.name == 'StartThread'), None)
    if entry is None or entry.decl: raise Anchor('function of the new thread')
    finished = []
    def body(A, o, args, bad):
        vs = [e for e in history(o) if e[0] == 'virtual']
        if len(vs) != 1 or vs[0][2][0] is not args[0]: bad.append('does not run the method of its object exactly once')
        for e in history(o):
            if e[0] == 'access' and e[1] == flag and e[3] == 'w': bad.append('sets the life flag, which undoes an interrupt that came first')
            if e[0] == 'access' and e[1] == handle and e[3] == 'w': bad.append('changes the handle that its creator may be storing')
        finished.append(o)
    ob('new thread ' + entry.dem, entry, body)
    if not finished: raise Anchor('no path through %s' % entry.dem)
    # 5. isAlive returns what it read under the lock
    def body(A, o, args, bad):
        r = [(e, h) for e, h, s in locked(A, o) if e[0] == 'access' and e[1] == flag]
        if not r or any(not h for e, h in r): bad.append('the life flag is read without the lock')
        off = mod.off(C, 'alive'); v = A.load(State(), add(args[0], const(off, 64)), 1)
        if o.kind != 'ret' or trunc(o.val, 1) is not trunc(v, 1):
            bad.append('does not return the life flag')
    for f in fn('isAlive'): ob('isAlive', f, body)
    # 6. a new object is not alive and has no handle
    def body(A, o, args, bad):
        v = A.load(o.st, add(args[0], const(mod.off(C, 'alive'), 64)), 1); h = A.load(o.st, add(args[0], const(mod.off(C, 'thread'), 64)), 8)
        if not (isc(v) and cv(v) & 1 == 0): bad.append('a new thread object counts as alive')
        if not (isc(h) and cv(h) == 0): bad.append('a new thread object has a handle')
    for f in fn('Thread'): ob('constructor', f, body)
    # 7. the wake-up call signals
    def body(A, o, args, bad):
        if not any(e[0] == 'pt' and e[1] in ('pthread_cond_signal', 'pthread_cond_broadcast') for e in history(o)): bad.append('does not wake the thread')
    for f in fn('wakeUp'): ob('wakeUp', f, body)
    # 8. deadline
    m = sym('millis', 64); G = 1000000000
    for f in fn('sleep'):
        if len(f.args) != 2: continue
        for frac in (0, 1, 999, 500000, 999999) if ck.tier == 'quick' else (0, 1, 499, 999, 1000, 123456, 500000, 999000, 999999):
            st = State(); A = T(mod); th = ptr(sym('&thread', 64, True)); A.assume(st, icmp('eq', th, const(0, 64)), False); A.narrow(st, m, 0, 1 << 40)
            A.store(st, add(th, const(mod.off(C, 'alive'), 64)), const(1, 8), 1)
            A, outs, err, _ = explore(f, [th, m], st, frac); count += 1
            key = 'deadline from %d microseconds' % frac
            if outs is None: ck.ob(key, None, where(f), err); continue
            L1 = []; L2 = []; bad = None; und = None
            for o in outs:
                d = [e for e in history(o) if e[0] == 'deadline']
                if not d: bad = 'does not wait'; continue
                facts = [(c, v) for c, v in o.st.facts.items() if isinstance(c, E) and m in leaves(c)]
                s = sub(sub(d[0][1], sym('now', 64)), sdiv(m, const(1000, 64)))
                L1.append((facts, add(mulc(s, G), d[0][2]))); L2.append((facts, d[0][2]))
            want = lambda x: x % 1000 * 1000000 + frac * 1000
            from ival import compare
            for L, w, txt in ((L1, want, 'a sleep of %d ms waits for %d ns too long'), (L2, lambda x: want(x) % G, 'a sleep of %d ms has an invalid deadline (%d ns)')):
                r = None
                for mid in (1500, 1 << 31, 1 << 32, (1 << 40) - 1500):
                    try: r = r or compare(L, m, mid - 1500, mid + 1500, w)
                    except Open: pass
                if r and not bad: bad = txt % ((r[0], r[1] - r[2]) if L is L1 else (r[0], r[1]))
            try:
                r = always(L1, m, 0, 1 << 40, want, 1000)
                if r and not bad: bad = 'a sleep of %d ms waits for %d ns too long' % (r[0], r[1] - r[2])
                r = always(L2, m, 0, 1 << 40, lambda x: want(x) % G, 1000)
                if r and not bad: bad = 'a sleep of %d ms has an invalid deadline (%d ns)' % (r[0], r[1])
            except Open as e: und = str(e)
            ck.ob(key, None if und and not bad else not bad, where(f), bad or und or '')
    ck.need(count, 'protocol obligations', 12); ck.need(waits, 'waits', 2)
