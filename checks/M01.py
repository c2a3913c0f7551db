"""Reference counts and autorelease pools: every object is released as often as it was handed over, and deleted exactly once."""
from expr import *
from ai import AI, State, ptr, obj, Limit
from ir import Anchor
from L01 import where
import models
LEVEL = 'other'
RULE = ('the operations of the reference count are abstractly interpreted for an arbitrary count and high bit, with and without a pool; those of the autorelease pool for pools of 0 to N entries, also when a released object '
        'adds an object to the pool again; counts, deletions, the entries of the pool and their storage are compared with the definition on every path')
EXPLANATION = RULE
ASSUMPTIONS = ['an object is created with at most one pool', 'calls of Object::release() made by a pool behave as any release does, which is checked by itself']
O = 'jm::Object'; P = 'jm::AutoreleasePool'

def run(ck):
    mod = ck.mod; N = 3 if ck.tier == 'quick' else 6
    oc, op = mod.off(O, 'mRefCount'), mod.off(O, 'mPool')
    pp, pt = None, mod.off(P, 'mTop')
    for n, o, s, ty in mod.fields(P):
        if n == 'mPool' and o != op: pp = o
    if None in (oc, op, pp, pt): raise Anchor('fields of Object and AutoreleasePool')
    E_ = 'jm::AutoreleasePool::PoolEntry' if 'jm::AutoreleasePool::PoolEntry' in mod.types else next((t for t in mod.types if t.endswith('PoolEntry')), None)
    eo, en = mod.off(E_, 'object'), mod.off(E_, 'next')
    D0 = [o for n, g in mod.globals.items() if n == '_ZTVN2jm6ObjectE' for o, fn in models.vt_entries(mod, n) if fn == '_ZN2jm6ObjectD0Ev']
    if not D0: raise Anchor('deleting destructor in the virtual table of Object')
    class T(AI):
        hook = None
        def call_named(self, name, av, x, st, depth):
            if name.startswith('pthread_'): return [(st, 'ret', const(0, 32))]
            f = mod.fns.get(name)
            if f is not None and f.dem == 'jm::Object::release()' and self.hook: return self.hook(av[0], x, st, depth)
            return AI.call_named(self, name, av, x, st, depth)
        def indirect(self, x, t, av, st, depth):
            st.event('virt', t, av[0] if av else None, x)
            return [(st, 'ret', const(0, 64) if x.d['ty'] != 'void' else None)]
    pool = ptr(sym('&pool', 64, True))
    def thing(A, st, nm, cnt=None, haspool=True):
        p = ptr(sym('&' + nm, 64, True)); A.assume(st, icmp('eq', p, const(0, 64)), False)
        A.store(st, add(p, const(oc, 64)), cnt if cnt is not None else sym(nm + '.count', 32), 4)
        A.store(st, add(p, const(op, 64)), pool if haspool else const(0, 64), 8)
        return p
    def fresh():
        A = T(mod, {}, opaque_throw=True); st = State(); A.assume(st, icmp('eq', pool, const(0, 64)), False); return A, st
    n = 0
    def ob(key, f, A, outs, body):
        nonlocal n; n += 1; bad = []
        ck.analysed |= A.analysed
        outs = [o for o in outs if o.kind not in ('noreturn', 'unreachable')]
        if not outs: bad.append('has no path')
        for o in outs:
            if o.kind != 'ret': bad.append('throws')
            else:
                ev = o.st.events(); fr = [A.split(e[2])[0] for e in ev if e[0] == 'delete' and not isc(e[2])]
                if any(e[0] == 'uaf' for e in ev): bad.append('uses storage after it was freed')
                if len(fr) != len(set(fr)): bad.append('frees storage twice')
                body(o, bad)
        ck.ob(key, not bad, where(f), '; '.join(dict.fromkeys(bad)))
    def count(A, o, p): return A.load(o.st, add(p, const(oc, 64)), 4)
    c = sym('obj.count', 32)
    def deletes(A, o): return [e for e in o.st.events() if e[0] == 'virt']
    def fnof(d):
        f = mod.dem(d)
        return f
    def deleting(A, p, t):
        return t is A.load(State(), add(A.load(State(), p, 8, True), const(D0[0] - 16, 64)), 8, True) or str(t) == 'init(init(&obj, 0, 0, False), %d, 0, False)' % (D0[0] - 16)
    # retain, release
    for hp in (True, False):
        w = 'with a pool' if hp else 'without a pool'
        f = fnof('jm::Object::retain()'); A, st = fresh(); p = thing(A, st, 'obj', haspool=hp)
        def body(o, bad):
            if count(A, o, p) is not (add(c, const(1, 32)) if hp else c) and not (not hp and count(A, o, p) is add(c, const(1, 32))): bad.append('the count changes to %s' % count(A, o, p))
            if o.val is not p: bad.append('does not return the object')
            if deletes(A, o): bad.append('deletes the object')
        ob('retain ' + w, f, A, A.run(f, [p], st), body)
        f = fnof('jm::Object::release()')
        for hb in (0, 1 << 31):
          for least in (1, 2):
            A, st = fresh(); low = sym('low', 32) if least > 1 else const(1, 32)
            if least > 1: A.narrow(st, low, 2, (1 << 31) - 1)
            p = thing(A, st, 'obj', or_(low, const(hb, 32)) if hb == 0 else add(low, const(hb, 32)), hp)
            pre = count(A, type('o', (), {'st': st}), p)
            def body(o, bad):
                g = sub(count(A, o, p), pre)
                if hp and g is not const((1 << 32) - 1, 32): bad.append('the count does not decrease by one')
                last = least == 1; d = deletes(A, o)
                if not hp and not d: return
                if last and (len(d) != 1 or d[0][2] is not p or not deleting(A, p, d[0][1])): bad.append('does not delete the object when its count reaches zero')
                elif not last and d: bad.append('deletes an object that is still used')
            ob('release %s, %s, %s' % (w, 'high bit set' if hb else 'high bit clear', 'last' if least == 1 else 'others remain'), f, A, A.run(f, [p], st), body)
        f = fnof('jm::Object::setHighBit(bool)')
        for v in (0, 1):
            A, st = fresh(); p = thing(A, st, 'obj', haspool=hp)
            def body(o, bad):
                import kb
                g = count(A, o, p)
                for b in range(32):
                    want = v if b == 31 else None
                    for val in (0, 1):
                        env = {c: [None] * 32}; env[c][b] = val
                        r = kb.ev(g, env)[b]
                        if r != (v if b == 31 else val): bad.append('bit %d of the count becomes %s' % (b, r)); return
            ob('setHighBit(%d) %s' % (v, w), f, A, A.run(f, [p, const(v, 1)], st), body)
        f = fnof('jm::Object::autorelease()')
        if not hp:
            A, st = fresh(); p = thing(A, st, 'obj', haspool=False)
            def body(o, bad):
                if o.val is not p: bad.append('does not return the object')
            ob('autorelease without a pool', f, A, A.run(f, [p], st), body)
    import kb
    for d, bits in (('jm::Object::referenceCount() const', range(31)), ('jm::Object::highBit() const', (31,))):
        f = fnof(d); A, st = fresh(); p = thing(A, st, 'obj')
        def body(o, bad):
            for b in range(32):
                for val in (0, 1):
                    env = {c: [None] * 32}; env[c][b] = val
                    r = kb.ev(o.val, env)
                    if d.endswith('Count() const'):
                        if r[b] != (val if b < 31 else 0): bad.append('bit %d of the count is not reported' % b)
                    elif b == 31 and r[0] != val: bad.append('does not report the high bit')
        ob(d, f, A, A.run(f, [p], st), body)
    # construction, copy, assignment
    def sysmodel(A):
        g = [x for x in mod.fns.values() if x.dem == 'jm::System::autoreleasePool()']
        for x in g: A.models[x.name] = lambda ai, st, av, y: [(st, 'ret', pool)]
    for f in mod.fns.values():
        if f.decl or f.cls != O: continue
        if f.sname == 'Object' and f.name.endswith(('C2Ev', 'C2ERKS0_')) or f.sname == 'Object' and not f.name.startswith('_ZN2jm6ObjectC1'):
            A, st = fresh(); sysmodel(A); a = [ptr(sym('&new', 64, True))]; A.assume(st, icmp('eq', a[0], const(0, 64)), False)
            if len(f.args) == 2: a.append(thing(A, st, 'obj'))
            def body(o, bad):
                g = count(A, o, a[0])
                if not isc(g) or cv(g) != 1: bad.append('a new object has the count %s instead of 1' % g)
                if len(a) > 1 and count(A, o, a[1]) is not c: bad.append('the original changes')
                if A.load(o.st, add(a[0], const(op, 64)), 8) is not pool: bad.append('the new object does not know the pool')
            ob('%s makes a count of 1' % f.dem, f, A, A.run(f, a, st), body)
        elif f.sname == 'operator=':
            A, st = fresh(); a = [thing(A, st, 'this'), thing(A, st, 'obj')]
            def body(o, bad):
                if count(A, o, a[0]) is not sym('this.count', 32): bad.append('an assignment changes the count')
                if count(A, o, a[1]) is not c: bad.append('the original changes')
                if o.val is not a[0]: bad.append('does not return the object')
            ob('%s leaves the count' % f.dem, f, A, A.run(f, a, st), body)
    # the pool
    def setup(k):
        A = T(mod, {}, opaque_throw=True); st = State(); A.assume(st, icmp('eq', pool, const(0, 64)), False); sysmodel(A)
        es = [obj('heap', 'entry%d' % i) for i in range(k + 1)]; os_ = [ptr(sym('&obj%d' % i, 64, True)) for i in range(k)]
        for i, e in enumerate(es):
            A.store(st, add(e, const(eo, 64)), os_[i - 1] if i else const(0, 64), 8)
            A.store(st, add(e, const(en, 64)), es[i + 1] if i < k else const(0, 64), 8)
        for q in os_: A.assume(st, icmp('eq', q, const(0, 64)), False)
        A.store(st, add(pool, const(pp, 64)), es[0], 8); A.store(st, add(pool, const(pt, 64)), es[k], 8)
        return A, st, es, os_
    def content(A, st):
        """objects of the pool in order; or a complaint"""
        e = A.load(st, add(pool, const(pp, 64)), 8, True); out = []; top = A.load(st, add(pool, const(pt, 64)), 8, True)
        if e in st.freed: return None, 'the head of the pool is freed'
        for _ in range(50):
            nx = A.load(st, add(e, const(en, 64)), 8, True)
            if isc(nx):
                if cv(nx): return None, 'the list of the pool is broken'
                if top is not e: return None, 'the end of the pool is not where the next object will be added'
                return out, None
            if nx in st.freed: return None, 'the pool refers to a freed entry'
            out.append(A.load(st, add(nx, const(eo, 64)), 8, True)); e = nx
        return None, 'the list of the pool is not decided'
    addf = fnof('jm::AutoreleasePool::add(jm::Object*)')
    for k in range(N + 1):
        A, st, es, os_ = setup(k); nw = ptr(sym('&added', 64, True)); A.assume(st, icmp('eq', nw, const(0, 64)), False)
        def body(o, bad):
            got, msg = content(A, o.st)
            if msg: bad.append(msg)
            elif got != os_ + [nw]: bad.append('the pool contains other objects afterwards')
        ob('add to a pool of %d' % k, addf, A, A.run(addf, [pool, nw], st), body)
        if k <= 1:
            f = fnof('jm::Object::autorelease()'); A, st, es, os_ = setup(k)
            p = thing(A, st, 'added')
            def body(o, bad):
                got, msg = content(A, o.st)
                if msg: bad.append(msg)
                elif got != os_ + [p]: bad.append('the object is not added to the pool exactly once')
                if count(A, o, p) is not sym('added.count', 32): bad.append('the count changes')
                if o.val is not p: bad.append('does not return the object')
            ob('autorelease with a pool of %d' % k, f, A, A.run(f, [p], st), body)
        for dn in ('drain()', '~AutoreleasePool()'):
            f = fnof('jm::AutoreleasePool::' + dn)
            for adds in [()] + [(i,) for i in range(k)] + ([tuple(range(k))] if k > 1 else []):
                A, st, es, os_ = setup(k); extra = [ptr(sym('&extra%d' % i, 64, True)) for i in range(k)]
                def hook(q, x, s, depth):
                    s.event('release', q, x)
                    if any(q is os_[i] for i in adds):
                        i = [j for j in range(k) if os_[j] is q][0]
                        return [(r[0], r[1], None) for r in A.call_fn_(addf, [pool, extra[i]], s, depth)]
                    return [(s, 'ret', None)]
                A.hook = hook
                A.call_fn_ = lambda g, av, s, d: [(o.st, o.kind, o.val) for o in A.call_fn(g, av, s, d + 1)]
                def body(o, bad):
                    rel = [e[1] for e in o.st.events() if e[0] == 'release']; fr = [e for e in es if e in o.st.freed]
                    final = dn[0] == '~'
                    want = os_ + [extra[i] for i in adds] if final else os_
                    if not final:
                        got, msg = content(A, o.st)
                        if msg: bad.append(msg)
                        elif got != [extra[i] for i in adds]: bad.append('the pool does not contain the objects that were added meanwhile')
                        if es[0] in fr: bad.append('the head of the pool is freed')
                    for q in want:
                        if rel.count(q) != 1: bad.append('an object of the pool is released %d times' % rel.count(q))
                    if len(rel) > len(want): bad.append('releases more objects than the pool had')
                    if rel != want: bad.append('releases in another order')
                    if set(es[1:]) - set(fr) or final and es[0] not in fr: bad.append('an entry of the pool is leaked')
                ob('%s of %d objects%s' % (dn, k, ', %s add others' % list(adds) if adds else ''), f, A, A.run(f, [pool], st), body)
    ck.need(n, 'operations', 40)
