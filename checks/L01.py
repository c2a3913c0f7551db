"""Locks: every lock taken is released on every path, guarded data is only used under its lock, nothing foreign runs under a lock."""
import re
from expr import *
from ai import AI, State, ptr, obj, Limit, isptr
from ir import Anchor
import models
LEVEL = 'other'
RULE = ('every function of the library from which a mutex is taken or released, or which touches data guarded by one, is abstractly interpreted with all calls that are not lock operations opaque and able to throw; '
        'on every path, exceptional ones included, the locks held are followed: each is released exactly once, each access of guarded data happens under its lock, and the calls made under a lock are compared with the locks that they can reach in the call graph')
EXPLANATION = RULE
ASSUMPTIONS = ['constructors and destructors of an object run before and after it is shared', 'a single read of a scalar that is just returned is a snapshot and needs no lock', 'the locks that an opaque call takes are those reachable in the call graph (virtual calls of library classes by their types)']
# data whose protection other threads rely on: (label, functions that write it are found in the code)
SHARED = ('jm::Object.mRefCount', 'jm::AutoreleasePool.mTop', 'jm::Thread.alive', 'gSystemLogDate', 'mSystemLogLabel', 'gSystemError')
LOCK = {'pthread_mutex_lock': 1, 'pthread_mutex_unlock': -1}
Z = const(0, 64)
FOREIGN = 'application code'

def cls(sty):
    s = re.sub(r'^(class|struct)\.', '', sty); return re.sub(r'\.base$|\.\d+$', '', s)

class LAI(AI):
    """records places, lock operations and accesses as events of the path"""
    def setup(self, inline):
        self.place = {}; self.inner = {}; self.inl = inline
        self.noinline = lambda f: f.name not in inline
        return self
    def instr(self, x, env, args, st, fn):
        if x.op == 'getelementptr' and not x.d['var'] and x.d.get('sty', '').startswith(('class.', 'struct.')):
            r = AI.instr(self, x, env, args, st, fn); c = cls(x.d['sty']); b = self.val(x.args[0], env, args)
            if c == 'jm::Mutex': self.inner[r] = b
            f = self.mod.fieldat(c, x.d['off'])
            if f: self.place.setdefault(r, (c, f, b))
            return r
        if x.op in ('load', 'store') and not x.d.get('atomic'):
            a = self.val(x.args[0 if x.op == 'load' else 1], env, args)
            l = self.label(a)
            r = AI.instr(self, x, env, args, st, fn)
            if l: st.event('access', l, a, 'r' if x.op == 'load' else 'w', x, fn, self.place.get(a, (0, 0, None))[2], r)
            return r
        return AI.instr(self, x, env, args, st, fn)
    def label(self, e):
        if isc(e): return None
        b, d, o = self.split(e)
        if b.op == 'obj' and b.a[0] == 'global':
            g = self.mod.globals.get(b.a[1])
            return None if g is None or g.get('const') or b.a[1].startswith(('_ZTV', '_ZTS', '_ZTI', '_ZGV', '.str', 'llvm.')) or 'DIR_SEP' in b.a[1] else g['dem']
        p = self.place.get(e)
        if p and not (b.op == 'obj' and b.a[0] in ('alloca', 'heap')): return p[0] + '.' + p[1]
        return None
    def lockname(self, e):
        b = self.inner.get(e, e)
        g, d, o = self.split(b)
        if g.op == 'obj' and g.a[0] == 'global': return (self.mod.globals.get(g.a[1]) or {}).get('dem', g.a[1])
        for q in (b, e):
            p = self.place.get(q)
            if p: return p[0] + '.' + p[1]
        return 'a mutex'
    def call_named(self, name, av, x, st, depth):
        f = self.mod.fns.get(name); dem = f.dem if f else name
        sname = dem.split('(')[0]
        k = LOCK.get(name) or {'std::mutex::lock': 1, 'std::mutex::unlock': -1, 'std::recursive_mutex::lock': 1, 'std::recursive_mutex::unlock': -1}.get(sname)
        if k:
            st.event('lock' if k > 0 else 'unlock', av[0], self.lockname(av[0]), x); return [(st, 'ret', const(0, 32))]
        if name in ('pthread_cond_wait', 'pthread_cond_timedwait'):
            st.event('wait', av[1], self.lockname(av[1]), x); return [(st, 'ret', const(0, 32))]
        if not (f is not None and not f.decl and name in self.inl) and not name.startswith('llvm.') and 'std::atomic' not in dem and '__atomic_base' not in dem:
            for a in av:
                if isinstance(a, E) and a.w == 64 and not isc(a):
                    l = self.label(a)
                    if l: st.event('access', l, a, 'c', x, None)
            st.event('calls', name, dem, x)
        if name.startswith('pthread_'): return [r for r in AI.call_named(self, name, av, x, st, depth) if r[1] == 'ret']
        if name in ('_Znwm', '_Znam'):
            r = AI.call_named(self, name, av, x, st, depth)
            if x.op == 'invoke' or self.anylock(st): r = r + [(self.thrown(st), 'throw', None)]
            return r
        return AI.call_named(self, name, av, x, st, depth)
    def on_header(self, fn, b, heads, st): st.event('header', fn.name, b)
    def anylock(self, st): return any(e[0] == 'lock' for e in st.events())
    def thrown(self, st): s = st.copy(); s.event('nomem'); return s
    def indirect(self, x, t, av, st, depth):
        st.event('virtual', t, av, x)
        return AI.indirect(self, x, t, av, st, depth)

def getter(f):
    return len(f.order) == 1 and all(x.op in ('getelementptr', 'load', 'ret', 'and', 'or', 'icmp', 'zext', 'trunc', 'bitcast') for x in f.all())

def where(f, x=None):
    l = x.d.get('l') if x is not None else None
    return '%s:%s' % (l[0], l[1]) if l and l[1] else '%s:%s' % (f.file, f.line)

def plain(mod, c, x):
    """a String is made from a literal that begins with a plain character: the decoders only reject byte order marks (the same for text that was formatted in a local buffer)"""
    f = mod.fns.get(c)
    if f is None or f.dem != 'jm::String::String(char const*)': return False
    a = x.args[1]
    if a[0] == 'i' and x.fn.ins[a[1]].op == 'alloca': return True
    g = mod.globals.get(a[1]) if a[0] == 'g' else None
    return g is not None and bool(g.get('const')) and 'init' in g and (g['init'][0] == 'zero' or g['init'][0] == 'data' and 0 <= g['init'][2][0] < 128)

class Locks:
    def __init__(self, ck):
        self.ck = ck; self.mod = mod = ck.mod
        self.lib = [f for f in mod.libfns() if not f.name.startswith(('__cxx_global', '_GLOBAL__'))]
        self.callers = {}; self.calls = {}
        vt = {}
        for n, g in mod.globals.items():
            if n.startswith('_ZTVN2jm') and 'init' in g:
                for o, fn in models.vt_entries(mod, n): vt.setdefault((n, o), fn)
        self.slots = {}
        for (n, o), fn in vt.items(): self.slots.setdefault(o - 16, set()).add((n, fn))
        for f in mod.fns.values():
            if f.decl: continue
            cs = set()
            for x in f.calls():
                c = x.d.get('callee')
                if c and not plain(mod, c, x): cs.add(mod.alias.get(c, c))
            self.calls[f.name] = cs
            for c in cs: self.callers.setdefault(c, set()).add(f.name)
        self.getters = {f.name for f in self.lib if getter(f)}
        # helpers nobody else can call are analysed as a part of their callers
        def reaches(n, m, seen): return any(c == m or c not in seen and not seen.add(c) and reaches(c, m, seen) for c in self.calls.get(n, ()))
        touch = set(LOCK) | {'pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_cond_signal', 'pthread_cond_broadcast'}
        self.local = {f.name for f in self.lib if not f.decl and self.callers.get(f.name) and len(self.callers[f.name]) <= 4
                      and (f.name.startswith(('_ZL', '_ZN12_GLOBAL__N_1')) or f.sname == 'operator()' and f.name.startswith('_ZZ') or f.acc == 'private' and self.calls.get(f.name, set()) & touch)
                      and sum(1 for x in f.all()) < 300 and not reaches(f.name, f.name, set())}
        self.wrap = {}       # function -> net effect
        self.runs = {}
        # functions that operate on locks directly, then users of wrappers
        todo = {c for p in LOCK for c in self.callers.get(p, ())} | {f.name for f in mod.fns.values() if f.dem.split('(')[0] in ('std::mutex::lock', 'std::mutex::unlock')}
        todo = {n for n in todo if not mod.fns[n].decl}
        while todo & self.local: todo = {m for n in todo for m in (self.callers[n] if n in self.local else (n,)) if not mod.fns[m].decl}
        done = set(); hist = {}
        while todo:
            n = min(todo); todo.discard(n); done.add(n)
            self.runs[n] = self.run(mod.fns[n])
            net = self.net(self.runs[n])
            net = net if net and self.wrapper(mod.fns[n], net) else None
            if net != self.wrap.get(n) and hist.get(n, 0) < 4:
                hist[n] = hist.get(n, 0) + 1
                if net: self.wrap[n] = net
                else: del self.wrap[n]
                for c in self.callers.get(n, ()): todo.add(c); done.discard(c)
            todo -= done
        self.done = done
    def wrapper(self, f, net):
        """a function that ends with another set of locks than it began with and is meant to: lock()/unlock(), guards, private helpers with callers"""
        if len(net) != 1: return False
        s = f.sname
        if s in ('lock', 'unlock', 'tryLock', 'acquire') and f.cls: return True
        if f.cls and (s == f.cls.split('::')[-1] or s == '~' + f.cls.split('::')[-1]) and (s.startswith('~')) == (min(net.values()) < 0): return True
        return bool(self.callers.get(f.name)) and not f.dem.startswith('jm::System')
    def run(self, f):
        inl = {n for n in self.wrap} | self.getters | self.local | {n for n in self.mod.fns if n.startswith(('_ZNSt10lock_guard', '_ZNSt11unique_lock', '_ZNSt11scoped_lock'))}
        A = LAI(self.mod, {}, loop='havoc', opaque_throw=True, max_paths=3000).setup(inl - {f.name})
        try: outs = A.run(f, A.argsyms(f), State())
        except Limit as e: return A, None, str(e)
        self.ck.analysed |= A.analysed
        return A, [o for o in outs if o.kind in ('ret', 'throw', 'backedge', 'cbackedge')], None
    def held(self, A, o):
        """yields (event, locks held before it); locks: place -> count"""
        h = {}; at = {}
        for e in o.st.events():
            yield e, h
            if e[0] == 'header': at = dict(h)
            if e[0] == 'lock': h[e[1]] = h.get(e[1], 0) + 1
            elif e[0] == 'unlock': h[e[1]] = h.get(e[1], 0) - 1
        if 'backedge' in o.kind: h = {p: h.get(p, 0) - at.get(p, 0) for p in set(h) | set(at)}
        yield None, {p: n for p, n in h.items() if n}
    def net(self, r):
        A, outs, err = r
        if not outs: return None
        res = [[h for e, h in self.held(A, o) if e is None][0] for o in outs if o.kind == 'ret']
        if not res: return None
        if all(x == res[0] for x in res): return res[0]
        return None

def run(ck):
    L = Locks(ck); mod = L.mod
    def same_path(A, h): return {A.lockname(p): n for p, n in h.items() if n > 0}
    # 1. pairing
    users = [n for n in L.runs if not mod.fns[n].dem.startswith('std::')]
    guards = {}; acq = {}; under = []
    for n in sorted(users):
        f = mod.fns[n]; A, outs, err = L.runs[n]; bad = []
        if outs is None: ck.ob('pairing ' + f.dem, None, where(f), err); continue
        net = L.wrap.get(n)
        for o in outs:
            for e, h in L.held(A, o):
                if e is None:
                    if 'backedge' in o.kind:
                        for p, k in h.items(): bad.append('%s %s again in each turn of a loop' % ('takes' if k > 0 else 'releases', A.lockname(p)))
                    elif net:
                        if o.kind == 'ret' and h != net: bad.append('leaves different locks on different paths')
                        if o.kind == 'throw' and h: bad.append('keeps %s when an exception is thrown' % ', '.join(map(A.lockname, h)))
                    else:
                        for p, k in h.items(): bad.append('%s %s%s' % ('never releases' if k > 0 else 'releases without having taken', A.lockname(p), ' when an exception is thrown' if o.kind == 'throw' else ''))
                elif e[0] == 'lock':
                    if h.get(e[1], 0) > 0: bad.append('takes %s twice' % e[2])
                    for p, k in h.items():
                        if k > 0: under.append((f, e[3], A.lockname(p), {e[2]}, 'takes ' + e[2]))
                    acq.setdefault(n, set()).add(e[2])
                elif e[0] == 'unlock':
                    if h.get(e[1], 0) <= 0 and not net: bad.append('releases %s without having taken it' % e[2])
                elif e[0] == 'wait':
                    if h.get(e[1], 0) <= 0: bad.append('waits without holding %s' % e[2])
                    if any(k > 0 for p, k in h.items() if p is not e[1]): bad.append('waits while it holds another lock')
                elif e[0] == 'access' and e[3] in 'wc' and any(k > 0 for k in h.values()):
                    c = f.cls
                    if e[1].startswith(('jm::', 'g', 'm')) and not (c and e[1].startswith(c + '.') and f.sname in (c.split('::')[-1], '~' + c.split('::')[-1])):
                        for p, k in h.items():
                            if k <= 0: continue
                            rel = e[1].split('.')[0]
                            glob = A.split(e[2])[0]; lk = A.split(A.inner.get(p, p))[0]
                            related = (glob.op == 'obj') == (lk.op == 'obj') and (glob.op == 'obj' or A.place.get(e[2], (0, 0, None))[2] is not None and related_to(A, A.place[e[2]][2], p))
                            if related: guards.setdefault(e[1], set()).add(A.lockname(p))
                elif (e[0] == 'virtual' or e[0] == 'calls' and not plain(mod, e[1], e[3])) and any(k > 0 for k in h.values()):
                    for p, k in h.items():
                        if k > 0: under.append((f, e[3], A.lockname(p), e, None))
        ck.ob('pairing ' + f.dem, not bad, where(f), '; '.join(dict.fromkeys(bad)))
    for s in SHARED: guards.setdefault(s, set())
    for f in L.lib:
        for x in f.all():
            if x.op == 'ret' and x.args and x.args[0] and x.args[0][0] == 'g' and mod.globals.get(x.args[0][1], {}).get('dem') in guards:
                ck.ob('guard %s in %s' % (mod.globals[x.args[0][1]]['dem'], f.dem), False, where(f, x), 'hands out a reference to %s, which others change under a lock' % mod.globals[x.args[0][1]]['dem'])
    # 2. guarded data
    index = {}
    for f in L.lib:
        for x in f.all():
            ls = set()
            if x.op == 'getelementptr' and x.d.get('sty', '').startswith(('class.', 'struct.')) and not x.d['var']:
                c = cls(x.d['sty']); fl = mod.fieldat(c, x.d['off'])
                if fl: ls.add(c + '.' + fl)
            for a in list(x.args) + [v for _, v in x.d.get('inc') or ()]:
                if a and a[0] == 'g' and a[1] in mod.globals: ls.add(mod.globals[a[1]]['dem'])
                elif a and a[0] == 'gepc' and isinstance(a[1], list) and a[1][0] == 'g': ls.add(mod.globals.get(a[1][1], {}).get('dem'))
            fs = {f.name}
            while fs & L.local: fs = {m for n in fs for m in (L.callers[n] if n in L.local else (n,)) if not mod.fns[m].decl}
            for l in ls & set(guards): index.setdefault(l, set()).update(fs)
    cells = 0
    for l in sorted(guards):
        fs = index.get(l, ())
        if not fs: continue
        cells += 1
        owner = l.rsplit('.', 1)[0] if '.' in l else None
        lockset = {}
        acc = []
        for n in sorted(fs):
            f = mod.fns[n]
            if owner and f.cls == owner and f.sname in (owner.split('::')[-1], '~' + owner.split('::')[-1]): continue
            if n in L.getters or n in L.local: continue
            if n not in L.runs: L.runs[n] = L.run(f)
            A, outs, err = L.runs[n]
            if outs is None: ck.ob('guard %s in %s' % (l, f.dem), None, where(f), err); continue
            for o in outs:
                for e, h in L.held(A, o):
                    if e and e[0] == 'access' and e[1] == l and not (len(e) > 6 and nolock(A, o, e[6])):
                        acc.append((f, e, {A.lockname(p) for p, k in h.items() if k > 0}))
        want = guards[l]
        common = set(want)
        byfn = {}
        for f, e, h in acc:
            byfn.setdefault(f, [])
            if not (h & want): byfn[f].append(e)
        if not want: ck.ob('guard %s' % l, not acc, where(acc[0][0], acc[0][1][4]) if acc else '', 'is changed by several threads but no function takes a lock for it'); continue
        for f, es in sorted(byfn.items(), key=lambda k: k[0].dem):
            lone = {id(e[4]) for f2, e, h in acc if f2 is f}
            if es and len(lone) == 1 and es[0][3] == 'r' and not any(h for f2, e, h in acc if f2 is f) and snapshot(f): es = []
            # a helper may rely on its callers
            if es and not callers_hold(L, f, want): ck.ob('guard %s in %s' % (l, f.dem), False, where(f, es[0][4]), '%s is %s without %s' % (l, 'read' if es[0][3] == 'r' else 'changed', ' or '.join(sorted(want))))
            else: ck.ob('guard %s in %s' % (l, f.dem), True, where(f))
    # 3. what happens under a lock
    reach = {}
    def reached(n, seen):
        if n in seen: return set()
        seen.add(n); r = set(acq.get(n, ()))
        for c in L.calls.get(n, ()): r |= reached(c, seen)
        f = mod.fns.get(n)
        if f is not None and not f.decl:
            for x in f.calls():
                md = virtual_of(f, x)
                if md:
                    if md[0] and md[0].endswith('N2jm6ObjectE'): r.add(FOREIGN)
                    for vtn, fn in L.slots.get(md[1], ()):
                        if fits(mod, vtn, md[0]): r |= reached(mod.alias.get(fn, fn), seen)
        return r
    order = {}; seen = {}
    for f, x, l, e, txt in under:
        if txt: locks = e; what = txt
        elif e[0] == 'virtual':
            k = ('foreign', f.dem, l)
            ck.ob('%s under %s' % (f.dem, l), False, where(f, x), 'calls a virtual function (code of the application) while it holds %s' % l); continue
        else:
            locks = reached(e[1], set()); what = 'calls %s, which takes' % e[2]
        key = '%s -> %s under %s' % (f.dem, what.split(',')[0], l)
        if key in seen: continue
        seen[key] = 1
        if FOREIGN in locks: ck.ob(key, False, where(f, x), '%s virtual functions of any object (code of the application) while %s is held' % (what.replace('takes', 'runs'), l)); continue
        ck.ob(key, l not in locks, where(f, x), '%s %s while it holds it' % (what, l))
        for k in locks:
            if k != l: order.setdefault(l, {}).setdefault(k, (f, x))
    for a in sorted(order):
        for b in sorted(order[a]):
            ck.ob('order %s before %s' % (a, b), not (b in order and a in order[b]), where(*order[a][b]), '%s and %s are taken in both orders' % (a, b))
    ck.need(len(users), 'functions that use locks', 8); ck.need(cells, 'guarded cells', 6); ck.counts['calls under a lock'] = len(seen)

def related_to(A, base, lock):
    """the lock belongs to the object or to something the object refers to"""
    seen = set(); todo = [A.inner.get(lock, lock)]
    while todo:
        e = todo.pop()
        if e is base: return True
        if not isinstance(e, E) or e.id in seen: continue
        seen.add(e.id); todo += list(e.a)
    b = A.split(base)[0]
    return b.id in seen or b is A.split(A.inner.get(lock, lock))[0]

def nolock(A, o, base):
    """the pointer through which the object finds its lock is null: there is none"""
    if base is None: return False
    return any(e[0] == 'access' and len(e) > 7 and e[6] is base and e[3] == 'r' and isinstance(e[7], E) and e[7].w == 64 and 'ool' in e[1] and A.decide(o.st, icmp('eq', e[7], Z)) for e in o.st.events())

def snapshot(f):
    return sum(1 for x in f.all() if x.op == 'load') <= 2 and not any(x.op == 'store' for x in f.all()) and all(x.d.get('w', 8 * x.d.get('sz', 8)) <= 64 and x.d['ty'] != 'ptr' for x in f.all() if x.op == 'load')

def callers_hold(L, f, want):
    cs = [c for c in L.callers.get(f.name, ()) if not L.mod.fns[c].decl]
    if not cs: return False
    for c in cs:
        if c not in L.runs: L.runs[c] = L.run(L.mod.fns[c])
        A, outs, err = L.runs[c]
        if outs is None: return False
        for o in outs:
            for e, h in L.held(A, o):
                if e and e[0] == 'calls' and e[1] == f.name and not ({A.lockname(p) for p, k in h.items() if k > 0} & want): return False
    return True

def virtual_of(f, x):
    """(class type, slot) of a virtual call"""
    if x.d.get('callee') or not x.d.get('fp') or x.d['fp'][0] != 'i': return None
    ins = {y.i: y for y in f.all()}
    l = ins.get(x.d['fp'][1])
    if l is None or l.op != 'load': return None
    a = l.args[0]; off = 0
    if a[0] == 'i' and ins[a[1]].op == 'getelementptr': off = ins[a[1]].d['off']; a = ins[a[1]].args[0]
    for y in f.all():
        if y.d.get('callee') == 'llvm.type.test' and y.args and y.args[0] == a: return y.d.get('md'), off
    return None
def fits(mod, vtn, md):
    if not md: return True
    c = lambda s: re.sub(r'^_ZT[VS]', '', s)
    d = lambda m: '::'.join(re.findall(r'\d+([A-Za-z_]\w*?)(?=\d|E|$)', m)) if m.startswith('N') else m
    def name(m):
        out = []; i = 1
        while i < len(m) and m[i].isdigit():
            j = i
            while m[j].isdigit(): j += 1
            n = int(m[i:j]); out.append(m[j:j + n]); i = j + n
        return '::'.join(out)
    a, b = name(c(vtn)), name(c(md))
    return a == b or b in mod.bases(a) or a in mod.bases(b)
