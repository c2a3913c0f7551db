"""Undoable structural edits of the linked list."""
import re
from expr import *
from ai import AI, State, ptr, isptr, obj, Limit
from ir import Anchor
import models
LEVEL = 'proof'
RULE = ('shape analysis: the primitive edits are abstractly interpreted for every shape of the neighbourhood (empty list, first/middle/last position), with and without '
        'an undo manager, and their final heap is compared link by link; the searching edits are over-approximated by one arbitrary iteration. '
        'With a manager, each cell that differs from the heap before the edit must have been registered, under the object that holds it, while it still had its old content')
EXPLANATION = RULE
ASSUMPTIONS = ['the list is well formed before the edit (neighbours refer to each other, ends have no outer neighbour)', 'the edited element is in the list / not in the list as the operation demands']
Z = const(0, 64)

def run(ck):
    mod = ck.mod
    L = {n: (o, s) for n, o, s, t in mod.fields('jm::LinkedList')}
    N = {n: (o, s) for n, o, s, t in mod.fields('jm::LListElement')}
    for n in ('listStart', 'listEnd', 'count', 'current'):
        if n not in L: raise Anchor('LinkedList has no %s' % n)
    for n in ('next', 'prev', 'data'):
        if n not in N: raise Anchor('LListElement has no %s' % n)
    SZ = {}
    base = dict(models.string_models(mod))
    def reg(ai, st, av, x):
        f = mod.fns[mod.alias.get(x.d['callee'], x.d['callee'])] if x.d.get('callee') else None
        ty = re.match(r'.*\(jm::Object\*, (.*)\*(, .*)?\)$', f.dem).group(1)
        sz = {'jm::Object*': 8, 'unsigned int': 4, 'int': 4, 'unsigned long': 8, 'long': 8}.get(ty)
        if sz is None: raise Limit('recorded as %s' % ty)
        b, d, o = ai.split(av[2])
        ob = ai.split(av[1])[0] if not isc(av[1]) else None
        st.event('reg', b, o, sz, ob, ai.load(st, av[2], sz, sz == 8), x.loc)
        return [(st, 'ret', None)]
    for f in mod.method('jm::UndoManager', 'registerChange'):
        if len(f.args) >= 3: base[f.name] = reg
    def evm(nm, v=None):
        def m(ai, st, av, x):
            st.event(nm, *av); return [(st, 'ret', v)]
        return m
    base['jm::UndoManager::registerRelease'] = evm('regrelease')
    base['jm::UndoManager::registerRetain'] = evm('regretain')
    base['jm::Object::release() const'] = base['jm::Object::release()'] = evm('release')
    base['jm::Object::retain() const'] = base['jm::Object::retain()'] = evm('retain')
    this, um = ptr(sym('list', 64, True)), ptr(sym('manager', 64, True))
    def node(n): return ptr(sym(n, 64, True))
    el, P, Nx, S, E_, = node('element'), node('before'), node('after'), node('first'), node('last')
    lf = lambda n: add(this, const(L[n][0], 64))
    nf = lambda e, n: add(e, const(N[n][0], 64))
    cnt = sym('count', L['count'][1] * 8)
    def where(f): return '%s:%s' % (f.file, f.line)
    def check_regs(A, o, cells, bad, fresh=()):
        """cells: {(base, off, size): old value}"""
        regs = [e for e in o.st.events() if e[0] == 'reg']
        for e in regs:
            if e[4] is not e[1]: bad('%s: a variable of %s is recorded under another object' % (e[6], e[1]))
        for (b, off, s), old in cells.items():
            now = A.load(o.st, add(b, const(off, 64)), s, s == 8)
            if A.resolve(now, o.st) is A.resolve(old, o.st): continue
            r = [e for e in regs if e[1] is b and e[2] <= off and off + s <= e[2] + e[3]]
            if not r: bad('%s+%d is changed without being recorded' % (b, off)); continue
            if A.resolve(r[0][5], o.st) is not A.resolve(old, o.st): bad('%s: %s+%d is recorded only after it was changed' % (r[0][6], b, off))
    prim = {}
    for f in mod.method('jm::LinkedList', 'add') + mod.method('jm::LinkedList', 'addBefore') + mod.method('jm::LinkedList', 'remove'):
        prim[f.dem] = f
    def find(rx):
        r = [f for d, f in prim.items() if re.match(rx, d)]
        if len(r) != 1: raise Anchor('operation %s: %d candidates' % (rx, len(r)))
        return r[0]
    p_add = find(r'jm::LinkedList::add\(jm::LListElement\*, ')
    p_bef = find(r'jm::LinkedList::addBefore\(jm::LListElement\*, ')
    p_rem = find(r'jm::LinkedList::remove\(jm::LListElement\*, ')
    nshape = 0
    # shapes: (name, function, initial cells, expected cells, other arguments)
    shapes = []
    A0 = AI(mod)
    one = const(1, cnt.w)
    def shape(name, f, argl, cells, want, released=()): shapes.append((name, f, argl, cells, want, released))
    H = lambda s, e, c=cnt: {('l', 'listStart'): s, ('l', 'listEnd'): e, ('l', 'count'): c}
    shape('append to an empty list', p_add, [el], {**H(Z, Z, const(0, cnt.w)), (el, 'prev'): Z, (el, 'next'): Z}, {**H(el, el, one), (el, 'prev'): Z, (el, 'next'): Z})
    for nm, s in (('append to a list of one', E_), ('append to a longer list', S)):
        c = {**H(s, E_), (E_, 'next'): Z, (el, 'prev'): Z, (el, 'next'): Z}
        shape(nm, p_add, [el], c, {**H(s, el, add(cnt, one)), (E_, 'next'): el, (el, 'prev'): E_, (el, 'next'): Z})
    T = node('successor')
    for nm, s, p, e in (('insert before the only element', T, Z, T), ('insert before the first element', T, Z, E_), ('insert before the second element', P, P, T), ('insert in the middle', S, P, E_)):
        c = {**H(s, e), (T, 'prev'): p, (el, 'prev'): Z, (el, 'next'): Z}
        w = {**H(el if s is T else s, e, add(cnt, one)), (T, 'prev'): el, (el, 'prev'): p, (el, 'next'): T}
        if p is not Z: c[(P, 'next')] = T; w[(P, 'next')] = el
        shape(nm, p_bef, [T, el], c, w)
    for nm, s, p, n, e in (('remove the only element', el, Z, Z, el), ('remove the first element', el, Z, Nx, E_), ('remove the last element', S, P, Z, el), ('remove from the middle', S, P, Nx, E_),
                           ('remove the first of two', el, Z, Nx, Nx), ('remove the last of two', P, P, Z, el)):
        c = {**H(s, e), (el, 'prev'): p, (el, 'next'): n}
        w = {**H(n if s is el else s, p if e is el else e, sub(cnt, one)), (el, 'prev'): Z, (el, 'next'): Z}
        if p is not Z: c[(P, 'next')] = el; w[(P, 'next')] = n
        if n is not Z: c[(Nx, 'prev')] = el; w[(Nx, 'prev')] = p
        shape(nm, p_rem, [el], c, w, (el,))
    for name, f, argl, cells, want, rel in shapes:
        for undo in (True, False):
            nshape += 1
            A = AI(mod, base); st = State(); bad = []
            addr = lambda k: (lf(k[1]), L[k[1]][1]) if k[0] == 'l' else (nf(k[0], k[1]), N[k[1]][1])
            for q in (this, um, el, P, Nx, S, E_, T): A.assume(st, icmp('eq', q, Z), False)
            for i_, q in enumerate((this, um, el, P, Nx, S, E_, T)):
                for r in (this, um, el, P, Nx, S, E_, T)[:i_]: A.assume(st, icmp('eq', q, r), False)
            old = {}
            # every other cell of the objects taken part keeps its content
            for (b, flds, vt) in [(this, L, 'l')] + [(q, N, q) for q in (el, P, Nx, S, E_, T)]:
                for n_, (o_, s_) in flds.items():
                    if n_ in ('current', 'mOwner') or n_.startswith('_vptr'): continue
                    k = (vt, n_)
                    if k in cells: A.store(st, add(b, const(o_, 64)), cells[k], s_)
                    old[(b, o_, s_)] = A.load(st, add(b, const(o_, 64)), s_, s_ == 8)
            if cnt in cells.values(): A.narrow(st, cnt, 1, (1 << cnt.w) - 2)
            fargs = [this] + argl + [um if undo else Z]
            try: outs = A.run(f, fargs, st)
            except Limit as e: ck.ob('%s%s' % (name, ' (undo)' if undo else ''), None, where(f), str(e)); continue
            ck.analysed |= A.analysed
            rets = [o for o in outs if o.kind == 'ret']
            if not rets: bad.append('never returns')
            for o in outs:
                if o.kind == 'throw': bad.append('may throw')
                if o.kind != 'ret': continue
                for (b, o_, s_), v in old.items():
                    kk = [k for k in want if (b is this if k[0] == 'l' else k[0] is b) and (L if k[0] == 'l' else N)[k[1]][0] == o_]
                    w = want[kk[0]] if kk else v
                    g = A.load(o.st, add(b, const(o_, 64)), s_, s_ == 8)
                    if A.resolve(g, o.st) is not A.resolve(w, o.st):
                        fn_ = [n_ for n_, x in (L if b is this else N).items() if x[0] == o_][0]
                        bad.append('%s.%s is %s instead of %s' % (b.a[0], fn_, g, w))
                rels = [e[1] for e in o.st.events() if e[0] == 'release']; rets_ = [e for e in o.st.events() if e[0] == 'retain']
                if rels != list(rel) or rets_: bad.append('releases %s' % (rels or 'nothing'))
                if undo:
                    check_regs(A, o, old, bad.append)
                    for r in rel:
                        if not any(e[0] == 'regrelease' and e[2] is r for e in o.st.events()): bad.append('the removed element is given up without a record that keeps it')
                elif any(e[0] in ('reg', 'regrelease', 'regretain') for e in o.st.events()): bad.append('records without a manager')
            ck.ob('%s%s' % (name, ' (undo)' if undo else ''), not bad, where(f), '; '.join(dict.fromkeys(bad)))
    ck.need(nshape, 'shapes of primitive edits', 26)
    # -- searching edits ---------------------------------------------------------------------------------------------------
    OK = const(int(mod.enums['jm::Status']['eOK']), 32)
    def prims(names):
        b = dict(base)
        for f, nm in names:
            b[f.name] = evm(nm, None if f.sname != 'remove' else OK)
        return b
    d1, d2 = ptr(sym('data', 64, True)), ptr(sym('data2', 64, True))
    startv = ptr(mk('init', 64, this, L['listStart'][0], 0, False))
    def visit(A, bad):
        """the nodes an arbitrary iteration starts from: cursor cell or phi that starts at the first element"""
        cur = []
        for fn, b, hv, st, nxt, env in A.backedges:
            c = None
            for key, (pre, e) in hv.get('cells', {}).items():
                if key[0] is this and A.resolve(pre, st) is startv:
                    c = e; n = A.load(st, add(key[0], const(key[1], 64)), key[2], True)
            for p, (pre, e) in hv['heads'].items():
                if A.resolve(pre, st) is startv: c = e; n = nxt[p]
            if c is None: bad('the search does not start at the first element'); continue
            if n is not ptr(mk('init', 64, c, N['next'][0], 0, False)): bad('the search continues with %s' % n)
            cur.append(c)
        if not A.backedges: bad('the list is not searched')
        return list(dict.fromkeys(cur))
    dataof = lambda e: ptr(mk('init', 64, e, N['data'][0], 0, False))
    def listcells(A):
        return {(this, o_, s_): A.load(State(), add(this, const(o_, 64)), s_, s_ == 8) for n_, (o_, s_) in L.items() if n_ != 'current'}
    def go(key, f, argl, spec, bmodels):
        bad = []
        A = AI(mod, bmodels, loop='havoc'); st = State()
        for q in (this, um, d1, d2): A.assume(st, icmp('eq', q, Z), False)
        try: outs = A.run(f, [this] + argl, st)
        except Limit as e: ck.ob(key, None, where(f), str(e)); return
        ck.analysed |= A.analysed
        if not [o for o in outs if o.kind == 'ret']: bad.append('never returns')
        if [o for o in outs if o.kind == 'throw']: bad.append('may throw')
        spec(A, [o for o in outs if o.kind == 'ret'], bad.append)
        ck.ob(key, not bad, where(f), '; '.join(dict.fromkeys(bad)))
    is_ = lambda A, st, a, b: A.decide(st, icmp('eq', a, b))
    def same_list(A, o, bad):
        for (b, o_, s_), v in listcells(A).items():
            if A.load(o.st, add(b, const(o_, 64)), s_, s_ == 8) is not v: bad('the list itself is modified by the search')
    def nodestores(o):
        return [(b, x) for b, log in o.st.mem.items() if b is not this and b.op != 'obj' for x in log]
    for undo in (True, False):
        sfx = ' (undo)' if undo else ''; U = um if undo else Z
        def spec(A, outs, bad):
            for o in outs:
                E = [e for e in o.st.events() if e[0] == 'prim']
                if len(E) != 1 or E[0][1] is not this or E[0][3] is not U: bad('does not append one element'); continue
                it = E[0][2]
                if it.op != 'obj' or it.a[0] != 'heap': bad('appends an existing element'); continue
                if A.load(o.st, nf(it, 'data'), 8, True) is not d1: bad('the new element holds %s' % A.load(o.st, nf(it, 'data'), 8))
                for n_ in ('next', 'prev'):
                    v = A.resolve(A.load(o.st, nf(it, n_), 8), o.st)
                    if not (isc(v) and cv(v) == 0): bad('the new element has a dangling %s' % n_)
                same_list(A, o, bad)
                if nodestores(o): bad('modifies other elements')
        add_o = find(r'jm::LinkedList::add\(jm::Object\*, ')
        go('append a value' + sfx, add_o, [d1, U], spec, prims([(p_add, 'prim')]))
        def spec(A, outs, bad):
            cur = visit(A, bad); n = 0
            for o in outs:
                E = [e for e in o.st.events() if e[0] == 'prim']
                same_list(A, o, bad)
                if nodestores(o): bad('modifies other elements')
                if not E:
                    if not any(is_(A, o.st, c, Z) for c in cur + [startv]): bad('gives up before the end of the list')
                    continue
                n += 1
                bf, it = E[0][2], E[0][3]
                if len(E) != 1 or bf not in cur + [startv] or is_(A, o.st, dataof(bf), d1) is not True: bad('inserts in front of an element (%s) that does not hold the wanted value %s' % (bf, [cur, o.st.facts, o.st.mem]))
                elif it.op != 'obj' or it.a[0] != 'heap' or A.load(o.st, nf(it, 'data'), 8, True) is not d2: bad('does not insert a fresh element with the given value')
                elif E[0][4] is not U: bad('the edit is not handed the manager')
            for fn, b, hv, st, nxt, env in A.backedges:
                if any(is_(A, st, dataof(c), d1) is not False for c in cur if any(c is e for p, e in list(hv['heads'].values()) + list(hv.get('cells', {}).values()))): bad('skips a matching element')
            if not n: bad('never inserts')
        go('insert before a value' + sfx, find(r'jm::LinkedList::addBefore\(jm::Object\*, '), [d1, d2, U], spec, prims([(p_bef, 'prim')]))
        def spec(A, outs, bad):
            cur = visit(A, bad); n = 0
            for o in outs:
                E = [e for e in o.st.events() if e[0] == 'prim']
                same_list(A, o, bad)
                if nodestores(o): bad('modifies other elements')
                if not E:
                    if not any(is_(A, o.st, c, Z) for c in cur + [startv]): bad('gives up before the end of the list')
                    if isc(o.val) and cv(o.val) == cv(OK): bad('reports success without removing anything')
                    continue
                n += 1
                if len(E) != 1 or E[0][2] not in cur + [startv] or is_(A, o.st, dataof(E[0][2]), d1) is not True: bad('removes an element that does not hold the wanted value')
                elif E[0][3] is not U: bad('the edit is not handed the manager')
                if not (isc(o.val) and cv(o.val) == cv(OK)): bad('does not report the outcome of the removal')
            if not n: bad('never removes')
        go('remove a value' + sfx, find(r'jm::LinkedList::remove\(jm::Object const\*, '), [d1, U], spec, prims([(p_rem, 'prim')]))
        def spec(A, outs, bad):
            cur = visit(A, bad); n = 0
            heads = {}
            # invariant of the remembered elements: null, or an element that holds the value
            inv = {}
            for fn, b, hv, st, nxt, env in A.backedges:
                for p, (pre, e) in hv['heads'].items():
                    if isc(pre) and cv(pre) == 0 and p in nxt:
                        v = A.resolve(nxt[p], st)
                        inv.setdefault(e, set())
                        if v is e or isc(v): continue
                        inv[e].add(d1 if is_(A, st, dataof(v), d1) is True else d2 if is_(A, st, dataof(v), d2) is True else None)
            def holds(o, e, d):
                return is_(A, o.st, dataof(e), d) is True or inv.get(e) == {d}
            for o in outs:
                same_list(A, o, bad)
                ns = nodestores(o)
                if not ns:
                    if not any(is_(A, o.st, c, Z) for c in cur + [startv]) : bad('gives up before the end of the list')
                    continue
                n += 1
                got = {}
                for b, x in ns:
                    if x[0] is not None or x[1] != N['data'][0]: bad('modifies more than the data of %s' % b)
                    else: got[b] = x[3]
                ok = len(got) == 2
                if len(got) == 1:   # one element holds both values: nothing to exchange
                    (x, vx), = got.items()
                    ok = is_(A, o.st, dataof(x), d1) is True and is_(A, o.st, dataof(x), d2) is True and vx in (d1, d2)
                elif ok:
                    (x, vx), (y, vy) = got.items()
                    ok = (vx is d2 and holds(o, x, d1) and vy is d1 and holds(o, y, d2)) or (vx is d1 and holds(o, x, d2) and vy is d2 and holds(o, y, d1))
                if not ok: bad('does not exchange the two values (%s)' % ', '.join('%s := %s' % (b, v) for b, v in got.items()))
                regs = [e for e in o.st.events() if e[0] == 'reg']
                if undo:
                    for b in got:
                        r = [e for e in regs if e[1] is b and e[2] == N['data'][0] and e[3] == 8 and e[4] is b]
                        if not r or r[0][5] is not dataof(b): bad('%s is changed without being recorded before' % b)
                elif regs: bad('records without a manager')
            if not n: bad('never exchanges')
        sw = mod.method('jm::LinkedList', 'swapData')
        if len(sw) != 1: raise Anchor('swapData')
        go('exchange two values' + sfx, sw[0], [d1, d2, U], spec, base)
        def spec(A, outs, bad):
            for o in outs:
                for n_ in ('listStart', 'listEnd', 'current', 'count'):
                    v = A.resolve(A.load(o.st, lf(n_), L[n_][1]), o.st)
                    if not (isc(v) and cv(v) == 0): bad('%s is %s afterwards' % (n_, v))
            if undo:
                # each iteration removes the first element through the recording removal, until there is none
                for fn, b, hv, st, nxt, env in A.backedges:
                    E = [e for e in st.events() if e[0] == 'prim']
                    firsts = [e for k, (p, e) in hv.get('cells', {}).items() if k[0] is this and k[1] == L['listStart'][0]] + [startv]
                    if len(E) != 1 or E[0][2] not in firsts or E[0][3] is not um: bad('an element is not removed through the recorded removal')
                    if [e for e in st.events() if e[0] == 'release']: bad('elements are released directly')
                if not A.backedges: bad('elements are not removed')
                for o in outs:
                    for e in o.st.events():
                        if e[0] == 'prim': continue
            else:
                cur = visit(A, bad)
                for fn, b, hv, st, nxt, env in A.backedges:
                    rel = [e[1] for e in st.events() if e[0] == 'release']
                    heads = [e for p, e in list(hv['heads'].values()) + list(hv.get('cells', {}).values())]
                    if len(rel) != 1 or rel[0] not in heads: bad('an iteration releases %s' % rel)
                for o in outs:
                    if not any(is_(A, o.st, c, Z) for c in cur + [startv]): bad('elements may be left')
        def remshift(ai_, st, av, x):
            st.event('prim', *av)
            # what remains is an arbitrary shorter list
            for n_ in ('listStart', 'listEnd', 'count'):
                ai_.store(st, lf(n_), ai_.fresh('rest', L[n_][1] * 8), L[n_][1])
            return [(st, 'ret', OK)]
        b = dict(base); b[p_rem.name] = remshift
        cl = mod.method('jm::LinkedList', 'clear')
        go('clear' + sfx, cl[0], [U], spec, b)
    ck.need(len(ck.obl), 'operations x shapes', 36)
