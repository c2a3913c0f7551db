"""Hash table: look-up, insertion, replacement, removal, growth, clearing and iteration."""
import re
from expr import *
import expr
from ai import AI, State, ptr, isptr, obj, Limit, interval
from ir import Anchor
import models
LEVEL = 'proof'
RULE = ('shape analysis: each operation is abstractly interpreted on a table with an arbitrary number of buckets, an arbitrary hash value and an arbitrary chain of up to three entries '
        'in the bucket (entries are introduced lazily when a link is followed; keys are opaque, their comparison splits the trace); on every path the cells that changed, the entries '
        'created and deleted and the result are compared with those of a finite map. Growth, clearing, destruction and iteration are interpreted on small tables of every shape, '
        'with the bucket chosen by the growth decided for every class of hash values and compared with the bucket the look-up would search')
EXPLANATION = RULE
ASSUMPTIONS = ['the table is well formed before the operation (the hash stored in an entry is that of its key; entries are distinct)', 'equal keys have equal hash values (decided by T01)',
               'chains of at most three entries; tables of at most three buckets for growth, clearing and iteration']
Z = const(0, 64)
DEPTH = 3

def run(ck):
    mod = ck.mod
    T = {n: (o, s) for n, o, s, t in mod.fields('jm::Hashtable')}
    ty = {n: t for n, o, s, t in mod.fields('jm::Hashtable')}
    N = {n: (o, s) for n, o, s, t in mod.fields('jm::Hashtable::HashtableEntry')}
    for n in ('mData', 'mArrLength', 'mDataLength', 'mThreshold'):
        if n not in T: raise Anchor('Hashtable has no %s' % n)
    for n in ('hash', 'key', 'value', 'next'):
        if n not in N: raise Anchor('HashtableEntry has no %s' % n)
    base = dict(models.string_models(mod))
    def hashof(tok): return sext(mkcall('hash', 32, [tok]), 64)
    def m_hash(ai, st, av, x): return [(st, 'ret', hashof(models.sval(ai, st, av[0])))]
    n = 0
    for f in mod.fns.values():
        if f.dem in ('jm::String::hashCode()', 'jm::String::constHashCode() const'): base[f.name] = m_hash; n += 1
    if n < 2: raise Anchor('hash of a string')
    KEY = N['key'][0]
    this = ptr(sym('table', 64, True)); D = ptr(sym('buckets', 64, True)); nb = sym('n', 64); cnt = sym('count', 64); thr = sym('threshold', 64)
    D2 = ptr(sym('buckets2', 64, True)); nb2 = sym('n2', 64)
    kp = ptr(sym('key', 64, True)); tok = sym('k', 64); val = ptr(sym('value', 64, True))
    fld = lambda p, t, nm: add(p, const(t[nm][0], 64))
    def where(f): return '%s:%s' % (f.file, f.line)
    def isnode(b):
        """depth of a lazily introduced entry: 0 for the head of a bucket"""
        k = 0
        while b.op == 'init' and b.a[0].op == 'init' and b.a[1] == N['next'][0] and not isinstance(b.a[2], E): b = b.a[0]; k += 1
        return k if b.op == 'init' and b.a[0] in (D, D2) and isinstance(b.a[2], E) else None
    def lazy(A, st, addr, size, x):
        if st.freed and not st.mem: return
        b, d, o = A.split(addr)
        if d is not None or not isptr(b): return
        k = isnode(b)
        if k is None or any(e[0] is None and e[1] == o for e in st.mem.get(b, ())): return
        if o == N['next'][0] and k >= DEPTH - 1: A.store(st, addr, Z, 8)
        elif o == N['hash'][0]: A.store(st, addr, hashof(models.sval(A, st, fld(b, N, 'key'))), 8)
    def rehash(ai, st, av, x):
        st.event('rehash')
        ai.store(st, fld(this, T, 'mData'), D2, 8); ai.store(st, fld(this, T, 'mArrLength'), nb2, 8)
        ai.store(st, fld(this, T, 'mThreshold'), ai.fresh('threshold', 64), T['mThreshold'][1])
        return [(st, 'ret', None)]
    def start(A, second=False):
        st = State()
        A.narrow(st, nb, 1, 1 << 40); A.narrow(st, nb2, 1, 1 << 40); A.narrow(st, cnt, 0, 1 << 40)
        for p in (this, kp): A.assume(st, icmp('eq', p, Z), False)
        A.store(st, fld(this, T, 'mData'), D2 if second else D, 8)
        A.store(st, fld(this, T, 'mArrLength'), nb2 if second else nb, T['mArrLength'][1])
        A.store(st, fld(this, T, 'mDataLength'), cnt, T['mDataLength'][1])
        A.store(st, fld(this, T, 'mThreshold'), thr, T['mThreshold'][1])
        models.sset(A, st, kp, tok)
        return st
    def fn(dem):
        r = [f for f in mod.fns.values() if f.dem == dem and not f.decl and 'D0' not in f.name]
        if not r: raise Anchor('no ' + dem)
        return r[0]
    def explore(f, args, second=False, m=base):
        A = AI(mod, m, unroll=DEPTH + 2); A.on_load = lazy
        outs = A.run(f, args, start(A, second))
        ck.analysed |= A.analysed
        return A, outs
    # -- the bucket of a key: taken from the look-up itself -----------------------------------------------------------------------
    get = fn('jm::Hashtable::get(jm::String const&) const')
    def bucket(second):
        A, outs = explore(get, [this, kp], second)
        heads = set()
        for o in outs:
            for c in o.st.facts:
                for l in leaves(c):
                    while l.op == 'init' and l.a[0] not in (D, D2): l = l.a[0]
                    if l.op == 'init' and l.a[0] is (D2 if second else D) and isinstance(l.a[2], E): heads.add(l)
        return A, heads
    A, heads = bucket(False); A2, heads2 = bucket(True)
    if len(heads) != 1 or len(heads2) != 1: raise Anchor('bucket searched by get: %s' % heads)
    head, head2 = heads.pop(), heads2.pop()
    def index(h):
        c, t = lin_parts(h.a[2])
        if len(t) != 1 or h.a[1] + c: return None
        (x, k), = t.items()
        return x if k == 8 else None
    idx, idx2 = index(head), index(head2)
    if idx is None: raise Anchor('bucket address %s' % head.a[2])
    sane = None
    if idx.op in ('urem', 'srem') and idx.a[1] is nb:
        sane = idx.op == 'urem' or interval(idx.a[0], State())[1] < 1 << 63
    stray = [l for l in leaves(idx) if l is not nb and not (l.op == 'call' or l is tok)]
    ck.ob('bucket index in range', sane, where(get), '' if sane else 'the index %s need not lie in [0, n)' % show(idx))
    ck.ob('bucket depends on the hash and the size only', not stray, where(get), 'depends on %s' % [show(s) for s in stray])
    ck.ob('bucket is the same function after growth', subst(idx, {nb: nb2}) is idx2, where(get), show(idx2))
    # -- an outcome as an operation of a finite map ------------------------------------------------------------------------------------
    def chain(A, st, h):
        """entries of the bucket before the operation, as far as this path knows them: [(entry, matches)], complete?"""
        out = []; e = h; k = 0
        while True:
            z = A.decide(st, icmp('eq', e, Z))
            if z: return out, True
            if z is None and k and k < DEPTH: return out, None
            if z is None and not k: return out, None
            kt = mk('init', 64, e, KEY, 0, False)
            eq = A.decide(st, icmp('eq', kt, tok)); hq = A.decide(st, icmp('eq', hashof(kt), hashof(tok)))
            if eq and hq is False: return None, None        # contradiction: equal keys have equal hash values
            out.append((e, True if eq else False if eq is False or hq is False else None))
            k += 1
            if k == DEPTH: return out, True
            e = ptr(mk('init', 64, e, N['next'][0], 0, False))
    def changes(A, st):
        """cells of pre-existing objects whose content differs"""
        out = {}
        for b, log in st.mem.items():
            if b.op == 'obj' and b.a[0] in ('alloca', 'heap', 'zheap'): continue
            for d, o, s, v in log:
                if d in ('havoc', 'fill'): out[(b, d, o)] = v; continue
                a = add(b, const(o, 64)) if d is None else add(add(b, d), const(o, 64))
                now = A.load(st, a, s, s == 8)
                if b is this:
                    nm = [n_ for n_, x in T.items() if x[0] == o]
                    old = {'mData': D, 'mArrLength': nb, 'mDataLength': cnt, 'mThreshold': thr}.get(nm[0] if nm else '')
                elif b is kp: continue
                elif o == N['hash'][0] and d is None and isnode(b) is not None: old = hashof(mk('init', 64, b, KEY, 0, False))
                elif o == N['next'][0] and d is None and (isnode(b) or 0) >= DEPTH - 1: old = Z
                else: old = mk('init', s * 8, b, o, d if d is not None else 0, False)
                if now is old or A.resolve(now, st) is A.resolve(old, st): continue
                out[(b, d, o)] = now
        return out
    def cell(nm): return (this, None, T[nm][0])
    def link(h, before):
        if before is None: return (h.a[0], h.a[2], h.a[1])
        return (before, None, N['next'][0])
    def events(o, *k): return [e for e in o.st.events() if e[0] in k]
    def judge(key, f, args, spec, m=base):
        bad = []
        try: A, outs = explore(f, args, m=m)
        except Limit as e: ck.ob(key, None, where(f), str(e)); return
        nn = 0; seen = set()
        for o in outs:
            if o.kind == 'throw': bad.append('may throw')
            if o.kind != 'ret': continue
            ch, full = chain(A, o.st, head)
            reh = bool(events(o, 'rehash'))
            ch2 = None
            if reh: ch2, full2 = chain(A, o.st, head2)
            if ch is None or reh and ch2 is None: continue
            nn += 1
            if events(o, 'uaf'): bad.append('an entry is used after it was deleted')
            spec(A, o, ch, full, ch2, bad.append, seen, *([full2] if reh else []))
        want = {'found', 'absent'}
        if not bad and not want <= seen: ck.ob(key, None, where(f), 'only %s paths were seen' % sorted(seen)); return
        ck.ob(key, not bad, where(f), '; '.join(dict.fromkeys(bad)))
        ck.counts['paths'] = ck.counts.get('paths', 0) + nn
    initv = lambda e: ptr(mk('init', 64, e, N['value'][0], 0, False))
    nullv = lambda v: isc(v) and cv(v) == 0
    def match(ch, full, bad):
        """index of the entry with the key; False when surely absent; None after a complaint"""
        for k, (e, m) in enumerate(ch):
            if m is None: bad('an entry of the bucket is passed over or taken without its key being compared'); return None
            if m: return k
        if full is not True: bad('the search ends before the end of the chain'); return None
        return False
    def quiet(A, o, bad):
        c = changes(A, o.st)
        if c: bad('modifies the table (%s)' % ', '.join('%s+%s' % (k[0], k[2]) for k in c))
        if events(o, 'delete'): bad('deletes')
    def s_get(A, o, ch, full, ch2, bad, seen, full2=None):
        k = match(ch, full, bad)
        if k is None: return
        quiet(A, o, bad)
        if k is False:
            seen.add('absent')
            if not nullv(A.resolve(o.val, o.st)): bad('gives %s for an absent key' % show(o.val))
        else:
            seen.add('found')
            if A.resolve(o.val, o.st) is not A.resolve(initv(ch[k][0]), o.st): bad('gives %s instead of the value of the entry' % show(o.val))
    judge('get', get, [this, kp], s_get)
    def s_contains(A, o, ch, full, ch2, bad, seen, full2=None):
        k = match(ch, full, bad)
        if k is None: return
        quiet(A, o, bad)
        seen.add('absent' if k is False else 'found')
        if A.decide(o.st, o.val if o.val.w == 1 else icmp('ne', o.val, const(0, o.val.w))) is not (k is not False): bad('answers %s for %s key' % (show(o.val), 'an absent' if k is False else 'a present'))
    judge('containsKey', fn('jm::Hashtable::containsKey(jm::String const&) const'), [this, kp], s_contains)
    def s_remove(A, o, ch, full, ch2, bad, seen, full2=None):
        k = match(ch, full, bad)
        if k is None: return
        if k is False:
            seen.add('absent'); quiet(A, o, bad)
            if not nullv(A.resolve(o.val, o.st)): bad('gives %s for an absent key' % show(o.val))
            return
        seen.add('found')
        e = ch[k][0]
        if A.resolve(o.val, o.st) is not A.resolve(initv(e), o.st): bad('gives %s instead of the removed value' % show(o.val))
        c = {q: v for q, v in changes(A, o.st).items() if q[0] is not e}
        l = link(head, ch[k - 1][0] if k else None)
        nx = ptr(mk('init', 64, e, N['next'][0], 0, False)) if k < DEPTH - 1 else Z
        v = c.pop(l, None)
        if v is None:   # unchanged link: the entry would stay
            bad('the entry stays linked')
        elif A.resolve(v, o.st) is not A.resolve(nx, o.st): bad('the entry is replaced by %s in its chain' % show(v))
        v = c.pop(cell('mDataLength'), None)
        if v is not sub(cnt, const(1, 64)): bad('the number of entries becomes %s' % (show(v) if v is not None else 'unchanged'))
        if c: bad('other cells change: %s' % ', '.join('%s+%s' % (q[0], q[2]) for q in c))
        dl = [x[2] for x in events(o, 'delete')]
        if dl != [e]: bad('deletes %s' % [show(x) for x in dl])
    judge('remove', fn('jm::Hashtable::remove(jm::String const&)'), [this, kp], s_remove)
    put = fn('jm::Hashtable::put(jm::String, void*)')
    def s_put(A, o, ch, full, ch2, bad, seen, full2=None):
        src = ch
        if ch2 is not None and not ch and full is not True: src, full = ch2, full2
        k = match(src, full, bad)
        if k is None: return
        c = changes(A, o.st); nw = [x[2] for x in events(o, 'new')]; dl = [x[2] for x in events(o, 'delete')]
        nw = [x for x in nw if x not in dl]
        if [x for x in dl if not (x.op == 'obj')]: bad('deletes an entry')
        if events(o, 'rehash'):
            for n_ in ('mData', 'mArrLength', 'mThreshold'): c.pop(cell(n_), None)
        r = A.resolve(o.val, o.st)
        if k is not False:
            seen.add('found')
            e = src[k][0]
            if r is not A.resolve(initv(e), o.st): bad('gives %s instead of the replaced value' % show(o.val))
            v = c.pop((e, None, N['value'][0]), None)
            if v is None and A.decide(o.st, icmp('eq', initv(e), val)) is not True or v is not None and v is not val: bad('the entry holds %s afterwards' % (show(v) if v is not None else 'its old value'))
            if nw: bad('an entry is created although the key is present')
            if c: bad('other cells change: %s' % ', '.join('%s+%s' % (q[0], q[2]) for q in c))
            return
        seen.add('absent')
        if not nullv(r): bad('gives %s although nothing is replaced' % show(o.val))
        v = c.pop(cell('mDataLength'), None)
        if v is not add(cnt, const(1, 64)): bad('the number of entries becomes %s' % (show(v) if v is not None else 'unchanged'))
        if len(nw) != 1: bad('creates %d entries' % len(nw)); return
        e = nw[0]
        L = lambda n_: A.resolve(A.load(o.st, fld(e, N, n_), 8, n_ == 'value'), o.st)
        if L('value') is not A.resolve(val, o.st): bad('the new entry holds %s' % show(L('value')))
        if models.sval(A, o.st, fld(e, N, 'key')) is not tok: bad('the new entry has the key %s' % show(models.sval(A, o.st, fld(e, N, 'key'))))
        if L('hash') is not A.resolve(hashof(tok), o.st): bad('the new entry is filed under the hash %s' % show(L('hash')))
        h = head2 if events(o, 'rehash') else head
        cur, fl = (ch2, None) if events(o, 'rehash') else (ch, full)
        k1 = (h.a[0], h.a[2], h.a[1])
        if k1 in c and c[k1] is e:
            c.pop(k1)
            nx = L('next')
            if nx is not A.resolve(h, o.st): bad('the rest of the chain is replaced by %s' % show(nx))
        else:
            w = [q for q, v in c.items() if v is e]
            if len(w) != 1: bad('the new entry is not linked into the bucket of its key'); return
            c.pop(w[0])
            if w[0][0] not in [x for x, m in (cur or [])] or w[0][2] != N['next'][0]: bad('the new entry is linked at %s+%s' % (w[0][0], w[0][2]))
            elif not nullv(L('next')): bad('the new entry continues with %s' % show(L('next')))
        if c: bad('other cells change: %s' % ', '.join('%s+%s' % (q[0], q[2]) for q in c))
    bm = dict(base); bm['jm::Hashtable::rehash'] = rehash
    judge('put', put, [this, kp, val], s_put, bm)
    # -- concrete shapes ----------------------------------------------------------------------------------------------------------------------
    shapes = [(1, (0,)), (1, (1,)), (1, (3,)), (2, (1, 2)), (2, (2, 0)), (2, (0, 1)), (3, (1, 0, 2)), (3, (0, 0, 0)), (3, (0, 3, 0))]
    def build(A, shape):
        n_, lens = shape
        st = State(); es = []
        A.store(st, fld(this, T, 'mData'), D, 8); A.store(st, fld(this, T, 'mArrLength'), const(n_, 64), 8)
        A.store(st, fld(this, T, 'mDataLength'), const(sum(lens), 64), 8)
        A.store(st, fld(this, T, 'mLoadfactor'), fconst(0.75), 8)
        for p in (this, D): A.assume(st, icmp('eq', p, Z), False)
        for b, l in enumerate(lens):
            prev = add(D, const(8 * b, 64))
            for j in range(l):
                e = ptr(sym('entry%d.%d' % (b, j), 64, True)); es.append(e)
                A.assume(st, icmp('eq', e, Z), False)
                for q in es[:-1]: A.assume(st, icmp('eq', e, q), False)
                A.store(st, prev, e, 8); prev = fld(e, N, 'next')
                A.store(st, fld(e, N, 'hash'), sext(sym('hash%d.%d' % (b, j), 32), 64), 8)
                models.sset(A, st, fld(e, N, 'key'), sym('key%d.%d' % (b, j), 64))
                A.store(st, fld(e, N, 'value'), ptr(sym('value%d.%d' % (b, j), 64, True)), 8)
            A.store(st, prev, Z, 8)
        return st, es
    def walk(A, st, D_, n_, bad):
        """entries per bucket"""
        out = []
        for b in range(n_):
            p = A.resolve(A.load(st, add(D_, const(8 * b, 64)), 8, True), st); l = []
            while not nullv(p):
                if p in l or len(l) > 8: bad('the chain of bucket %d is circular' % b); return None
                if p.op not in ('sym', 'obj'): bad('bucket %d leads to %s' % (b, show(p))); return None
                l.append(p); p = A.resolve(A.load(st, fld(p, N, 'next'), 8, True), st)
            out.append(l)
        return out
    m0 = dict(base)
    rh = [f for f in mod.fns.values() if f.dem == 'jm::Hashtable::rehash()' and not f.decl]
    ns = 0
    for shape in shapes:
        nm = '%d buckets %s' % (shape[0], list(shape[1]))
        for what in ('rehash', 'clear', 'destroy', 'keys', 'values'):
            if what == 'rehash' and (not rh or sum(shape[1]) > 3): continue
            ns += 1
            key = '%s: %s' % (what, nm); bad = []
            A = AI(mod, m0, unroll=40); A.split_rem = 16
            st, es = build(A, shape)
            if what in ('rehash', 'clear', 'destroy'):
                f = rh[0] if what == 'rehash' else fn('jm::Hashtable::clear()') if what == 'clear' else fn('jm::Hashtable::~Hashtable()')
                try: outs = A.run(f, [this], st)
                except Limit as e: ck.ob(key, None, where(f), str(e)); continue
                ck.analysed |= A.analysed
                rets = [o for o in outs if o.kind == 'ret']
                if not rets or len(rets) != len(outs): bad.append('does not always return')
                for o in rets:
                    s = o.st
                    if events(o, 'uaf'): bad.append('an entry is used after it was deleted')
                    dl = [A.resolve(x[2], s) for x in events(o, 'delete')]; kinds = {A.resolve(x[2], s): x[1] for x in events(o, 'delete')}
                    dn = [A.resolve(A.load(s, fld(this, T, x), 8, x == 'mData'), s) for x in ('mData', 'mArrLength', 'mDataLength')]
                    if what == 'rehash':
                        if dn[2] is not const(sum(shape[1]), 64): bad.append('the number of entries changes')
                        if not isc(dn[1]) or cv(dn[1]) < 1: bad.append('the table has %s buckets' % show(dn[1])); continue
                        same_d = dn[0] is D
                        if not same_d:
                            nw = [x for x in events(o, 'new') if x[2] is dn[0]]
                            if not nw or not isc(nw[0][3]) or cv(nw[0][3]) < 8 * cv(dn[1]): bad.append('the new array has room for %s bytes only' % (show(nw[0][3]) if nw else '?'))
                            if dl != [D]: bad.append('deletes %s' % [show(x) for x in dl])
                        elif cv(dn[1]) > shape[0]: bad.append('more buckets in the old array')
                        w = walk(A, s, dn[0], cv(dn[1]), bad.append)
                        if w is None: continue
                        flat = [x for l in w for x in l]
                        if sorted(map(show, flat)) != sorted(map(show, es)): bad.append('the table holds %s instead of %s' % ([show(x) for x in flat], [show(x) for x in es]))
                        for b, l in enumerate(w):
                            for e in l:
                                if e not in es: continue
                                hx = A.load(s, fld(e, N, 'hash'), 8)
                                i0 = A.resolve(subst(idx, {nb: dn[1], hashof(tok): hx}), s)
                                if not isc(i0): i0 = A.resolve(subst(subst(idx, {nb: dn[1]}), {mkcall('hash', 32, [tok]): sym(e.a[0].replace('entry', 'hash'), 32)}), s)
                                if not isc(i0): bad.append('cannot tell the bucket of %s (%s)' % (show(e), show(i0)))
                                elif cv(i0) != b: bad.append('%s lies in bucket %d, it is searched in %d' % (show(e), b, cv(i0)))
                    else:
                        ents = [x for x in dl if x in es]
                        if sorted(map(show, ents)) != sorted(map(show, es)): bad.append('deletes %s instead of each entry once' % [show(x) for x in ents])
                        rest = [x for x in dl if x not in es]
                        if rest != ([D] if what == 'destroy' else []): bad.append('deletes %s' % [show(x) for x in rest])
                        if what == 'destroy' and kinds.get(D, '_ZdaPv') not in ('_ZdaPv', '_ZdaPvm'): bad.append('the array is not deleted as an array')
                        if what == 'clear':
                            if not (isc(dn[2]) and cv(dn[2]) == 0): bad.append('the number of entries is %s afterwards' % show(dn[2]))
                            if dn[0] is not D or dn[1] is not const(shape[0], 64): bad.append('the array changes')
                            w = walk(A, s, D, shape[0], bad.append)
                            if w and any(w): bad.append('entries stay linked')
                        continue
                    for e in es:
                        tg = e.a[0][5:]
                        if A.load(s, fld(e, N, 'value'), 8, True) is not ptr(sym('value' + tg, 64, True)) or models.sval(A, s, fld(e, N, 'key')) is not sym('key' + tg, 64) \
                                or A.load(s, fld(e, N, 'hash'), 8) is not sext(sym('hash' + tg, 32), 64): bad.append('%s is modified' % show(e))
                ck.ob(key, not bad, where(f), '; '.join(dict.fromkeys(bad)))
                continue
            f = fn('jm::Hashtable::%s()' % what)
            want = {show(fld(e, N, 'key') if what == 'keys' else sym('value' + e.a[0][5:], 64, True)) for e in es}
            try:
                for probes in (0, 1, 2):
                    outs = A.run(f, [this], st.copy())
                    if len(outs) != 1 or outs[0].kind != 'ret': bad.append('no iterator'); break
                    it, s = outs[0].val, outs[0].st
                    def call(name, s):
                        os, g = models.vcall(A, s, it, name)
                        if len(os) != 1 or os[0].kind != 'ret': raise Limit('%s has %d outcomes' % (name, len(os)))
                        return os[0].val, os[0].st
                    got = []
                    for j in range(len(es) + 2):
                        for q in range(probes):
                            h, s = call('hasNext', s)
                            d = A.decide(s, h if h.w == 1 else icmp('ne', h, const(0, h.w)))
                            if d is not (j < len(es)): bad.append('hasNext answers %s with %d entries left' % (show(h), max(0, len(es) - j)))
                        v, s = call('next', s)
                        v = A.resolve(v, s)
                        if nullv(v) is not (j >= len(es)): bad.append('next gives %s after %d of %d entries' % (show(v), j, len(es)))
                        elif not nullv(v): got.append(show(v))
                    if sorted(got) != sorted(want): bad.append('visits %s' % got)
                    o = outs[0]
                    if [k for k in s.mem if k in es or k is D or k is this if s.mem[k] != st.mem[k]]: bad.append('the table is modified')
            except Limit as e: ck.ob(key, None, where(f), str(e)); continue
            ck.analysed |= A.analysed
            ck.ob(key, not bad, where(f), '; '.join(dict.fromkeys(bad)))
    ck.need(ns, 'shapes of tables x operations', 40)
    f = fn('jm::Hashtable::containsValue(void*) const')
    for shape in shapes:
        nm = 'containsValue: %d buckets %s' % (shape[0], list(shape[1])); bad = []
        A = AI(mod, m0, unroll=40); st, es = build(A, shape)
        before = dict(st.mem); w = ptr(sym('wanted', 64, True))
        try: outs = A.run(f, [this, w], st)
        except Limit as e: ck.ob(nm, None, where(f), str(e)); continue
        ck.analysed |= A.analysed
        for o in outs:
            if o.kind != 'ret': bad.append('does not return'); continue
            d = A.decide(o.st, o.val if o.val.w == 1 else icmp('ne', o.val, const(0, o.val.w)))
            eq = [A.decide(o.st, icmp('eq', sym('value' + e.a[0][5:], 64, True), w)) for e in es]
            if d is None or d and True not in eq or d is False and any(x is not False for x in eq): bad.append('answers %s with comparisons %s' % (show(o.val), eq))
            if any(o.st.mem.get(k) != v for k, v in before.items()): bad.append('the table is modified')
        ck.ob(nm, not bad, where(f), '; '.join(dict.fromkeys(bad)))
    f = fn('jm::Hashtable::isEmpty() const'); A = AI(mod, base); st = start(A); bad = []
    for o in A.run(f, [this], st):
        d = [A.decide(o.st, c if c.w == 1 else icmp('ne', c, const(0, c.w))) for c in (o.val,)][0]
        e = A.decide(o.st, icmp('eq', cnt, const(0, 64)))
        if o.kind != 'ret' or not (o.val is icmp('eq', cnt, const(0, 64)) or o.val is zext(icmp('eq', cnt, const(0, 64)), o.val.w) or d is not None and d is e): bad.append('returns %s' % show(o.val))
    ck.ob('isEmpty', not bad, where(f), '; '.join(bad))
    # -- an empty table -------------------------------------------------------------------------------------------------------------------------
    f = fn('jm::Hashtable::Hashtable()'); bad = []
    A = AI(mod, base, unroll=70); self_ = obj('heap', 'new table')
    outs = A.run(f, [self_], State()); ck.analysed |= A.analysed
    for o in outs:
        if o.kind != 'ret': bad.append('does not return'); continue
        G = lambda n_: A.resolve(A.load(o.st, fld(self_, T, n_), 8, n_ == 'mData'), o.st)
        d, n_, c = G('mData'), G('mArrLength'), G('mDataLength')
        if not (isc(c) and cv(c) == 0): bad.append('holds %s entries' % show(c))
        nw = [x for x in events(o, 'new') if x[2] is d]
        if not isc(n_) or cv(n_) < 1 or not nw or cv(nw[0][3]) < 8 * cv(n_): bad.append('%s buckets in %s bytes' % (show(n_), show(nw[0][3]) if nw else '?')); continue
        for b in range(cv(n_)):
            v = A.resolve(A.load(o.st, add(d, const(8 * b, 64)), 8, True), o.st)
            if not nullv(v): bad.append('bucket %d is %s' % (b, show(v)))
    ck.ob('a new table is empty', not bad, where(f), '; '.join(bad))
    f = fn('jm::Hashtable::size() const')
    A = AI(mod, base); st = start(A); outs = A.run(f, [this], st); ck.analysed |= A.analysed
    ck.ob('size', len(outs) == 1 and outs[0].val is cnt, where(f), 'returns %s' % [show(o.val) for o in outs])
