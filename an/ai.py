"""Path-partitioned abstract interpreter over the normalised IR.

Abstract values are value-graph nodes (expr.py).  Every function call is analysed in its
calling context (or summarised by a model), branches whose condition is not decided by the
current abstract state split the trace; loops whose exit is not decided are either unrolled
up to a limit or over-approximated by havoc (phis and written cells forgotten) with a single
abstract iteration.  Nothing is executed and no solver is involved."""
from expr import *
import expr
from ir import Anchor
import struct

class Limit(Exception): pass

PTR = set()
def ptr(e):
    PTR.add(e.id); return e
def isptr(e): return e.op == 'obj' or e.id in PTR

def obj(kind, name): return mk('obj', 64, kind, name)

class State:
    __slots__ = ('mem', 'facts', 'rng', 'ev', 'n', 'uninit', 'freed')
    def __init__(self):
        self.mem = {}; self.facts = {}; self.rng = {}; self.ev = None; self.n = 0; self.uninit = set(); self.freed = frozenset()
    def copy(self):
        s = State(); s.mem = dict(self.mem); s.facts = dict(self.facts); s.rng = dict(self.rng); s.ev = self.ev; s.n = self.n
        s.uninit = set(self.uninit); s.freed = self.freed
        return s
    def event(self, *x): self.ev = (self.ev, x)
    def events(self):
        out = []; e = self.ev
        while e is not None:
            out.append(e[1]); e = e[0]
        out.reverse()
        return out

class Out:
    """one abstract outcome of a function"""
    __slots__ = ('st', 'kind', 'val', 'env', 'where')
    def __init__(self, st, kind, val, env=None, where=None):
        self.st = st; self.kind = kind; self.val = val; self.env = env; self.where = where

def interval(e, st, d=0):
    """unsigned interval of e under the facts of st"""
    w = e.w
    lo, hi = 0, (1 << w) - 1
    if e.op == 'c': return cv(e), cv(e)
    if d < 18:
        if e.op == 'zext': lo, hi = interval(e.a[0], st, d + 1)
        elif e.op == 'and':
            l1, h1 = interval(e.a[0], st, d + 1); h2 = interval(e.a[1], st, d + 1)[1]; hi = min(h1, h2)
            if isc(e.a[1]):
                k = cv(e.a[1]).bit_length()
                if cv(e.a[1]) == (1 << k) - 1 and l1 >> k == h1 >> k: lo, hi = l1 & cv(e.a[1]), h1 & cv(e.a[1])
            if isc(e.a[1]) and h1 < (cv(e.a[1]) & -cv(e.a[1])): hi = 0
        elif e.op == 'lshr' and isc(e.a[1]):
            a, b = interval(e.a[0], st, d + 1); lo, hi = a >> cv(e.a[1]), b >> cv(e.a[1])
        elif e.op == 'urem' and isc(e.a[1]) and cv(e.a[1]):
            a, b = interval(e.a[0], st, d + 1)
            if b < cv(e.a[1]): lo, hi = a, b
            else: hi = cv(e.a[1]) - 1
        elif e.op == 'srem' and isc(e.a[1]) and sv(e.a[1]) > 0:
            a, b = interval(e.a[0], st, d + 1)
            if b < 1 << (w - 1): lo, hi = (a, b) if b < cv(e.a[1]) else (0, cv(e.a[1]) - 1)
        elif e.op == 'sdiv' and isc(e.a[1]) and sv(e.a[1]) > 0:
            a, b = interval(e.a[0], st, d + 1)
            if b < 1 << (w - 1): lo, hi = a // cv(e.a[1]), b // cv(e.a[1])
        elif e.op == 'udiv' and isc(e.a[1]) and cv(e.a[1]):
            a, b = interval(e.a[0], st, d + 1); lo, hi = a // cv(e.a[1]), b // cv(e.a[1])
        elif e.op == 'select':
            f = st.facts.get(e.a[0])
            if f is not None: lo, hi = interval(e.a[1 if f else 2], st, d + 1)
            else: a = interval(e.a[1], st, d + 1); b = interval(e.a[2], st, d + 1); lo, hi = min(a[0], b[0]), max(a[1], b[1])
        elif e.op == 'trunc':
            a, b = interval(e.a[0], st, d + 1)
            if b < (1 << w): lo, hi = a, b
        elif e.op == 'sext':
            a, b = interval(e.a[0], st, d + 1)
            if b < (1 << (e.a[0].w - 1)): lo, hi = a, b
        elif e.op == 'lin':
            c, t = lin_parts(e); L = H = c if c < (1 << (w - 1)) else c - (1 << w); ok = True
            for x, k in t.items():
                ks = signed(k, w); a, b = interval(x, st, d + 1)
                if ks >= 0: L += ks * a; H += ks * b
                else: L += ks * b; H += ks * a
            if L >> w == H >> w: lo, hi = L & ((1 << w) - 1), H & ((1 << w) - 1)
        elif e.op == 'or':
            a, b = interval(e.a[0], st, d + 1), interval(e.a[1], st, d + 1)
            hi = min(hi, (1 << max(a[1].bit_length(), b[1].bit_length())) - 1); lo = max(a[0], b[0])
        elif e.op == 'tab':
            vals = e.a[3] if len(e.a) > 3 else None
    r = st.rng.get(e)
    if r: lo, hi = max(lo, r[0]), min(hi, r[1])
    return lo, hi

def sinterval(e, st):
    lo, hi = interval(e, st)
    h = 1 << (e.w - 1)
    if hi < h: return lo, hi
    if lo >= h: return lo - 2 * h, hi - 2 * h
    s = st.rng.get(('s', e))
    if s: return s
    if e.op == 'lin':
        c, t = lin_parts(e); L = H = signed(c, e.w)
        for x, k in t.items():
            k = signed(k, e.w); a, b = interval(x, st)
            if b >= h: a, b = -h, h - 1
            L += min(k * a, k * b); H += max(k * a, k * b)
        if -h <= L and H < h: return L, H
    return -h, h - 1

def transient(k, ctr):
    """a symbol introduced after counter value ctr (an object only known within one iteration)"""
    if k.op == 'sym' and '#' in k.a[0]:
        try: return int(k.a[0].rsplit('#', 1)[1]) > ctr
        except ValueError: return False
    if k.op in ('init', 'havoc', 'uninit'): return any(isinstance(y, E) and transient(y, ctr) for y in k.a)
    return False

def nonneg_proof(A, st, e, depth=3):
    """e >= 0 (as an unbounded integer) from intervals, recorded comparisons and the two cases of a selection"""
    def low(x):
        c, t = lin_parts(x); lo = signed(c, x.w)
        for y, k in t.items():
            k = signed(k, x.w); l, h = sinterval(y, st)
            lo += min(k * l, k * h)
        return lo
    if low(e) >= 0: return True
    if depth == 0: return False
    for y in lin_parts(e)[1]:
        if y.op == 'select':
            d = A.decide(st, y.a[0]); ok = True
            for v in ((True, False) if d is None else (d,)):
                s2 = st.copy(); A.assume(s2, y.a[0], v)
                k = lin_parts(e)[1][y]
                if not nonneg_proof(A, s2, add(sub(e, mulc(y, k)), mulc(y.a[1 if v else 2], k)), depth - 1): ok = False; break
            return ok
    for c, v in list(st.facts.items()):
        if isinstance(c, E) and c.op in ('slt', 'ult') and c.a[0].w == e.w:
            if c.op == 'ult' and any(interval(z, st)[1] >> (e.w - 1) for z in c.a): continue
            d = sub(sub(c.a[1], c.a[0]), const(1, e.w)) if v else sub(c.a[0], c.a[1])
            if not any(y in lin_parts(e)[1] for y in lin_parts(d)[1]): continue
            for k in (1, 2):
                r = sub(e, mulc(d, k))
                if low(r) >= 0 or (depth > 1 and len(lin_parts(r)[1]) < len(lin_parts(e)[1]) and nonneg_proof(A, st, r, depth - 1)): return True
    return False

class AI:
    def __init__(self, mod, models=None, opaque=(), max_paths=4000, unroll=70, loop='unroll', depth=40, alias=None, opaque_throw=False,
                 pure=(), noinline=None, max_steps=400000, havoc_heads=None):
        self.mod = mod; self.models = models or {}; self.opaque = set(opaque); self.max_paths = max_paths
        self.unroll = unroll; self.loop = loop; self.maxdepth = depth; self.opaque_throw = opaque_throw
        self.pure = set(pure); self.noinline = noinline; self.steps = 0; self.max_steps = max_steps
        self.ctr = 0; self.paths = 0
        self.analysed = set()
        self.havoc_heads = havoc_heads
        self.backedges = []      # (fn, header, entry_env, State, next_phi values)
        self.on_store = None
        self.on_load = None
        self.cellptr = set()
        self.unresolved = []
    def fresh(self, tag, w, p=False):
        self.ctr += 1
        e = sym('%s#%d' % (tag, self.ctr), w, p)
        return ptr(e) if p else e
    # -- operands -------------------------------------------------------------
    def const_op(self, o):
        k = o[0]
        if k == 'c':
            v = int(o[2]); return const(v, o[1])
        if k == 'f':
            if o[1] == 64: return mk('f', 64, struct.pack('<Q', int(o[2])).hex())
            if o[1] == 32: return fconst(struct.unpack('<f', struct.pack('<I', int(o[2])))[0], 32)
            return mk('fx', o[1], str(o[2]))
        if k == 'null': return const(0, 64)
        if k == 'g':
            n = self.mod.alias.get(o[1], o[1])
            if n in self.mod.fns: return obj('fn', n)
            return obj('global', n)
        if k == 'gepc': return add(self.const_op(o[1]), const(o[2], 64))
        if k == 'zero': return mk('zero', max(8, o[2] * 8))
        if k in ('undef', 'poison', 'unk'): return mk('undef', 64)
        if k == 'data' or k == 'agg': return mk('constagg', 64, repr(o))
        if k == 'ce':
            if o[1] in ('ptrtoint', 'inttoptr', 'bitcast'): return self.const_op(o[2])
            return mk('ce', 64, repr(o))
        raise Limit('constant %s' % (o,))
    def val(self, o, env, args):
        k = o[0]
        if k == 'i':
            return env[o[1]]
        if k == 'a': return args[o[1]]
        return self.const_op(o)
    # -- memory ---------------------------------------------------------------
    def split(self, addr):
        c, t = lin_parts(addr)
        base = None
        for x, k in t.items():
            if k == 1 and isptr(x):
                if base is None or (x.op == 'obj' and base.op != 'obj'): base = x
        if base is None:
            if not t: return const(0, 64), None, signed(c, 64)
            # unknown integer used as an address: treat the whole sum as a base
            for x, k in t.items():
                if k == 1: base = x; break
            if base is None: return addr, None, 0
        rest = {x: k for x, k in t.items() if x is not base}
        dyn = mklin(0, rest, 64) if rest else None
        return base, dyn, signed(c, 64)
    def ginit(self, name, off, size):
        g = self.mod.globals.get(name)
        if not g or 'init' not in g: return None
        return self._ginit(g['init'], off, size)
    def _ginit(self, o, off, size):
        k = o[0]
        if k == 'zero': return const(0, size * 8)
        if k == 'data':
            es = o[1]
            if size == es and off % es == 0 and 0 <= off // es < len(o[2]):
                v = o[2][off // es]
                if isinstance(v, list): return self.const_op(v)
                return const(v, size * 8)
            if size > es and off % es == 0 and all(not isinstance(v, list) for v in o[2]):
                v = 0
                for j in range(size // es):
                    if off // es + j >= len(o[2]): return None
                    v |= (o[2][off // es + j] & ((1 << (8 * es)) - 1)) << (8 * es * j)
                return const(v, size * 8)
            return None
        if k == 'agg':
            for eo, es, v in o[1]:
                if eo <= off and off + size <= eo + es: return self._ginit(v, off - eo, size)
            return None
        if off == 0 and k in ('c', 'f', 'g', 'null', 'gepc'):
            e = self.const_op(o)
            if k == 'f' and e.w == size * 8: return e
            if e.w == size * 8: return e
        return None
    def isconst_global(self, base):
        return base.op == 'obj' and base.a[0] == 'global' and (self.mod.globals.get(base.a[1], {}).get('const') or self.readonly and self.mod.readonly(base.a[1]))
    readonly = False    # a variable that nothing in the library writes keeps its initial value
    def initial(self, st, base, dyn, off, size, isp, fl):
        if base.op == 'obj':
            k = base.a[0]
            if k == 'global':
                if self.isconst_global(base):
                    if dyn is None:
                        r = self.ginit(base.a[1], off, size)
                        if r is not None: return r
                    else:
                        return mk('tab', size * 8, base.a[1], off, size, dyn)
            if k in ('alloca', 'heap'):
                e = mk('uninit', size * 8, base, off, dyn if dyn is not None else 0)
                return ptr(e) if isp else e
            if k == 'zheap': return const(0, size * 8)
        e = mk('init', size * 8, base, off, dyn if dyn is not None else 0, fl)
        return ptr(e) if isp else e
    def load(self, st, addr, size, isp=False, fl=False):
        base, dyn, off = self.split(addr)
        log = st.mem.get(base, ())
        for k in range(len(log) - 1, -1, -1):
            d2, o2, s2, v2 = log[k]
            if d2 == 'havoc':
                e = mk('havoc', size * 8, v2, base, off, dyn if dyn is not None else 0, fl)
                return ptr(e) if isp else e
            if d2 == 'fill':   # memset of whole/ranged region: v2 byte value, s2 size E or int
                if d2 and isinstance(s2, int) and dyn is None:
                    if off + size <= o2 or off >= o2 + s2: continue
                    if off >= o2 and off + size <= o2 + s2 and isc(v2):
                        return const(int.from_bytes(bytes([cv(v2)]) * size, 'little'), size * 8)
                elif isc(v2):
                    # symbolic extent or symbolic read position: value only known to be inside if it is
                    return const(int.from_bytes(bytes([cv(v2)]) * size, 'little'), size * 8)
                break
            if d2 is dyn:
                if o2 == off and s2 == size:
                    if v2.w == size * 8: return v2
                    if v2.w < size * 8: return zext(v2, size * 8)
                    return v2
                if off + size <= o2 or off >= o2 + s2: continue
                if o2 <= off and off + size <= o2 + s2 and v2.op not in ('f',) :
                    if v2.op == 'zero': return const(0, size * 8)
                    vv = v2 if v2.w == s2 * 8 else zext(v2, s2 * 8) if v2.w < s2 * 8 else v2
                    return trunc(lshr(vv, const(8 * (off - o2), vv.w)), size * 8)
                # partially covered: assemble from bytes
                if size > 1 and size <= 8 and not fl:
                    parts = [self.load(st, add(addr, const(j, 64)), 1) for j in range(size)]
                    r = const(0, size * 8)
                    for j, p in enumerate(parts): r = add(r, mulc(zext(p, size * 8), 1 << (8 * j)))
                    return r
                break
            else:
                # same object, different symbolic displacement
                if self.disjoint(st, dyn, off, size, d2, o2, s2): continue
                e = self.snapshot(st, base, dyn, off, size, log)
                if e is not None: return e
                e = mk('ld', size * 8, base, off, dyn if dyn is not None else 0, k, v2.id, fl)
                return ptr(e) if isp else e
        return self.initial(st, base, dyn, off, size, isp, fl)
    def snapshot(self, st, base, dyn, off, size, log):
        """read at a computed position of a small object whose whole content in reach is known: a look-up in a table of these values"""
        if dyn is None or size > 8 or any(x[0] is not None for x in log): return None
        lo, hi = sinterval(dyn, st)
        if hi - lo > 4096: return None
        c, t = lin_parts(dyn) if dyn.op == 'lin' else (0, {dyn: 1})
        if (c + off) % size or any(k % size for k in t.values()): return None
        lo += (-(lo + off)) % size
        vals = []
        for d in range(lo, hi + 1, size):
            v = self.load(st, add(base, const(off + d, 64)), size)
            if not isc(v): return None
            vals.append(cv(v))
        if not vals or lo + off != 0 and lo + off < 0: return None
        vals = [0] * ((lo + off) // size) + vals
        n = '@table %d %d' % (size, hash(tuple(vals)))
        self.mod.globals[n] = {'const': True, 'init': ['data', size, vals], 'size': size * len(vals), 'name': n, 'k': 'global', 'dem': n}
        return mk('tab', size * 8, n, off, size, dyn)
    def disjoint(self, st, d1, o1, s1, d2, o2, s2):
        z = const(0, 64)
        diff = add(sub(d1 if d1 is not None else z, d2 if d2 is not None else z), const(o1 - o2, 64))
        lo, hi = sinterval(diff, st)
        return lo >= s2 or hi + s1 <= 0
    def store(self, st, addr, val, size, ins=None):
        base, dyn, off = self.split(addr)
        log = st.mem.get(base, ())
        # drop entries exactly overwritten when nothing symbolic intervenes
        if dyn is None:
            keep = tuple(x for x in log if not (x[0] is None and x[1] == off and x[2] == size))
            if any(x[0] is not None for x in log): keep = log
        else:
            keep = log
            if log and log[-1][0] is dyn and log[-1][1] == off and log[-1][2] == size: keep = log[:-1]
        st.mem[base] = keep + ((dyn, off, size, val),)
        if self.on_store: self.on_store(self, st, base, dyn, off, size, val, ins)
    def copymem(self, st, dst, src, n, ins=None):
        if isc(n):
            n = cv(n)
            db, dd, do = self.split(dst); sb, sd, so = self.split(src)
            slog = st.mem.get(sb, ())
            # copy by recorded cells, then initial content in 8-byte words
            cells = {}
            covered = [False] * n if n <= 4096 else None
            if covered is None:
                st.mem[db] = st.mem.get(db, ()) + (('havoc', 0, 0, self.fresh('memcpy', 64)),); return
            hidden = [False] * n
            for d2, o2, s2, v2 in reversed(slog):
                if d2 is not sd or d2 in ('havoc', 'fill'): break
                r = o2 - so
                if r >= n or r + s2 <= 0: continue
                if r >= 0 and r + s2 <= n and not any(covered[r:r + s2]) and not any(hidden[r:r + s2]):
                    cells[r] = (s2, v2)
                    for j in range(r, r + s2): covered[j] = True
                else:
                    for j in range(max(r, 0), min(r + s2, n)): hidden[j] = True
            r = 0
            while r < n:
                if covered[r]:
                    r += 1; continue
                k = 1
                for c in (8, 4, 2):
                    if (so + r) % c == 0 and r + c <= n and not any(covered[r:r + c]): k = c; break
                cells[r] = (k, self.load(st, add(src, const(r, 64)), k))
                for j in range(r, r + k): covered[j] = True
            for r in sorted(cells): self.store(st, add(dst, const(r, 64)), cells[r][1], cells[r][0], ins)
        else:
            db, dd, do = self.split(dst)
            st.event('memcpy', dst, src, n)
            st.mem[db] = st.mem.get(db, ()) + (('havoc', 0, 0, self.fresh('memcpy', 64)),)
    def havoc(self, st, base, tag='h'):
        st.mem[base] = st.mem.get(base, ()) + (('havoc', 0, 0, self.fresh(tag, 64)),)
    # -- conditions -------------------------------------------------------------
    def decide(self, st, c):
        """True/False/None for a 1-bit value under the facts of st"""
        if isc(c): return bool(cv(c))
        f = st.facts.get(c)
        if f is not None: return f
        if c.op == 'not':
            r = self.decide(st, c.a[0])
            return None if r is None else not r
        if c.op == 'trunc' and c.w == 1:
            lo, hi = interval(c.a[0], st)
            if lo == hi: return bool(lo & 1)
        if c.op == 'and':
            a, b = self.decide(st, c.a[0]), self.decide(st, c.a[1])
            if a is False or b is False: return False
            if a and b: return True
            return None
        if c.op == 'or':
            a, b = self.decide(st, c.a[0]), self.decide(st, c.a[1])
            if a or b: return True
            if a is False and b is False: return False
            return None
        if c.op == 'eq':
            a, b = c.a
            if isc(b) and b.w == 64 and isptr(a) and (1 << 64) - (1 << 20) <= cv(b) <= (1 << 64) - 8: return False
            if not isc(a) and not isc(b) and a.w <= 32:
                x, y = st.facts.get(icmp('ult', a, b)), st.facts.get(icmp('ult', b, a))
                if x or y: return False
                if x is False and y is False: return True
            r = self.ptreq(a, b)
            if r is not None: return r
            if a.w == 64 and not isc(a) and not isc(b):
                ba, da, oa = self.split(a); bb, db, ob = self.split(b)
                if oa == ob and (oa or da is not None) and da is db and ba is not bb and isptr(ba) and isptr(bb):
                    r = self.decide(st, icmp('eq', ba, bb))
                    if r is not None: return r
            l1, h1 = interval(a, st); l2, h2 = interval(b, st)
            if h1 < l2 or h2 < l1: return False
            if l1 == h1 == l2 == h2: return True
            if isc(b) and ('ne', a) in st.rng and cv(b) in st.rng[('ne', a)]: return False
            if not isc(b):
                d = sub(a, b)
                l, h = sinterval(d, st)
                if l > 0 or h < 0: return False
            return None
        if c.op == 'ult':
            if not isc(c.a[0]) and not isc(c.a[1]) and c.w == 1 and c.a[0].w <= 32:
                e = st.facts.get(icmp('eq', c.a[0], c.a[1])); r = st.facts.get(icmp('ult', c.a[1], c.a[0]))
                if e or r: return False
                if e is False and r is False: return True
            l1, h1 = interval(c.a[0], st); l2, h2 = interval(c.a[1], st)
            if h1 < l2: return True
            if l1 >= h2: return False
        if c.op == 'slt':
            l1, h1 = sinterval(c.a[0], st); l2, h2 = sinterval(c.a[1], st)
            if h1 < l2: return True
            if l1 >= h2: return False
            d = sub(c.a[0], c.a[1])
            if d.op == 'c': return signed(cv(d), d.w) < 0
        if c.op == 'select':
            s = self.decide(st, c.a[0])
            if s is not None: return self.decide(st, c.a[1] if s else c.a[2])
        return None
    def nonnull(self, e):
        c, t = lin_parts(e)
        return any(x.op == 'obj' and k == 1 for x, k in t.items())
    def ptreq(self, a, b):
        if isc(b) and (cv(b) == 0 or b.w == 64 and -4096 < sv(b) < 4096) and self.nonnull(a): return False
        if isc(a) and (cv(a) == 0 or a.w == 64 and -4096 < sv(a) < 4096) and self.nonnull(b): return False
        if a.w == 64 and b.w == 64:
            ba, da, oa = self.split(a) if not isc(a) else (None,) * 3
            bb, db, ob = self.split(b) if not isc(b) else (None,) * 3
            if ba is not None and bb is not None and ba is not bb:
                if ba.op == 'obj' and bb.op == 'obj' and da is None and db is None: return False
                # a fresh local/heap object never equals a pointer that existed before
                for p, q in ((ba, bb), (bb, ba)):
                    if p.op == 'obj' and p.a[0] in ('alloca', 'heap', 'zheap') and q.op in ('sym', 'init'): return False
        return None
    def assume(self, st, c, v):
        if isc(c): return
        st.facts[c] = v
        if c.op == 'not': return self.assume(st, c.a[0], not v)
        if c.op == 'trunc' and c.w == 1 and interval(c.a[0], st)[1] <= 1:
            self.narrow(st, c.a[0], int(v), int(v)); return
        if c.op == 'and' and v:
            self.assume(st, c.a[0], True); self.assume(st, c.a[1], True); return
        if c.op == 'or' and not v:
            self.assume(st, c.a[0], False); self.assume(st, c.a[1], False); return
        if c.op == 'eq' and isc(c.a[1]):
            x, k = c.a[0], cv(c.a[1])
            if v: self.narrow(st, x, k, k)
            else:
                s = st.rng.get(('ne', x), frozenset()) | {k}
                st.rng[('ne', x)] = s
                lo, hi = interval(x, st)
                while lo in s and lo <= hi: lo += 1
                while hi in s and hi >= lo: hi -= 1
                self.narrow(st, x, lo, hi)
            return
        if c.op in ('ult', 'slt'):
            a, b = c.a; sg = c.op == 'slt'
            for (x, y, less) in ((a, b, True), (b, a, False)):
                # x < y (less) or y < x
                if not isc(y):
                    yl, yh = (sinterval if sg else interval)(y, st)
                else:
                    yl = yh = sv(y) if sg else cv(y)
                full = (1 << x.w) - 1
                if v:
                    lo, hi = (None, yh - 1) if less else (yl + 1, None)
                else:
                    lo, hi = (yl, None) if less else (None, yh)
                if isc(x): continue
                if sg:
                    sl, sh = sinterval(x, st)
                    if lo is not None: sl = max(sl, lo)
                    if hi is not None: sh = min(sh, hi)
                    if sl >= 0: self.narrow(st, x, sl, sh)
                    elif sh < 0: self.narrow(st, x, sl + (1 << x.w), sh + (1 << x.w))
                    else: st.rng[('s', x)] = (sl, sh)
                else:
                    self.narrow(st, x, 0 if lo is None else lo, full if hi is None else hi)
    def narrow(self, st, x, lo, hi):
        l, h = interval(x, st)
        lo, hi = max(l, lo), min(h, hi)
        st.rng[x] = (lo, hi)
        if x.op == 'zext' : self.narrow(st, x.a[0], lo, hi)
        elif x.op == 'sext' and hi < (1 << (x.a[0].w - 1)): self.narrow(st, x.a[0], lo, hi)
        elif x.op == 'lin':
            c, t = lin_parts(x)
            if len(t) == 1:
                (y, k), = t.items()
                cs = signed(c, x.w)
                if k == 1 and (lo - cs) >= 0 and (hi - cs) < (1 << x.w) and lo - cs <= hi - cs:
                    # x = y + c without wrap on this range
                    yl, yh = interval(y, st)
                    if yh + cs < (1 << x.w) and yl + cs >= 0: self.narrow(st, y, lo - cs, hi - cs)
                    else:
                        nl = (lo - cs) % (1 << x.w); nh = (hi - cs) % (1 << x.w)
                        if nl <= nh: self.narrow(st, y, nl, nh)
    def resolve(self, e, st):
        """replace e by a constant when its interval is a singleton"""
        if e.op in ('c', 'f') or e.w > 64: return e
        if e.w == 1:
            d = self.decide(st, e)
            if d is not None: return TRUE if d else FALSE
        k = 0
        while e.op == 'select' and k < 8:
            d = self.decide(st, e.a[0])
            if d is None: break
            e = e.a[1] if d else e.a[2]; k += 1
        if e in st.rng:
            lo, hi = st.rng[e]
            if lo == hi: return const(lo, e.w)
        return e
    # -- functions ----------------------------------------------------------------
    def run(self, fn, args, st=None):
        st = st or State()
        return self.call_fn(fn, list(args), st, 0)
    def argsyms(self, fn, names=None):
        out = []
        for k, a in enumerate(fn.args):
            nm = a['name'] or 'arg%d' % k
            if names and k < len(names) and names[k]: nm = names[k]
            out.append(self.argsym(nm, a['ty']))
        return out
    def argsym(self, nm, ty):
        if ty == 'ptr': return ptr(sym(nm, 64, True))
        if ty == 'double': return sym(nm, 64)
        if ty == 'float': return sym(nm, 32)
        if ty.startswith('i'): return sym(nm, int(ty[1:]))
        return sym(nm, 64)
    def call_fn(self, fn, args, st, depth):
        if depth > self.maxdepth: raise Limit('call depth at %s' % fn.dem)
        self.analysed.add(fn.dem)
        return self.explore(fn, args, depth, [(fn.order[0], None, 0, {}, st, {}, {})])
    def explore(self, fn, args, depth, work, body=None):
        """work: list of (block, prev, idx, env, st, loopcounts, havocked headers); body: restrict to these blocks"""
        outs = []
        loops = fn.loops()
        while work:
            b, prev, idx, env, st, cnt, hv = work.pop()
            self.paths += 1
            if self.paths > self.max_paths * 50: raise Limit('too many partitions in %s' % fn.dem)
            alive = True
            while alive:
                B = fn.blocks[b]
                if idx == 0:
                    if b in loops and prev is not None:
                        inside = prev in loops[b]
                        if not inside:
                            t = self.array_loop(fn, b, prev, env, args, st)
                            if t is not None:
                                env, prev, b = t[1], b, t[0]
                                continue
                        pol = self.loop_policy(fn, b, cnt.get(b, 0))
                        if pol == 'havoc':
                            phis = [x for x in B.ins if x.op == 'phi']
                            if inside and b in hv:
                                nxt = {}
                                for p in phis:
                                    for pb, o in p.d['inc']:
                                        if pb == prev: nxt[p.i] = self.val(o, env, args)
                                self.backedges.append((fn, b, hv[b], st, nxt, env))
                                outs.append(Out(st, 'backedge', b, env))
                                alive = False
                                break
                            # entering: forget what the loop may change
                            pre = {}
                            for p in phis:
                                for pb, o in p.d['inc']:
                                    if pb == prev: pre[p.i] = self.val(o, env, args)
                            mods, inv = self.loop_mods(fn, b, prev, env, args, st, depth, cnt, hv)
                            env = dict(env); hv = dict(hv)
                            cells = {}
                            for base, cs in mods.items():
                                if cs is None: self.havoc(st, base, 'loop')
                                else:
                                    for (o_, s_) in sorted(cs): cells[(base, o_, s_)] = self.havoc_cell(st, base, o_, s_)
                            heads = {}
                            for p in phis:
                                if p.i in inv:
                                    env[p.i] = pre[p.i]; continue
                                w = p.d.get('w') or (p.d.get('sz', 8) * 8)
                                isp = p.d['ty'] == 'ptr'
                                # induction pointer phi keeps base when all updates stay in the object
                                e = self.fresh('phi.%s.%d' % (fn.sname, p.i), w, False)
                                if isp: e = self.havoc_ptr_phi(fn, b, p, pre[p.i], e, env)
                                env[p.i] = e; heads[p.i] = (pre[p.i], e)
                            hv[b] = dict(heads=heads, pre=pre, mods=mods, env=env, cells=cells)
                            idx = len(phis); prev = None
                            self.on_header(fn, b, heads, st)
                            continue
                        else:
                            if inside:
                                cnt = dict(cnt); cnt[b] = cnt.get(b, 0) + 1
                                if cnt[b] > self.unroll: raise Limit('loop at %s not bounded by the abstract state' % (B.ins[0].loc))
                            else:
                                cnt = dict(cnt); cnt[b] = 0
                    phis = {}
                    for x in B.ins:
                        if x.op != 'phi': break
                        for pb, o in x.d['inc']:
                            if pb == prev:
                                v = self.val(o, env, args)
                                if isinstance(v, E) and v.op == 'select': v = self.resolve(v, st)
                                phis[x.i] = v
                        idx += 1
                    if phis:
                        env = dict(env); env.update(phis)
                nxt = t = None
                while idx < len(B.ins):
                    x = B.ins[idx]
                    self.steps += 1
                    if self.steps > self.max_steps: raise Limit('step budget in %s' % fn.dem)
                    op = x.op
                    if op in ('br', 'switch', 'ret', 'unreachable', 'resume'):
                        if self.ifconv and op == 'br' and x.args:
                            t = self.merge(fn, b, x, env, args, st)
                            if t is not None: break
                        nxt = self.terminator(x, env, args, st, outs)
                        if body is not None: nxt = [(t, s_) for t, s_ in nxt if t in body]
                        break
                    if op in ('call', 'invoke'):
                        res = self.do_call(x, env, args, st, depth, fn)
                        conts = []
                        for (s2, kind, v) in res:
                            if kind == 'ret':
                                conts.append((s2, v, x.d.get('normal') if op == 'invoke' else None))
                            elif kind == 'throw':
                                if op == 'invoke':
                                    conts.append((s2, ('lp', v), x.d['unwind']))
                                else:
                                    outs.append(Out(s2, 'throw', v, None, x))
                            elif kind in ('noreturn', 'unreachable'):
                                outs.append(Out(s2, kind, v, None, x))
                            elif kind == 'backedge':
                                outs.append(Out(s2, 'cbackedge', v, None, x))
                        if not conts:
                            alive = False; break
                        for (s2, v, tgt) in conts[1:]:
                            e2 = dict(env); e2[x.i] = v
                            if tgt is None: work.append((b, None, idx + 1, e2, s2, cnt, hv))
                            else: work.append((tgt, b, 0, e2, s2, cnt, hv))
                        s2, v, tgt = conts[0]
                        st = s2
                        env = dict(env) if len(conts) > 1 else env
                        env[x.i] = v
                        if tgt is not None:
                            nxt = [(tgt, st)]
                            if body is not None: nxt = [(t, s_) for t, s_ in nxt if t in body]
                            break
                        idx += 1
                        continue
                    if op == 'landingpad':
                        lp = env.get('lp')
                        # the thrown value is bound by the invoke
                        env[x.i] = mk('lp', 64, 'pad')
                        idx += 1
                        continue
                    if op == 'select' and (x.d['ty'] == 'ptr' or self.split_select and (x.d.get('w') or 0) >= 32 and self.counts(x, env, args)):
                        c = self.val(x.args[0], env, args)
                        dcd = self.decide(st, c)
                        a1, a2 = self.val(x.args[1], env, args), self.val(x.args[2], env, args)
                        if dcd is None and a1 is not a2:
                            s2 = st.copy(); self.assume(s2, c, False)
                            e2 = dict(env); e2[x.i] = a2
                            work.append((b, None, idx + 1, e2, s2, cnt, hv))
                            self.assume(st, c, True)
                            env = dict(env); env[x.i] = a1
                        else: env[x.i] = a1 if dcd is None or dcd else a2
                        idx += 1
                        continue
                    v = env[x.i] = self.instr(x, env, args, st, fn)
                    idx += 1
                    if self.split_rem and op in ('urem', 'srem') and not isc(v):
                        lo, hi = interval(v, st)
                        if hi - lo < self.split_rem:
                            for k in range(lo + 1, hi + 1):
                                s2 = st.copy(); self.assume(s2, icmp('eq', v, const(k, v.w)), True)
                                e2 = dict(env); e2[x.i] = const(k, v.w)
                                work.append((b, None, idx, e2, s2, cnt, hv))
                            self.assume(st, icmp('eq', v, const(lo, v.w)), True)
                            env = dict(env); env[x.i] = const(lo, v.w)
                if t is not None:
                    b, idx, env = t; prev = None
                    continue
                if not alive: break
                if nxt is None or not nxt:
                    alive = False; break
                for (t, s2) in nxt[1:]:
                    work.append((t, b, 0, dict(env), s2, cnt, hv))
                t, st = nxt[0]
                if len(nxt) > 1: env = dict(env)
                prev, b, idx = b, t, 0
        return outs
    ifconv = False     # an undecided branch around pure computations becomes a choice between values
    PURE = ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'zext', 'sext', 'trunc', 'icmp', 'select', 'freeze')
    def merge(self, fn, b, x, env, args, st):
        c = self.val(x.args[0], env, args)
        if self.decide(st, c) is not None: return None
        sides = []
        for s in x.d['succ']:
            B = fn.blocks[s].ins
            if B[-1].op == 'br' and not B[-1].args and B[0].op != 'phi' and all(i.op in self.PURE and i.d['ty'] != 'ptr' for i in B[:-1]) and len(fn.blocks[s].pred) == 1: sides.append((s, B[-1].d['succ'][0], B[:-1]))
            else: sides.append((b, s, []))
        (s0, j0, i0), (s1, j1, i1) = sides
        if j0 != j1 and i0 and x.d['succ'][0] == j1: s0, j0, i0 = b, j1, []
        elif j0 != j1 and i1 and x.d['succ'][1] == j0: s1, j1, i1 = b, j0, []
        if j0 != j1 or s0 == s1 or j0 in fn.loops(): return None
        es = []
        for s, I in ((s0, i0), (s1, i1)):
            e = dict(env)
            for i in I: e[i.i] = self.instr(i, e, args, st, fn)
            es.append((s, e))
        new = dict(env); k = 0; J = fn.blocks[j0].ins; vals = {}
        for p in J:
            if p.op != 'phi': break
            k += 1; v = []
            for s, e in es: v += [self.val(o, e, args) for pb, o in p.d['inc'] if pb == s]
            if len(v) != 2 or any(not isinstance(y, E) for y in v): return None
            if v[0] is not v[1] and p.d['ty'] == 'ptr': return None
            vals[p.i] = select(c, v[0], v[1])
        new.update(vals)
        return j0, k, new
    split_select = False
    split_rem = 0      # remainders with at most this many values are told apart
    def counts(self, x, env, args):
        a, b = self.val(x.args[1], env, args), self.val(x.args[2], env, args)
        return isinstance(a, E) and isinstance(b, E) and isc(a) and isc(b)
    on_array = None
    def array_loop(self, fn, b, prev, env, args, st):
        """construction of the elements of an array of unknown extent: new T[n] calls the constructor for [first, first + n)"""
        if self.on_array is None: return None
        I = fn.blocks[b].ins
        if len(I) != 5 or [x.op for x in I] != ['phi', 'call', 'getelementptr', 'icmp', 'br']: return None
        p, c, g, q, br = I
        if c.args != [['i', p.i]] or g.args[0] != ['i', p.i] or g.d.get('var') or q.d['pred'] != 'eq' or b not in br.d['succ']: return None
        if q.args[0] != ['i', g.i] or q.args[1] == ['i', g.i]: return None
        first = [self.val(o, env, args) for pb, o in p.d['inc'] if pb == prev][0]; end = self.val(q.args[1], env, args)
        n = sub(end, first)
        if isc(n): return None
        self.on_array(self, st, first, n, c)
        base = self.split(first)[0]
        self.havoc(st, base, 'elements')
        env = dict(env); env[p.i] = sub(end, const(g.d['off'], 64)); env[g.i] = end; env[q.i] = TRUE; env[c.i] = None
        return [x for x in br.d['succ'] if x != b][0], env
    def on_header(self, fn, b, heads, st): pass
    def havoc_cell(self, st, base, off, size):
        pre = self.load(st, add(base, const(off, 64)), size)
        e = self.fresh('cell', size * 8)
        if isptr(pre) or (base, off, size) in self.cellptr: ptr(e)
        log = st.mem.get(base, ())
        keep = tuple(x for x in log if not (x[0] is None and x[1] == off and x[2] == size))
        if any(x[0] is not None for x in log): keep = log
        st.mem[base] = keep + ((None, off, size, e),)
        return pre, e
    def havoc_ptr_phi(self, fn, b, p, pre, e, env):
        # pointer induction: keep the object, forget the offset, if every update is a gep on the phi
        ok = True
        loops = fn.loops()[b]
        for pb, o in p.d['inc']:
            if pb in loops:
                k = 0; v = o
                while v[0] == 'i' and k < 20:
                    ins = fn.ins.get(v[1])
                    if v[1] == p.i: break
                    if ins is not None and ins.op == 'getelementptr': v = ins.args[0]
                    else: ok = False; break
                    k += 1
                else: ok = False
        base, dyn, off = self.split(pre) if not isc(pre) else (None, None, None)
        if ok and base is not None: return add(base, e)
        return ptr(e)
    def loop_policy(self, fn, b, n):
        if self.havoc_heads is not None:
            r = self.havoc_heads(fn, b)
            if r is not None: return r
        return self.loop
    def loop_mods(self, fn, b, prev, env, args, st, depth, cnt, hv):
        """bases that one iteration of the loop may write (computed with the same abstract
        semantics, iterated until stable)"""
        mods = {}
        # phis assumed to keep the value they have on entry until an iteration changes them
        inv = {p.i for p in fn.blocks[b].ins if p.op == 'phi'}
        ctr0 = ctr1 = self.ctr      # names are the same in every round, so that effects can be compared
        for rnd in range(12):
            sub_ = AI(self.mod, self.models, self.opaque, self.max_paths, self.unroll, self.loop, self.maxdepth)
            sub_.__class__ = self.__class__
            sub_.__dict__.update({k: v for k, v in self.__dict__.items() if k not in ('backedges', 'on_store', 'analysed', 'unresolved')})
            sub_.backedges = []; sub_.unresolved = []; sub_.analysed = set(); sub_.on_store = None; sub_.steps = self.steps
            s2 = st.copy()
            for m, cs in mods.items():
                if cs is None: sub_.havoc(s2, m, 'lm')
                else:
                    for (o_, s_) in sorted(cs): sub_.havoc_cell(s2, m, o_, s_)
            before = {k: len(v) for k, v in s2.mem.items()}
            old = dict(s2.mem)
            e2 = dict(env); h2 = dict(hv)
            B = fn.blocks[b]
            phis = [x for x in B.ins if x.op == 'phi']; pres = {}
            for p in phis:
                pre = None
                for pb, o in p.d['inc']:
                    if pb == prev: pre = sub_.val(o, env, args)
                w = p.d.get('w') or (p.d.get('sz', 8) * 8)
                e = sub_.fresh('lphi', w)
                if p.d['ty'] == 'ptr': e = sub_.havoc_ptr_phi(fn, b, p, pre, e, env)
                e2[p.i] = pre if p.i in inv else e
                pres[p.i] = pre
            h2[b] = dict(heads={}, pre={}, mods=set(), env=e2)
            outs = sub_.explore(fn, args, depth, [(b, None, len(phis), e2, s2, cnt, h2)], fn.loops()[b])
            finals = [o.st for o in outs if o.kind == 'backedge' and o.val == b]
            ctr1 = max(ctr1, sub_.ctr); self.steps = sub_.steps
            new = dict(mods)
            for s in finals:
                for k, v in s.mem.items():
                    if v is old.get(k) or v == old.get(k): continue
                    if k.op == 'obj' and k.a[0] == 'heap' and k not in st.mem: continue
                    if transient(k, ctr0): continue
                    if k in new and new[k] is None: continue
                    ov = set(map(id, old.get(k, ())))
                    cs = set(new.get(k, ()))
                    for ent in v:
                        if id(ent) in ov: continue
                        if ent[0] is not None or rnd >= 8: cs = None; break
                        cs.add((ent[1], ent[2]))
                        if isinstance(ent[3], E) and isptr(ent[3]): self.cellptr.add((k, ent[1], ent[2]))
                    if cs is not None:
                        # overlapping cells of different shape: give up on the object
                        L = sorted(cs)
                        for i_ in range(len(L) - 1):
                            if L[i_][0] + L[i_][1] > L[i_ + 1][0]: cs = None; break
                    new[k] = cs if cs is None else frozenset(cs)
            inv2 = set(inv)
            for f_, b_, hv_, st_, nxt_, env_ in sub_.backedges:
                if f_ is fn and b_ == b:
                    for q in inv:
                        v = nxt_[q]
                        if isinstance(v, E) and isinstance(pres[q], E) and v.w == pres[q].w: v = sub_.resolve(v, st_)
                        if v is not pres[q]: inv2.discard(q)
            if new == mods and inv2 == inv: break
            inv = inv2
            mods = new
        else: raise Limit('loop effects of %s do not stabilise' % fn.dem)
        self.ctr = ctr1
        return mods, inv
    def terminator(self, x, env, args, st, outs):
        op = x.op
        if op == 'ret':
            v = self.val(x.args[0], env, args) if x.args else None
            if v is not None and not isinstance(v, tuple): v = self.resolve(v, st)
            outs.append(Out(st, 'ret', v, env, x)); return []
        if op == 'unreachable':
            outs.append(Out(st, 'unreachable', None, env, x)); return []
        if op == 'resume':
            outs.append(Out(st, 'throw', None, env, x)); return []
        if op == 'br':
            s = x.d['succ']
            if not x.args: r = [(s[0], st)]
            else:
                c = self.val(x.args[0], env, args)
                d = self.decide(st, c)
                if d is not None:
                    st.facts.setdefault(c, d)
                    r = [(s[0] if d else s[1], st)]
                else:
                    s2 = st.copy()
                    self.assume(st, c, True); self.assume(s2, c, False)
                    st.event('br', x, c, True); s2.event('br', x, c, False)
                    r = [(s[0], st), (s[1], s2)]
        else:
            c = self.val(x.args[0], env, args)
            c = self.resolve(c, st)
            r = []
            if isc(c):
                t = x.d['def']
                for k, tg in x.d['cases']:
                    if int(k) & ((1 << c.w) - 1) == cv(c): t = tg; break
                r = [(t, st)]
            else:
                cur = st
                for k, tg in x.d['cases']:
                    q = icmp('eq', c, const(int(k), c.w))
                    d = self.decide(cur, q)
                    if d is False: continue
                    s2 = cur.copy(); self.assume(s2, q, True); s2.event('br', x, q, True)
                    r.append((tg, s2))
                    if d is True: cur = None; break
                    self.assume(cur, q, False)
                if cur is not None:
                    lo, hi = interval(c, cur)
                    if lo <= hi: r.append((x.d['def'], cur))
        return r
    def widen(self, e, w, st, sg):
        """extension that distributes over a sum whose interval shows that it does not wrap"""
        if e.op == 'lin':
            c, t = lin_parts(e)
            cs = signed(c, e.w); lo = hi = cs
            for x, k in t.items():
                ks = signed(k, e.w)
                a, b = (sinterval if sg else interval)(x, st)
                lo += min(ks * a, ks * b); hi += max(ks * a, ks * b)
            m = 1 << e.w
            if (sg and -m // 2 <= lo and hi < m // 2) or (not sg and 0 <= lo and hi < m):
                r = const(cs, w)
                for x, k in t.items(): r = add(r, mulc(sext(x, w) if sg and interval(x, st)[1] >> (x.w - 1) else zext(x, w), signed(k, e.w)))
                return r
        if e.op == 'trunc' and not sg:
            i = e.a[0]
            if interval(i, st)[1] < (1 << e.w): return zext(i, w) if i.w <= w else trunc(i, w)
        if sg and e.op not in ('c',) and interval(e, st)[1] < 1 << (e.w - 1): return zext(e, w)
        return sext(e, w) if sg else zext(e, w)
    def flt(self, x): return x.d['ty'] in ('double', 'float')
    def instr(self, x, env, args, st, fn):
        op = x.op
        V = lambda k: self.resolve(self.val(x.args[k], env, args), st)
        if op == 'load':
            addr = V(0)
            size = x.d['sz']
            if st.freed and self.split(addr)[0] in st.freed: st.event('uaf', addr, x)
            if self.on_load: self.on_load(self, st, addr, size, x)
            v = self.load(st, addr, size, x.d['ty'] == 'ptr', self.flt(x))
            if x.d.get('w') and v.w != x.d['w'] and v.op not in ('f',):
                if v.w > x.d['w']: v = trunc(v, x.d['w'])
            return self.resolve(v, st)
        if op == 'store':
            v = V(0)
            sz = x.d['sz']
            if v.op == 'undef' and v.w != sz * 8: v = mk('undef', sz * 8)
            if v.op not in ('f', 'constagg', 'zero') and v.w < sz * 8: v = zext(v, sz * 8)
            if st.freed and self.split(V(1))[0] in st.freed: st.event('uaf', V(1), x)
            self.store(st, V(1), v, sz, x); return None
        if op == 'alloca':
            self.ctr += 1
            return obj('alloca', '%s:%d#%d' % (x.d.get('name') or 'tmp', x.i, self.ctr))
        if op == 'getelementptr':
            r = V(0)
            r = add(r, const(x.d['off'], 64))
            for o, s, w in x.d['var']:
                i = self.resolve(self.val(o, env, args), st)
                r = add(r, mulc(sext(i, 64) if i.w < 64 else i, s))
            return r
        if op in ('add', 'sub', 'mul', 'shl'):
            r = {'add': add, 'sub': sub, 'mul': mul, 'shl': shl}[op](V(0), V(1))
            if x.d.get('nsw') and r.op == 'lin': r.nsw = True
            return r
        if op in ('sdiv', 'srem'):
            a, b = V(0), V(1)
            if isc(b) and 0 < sv(b) and interval(a, st)[1] < 1 << (a.w - 1): return (udiv if op == 'sdiv' else urem)(a, b)
        if op in ('or', 'xor'):
            a, b = V(0), V(1)
            for u, v in ((a, b), (b, a)):      # disjoint bits: the same as the sum
                h = interval(u, st)[1]
                if h < 1 << (u.w - 1) and v.op == 'lin':
                    k = (1 << h.bit_length()) - 1; c, t = lin_parts(v)
                    if not (c & k) and not any(y & k for y in t.values()): return add(a, b)
        if op in ('and', 'or', 'xor', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            return {'and': and_, 'or': or_, 'xor': xor, 'lshr': lshr, 'ashr': ashr, 'udiv': udiv, 'sdiv': sdiv, 'urem': urem, 'srem': srem}[op](V(0), V(1))
        if op == 'trunc': return trunc(V(0), x.d['w'])
        if op == 'zext': return self.widen(V(0), x.d['w'], st, False)
        if op == 'sext': return self.widen(V(0), x.d['w'], st, True)
        if op in ('ptrtoint',):
            v = V(0); return trunc(v, x.d['w']) if x.d['w'] < 64 else v
        if op == 'inttoptr':
            v = V(0); return v
        if op == 'bitcast': return V(0)
        if op == 'icmp':
            c = icmp(x.d['pred'], V(0), V(1))
            d = self.decide(st, c)
            return c if d is None else (TRUE if d else FALSE)
        if op == 'fcmp': return fcmp(x.d['pred'], V(0), V(1))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'): return f2(op, V(0), V(1))
        if op == 'frem': return mk('frem', V(0).w, V(0), V(1))
        if op == 'fneg':
            v = V(0)
            if v.op == 'f': return fconst(-fval(v), v.w)
            if v.op == 'fneg': return v.a[0]
            return mk('fneg', v.w, v)
        if op in ('sitofp', 'uitofp'):
            v = V(0); w = x.d['sz'] * 8
            if isc(v): return fconst(float(sv(v) if op == 'sitofp' else cv(v)), w)
            return mk(op, w, v)
        if op in ('fptosi', 'fptoui'):
            v = V(0)
            if v.op == 'f':
                try: return const(int(fval(v)), x.d['w'])
                except (ValueError, OverflowError): pass
            return mk(op, x.d['w'], v)
        if op in ('fpext', 'fptrunc'):
            v = V(0)
            if v.op == 'f':
                y = fval(v)
                if op == 'fptrunc': y = struct.unpack('<f', struct.pack('<f', y))[0]
                return fconst(y, x.d['sz'] * 8)
            return mk(op, x.d['sz'] * 8, v)
        if op == 'select':
            c = V(0); d = self.decide(st, c)
            if d is not None: return V(1) if d else V(2)
            return select(c, V(1), V(2))
        if op == 'extractvalue':
            v = self.val(x.args[0], env, args)
            if isinstance(v, tuple) and v and v[0] == 'agg': return v[1].get(tuple(x.d['idx']), mk('undef', x.d.get('w') or 64))
            if isinstance(v, tuple): return mk('lpv', x.d.get('w') or 64, str(x.d['idx']))
            r = mk('ev', x.d.get('w') or x.d.get('sz', 8) * 8, v, tuple(x.d['idx']))
            return ptr(r) if x.d['ty'] == 'ptr' else r
        if op == 'insertvalue':
            v = self.val(x.args[0], env, args); y = V(1)
            d = dict(v[1]) if isinstance(v, tuple) and v[0] == 'agg' else {}
            d[tuple(x.d['idx'])] = y
            return ('agg', d)
        if op == 'freeze': return V(0)
        if op == 'fence': return None
        return self.fresh(op, x.d.get('w') or max(8, (x.d.get('sz') or 8) * 8))
    # -- calls ----------------------------------------------------------------------
    def do_call(self, x, env, args, st, depth, fn):
        name = x.d.get('callee')
        av = [self.val(o, env, args) if o[0] != 'unk' else mk('undef', 64) for o in x.args]
        av = [self.resolve(v, st) if not isinstance(v, tuple) else v for v in av]
        if name is None:
            t = self.val(x.d['fp'], env, args)
            if t.op == 'obj' and t.a[0] == 'fn': name = t.a[1]
        if name is None:
            return self.indirect(x, t, av, st, depth)
        return self.call_named(name, av, x, st, depth)
    def call_named(self, name, av, x, st, depth):
        name = self.mod.alias.get(name, name)
        f = self.mod.fns.get(name)
        dem = f.dem if f else name
        m = self.models.get(name) or self.models.get(dem) or self.models.get(dem.split('(')[0])
        if m is not None:
            r = m(self, st, av, x)
            if r is not NotImplemented: return r
        if name.startswith('llvm.') or name in BUILTIN:
            r = builtin(self, name, av, x, st)
            if r is not None: return r
        if f is not None and not f.decl and name not in self.opaque and dem not in self.opaque and dem.split('(')[0] not in self.opaque \
                and not (self.noinline and self.noinline(f)):
            # arguments passed by value in memory: the callee works on a copy
            for k_, a_ in enumerate(f.args):
                if a_.get('byval') and k_ < len(av) and a_['ty'] == 'ptr':
                    self.ctr += 1
                    o_ = obj('alloca', 'byval#%d' % self.ctr)
                    self.copymem(st, o_, av[k_], const(int(a_['byval']), 64), x)
                    av = list(av); av[k_] = o_
            outs = self.call_fn(f, av, st, depth + 1)
            return [(o.st, o.kind, o.val) for o in outs]
        return self.opaque_call(name, dem, av, x, st, f)
    def indirect(self, x, t, av, st, depth):
        st.event('icall', t, av, x)
        return self.opaque_call('<indirect>', '<indirect>', av, x, st, None)
    def opaque_call(self, name, dem, av, x, st, f):
        if (f and f.noreturn) or x.d.get('nr'):
            st.event('call', dem, av, x)
            return [(st, 'noreturn', None)]
        st.event('call', dem, av, x)
        if name not in self.pure and dem not in self.pure and dem.split('(')[0] not in self.pure:
            for a in av:
                if isinstance(a, E) and a.w == 64 and not isc(a):
                    c, t = lin_parts(a)
                    for y in t:
                        if isptr(y) and not self.isconst_global(y) and not (y.op == 'obj' and y.a[0] == 'fn'):
                            self.havoc(st, y, 'call')
            r = self.result(x, name)
        else:
            r = self.result(x, name, av)
        outs = [(st, 'ret', r)]
        if self.opaque_throw and not x.d.get('nt'):
            s2 = st.copy()
            outs.append((s2, 'throw', dem))
        return outs
    def result(self, x, name, av=None):
        ty = x.d['ty']
        if ty == 'void': return None
        w = x.d.get('w') or (x.d.get('sz') or 8) * 8
        if av is not None: r = mkcall(name, w, [a for a in av if isinstance(a, E)])
        else: r = self.fresh('ret:' + name, w)
        if ty.startswith('{'): return r
        return ptr(r) if ty == 'ptr' else r

BUILTIN = {'_Znwm', '_Znam', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'malloc', 'free', 'memcpy', 'memmove', 'memset', 'strlen', '_ZnwmRKSt9nothrow_t',
           'sqrt', 'cos', 'sin', 'acos', 'asin', 'atan', 'atan2', 'tan', 'pow', 'fabs', 'floor', 'ceil', 'fmod', 'exp', 'log', 'log10', 'sqrtf', 'floorf', 'ceilf', 'abs', 'labs', 'round',
           '__cxa_allocate_exception', '__cxa_throw', '__cxa_free_exception', '__cxa_begin_catch', '__cxa_end_catch', '__cxa_rethrow',
           '__clang_call_terminate', '_ZSt9terminatev', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_atexit'}
MATH = {'sqrt', 'cos', 'sin', 'acos', 'asin', 'atan', 'atan2', 'tan', 'pow', 'fabs', 'floor', 'ceil', 'fmod', 'exp', 'log', 'log10', 'sqrtf', 'floorf', 'ceilf', 'round'}

def builtin(ai, name, av, x, st):
    if name.startswith('llvm.'):
        n = name.split('.')[1]
        if n in ('assume',): 
            if isinstance(av[0], E): ai.assume(st, av[0], True)
            return [(st, 'ret', None)]
        if n in ('dbg', 'lifetime', 'invariant', 'experimental', 'stackrestore', 'prefetch', 'donothing', 'var'): return [(st, 'ret', None)]
        if n in ('memcpy', 'memmove'):
            ai.copymem(st, av[0], av[1], av[2], x); return [(st, 'ret', None)]
        if n == 'memset':
            base, dyn, off = ai.split(av[0])
            if isc(av[2]) and dyn is None: st.mem[base] = st.mem.get(base, ()) + (('fill', off, cv(av[2]), trunc(av[1], 8)),)
            else: st.mem[base] = st.mem.get(base, ()) + (('fill', off, None, trunc(av[1], 8)),)
            return [(st, 'ret', None)]
        if n in ('type', 'public'): return [(st, 'ret', TRUE)]
        if n in ('umax', 'umin', 'smax', 'smin'):
            p = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[n]
            c = icmp(p, av[0], av[1]); d = ai.decide(st, c)
            r = select(c, av[0], av[1]) if d is None else (av[0] if d else av[1])
            return [(st, 'ret', r)]
        if n == 'abs':
            c = icmp('slt', av[0], const(0, av[0].w)); d = ai.decide(st, c)
            r = select(c, neg(av[0]), av[0]) if d is None else (neg(av[0]) if d else av[0])
            return [(st, 'ret', r)]
        if n in ('fabs', 'sqrt', 'cos', 'sin', 'floor', 'ceil', 'pow', 'exp', 'log', 'round', 'trunc', 'copysign'):
            return [(st, 'ret', mathcall(n, av))]
        if n == 'fmuladd': return [(st, 'ret', f2('fadd', f2('fmul', av[0], av[1]), av[2]))]
        if n == 'bswap':
            v = av[0]
            if isc(v): return [(st, 'ret', const(int.from_bytes(cv(v).to_bytes(v.w // 8, 'little'), 'big'), v.w))]
            return [(st, 'ret', mk('bswap', v.w, v))]
        if n in ('fshl', 'fshr'): return [(st, 'ret', mk(n, av[0].w, *av))]
        if n == 'eh': return [(st, 'ret', ai.fresh('eh', 32))]
        if n == 'expect': return [(st, 'ret', av[0])]
        if n == 'is':
            if isc(av[1]) and cv(av[1]) == 3: return [(st, 'ret', fcmp('uno', av[0], av[0]))]
            return [(st, 'ret', mk('fpclass', 1, *av))]
        if n in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') :
            r = {'add': add, 'sub': sub, 'mul': mul}[n[1:]](av[0], av[1])
            if isc(av[0]) and isc(av[1]):
                p, q = (cv(av[0]), cv(av[1])) if n[0] == 'u' else (sv(av[0]), sv(av[1]))
                z = {'add': p + q, 'sub': p - q, 'mul': p * q}[n[1:]]; w = av[0].w
                return [(st, 'ret', ('agg', {(0,): r, (1,): const(0 if (0 <= z < 1 << w if n[0] == 'u' else -(1 << w - 1) <= z < 1 << w - 1) else 1, 1)}))]
            I = interval if n[0] == 'u' else sinterval
            (l1, h1), (l2, h2) = I(av[0], st), I(av[1], st); w = av[0].w
            zs = [l1 + l2, h1 + h2] if n[1:] == 'add' else [l1 - h2, h1 - l2] if n[1:] == 'sub' else [x_ * y_ for x_ in (l1, h1) for y_ in (l2, h2)]
            lo_, hi_ = (0, 1 << w) if n[0] == 'u' else (-(1 << w - 1), 1 << w - 1)
            if all(lo_ <= z < hi_ for z in zs): return [(st, 'ret', ('agg', {(0,): r, (1,): const(0, 1)}))]
            return [(st, 'ret', ('agg', {(0,): r, (1,): mk('ovf', 1, n, av[0], av[1])}))]
        if n == 'trap': return [(st, 'noreturn', None)]
        if n == 'threadlocal': return [(st, 'ret', av[0])]
        return None
    if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t'):
        ai.ctr += 1
        o = obj('heap', '%s#%d' % (x.loc, ai.ctr))
        st.event('new', name, o, av[0], x)
        return [(st, 'ret', o)]
    if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
        st.event('delete', name, av[0], x)
        if not isc(av[0]): st.freed = st.freed | {ai.split(av[0])[0]}
        return [(st, 'ret', None)]
    if name in ('memcpy', 'memmove'):
        ai.copymem(st, av[0], av[1], av[2], x); return [(st, 'ret', av[0])]
    if name == 'memset':
        base, dyn, off = ai.split(av[0])
        st.mem[base] = st.mem.get(base, ()) + (('fill', off, cv(av[2]) if isc(av[2]) and dyn is None else None, trunc(av[1], 8)),)
        return [(st, 'ret', av[0])]
    if name in MATH: return [(st, 'ret', mathcall(name, av))]
    if name in ('abs', 'labs'):
        c = icmp('slt', av[0], const(0, av[0].w))
        return [(st, 'ret', select(c, neg(av[0]), av[0]))]
    if name == '__cxa_allocate_exception':
        ai.ctr += 1
        return [(st, 'ret', obj('heap', 'exc#%d' % ai.ctr))]
    if name == '__cxa_throw':
        st.event('throw', av, x)
        return [(st, 'throw', av[1])]
    if name == '__cxa_rethrow': return [(st, 'throw', None)]
    if name in ('__clang_call_terminate', '_ZSt9terminatev'): return [(st, 'noreturn', None)]
    if name == '__cxa_begin_catch': return [(st, 'ret', ptr(ai.fresh('exc', 64)))]
    if name == '__cxa_guard_acquire': return [(st, 'ret', const(1, 32))]
    if name in ('__cxa_free_exception', '__cxa_end_catch', '__cxa_guard_release'): return [(st, 'ret', None)]
    if name == '__cxa_atexit': return [(st, 'ret', const(0, 32))]
    return None

def mathcall(n, av):
    import math
    if all(a.op == 'f' for a in av):
        try:
            r = {'sqrt': math.sqrt, 'fabs': abs, 'floor': math.floor, 'ceil': math.ceil}.get(n)
            if r: return fconst(float(r(fval(av[0]))), av[0].w)
        except ValueError: pass
    return mk('m' + n, av[0].w, *av)
