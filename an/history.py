"""Histories of operations on an undo manager, interpreted one operation after the other and compared with a reference."""
import itertools
from expr import *
from ai import AI, State, ptr, obj, Limit
from ir import Anchor
import models

class HAI(AI):
    slots = {}; hist = None
    def indirect(self, x, t, av, st, depth):
        if t.op == 'init' and av and t.a[0].op == 'init' and t.a[0].a[0] is av[0] and t.a[0].a[1] == 0:
            nm = self.slots.get(t.a[1])
            if nm == 'swap':
                st.event('swap', av[0])
                if self.hist.reenter:      # exchanging a value may itself change something that is recorded
                    c = self.hist.fresh(self, st)
                    st.event('again', c)
                    outs = self.call_fn(self.hist.F['registerChange'], [self.hist.um, c], st, depth + 1)
                    return [(o.st, o.kind, o.val) for o in outs]
                return [(st, 'ret', None)]
            if nm == 'D0': st.event('destroy', av[0]); return [(st, 'ret', None)]
        return AI.indirect(self, x, t, av, st, depth)

class Ref:
    """the reference: lists of records"""
    def __init__(self, E): self.E = E; self.active = False; self.undo = []; self.redo = []; self.cur = []; self.level = 0; self.trans = []; self.status = E['eOK']
    def copy(self):
        r = Ref(self.E); r.__dict__.update(self.__dict__)
        for n in ('undo', 'redo', 'cur', 'trans'): setattr(r, n, list(getattr(self, n)))
        return r
    def op(self, o, new=None):
        """-> (result, records exchanged in order, records destroyed, document marked)"""
        sw, de, doc, res = [], [], False, None
        def register(c):
            if not self.active: de.append(c)
            elif self.level > 0: self.trans.append(c)
            else: self.cur.append(c); drop('redo')
        def drop(n):
            for s in getattr(self, n): de.extend(s)
            setattr(self, n, [])
        def close():
            if not self.cur: return False
            self.undo.append(self.cur); self.cur = []; return True
        def end(good):
            if self.level == 0: return
            self.level -= 1
            if self.level: return
            t, self.trans = self.trans, []; self.status = self.E['eOK']
            if good:
                for c in t: register(c)
            else: sw.extend(t[::-1]); de.extend(t)
        if o == 'r': register(new)
        elif o == 'c': doc = close()
        elif o in 'uy':
            a, b = ('undo', 'redo') if o == 'u' else ('redo', 'undo')
            res = 0
            if not self.cur and getattr(self, a):
                s = getattr(self, a)[-1]; setattr(self, a, getattr(self, a)[:-1]); setattr(self, b, getattr(self, b) + [s])
                sw += s[::-1] if o == 'u' else s; res = 1; doc = True
        elif o == 'U': drop('undo')
        elif o == 'R': drop('redo')
        elif o == 'S': doc = None; close(); drop('undo'); drop('redo')
        elif o == 'o':
            if self.level == 0: self.status = self.E['eOK']
            self.level += 1
        elif o == 'C': res = self.status; end(self.status == self.E['eOK'])
        elif o == 'm': end(True)
        elif o == 'b': end(False)
        elif o == 'e': self.status = self.E['eInvalidInput']
        elif o == 'n': pass
        elif o in 'ad': self.active = o == 'a'
        elif o == 'X': doc = None; close(); drop('undo'); drop('redo')
        return res, sw, de, doc
    def queries(self): return dict(undoCount=len(self.undo), redoCount=len(self.redo), hasOpenUndoStep=int(bool(self.cur)), hasOpenTransaction=int(self.level > 0), transactionStatus=self.status, isActive=int(self.active))

class Histories:
    NAMES = dict(r='registerChange', c='close', u='undo', y='redo', U='clearUndoStack', R='clearRedoStack', S='clearStacks', o='openTransaction', C='closeTransaction', m='commit', b='rollback', e='registerTransactionStatus', n='registerTransactionStatus', a='setActive', d='setActive')
    def __init__(self, ck, reenter=False):
        self.ck = ck; self.mod = mod = ck.mod; self.reenter = reenter
        self.E = {k: int(v) for k, v in mod.enums['jm::Status'].items()}
        if 'eInvalidInput' not in self.E: raise Anchor('Status::eInvalidInput')
        self.F = {}
        for n in set(self.NAMES.values()) | {'undoCount', 'redoCount', 'hasOpenUndoStep', 'hasOpenTransaction', 'transactionStatus', 'isActive', 'setDocument'}:
            r = [f for f in mod.method('jm::UndoManager', n) if n != 'registerChange' or f.dem.endswith('(jm::UndoChange*)')]
            if len(r) != 1: raise Anchor('UndoManager::%s' % n)
            self.F[n] = r[0]
        self.F['ctor'] = mod.dem('jm::UndoManager::UndoManager()'); self.F['dtor'] = mod.dem('jm::UndoManager::~UndoManager()')
        slots = {}
        for o, n in models.vt_entries(mod, '_ZTVN2jm10UndoChangeE'):
            f = mod.fns.get(n)
            if f is None: continue
            if f.sname == 'swap': slots[o - 16] = 'swap'
            if 'D0Ev' in n: slots[o - 16] = 'D0'
        base = models.string_models(mod)
        def doc(ai, st, av, x): st.event('doc', *av); return [(st, 'ret', None)]
        base['jm::Document::setDocumentChanged'] = doc
        self.A = HAI(mod, base, unroll=2000); self.A.slots = slots; self.A.hist = self
        self.um = obj('heap', 'manager'); self.off = lambda n: mod.off('jm::UndoChange', n)
        self.n = 0; self.steps = 0; self.doc = ptr(sym('document', 64, True))
    def fresh(self, A, st):
        self.n += 1
        c = ptr(sym('change %d' % self.n, 64, True)); A.assume(st, icmp('eq', c, const(0, 64)), False)
        for n in ('mPrev', 'mNext'): A.store(st, add(c, const(self.off(n), 64)), const(0, 64), 8)
        return c
    def call(self, n, args, st, what):
        self.steps += 1; self.A.steps = 0
        outs = [o for o in self.A.run(self.F[n], [self.um] + args, st) if o.kind not in ('unreachable', 'noreturn')]
        if len(outs) != 1: raise Limit('%d outcomes of %s' % (len(outs), what))
        if outs[0].kind != 'ret': raise Bad('%s throws' % what)
        return outs[0]
    def start(self):
        st = State()
        self.n = 0
        o = self.call('ctor', [], st, 'the constructor')
        self.A.assume(o.st, icmp('eq', self.doc, const(0, 64)), False)
        o = self.call('setDocument', [self.doc], o.st, 'setDocument')
        return o.st, Ref(self.E)
    def step(self, st, ref, op, trace):
        """one operation; raises Bad on a difference"""
        A = self.A
        st = st.copy(); st.ev = None; ref = ref.copy(); new = None; args = []
        if op == 'r': new = self.fresh(A, st); args = [new]
        elif op == 'e': args = [const(self.E['eInvalidInput'], 32)]
        elif op == 'n': args = [const(self.E['eNotChanged'], 32)]
        elif op in 'ad': args = [const(int(op == 'a'), 1)]
        want = ref.op(op, new)
        at = self.NAMES.get(op, 'the destructor') + (' after ' + ', '.join(trace) if trace else '')
        o = self.call('dtor' if op == 'X' else self.NAMES[op], args, st, at)
        ev = list(o.st.events())
        def bad(m): raise Bad('%s: %s' % (at[:300], m))
        again = [e[1] for e in ev if e[0] == 'again']
        sw = [e[1] for e in ev if e[0] == 'swap']; de = [e[1] for e in ev if e[0] == 'destroy' and e[1] not in again]
        for e in ev:
            if e[0] in ('uaf', 'doublefree'): bad('touches something that was destroyed')
        if want[0] is not None:
            v = A.resolve(o.val, o.st)
            if not isc(v) or (cv(v) & 0xffffffff) != want[0]: bad('returns %s instead of %s' % (v, want[0]))
        nm = lambda l: '[%s]' % ', '.join(c.a[0] for c in l)
        if sw != want[1]: bad('exchanges %s instead of %s' % (nm(sw), nm(want[1])))
        if sorted(c.id for c in de) != sorted(c.id for c in want[2]): bad('destroys %s instead of %s' % (nm(de), nm(want[2])))
        if True:
            for c in again:
                if not any(e[0] == 'destroy' and e[1] is c for e in ev): bad('a change made by the exchange is recorded')
        dv = [e for e in ev if e[0] == 'doc']
        if want[3] is True and not (dv and dv[-1][1] is self.doc and isc(dv[-1][2]) and cv(dv[-1][2])): bad('does not mark the document as changed')
        if op != 'X':
            for n, w in ref.queries().items():
                q = self.call(n, [], o.st.copy(), n); v = A.resolve(q.val, q.st)
                if not isc(v) or cv(v) & 0xffffffff != w: bad('%s is %s instead of %s' % (n, v, w))
        return o.st, ref
    def run(self, seq):
        st, ref = self.start()
        for i, o in enumerate(seq): st, ref = self.step(st, ref, o, [self.NAMES.get(x, x) for x in seq[:i][-12:]])
    def tree(self, prefix, alphabet, depth):
        st, ref = self.start(); tr = []
        for o in prefix: st, ref = self.step(st, ref, o, tr); tr = tr + [self.NAMES[o]]
        def go(st, ref, tr, d):
            if d == 0: return
            for o in alphabet:
                if o in 'Cmb' and ref.level == 0 and d < depth: continue
                n = self.n
                s2, r2 = self.step(st, ref, o, tr)
                go(s2, r2, tr + [self.NAMES[o]], d - 1)
                if o == 'r': self.n = n
        go(st, ref, tr, depth)

class Bad(Exception): pass
