"""Loader for the normalised whole-library IR produced by tool/irdump."""
import json, os, sys

class Ins:
    __slots__ = ('i', 'op', 'd', 'blk', 'fn')
    def __init__(self, d, blk, fn):
        self.i = d['i']; self.op = d['op']; self.d = d; self.blk = blk; self.fn = fn
    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            return None
    @property
    def loc(self):
        l = self.d.get('l')
        return '%s:%d' % (l[0], l[1]) if l else '%s:%s' % (self.fn.file, self.fn.line)
    @property
    def args(self):
        return self.d.get('args', [])
    def __repr__(self):
        return '<%s %s @%s>' % (self.op, self.d.get('callee', ''), self.loc)

class Blk:
    __slots__ = ('id', 'ins', 'succ', 'pred', 'fn')

class Fn:
    def __init__(self, d, mod):
        self.mod = mod
        self.name = d['name']; self.decl = d['decl']
        self.dem = ('local of ' if d['name'].startswith('_ZZ') else '') + d['dem']      # not to be mistaken for the function it is written in
        self.file = d.get('file', ''); self.line = d.get('line', 0)
        self.cls = d.get('cls', ''); self.sname = d.get('sname', '')
        self.acc = d.get('acc', ''); self.artificial = d.get('artificial', False)
        self.sig = d.get('sig', []); self.ret = d['ret']; self.args = d['args']
        self.noreturn = d['noreturn']; self.nounwind = d['nounwind']
        self.blocks = {}
        self.ins = {}
        self.order = []
        for b in d.get('blocks', []):
            B = Blk(); B.id = b['id']; B.fn = self; B.pred = []
            B.ins = [Ins(x, B, self) for x in b['ins']]
            t = B.ins[-1]
            if t.op == 'br': B.succ = list(t.d['succ'])
            elif t.op == 'switch': B.succ = [t.d['def']] + [c[1] for c in t.d['cases']]
            elif t.op == 'invoke': B.succ = [t.d['normal'], t.d['unwind']]
            else: B.succ = []
            self.blocks[B.id] = B
            self.order.append(B.id)
            for x in B.ins: self.ins[x.i] = x
        for B in self.blocks.values():
            for s in dict.fromkeys(B.succ): self.blocks[s].pred.append(B.id)
        self._loops = None
        self._dom = None
    def __repr__(self):
        return '<Fn %s>' % self.dem
    def all(self):
        for b in self.order:
            for x in self.blocks[b].ins: yield x
    def calls(self):
        for x in self.all():
            if x.op in ('call', 'invoke'): yield x
    @property
    def short(self):
        return self.dem
    # dominators (sets; functions are small)
    def rpo(self):
        seen = set(); out = []
        st = [(self.order[0], iter(self.blocks[self.order[0]].succ))]
        seen.add(self.order[0])
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.blocks[s].succ))); break
            else:
                out.append(b); st.pop()
        out.reverse()
        return out
    def dom(self):
        if self._dom is None:
            r = self.rpo(); idx = {b: k for k, b in enumerate(r)}
            idom = {r[0]: r[0]}
            ch = True
            while ch:
                ch = False
                for b in r[1:]:
                    n = None
                    for p in self.blocks[b].pred:
                        if p in idom:
                            if n is None: n = p
                            else:
                                a, c = p, n
                                while a != c:
                                    while idx[a] > idx[c]: a = idom[a]
                                    while idx[c] > idx[a]: c = idom[c]
                                n = a
                    if n is not None and idom.get(b) != n:
                        idom[b] = n; ch = True
            self._dom = idom
        return self._dom
    def dominates(self, a, b):
        d = self.dom()
        if b not in d: return True
        while True:
            if a == b: return True
            if d[b] == b: return False
            b = d[b]
    def loops(self):
        """header -> set of blocks"""
        if self._loops is None:
            L = {}
            d = self.dom()
            for b in d:
                for s in self.blocks[b].succ:
                    if self.dominates(s, b):
                        body = L.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body: continue
                            body.add(x)
                            st.extend(p for p in self.blocks[x].pred if p in d)
            self._loops = L
        return self._loops

class Module:
    def __init__(self, path):
        self.types = {}; self.enums = {}; self.globals = {}; self.fns = {}; self.alias = {}
        with open(path) as f:
            for line in f:
                d = json.loads(line)
                k = d['k']
                if k == 'type': self.types[d['name']] = d
                elif k == 'enum': self.enums[d['name']] = dict(d['vals'])
                elif k == 'global': self.globals[d['name']] = d
                elif k == 'fn': self.fns[d['name']] = Fn(d, self)
                elif k == 'alias': self.alias[d['name']] = d['to']
        self._bydem = {}; self._ro = None
        for f in self.fns.values():
            self._bydem.setdefault(f.dem, []).append(f)
    def fn(self, name):
        n = self.alias.get(name, name)
        return self.fns.get(n)
    def dem(self, d, strict=True):
        """The (base-object) function with that demangled name."""
        r = [f for f in self._bydem.get(d, []) if not f.decl]
        if len(r) > 1:
            # constructors/destructors: prefer complete object version that has the body
            r2 = [f for f in r if not any('D0E' in f.name for _ in [0])]
            r = r2 or r
            r.sort(key=lambda f: -sum(len(b.ins) for b in f.blocks.values()))
        if not r:
            if strict: raise Anchor('function %s not found in the compiled library' % d)
            return None
        return r[0]
    def dems(self, d):
        return [f for f in self._bydem.get(d, []) if not f.decl]
    def method(self, cls, name):
        return [f for f in self.fns.values() if not f.decl and f.cls == cls and f.sname == name]
    def methods(self, cls):
        return [f for f in self.fns.values() if not f.decl and f.cls == cls]
    def fields(self, cls):
        """flattened list (name, off, size, type) including bases"""
        t = self.types.get(cls)
        if t is None: return []
        out = []
        for b, o in t['bases']:
            for n, fo, s, ty in self.fields(b): out.append((n, fo + o, s, ty))
        for n, o, s, ty in t['members']: out.append((n, o, s, ty))
        return out
    def off(self, cls, field):
        for n, o, s, ty in self.fields(cls):
            if n == field: return o
        raise Anchor('field %s::%s not found' % (cls, field))
    def fieldat(self, cls, off, deep=6):
        best = None
        for n, o, s, ty in self.fields(cls):
            if o <= off < o + max(s, 1):
                if deep and ty in self.types and off - o >= 0 and self.types[ty]['members'] and not ty.endswith('*'):
                    sub = self.fieldat(ty, off - o, deep - 1)
                    best = n + ('.' + sub if sub else '')
                else: best = n
        return best
    def derived(self, cls):
        out = []
        for n, t in self.types.items():
            if any(b == cls for b, _ in t['bases']):
                out.append(n); out += self.derived(n)
        return out
    def bases(self, cls):
        out = []
        t = self.types.get(cls)
        if t:
            for b, _ in t['bases']:
                out.append(b); out += self.bases(b)
        return out
    def readonly(self, name):
        """no instruction of the library writes to this global or gives its address away"""
        if self._ro is None:
            bad = set()
            def refs(o, out):
                if isinstance(o, (list, tuple)):
                    if len(o) > 1 and o[0] == 'g' and isinstance(o[1], str): out.add(o[1])
                    for x in o: refs(x, out)
                return out
            for f in self.fns.values():
                if f.decl: continue
                geps = []; use = {}
                for x in f.all():
                    ops = [x.args] + [x.d.get('inc')] + [x.d.get('var')]
                    r = refs(ops, set())
                    if x.op == 'getelementptr':
                        if r: geps.append((x.i, r))
                    elif x.op != 'load': bad |= r
                    for o in x.args:
                        if o and o[0] == 'i': use.setdefault(o[1], []).append(x)
                    for _, o in x.d.get('inc') or ():
                        if o and o[0] == 'i': use.setdefault(o[1], []).append(x)
                while geps:
                    i, r = geps.pop()
                    for y in use.get(i, ()):
                        if y.op == 'getelementptr': geps.append((y.i, r))
                        elif y.op not in ('load', 'icmp'): bad |= r
            for g in self.globals.values():
                if 'init' in g: bad |= refs(g['init'], set())
            self._ro = bad
        return name in self.globals and 'init' in self.globals[name] and name not in self._ro
    def libfns(self):
        for f in self.fns.values():
            if not f.decl and (f.file.startswith('src/') or f.file.startswith('include/') or '/src/core/' in f.file or '/include/core/' in f.file):
                yield f

class Anchor(Exception):
    """an expected construct is not there: the analysis cannot run (error, not a verdict)"""
