"""Copies: no two objects believe that they own the same storage, and an assignment gives back what it replaces."""
import re
from expr import *
from ai import AI, State, ptr, obj, Limit
from ir import Anchor
from L01 import where
import models
LEVEL = 'other'
RULE = ('what an object owns is read off the abstract interpretation of its destructor (everything that it frees, releases, closes or destroys and reaches through a field of the object); the copy constructor and the copy '
        'assignment of every class (written, implicit or absent: a translation unit that copies and assigns one object of each class is compiled along) are interpreted for distinct objects and for the object itself')
EXPLANATION = RULE
ASSUMPTIONS = ['loops that release elements one by one are summarised: ownership of the elements is attributed to the field that leads to them', 'operations do not run out of memory']
DESTROY = {'pthread_mutex_destroy', 'pthread_cond_destroy', 'pthread_rwlock_destroy', 'pthread_mutexattr_destroy', 'inflateEnd', 'deflateEnd'}
INIT = {'pthread_mutex_init', 'pthread_cond_init', 'pthread_rwlock_init', 'pthread_mutexattr_init'}
CLOSE = {'fclose', 'closedir', 'freeaddrinfo', 'munmap', 'regfree', 'pclose', 'iconv_close'}
FDCLOSE = {'close'}
Z = const(0, 64)

class CA(AI):
    def prep(self, d0): self.d0 = d0; self.pre = {}; self.all = []; self.reads = set(); return self
    def gone(self, st, kind, p, x): st.event('gone', kind, p, x); self.all.append((kind, p))
    def havoc_cell(self, st, base, off, size):
        r = AI.havoc_cell(self, st, base, off, size)
        if r[1] not in self.pre: self.pre[r[1]] = r[0]
        return r
    def on_header(self, fn, b, heads, st):
        for i, (p, e) in heads.items(): self.pre[e] = p
    def call_named(self, name, av, x, st, depth):
        f = self.mod.fns.get(self.mod.alias.get(name, name)); dem = f.dem if f else name
        if name in DESTROY: self.gone(st, 'embedded', av[0], x); return [(st, 'ret', const(0, 32))]
        if name in INIT: st.event('init', av[0], x); return [(st, 'ret', const(0, 32))]
        if name in ('memcpy', 'memmove') or name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.reads.add(self.split(av[1])[0])
            if any(self.split(a)[0] in st.freed for a in av[:2]) and not (isc(av[2]) and cv(av[2]) == 0): st.event('uaf', '', x)
        if name.startswith('pthread_'): return [(st, 'ret', const(0, 32) if x.d['ty'] != 'void' else None)]
        if name in CLOSE: self.gone(st, 'closed', av[0], x); return [(st, 'ret', const(0, 32))]
        if name in FDCLOSE: self.gone(st, 'closed', av[0], x); return [(st, 'ret', const(0, 32))]
        if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'): self.gone(st, 'freed', av[0], x)
        if dem in ('jm::Object::release()', 'jm::Object::autorelease()'): self.gone(st, 'released', av[0], x); return [(st, 'ret', av[0] if x.d['ty'] != 'void' else None)]
        if dem == 'jm::Object::retain()': st.event('kept', av[0], x); return [(st, 'ret', av[0])]
        if f is not None and not f.decl and f.cls == self.cls and f.sname.startswith('~') and depth and not (lambda b: b is self.this or b.op == 'obj')(self.split(av[0])[0]): return [(st, 'ret', None)]      # another object of the class is deleted
        if f is not None and not f.decl and depth > 1 and f.cls == self.cls and f.sname == re.sub(r'<.*', '', self.cls).split('::')[-1] and self.split(av[0])[0] is not self.this and len(av) == 2: return [(st, 'ret', None)]        # a part is copied in the same way
        if dem.startswith('jm::System::log') or f is not None and f.cls == 'jm::Exception': return [(st, 'ret', None)]
        if f is not None and f.decl and dem.startswith('std::'): return [r for r in self.opaque_call(name, dem, av, x, st, f)]
        return AI.call_named(self, name, av, x, st, depth)
    def instr(self, x, env, args, st, fn):
        if x.op == 'load' and not fn.sname.startswith('~'):
            b, d, off = self.split(self.val(x.args[0], env, args))
            if d is not None or off >= 0: self.reads.add(b)
        if x.op in ('load', 'store') and st.freed:
            b = self.split(self.val(x.args[0 if x.op == 'load' else 1], env, args))[0]
            if b in st.freed: st.event('uaf', fn.dem, x)
        return AI.instr(self, x, env, args, st, fn)
    def indirect(self, x, t, av, st, depth):
        if t.op == 'init' and av and len(av) == 1 and t.a[1] in self.d0 and t.a[0].op == 'init' and t.a[0].a[0] is self.split(av[0])[0]:
            self.gone(st, 'deleted', av[0], x); return [(st, 'ret', None)]
        return AI.indirect(self, x, t, av, st, depth)
    def roots(self, e, base, out, d=0):
        """fields of base that lead to e"""
        if not isinstance(e, E) or d > 12: return out
        if e in self.pre: return self.roots(self.pre[e], base, out, d + 1)
        if e.op in ('init', 'havoc', 'ld'):
            b, o = (e.a[1], e.a[2]) if e.op == 'havoc' else (e.a[0], e.a[1])
            if isinstance(b, E):
                if b is base: out.add(o if isinstance(o, int) else None)
                else: self.roots(b, base, out, d + 1)
            return out
        c, t = lin_parts(e)
        for y in t:
            if y is not e: self.roots(y, base, out, d + 1)
        return out

def members(mod, c, base=0, d=0):
    """resources of the operating system that are part of the object: its constructors initialise them in place"""
    out = {}
    for f in mod.fns.values():
        if f.decl or f.cls != c or f.sname != re.sub(r'<.*', '', c).split('::')[-1]: continue
        for x in f.calls():
            if x.d.get('callee') in INIT and x.args and x.d['callee'] != 'pthread_mutexattr_init':
                a = x.args[0]; o = None
                if a == ['a', 0]: o = 0
                elif a[0] == 'i' and f.ins[a[1]].op == 'getelementptr' and f.ins[a[1]].args[0] == ['a', 0] and not f.ins[a[1]].d.get('var'): o = f.ins[a[1]].d['off']
                if o is not None: out[base + o] = x
    for n, o, s, ty in mod.fields(c):
        if ty in mod.types and d < 5: out.update(members(mod, ty, base + o, d + 1))
    for b, o in (mod.types.get(c) or {'bases': []})['bases']: out.update(members(mod, b, base + o, d + 1))
    return out

def run(ck):
    ck.copies = True; mod = ck.mod
    d0 = {o - 16 for n, g in mod.globals.items() if n.startswith('_ZTV') and 'init' in g for o, fn in models.vt_entries(mod, n) if fn.endswith('D0Ev')}
    fns = {}
    for f in mod.fns.values():
        m = re.match(r'void copies::(\w+)<(.*)>\(', f.dem)
        if m and not f.decl: fns.setdefault(m.group(2), {})[m.group(1)] = f
    n = own = 0
    SM = models.string_models(mod)
    vtab = {g['dem']: n for n, g in mod.globals.items() if n.startswith('_ZTV')}
    def new(): return CA(mod, {}, loop='havoc', max_steps=2000000).prep(d0)
    def name(c, o): return mod.fieldat(c, o) or 'offset %s' % o
    for c in sorted(fns):
        F = fns[c]; this, src = ptr(sym('&this', 64, True)), ptr(sym('&other', 64, True))
        def fresh():
            A = new(); st = State(); A.assume(st, icmp('eq', this, Z), False); A.assume(st, icmp('eq', src, Z), False)
            vt = vtab.get('vtable for ' + c)
            if vt:
                for p in (this, src): A.store(st, p, add(obj('global', vt), const(16, 64)), 8)
            return A, st
        def explore(what, f, args):
            for easy in (True,):      # containers of the C++ library are trusted
                A, st = fresh()
                A.noinline = lambda g: g.dem.startswith(('jm::Charset::forName(', 'jm::System::')) or easy and re.sub(r'^[\w:&*]+ ', '', g.dem).startswith('std::')
                A.cls = c; A.this = this
                try: outs = A.run(f, args, st); break
                except Limit as e: err = e
            else:
                ck.ob('%s of %s' % (what, c), None, where(f), str(err)); return A, None
            ck.analysed |= A.analysed
            return A, outs
        A, outs = explore('destruction', F['destroy'], [this])
        if outs is None: continue
        owned = {}
        for kind, p in A.all:
            b, d, off = A.split(p)
            if kind == 'embedded':
                if b is this and d is None: owned[off] = 'embedded'
            else:
                for r in A.roots(b, this, set()):
                    if r is not None: owned.setdefault(r, kind)
        n += 1
        for o in members(mod, c): owned.setdefault(o, 'embedded')
        for f in sorted(mod.fns.values(), key=lambda f: f.name):
            short = re.sub(r'<.*', '', c).split('::')[-1]
            if f.decl or f.cls != c or f.sname != short or 'C1' in f.name and mod.fns.get(f.name.replace('C1', 'C2', 1)) is not None: continue
            A, st = fresh(); A.cls = c; A.this = this; A.pure = {'jm::Hashtable::clear'}; A.models = SM if c not in ('jm::String', 'jm::Exception') else {}; A.noinline = lambda g: g.dem.startswith(('jm::Charset::forName(', 'jm::System::', 'jm::File::normalize', 'jm::File::resolve', 'jm::File::absolutePath')) or g.dem == 'jm::Hashtable::clear()'  or re.sub(r'^[\w:&*]+ ', '', g.dem).startswith('std::')
            try:
                outs = [o for o in A.run(f, [this] + [A.argsym('arg%d' % i, a['ty']) for i, a in enumerate(f.args[1:])], st) if o.kind == 'ret']
                bad = []
                for o in outs:
                    mine = {}
                    for e in o.st.events():
                        if e[0] == 'new':
                            for nm_, off, sz, ty in mod.fields(c):
                                if sz == 8 and A.split(A.load(o.st, add(this, const(off, 64)), 8, True))[0] is e[2]: mine[e[2]] = off
                    if not mine: continue
                    for d in A.run(F['destroy'], [this], o.st.copy()):
                        if d.kind != 'ret': continue
                        gone = {A.split(e[2])[0] for e in d.st.events() if e[0] == 'gone'}
                        for h, off in mine.items():
                            if h not in gone: bad.append('%s is allocated here and never given back' % name(c, off))
                ck.ob('%s and its destruction' % f.dem, not bad, where(f), '; '.join(dict.fromkeys(bad)))
            except Limit as e: ck.ob('%s and its destruction' % f.dem, None, where(f), str(e))
        if not owned:
            ck.ob('%s owns nothing' % c, True, where(F['destroy'])); continue
        own += 1
        def calls(f): return any(x.op in ('call', 'invoke', 'store') for x in f.all())
        def judge(what, f, A, outs, dst, same):
            bad = []; loc = where(f)
            for g in mod.fns.values():
                if not g.decl and g.cls == c and g.line and (what == 'copy' and re.search(r'\(%s( const)?&\)' % re.escape(c), g.dem) and g.sname != 'operator=' or what != 'copy' and g.sname == 'operator='): loc = where(g)
            live = [o for o in outs if o.kind == 'ret']
            if not live: return 'has no path that returns', loc
            for o in live:
                ev = o.st.events()
                u = [e for e in ev if e[0] == 'uaf']
                if u: bad.append('uses storage after it was freed (%s)' % u[0][2].loc)
                for off, kind in sorted(owned.items()):
                    nm = name(c, off)
                    if kind == 'embedded':
                        b = add(dst, const(off, 64))
                        if same: continue
                        v = A.load(o.st, b, 8)
                        w = A.load(State(), add(src, const(off, 64)), 8)
                        w2 = A.load(State(), b, 8)
                        if v is not w2 and not any(e[0] == 'init' and e[1] is b for e in ev) or (what == 'copy' and not any(e[0] == 'init' and e[1] is b for e in ev)):
                            bad.append('%s of the other object is copied bit by bit and destroyed twice' % nm)
                        continue
                    v = A.load(o.st, add(dst, const(off, 64)), 8, True)
                    old = A.load(State(), add(this, const(off, 64)), 8, True); theirs = A.load(State(), add(src, const(off, 64)), 8, True)
                    def hits(k, p): return [e for e in ev if e[0] == k and isinstance(e[-2], E) and A.split(e[-2])[0] is p]
                    def null(p): return A.decide(o.st, icmp('eq', p, Z)) is True or isc(p)
                    if v.op == 'uninit': bad.append('%s is not set although the destructor uses it' % nm); continue
                    if what != 'copy':
                        gone = len(hits('gone', old)) - len(hits('kept', old))
                        if v is old:
                            if gone > 0 and not null(old): bad.append('%s remains although it was %s' % (nm, hits('gone', old)[0][1]))
                            elif gone < 0 and not null(old): bad.append('%s is retained once more' % nm)
                        elif gone > 1: bad.append('the previous %s is %s %d times' % (nm, hits('gone', old)[0][1], gone))
                        elif gone < 1 and not null(old): bad.append('the previous %s is never %s' % (nm, kind))
                    if same:
                        if v is not old and A.split(v)[0].op == 'obj' and gone > 0 and old not in A.reads: bad.append('%s is replaced although nothing was read from the previous one: its content is lost' % nm)
                        continue
                    if v is theirs and not null(v):
                        if not hits('kept', v): bad.append('%s belongs to both objects afterwards: the second destructor finds it %s' % (nm, kind))
                    elif v is not theirs and not isc(v) and A.split(v)[0] in o.st.freed and v is not old: bad.append('%s is freed storage' % nm)
                    if hits('gone', theirs) and len(hits('gone', theirs)) > len(hits('kept', theirs)) and not null(theirs) and theirs is not old: bad.append('%s of the other object is %s' % (nm, hits('gone', theirs)[0][1]))
            return '; '.join(dict.fromkeys(bad)), loc
        # copy construction
        if calls(F['construct']):
            A, outs = explore('copy', F['construct'], [this, src])
            if outs is not None:
                # fields of the new object that are not written are not initialised
                msg, loc = judge('copy', F['construct'], A, outs, this, False)
                ck.ob('copy of %s' % c, not msg, loc, msg)
        else: ck.ob('copy of %s' % c, True, where(F['construct']), 'cannot be copied')
        if calls(F['assign']):
            for same in (False, True):
                A, outs = explore('assignment', F['assign'], [this, this if same else src])
                if outs is None: continue
                msg, loc = judge('assign', F['assign'], A, outs, this, same)
                ck.ob('%s of %s' % ('self-assignment' if same else 'assignment', c), not msg, loc, msg)
        else: ck.ob('assignment of %s' % c, True, where(F['assign']), 'cannot be assigned')
    ck.need(n, 'classes', 45); ck.need(own, 'classes that own something', 20)
