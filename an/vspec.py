"""Comparison of value-class functions with their formulas (real algebra, every path, every sign case, aliased operands)."""
import itertools, time
from expr import *
from ai import AI, State, ptr, isptr, obj, Limit
from ir import Anchor
import abi, poly, models
from poly import Tr, cases, close, vanishes, NeedSign, Unknown, R, lift

class Spec:
    def __init__(self, ck):
        self.ck = ck; self.mod = ck.mod; self.lay = abi.Layout(ck.mod); self.n = 0
        self.base = dict(models.string_models(ck.mod), **models.num_models(ck.mod), **models.throw_models(ck.mod))
    def lookup(self, dem):
        f = self.mod.dem(dem, strict=False)
        if f is None: raise Anchor('function %s not found' % dem)
        return f
    def case(self, dem, ops, spec, method=True, key=None, pre=None, alias=None, const_ops=True, setup=None, ai=None, nans=(), split=False, throws=False, kinds=None):
        """ops: [(type, name)] in C++ order; spec(tr, *operands as dict of R) -> {'ret': ..., 'this'/name: {...}} or bool/R for the result"""
        ck = self.ck; f = self.lookup(dem)
        where = '%s:%s' % (f.file, f.line)
        variants = [('', {})]
        # operands of the same class may be the same object
        refs = []
        pt = (['this'] if method else []) + abi.params(f.dem)
        for i, (t, n) in enumerate(ops):
            if pt[i] == 'this' or pt[i].endswith(('&', '*')): refs.append((i, t))
        for (i, t), (j, u) in itertools.combinations(refs, 2):
            if t == u and alias is not False and (alias is None or (ops[i][1], ops[j][1]) in alias): variants.append((' (%s and %s the same object)' % (ops[i][1], ops[j][1]), {j: i}))
        bad = []
        und = None
        poly.deadline[0] = time.time() + 90
        for vname, al in variants:
            self.n += 1
            A = ai() if ai else AI(self.mod, self.base, max_paths=20000, max_steps=3000000)
            st = State()
            vals = []
            for i, (t, n) in enumerate(ops):
                if i in al: vals.append(vals[al[i]])
                else: vals.append(abi.symval(self.lay, t, n))
            for i, v in enumerate(vals):
                if i not in al and vals[i].ty[0] != '=' and (pt[i] == 'this' or pt[i].endswith(('&', '*'))):
                    abi.place(A, st, self.lay, v, ptr(sym('&' + ops[i][1], 64, True))); A.assume(st, icmp('eq', v.addr, const(0, 64)), False)
            init = [dict(v.c) for v in vals]
            addrs = list({id(v): v.addr for v in vals if v.addr is not None}.values())
            for a, b in itertools.combinations(addrs, 2): A.assume(st, icmp('eq', a, b), False)
            if setup: setup(A, st, vals)
            try: outs, result = abi.invoke(A, self.lay, f, vals, st, method)
            except Limit as e: und = str(e); break
            ck.analysed |= A.analysed
            if throws:
                if not outs or any(o.kind == 'ret' for o in outs): bad.append('no exception' + vname)
                continue
            rets = [o for o in outs if o.kind == 'ret']
            if not rets: bad.append('never returns' + vname)
            if any(o.kind == 'throw' for o in outs): bad.append('may throw' + vname)
            for o in rets:
                tr = Tr(); tr.nans = {init[i][c] for i, (t, n) in enumerate(ops) for c in init[i] if (n, c) in nans}
                ins = [{k: tr.rat(e) if isinstance(e, E) else lift(e) for k, e in c.items()} for c in init]
                fs = abi.facts(o.st)
                foc = [None, 0]
                def mine():
                    foc[1] += 1
                    return foc[0] is None or foc[0] == foc[1] - 1
                def body(tr):
                    foc[1] = 0
                    want = spec(tr, *ins)
                    if not isinstance(want, dict): want = {'ret': want}
                    for what, w in want.items():
                        if w is None: continue
                        if what == 'ret':
                            if isinstance(w, bool):
                                v = o.val
                                if v is None or isinstance(v, tuple): raise Unknown('result %s' % (v,))
                                g = tr.cond(v) if v.w == 1 else tr.cond(trunc(v, 1))
                                if g != w: bad.append('%s is returned where %s is right%s [%s]' % (g, w, vname, signs(tr)))
                                continue
                            if isinstance(w, tuple) and w[0] == 'int':
                                if not mine(): continue
                                g = tr.integer(o.val) if isinstance(o.val, E) else None
                                if g is None: raise Unknown('result %s' % (o.val,))
                                if g != w[1]: bad.append('the result is %d instead of %d%s' % (g, w[1], vname))
                                continue
                            if isinstance(w, tuple) and w[0] == 'real': w = w[1]; realint = True
                            else: realint = False
                            if isinstance(w, tuple) and len(w) == 2 and isinstance(w[0], str): ty, comps = w
                            else: ty, comps = 'double', {'': w}
                            got = result(o, ty)
                        else:
                            i = [k for k, (t, n) in enumerate(ops) if n == what][0]
                            if isinstance(w, tuple): comps = w[2]; got = abi.read_heapy(A, o.st, self.lay, w[1], vals[i].addr)
                            else: comps = w; got = abi.content(A, o.st, self.lay, vals[i])
                        for c, x in comps.items():
                            if x is None or not mine(): continue
                            if callable(x): x = x()
                            if x is None: continue
                            if got.get(c) is None: raise Unknown('component %s of %s' % (c, what))
                            if isinstance(x, str) or tr.isnan(got[c]):      # 'nan': not a number
                                if (x == 'nan') != tr.isnan(got[c]):
                                    bad.append('%s%s is %s%s%s' % ({'ret': 'the result'}.get(what, what), '.' + c if c else '', 'a number instead of none' if x == 'nan' else 'not a number', vname, ' [%s]' % signs(tr) if signs(tr) else ''))
                                continue
                            g = tr.rat(got[c])
                            if not vanishes(tr, g - lift(x)):
                                bad.append('%s%s is %s instead of %s%s%s' % ({'ret': 'the result'}.get(what, what), '.' + c if c else '', short(g), short(lift(x)), vname, ' [%s]' % signs(tr) if signs(tr) else ''))
                    # operands that are not to be changed
                    for i, (t, n) in enumerate(ops):
                        if vals[i].addr is None or n in want or (i in al and ops[al[i]][1] in want) or any(al.get(j) == i and ops[j][1] in want for j in al): continue
                        if not (pt[i] == 'this' or pt[i].endswith(('&', '*'))): continue
                        for c, g in abi.content(A, o.st, self.lay, vals[i]).items():
                            if g is not init[i][c] and not mine(): continue
                            if g is not init[i][c] and not vanishes(tr, tr.rat(g) - ins[i][c]): bad.append('operand %s.%s is changed%s' % (n, c, vname))
                try:
                    if not split: cases(tr, fs, body)
                    else:
                        top = 1; k = 0
                        while k < top:
                            foc[0] = k
                            def body2(tr):
                                nonlocal top
                                try: body(tr)
                                finally: top = max(top, foc[1])
                            cases(tr, fs, body2); k += 1
                except Unknown as e: und = str(e)
                except abi.Mismatch as e: bad.append('%s%s' % (e, vname))
        if bad: und = None
        ck.ob(key or dem, (not bad) if und is None else None, where, und or '; '.join(list(dict.fromkeys(bad))[:6]))

def short(r):
    s = repr(r)
    return s if len(s) < 200 else s[:200] + '...'
def signs(tr):
    out = []
    for k, s in tr.sg.items():
        out.append('%s %s 0' % (k if isinstance(k, E) else poly.P(dict(k)), s))
    return ', '.join(out)[:200]
