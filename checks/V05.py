"""Colours: conversions between the colour spaces, blending and arithmetic."""
import itertools, time
from fractions import Fraction
from expr import *
from ai import AI, State, ptr, obj, Limit
from ir import Anchor
import abi, poly, models
from poly import lift, R, P, cases, vanishes, Unknown, A_
from creal import CR, Misfit
LEVEL = 'other'
RULE = ('every function is abstractly interpreted on colours with arbitrary components in each mode; on every path and in every case of the compared quantities the mode and '
        'each component of the result are compared with the formula (integers and floating-point numbers read as numbers within 0..255 resp. 0..1; where a wrap-around, a '
        'division by zero or a conversion that does not fit is possible, that is reported)')
EXPLANATION = RULE
ASSUMPTIONS = ['rounding of floating-point operations is not considered', 'blend and interpolate get colours of the RGB mode']
poly.TOL = Fraction(1, 10 ** 6)
C = 'jm::Color'; MODES = ('grey', 'rgb', 'cmyk')
PARTS = {'grey': ['grey'], 'rgb': ['red', 'green', 'blue'], 'cmyk': ['cyan', 'magenta', 'yellow', 'key']}

def run(ck):
    mod = ck.mod; lay = abi.Layout(mod); acc = {}
    base = dict(models.throw_models(mod), **models.num_models(mod))
    for n in ['mode', 'alpha'] + sum(PARTS.values(), []):
        f = mod.dem('%s::%s() const' % (C, n)); A = AI(mod); a = A.argsyms(f)
        v = [o.val for o in A.run(f, a) if o.kind == 'ret']
        if len(v) != 1 or v[0].op != 'init' or v[0].a[0] is not a[0]: raise Anchor('%s::%s does not return a member' % (C, n))
        acc[n] = (v[0].a[1], v[0].w // 8); ck.analysed |= A.analysed
    name = lambda n: 'o%d' % acc[n][0]
    lay.c[C] = sorted({(name(n), o, s) for n, (o, s) in acc.items()}, key=lambda x: x[1])
    modes = {}
    for i, m in enumerate(MODES):     # the numbers of the modes: what the factories set
        f = mod.dem('jm::Color::from%s(%s)' % (m.capitalize(), ', '.join(['unsigned char'] * (len(PARTS[m]) + 1))))
        A = AI(mod, base); vals = [abi.Val('u8', {'': sym('v%d' % k, 8)}) for k in range(len(PARTS[m]) + 1)]; st = State()
        lay.c['u8'] = [('', 0, 1)]
        outs, res = abi.invoke(A, lay, f, vals, st, False); ck.analysed |= A.analysed
        ok = len(outs) == 1 and outs[0].kind == 'ret'; msg = ''
        if ok:
            g = res(outs[0], C); mm = g[name('mode')]
            ok = isc(mm) and all(g[name(n)] is vals[k].c[''] for k, n in enumerate(PARTS[m] + ['alpha']))
            if ok: modes[m] = cv(mm)
            else: msg = 'the components of the new colour are %s' % g
        ck.ob('from%s' % m.capitalize(), ok, '%s:%s' % (f.file, f.line), msg)
        if not ok: return
    ck.ob('the modes are different', len(set(modes.values())) == 3, 'include/core/Color.h', '')
    parts = {m: [name(n) for n in PARTS[m]] for m in MODES}; AL = name('alpha'); MO = name('mode')
    for m in MODES: ck.ob('the components of %s are different' % m, len(set(parts[m] + [AL, MO])) == len(parts[m]) + 2, 'include/core/Color.h', '')
    count = [0]
    H = lift(Fraction(1, 2)); ONE = lift(1); Z = lift(0); F255 = lift(255)

    def case(key, dem, ops, spec, method=True, floats=None):
        """ops: [(kind, name, mode)]; spec(t, *operands as dicts of R) -> {'this' | 'ret': (mode, {component: R}) | {'ret': bool} | {operand: R}}"""
        f = mod.dem(dem, strict=False)
        if f is None: raise Anchor('function %s not found' % dem)
        count[0] += 1; where = '%s:%s' % (f.file, f.line); bad = []; und = None
        poly.deadline[0] = time.time() + 60
        A = AI(mod, base, max_paths=20000, max_steps=3000000); st = State(); vals = []; T = CR()
        floats = floats or {}
        for k, (kind, n, md) in enumerate(ops):
            if kind == C:
                v = abi.symval(lay, C, n)
                if md: v.c[MO] = const(modes[md], 8 * acc['mode'][1])
                abi.place(A, st, lay, v, ptr(sym('&' + n, 64, True))); A.assume(st, icmp('eq', v.addr, const(0, 64)), False)
            elif kind == 'out': v = abi.Val('float', {'': sym(n, 32)}); abi.place(A, st, lay, v, ptr(sym('&' + n, 64, True)))
            elif kind == 'float': v = abi.Val('float', {'': sym(n, 32)})
            else: v = abi.Val('u8', {'': sym(n, 8)})
            vals.append(v)
        for a, b in itertools.combinations([v.addr for v in vals if v.addr is not None], 2): A.assume(st, icmp('eq', a, b), False)
        ins = []
        for (kind, n, md), v in zip(ops, vals):
            d = {}
            for c, e in v.c.items():
                if kind == 'float': d[c] = floats[n](T) if n in floats else T.number(n, 0, 1, False)
                elif kind == 'out' or isc(e) or c == MO: continue
                else: d[c] = T.number(str(e), 0, 255)
                T.names[e] = d[c]
            ins.append(d)
        try: outs, res = abi.invoke(A, lay, f, vals, st, method)
        except Limit as e: ck.ob(key, None, where, str(e)); return
        ck.analysed |= A.analysed
        rets = 0
        for o in outs:
            if o.kind not in ('ret', 'throw'): und = 'outcome %s' % o.kind; continue
            fs = [(c, v) for c, v in o.st.facts.items() if isinstance(c, E) and all(x in T.names for x in leaves(c))]
            def body(t):
                nonlocal rets
                want = spec(t, *ins)
                if want is None: return
                rets += 1
                if o.kind == 'throw': bad.append('throws'); return
                for what, w in want.items():
                    if isinstance(w, bool):
                        g = t.cond(o.val if o.val.w == 1 else trunc(o.val, 1))
                        if g != w: bad.append('%s is returned where %s is right%s' % (g, w, at(t)))
                        continue
                    if isinstance(w, R): got = {'': abi.content(A, o.st, lay, vals[[n for _, n, _ in ops].index(what)])['']}; w = (None, {'': w})
                    else:
                        i = [n for _, n, _ in ops].index(what) if what != 'ret' else None
                        got = res(o, C) if what == 'ret' else abi.content(A, o.st, lay, vals[i])
                    md, cs = w
                    if md is not None and not (isc(got[MO]) and cv(got[MO]) == modes[md]): bad.append('the mode of the result is %s instead of %s%s' % (got[MO], md, at(t))); continue
                    for c, x in cs.items():
                        if x is None: continue
                        if isinstance(x, E):
                            if got[c] is not x: bad.append('component %s is %s instead of %s' % (label(c, md), got[c], x))
                            continue
                        g = t.rat(got[c]) if c == '' else t.ireal(got[c])
                        if x == 'any': continue
                        if not any(zero(t, g - x + k) for k in ((0,) if c == '' else (0, 256, -256))): bad.append('%s is %s instead of %s%s' % (label(c, md) if c else what, g, x, at(t)))
                for (kind, n, md), v in zip(ops, vals):
                    if kind == C and n not in want and any(g is not v.c[c] for c, g in abi.content(A, o.st, lay, v).items()) and abi.params(dem)[ops.index((kind, n, md)) - method].endswith('const&'): bad.append('the operand %s is changed' % n)
            try: cases(T, fs, body)
            except Unknown as e: und = str(e)
            except Misfit as e: bad.append(str(e))
        if not rets and not bad and und is None: bad.append('never returns')
        ck.ob(key, (not bad) if und is None or bad else None, where, '; '.join(list(dict.fromkeys(bad))[:4]) or und or '')
    def zero(t, d): return vanishes(t, d) or vanishes(t, R(t.eqs(d.n)))
    def label(c, md): return next((n for n in (PARTS[md] if md else []) + ['alpha'] if name(n) == c), c)
    def at(t): return ' [%s]' % ', '.join('%s %s 0' % (k if isinstance(k, E) else poly.P(dict(k)), s) for k, s in t.sg.items())[:200] if t.sg else ''
    def M(n, sig, ops, md, spec, **k): case('%s[%s]' % (n, md), '%s::%s' % (C, sig), [(C, 'this', md)] + ops, spec, **k)
    def rgb(*v): return dict(zip(parts['rgb'], v))
    def comps(s, m): return [s[c] for c in parts[m]]
    fl = lambda t, r: t.fn('floor', r)
    def mx(t, a, b): return a if t.sign(a - b) != '<' else b
    def mn(t, a, b): return a if t.sign(a - b) != '>' else b
    # --- construction, copies and access
    case('Color()', '%s::Color()' % C, [(C, 'this', 'grey')], lambda t, s: {'this': ('rgb', dict(rgb(Z, Z, Z), **{AL: F255}))})
    for m in MODES:
        keep = {c: (lambda v=c: v)() for c in parts[m] + [AL]}
        case('copy[%s]' % m, '%s::Color(jm::Color const&)' % C, [(C, 'this', None), (C, 'other', m)], lambda t, s, o, m=m: {'this': (m, {c: o[c] for c in parts[m] + [AL]})})
        case('assignment[%s]' % m, '%s::operator=(jm::Color const&)' % C, [(C, 'this', None), (C, 'other', m)], lambda t, s, o, m=m: {'this': (m, {c: o[c] for c in parts[m] + [AL]})})
        for n in PARTS[m] + ['alpha']:
            case('set%s[%s]' % (n.capitalize(), m), '%s::set%s(unsigned char)' % (C, n.capitalize()), [(C, 'this', m), ('u8', 'v', None)],
                 lambda t, s, v, m=m, n=n: {'this': (m, {c: v[''] if c == name(n) else s[c] for c in parts[m] + [AL]})})
        def white(t, s, m=m): return all(t.sign(s[c] - (Z if m == 'cmyk' else F255)) == '=' for c in parts[m])
        M('isWhite', 'isWhite() const', [], m, lambda t, s, w=white: {'ret': w(t, s)})
    # --- conversions
    M('toRgb', 'toRgb()', [], 'rgb', lambda t, s: {'this': ('rgb', s)})
    M('toRgb', 'toRgb()', [], 'grey', lambda t, s: {'this': ('rgb', dict(rgb(*comps(s, 'grey') * 3), **{AL: s[AL]}))})
    def fromcmyk(t, s): c, m, y, k = comps(s, 'cmyk'); return [F255 - mn(t, F255, x + k) for x in (c, m, y)]
    M('toRgb', 'toRgb()', [], 'cmyk', lambda t, s: {'this': ('rgb', dict(rgb(*fromcmyk(t, s)), **{AL: s[AL]}))})
    W = [lift(Fraction(x, 10000)) for x in (2126, 7152, 722)]
    def lum(t, v): return fl(t, sum((w * x for w, x in zip(W, v)), lift(0)) + H)
    g0 = parts['grey'][0]
    M('toGreyScale', 'toGreyScale()', [], 'grey', lambda t, s: {'this': ('grey', s_of(s, 'grey'))})
    M('toGreyScale', 'toGreyScale()', [], 'rgb', lambda t, s: {'this': ('grey', {g0: lum(t, comps(s, 'rgb'))})})
    M('toGreyScale', 'toGreyScale()', [], 'cmyk', lambda t, s: {'this': ('grey', {g0: lum(t, fromcmyk(t, s))})})
    def cmyk(t, s):
        r = comps(s, 'rgb'); m = mx(t, r[0], mx(t, r[1], r[2]))
        if t.sign(m) == '=': return dict(zip(parts['cmyk'], (Z, Z, Z, F255)))
        return dict(zip(parts['cmyk'], [fl(t, F255 * (m - x) / m) for x in r] + [F255 - m]))
    M('toCmyk', 'toCmyk()', [], 'rgb', lambda t, s: {'this': ('cmyk', cmyk(t, s))})
    M('toCmyk', 'toCmyk()', [], 'grey', lambda t, s: {'this': ('cmyk', dict(zip(parts['cmyk'], (Z, Z, Z, F255 - s[g0]))))})
    M('toCmyk', 'toCmyk()', [], 'cmyk', lambda t, s: {'this': ('cmyk', s)})
    # --- HSV
    def hsv(t, r, g, b):
        hi = mx(t, r, mx(t, g, b)); lo = mn(t, r, mn(t, g, b)); d = hi - lo
        if t.sign(d) == '=': h = Z
        elif t.sign(hi - r) == '=': h = lift(60) * (g - b) / d
        elif t.sign(hi - g) == '=': h = lift(60) * (2 + (b - r) / d)
        else: h = lift(60) * (4 + (r - g) / d)
        if t.sign(h) == '<': h = h + 360
        return {'hue': h, 'saturation': Z if t.sign(d) == '=' else d / hi, 'value': hi / 255}
    outs = [('out', 'hue', None), ('out', 'saturation', None), ('out', 'value', None)]
    for m, cs in (('rgb', lambda t, s: comps(s, 'rgb')), ('grey', lambda t, s: comps(s, 'grey') * 3), ('cmyk', fromcmyk)):
        M('hsvModel', 'hsvModel(float&, float&, float&) const', outs, m, lambda t, s, h, a, v, cs=cs: hsv(t, *cs(t, s)))
    for k in range(7):
        def sector(t, h, s, v, a, k=k):
            f = A_('f'); h, s, v, a = (x[''] for x in (h, s, v, a))
            p, q, w = v * (1 - s), v * (1 - s * f), v * (1 - s * (1 - f))
            rgb_ = [(v, w, p), (q, v, p), (p, v, w), (p, q, v), (w, p, v), (v, p, q), (v, w, p)][k]
            return {'ret': ('rgb', dict(rgb(*[fl(t, x * 255) if k != 6 else fl(t, x * 255) for x in rgb_]), **{AL: fl(t, a * 255)}))}
        case('FromHsv[%d degrees]' % (60 * k), '%s::FromHsv(float, float, float, float)' % C, [('float', n, None) for n in ('hue', 'saturation', 'value', 'alpha')], sector, method=False,
             floats={'hue': lambda t, k=k: lift(60) * (k + t.number('f', 0, Fraction(9999, 10000) if k < 6 else 0, False))})
    # --- blending
    two = [(C, 'background', 'rgb'), (C, 'foreground', 'rgb'), ('u8', 'alpha', None)]
    def mix(t, b, f, a):
        a = a['']
        if t.sign(b[AL] - 255) == '=' and t.sign(f[AL] - 255) == '=': return {'ret': ('rgb', dict({c: fl(t, (a * f[c] + (255 - a) * b[c]) / 255) for c in parts['rgb']}, **{AL: F255}))}
        x, y = f[AL] / 255, b[AL] / 255; z = x + (1 - x) * y
        if t.sign(z) == '=': return {'ret': ('rgb', dict(rgb(*['any'] * 3), **{AL: fl(t, z * 255)}))}
        return {'ret': ('rgb', dict({c: fl(t, (x * f[c] + (1 - x) * y * b[c]) / z) for c in parts['rgb']}, **{AL: fl(t, z * 255)}))}
    case('blend', 'jm::blend(jm::Color, jm::Color, unsigned char)', two, mix, method=False)
    case('interpolate', 'jm::interpolate(jm::Color, jm::Color, float)', [(C, 'a', 'rgb'), (C, 'b', 'rgb'), ('float', 'percent', None)],
         lambda t, a, b, p: {'ret': ('rgb', {c: fl(t, a[c] + (b[c] - a[c]) * p['']) for c in parts['rgb'] + [AL]})}, method=False)
    # --- comparison and arithmetic
    for m, n in itertools.product(MODES, MODES):
        def eq(t, a, b, m=m, n=n): return m == n and all(t.sign(a[c] - b[c]) == '=' for c in parts[m] + [AL])
        for op, g in (('==', eq), ('!=', lambda t, a, b, eq=eq: not eq(t, a, b))):
            case('operator%s[%s, %s]' % (op, m, n), 'jm::operator%s(jm::Color const&, jm::Color const&)' % op, [(C, 'a', m), (C, 'b', n)], lambda t, a, b, g=g: {'ret': g(t, a, b)}, method=False)
        if m == n:
            for op, g in (('+', add), ('-', sub)):
                case('operator%s[%s]' % (op, m), 'jm::operator%s(jm::Color const&, jm::Color const&)' % op, [(C, 'a', m), (C, 'b', m)],
                     lambda t, a, b, g=g, m=m: {'ret': (m, {c: g(sym('a.' + c, 8), sym('b.' + c, 8)) for c in parts[m] + [AL]})}, method=False)
    ck.need(count[0], 'functions x modes', 60)
def s_of(s, m): return s
