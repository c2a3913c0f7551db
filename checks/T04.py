"""Classes and case of characters."""
from expr import *
from ai import AI, State, ptr, Limit
from ir import Anchor
import models, piece
LEVEL = 'other'
RULE = ('every function of a character is abstractly interpreted with an arbitrary character; the paths partition the 65536 codes and their results are tabulated over the whole '
        'domain; the classes are compared with their definition, the case mappings with the Unicode mapping, with each other and with the classes')
EXPLANATION = RULE
ASSUMPTIONS = ['the case mapping may leave letters unmapped except A-Z, a-z and the umlauts']

def run(ck):
    m = ck.mod; tabs = {}
    x = sym('c', 16)
    def load(name):
        f = m.dem('jm::Char::%s() const' % name, strict=False)
        if f is None: raise Anchor('Char::%s not found' % name)
        A = AI(m, models.throw_models(m), max_steps=3000000); st = State(); a = ptr(sym('&c', 64, True)); A.store(st, a, x, 2)
        try:
            outs = A.run(f, [a], st); ck.analysed |= A.analysed
            if any(o.kind != 'ret' for o in outs): ck.ob(name, False, f.file, 'may throw'); return None
            t = piece.tabulate(A, outs, x, lambda o: o.val)
        except (piece.Untab, Limit) as e: ck.ob(name, None, f.file, str(e)); return None
        if len(t) != 65536: raise Anchor('%s: %d codes covered' % (name, len(t)))
        return t, '%s:%s' % (f.file, f.line)
    N = {}
    for n in ('isWhitespace', 'isDigit', 'isLetter', 'isUpperCase', 'isLowerCase', 'digitValue', 'toLowerCase', 'toUpperCase'):
        r = load(n)
        if r: N[n] = r
    ck.need(len(N) + sum(1 for o in ck.obl), 'functions of a character', 8)
    def all_(key, fn, cond, msg):
        if any(f not in N for f in fn): return
        T = [N[f][0] for f in fn]
        bad = [c for c in range(65536) if not cond(c, *[t[c] for t in T])]
        ck.ob(key, not bad, N[fn[0]][1], '%s: U+%04X' % (msg, bad[0]) + (' and %d more' % (len(bad) - 1) if len(bad) > 1 else '') if bad else '')
    up = lambda c: chr(c).isupper() if not 0xD800 <= c < 0xE000 else False
    lo = lambda c: chr(c).islower() if not 0xD800 <= c < 0xE000 else False
    all_('isDigit is 0-9', ['isDigit'], lambda c, v: bool(v) == (48 <= c <= 57), 'wrong class')
    all_('digitValue', ['digitValue'], lambda c, v: v == (c - 48 if 48 <= c <= 57 else 0xffffffff), 'wrong value')
    all_('isWhitespace', ['isWhitespace'], lambda c, v: bool(v) == (c in (32, 13, 10, 9, 8, 12)), 'wrong class')
    all_('isLetter is upper or lower', ['isLetter', 'isUpperCase', 'isLowerCase'], lambda c, l, u, w: bool(l) == (bool(u) or bool(w)), 'classes disagree')
    all_('upper and lower are disjoint', ['isUpperCase', 'isLowerCase'], lambda c, u, l: not (u and l), 'in both classes')
    all_('isUpperCase', ['isUpperCase'], lambda c, u: bool(u) == up(c) if c < 256 else (not u or up(c)), 'differs from Unicode')
    all_('isLowerCase', ['isLowerCase'], lambda c, l: bool(l) == (lo(c) and c not in (0xAA, 0xBA, 0xB5)) if c < 256 else (not l or lo(c)), 'differs from Unicode')
    must = set(range(65, 91)) | {0xC4, 0xD6, 0xDC}; mustl = {c + 32 for c in must}
    uni = lambda f: (lambda c: ord(f(chr(c))) if not 0xD800 <= c < 0xE000 and len(f(chr(c))) == 1 else c)
    ul, uu = uni(str.lower), uni(str.upper)
    all_('toLowerCase', ['toLowerCase'], lambda c, v: v == ul(c) if c in must else v in (c, ul(c)), 'maps wrongly')
    all_('toUpperCase', ['toUpperCase'], lambda c, v: v == uu(c) if c in mustl else v in (c, uu(c)), 'maps wrongly')
    if 'toLowerCase' in N and 'toUpperCase' in N:
        L, U = N['toLowerCase'][0], N['toUpperCase'][0]
        for key, bad in (('lower case is stable', [c for c in L if L[L[c]] != L[c]]), ('upper case is stable', [c for c in U if U[U[c]] != U[c]]),
                         ('upper case restores what lower case changed', [c for c in L if L[c] != c and U[L[c]] != c]),
                         ('lower case restores what upper case changed', [c for c in U if U[c] != c and L[U[c]] != c]),
                         ('lower case of the upper case', [c for c in L if L[U[c]] != L[c] and c < 256])):
            ck.ob(key, not bad, N['toLowerCase'][1], 'U+%04X' % bad[0] if bad else '')
    # comparison
    y = sym('d', 16)
    for n, w in (('==', lambda: icmp('eq', x, y)), ('!=', lambda: not_(icmp('eq', x, y))), ('<', lambda: icmp('ult', x, y)), ('>', lambda: icmp('ult', y, x)),
                 ('<=', lambda: not_(icmp('ult', y, x))), ('>=', lambda: not_(icmp('ult', x, y)))):
        f = m.dem('jm::operator%s(jm::Char, jm::Char)' % n, strict=False)
        if f is None: continue
        A = AI(m); outs = A.run(f, [x, y]); ck.analysed |= A.analysed; bad = []
        for o in outs:
            for r in (True, False):
                s = o.st.copy(); c = w()
                d = A.decide(s, c)
                if d is not None and d != r: continue
                A.assume(s, c, r)
                g = A.decide(s, o.val)
                if g is None and o.val is c: g = r
                if g is not r: bad.append('%s where the comparison is %s' % (o.val, r))
        ck.ob('operator' + n, not bad, '%s:%s' % (f.file, f.line), '; '.join(bad[:3]))
    ck.counts['codes'] = 65536
