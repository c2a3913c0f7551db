"""Dates follow the Gregorian calendar."""
from expr import *
from ai import ptr, obj, State, Limit
from ir import Anchor
from text import Text, Bad, every, consistent
from ival import compare, always, Open, Ival
from C03 import Values
import models, datetime
LEVEL = 'other'
RULE = ('calendar components are abstractly interpreted for an arbitrary time (clock and weekday: every time, by periodicity of the resulting expression; year, month and day: every time of the years enumerated), dates made from components '
        'for arbitrary components, and formatted text for arbitrary components; each is compared with the proleptic Gregorian calendar')
EXPLANATION = RULE
ASSUMPTIONS = ['local time is UTC, as the library defines it', 'times within 2^62 milliseconds of the epoch']
DAY = 86400000
def days(y, m=1, d=1):
    y -= m <= 2; era = y // 400; yoe = y - era * 400; doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468
def civil(z):
    z += 719468; era = z // 146097; doe = z - era * 146097; yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100); mp = (5 * doy + 2) // 153; d = doy - (153 * mp + 2) // 5 + 1; m = mp + (3 if mp < 10 else -9)
    return yoe + era * 400 + (m <= 2), m, d
SPEC = {'Year': (lambda t: civil(t // DAY)[0], DAY), 'Month': (lambda t: civil(t // DAY)[1] - 1, DAY), 'Date': (lambda t: civil(t // DAY)[2], DAY),
        'dayOfYear': (lambda t: t // DAY - days(civil(t // DAY)[0]), DAY), 'Day': (lambda t: (t // DAY + 4) % 7, DAY, 7 * DAY),
        'Hours': (lambda t: t // 3600000 % 24, 3600000, DAY), 'Minutes': (lambda t: t // 60000 % 60, 60000, 3600000), 'Seconds': (lambda t: t // 1000 % 60, 1000, 60000), 'Milliseconds': (lambda t: t % 1000, 1, 1000)}

def run(ck):
    mod = ck.mod; deep = ck.tier == 'thorough'
    T = Text(ck); off = mod.off('jm::Date', 'mTime')
    def place(A, st, name, t):
        p = ptr(sym('&' + name, 64, True)); A.assume(st, icmp('eq', p, const(0, 64)), False)
        A.store(st, add(p, const(off, 64)), t, 8); return p
    def ai():
        A = T.ai(); A.unroll = 20000; A.max_steps = 40000000; return A
    count = {'c': 0, 'y': 0}
    def ob(key, f, body, kind='c', T=None):
        count[kind] += 1; bad = []; und = None; A = T.ai() if T else ai()
        try: body(A, bad)
        except Bad as e: bad.append(str(e))
        except (Limit, Open) as e: und = str(e)
        ck.analysed |= A.analysed
        if bad: und = None
        ck.ob(key, None if und else not bad, '%s:%s' % (f.file, f.line), und or '; '.join(list(dict.fromkeys(bad))[:4]))
    def outs_of(A, f, args, st, bad):
        L = [o for o in A.run(f, args, st) if o.kind != 'noreturn']
        if any(o.kind != 'ret' for o in L): bad.append('throws')
        return [([(c, v) for c, v in o.st.facts.items() if isinstance(c, E) and m in leaves(c)], o.val) for o in L if o.kind == 'ret']
    m = sym('m', 64)
    def at(t): return datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=t) if abs(t) < 10 ** 13 else t
    for name, spec in SPEC.items():
        for fname in ([name] if name == 'dayOfYear' else [name[0].lower() + name[1:], 'utc' + name]):
            f = mod.dem('jm::Date::%s() const' % fname)
            if len(spec) == 3:
                for s in (1, -1):
                    def body(A, bad):
                        st = State(); A.narrow(st, m, 0 if s == 1 else 1, 1 << 62)
                        outs = outs_of(A, f, [place(A, st, 'date', m if s == 1 else neg(m))], st, bad)
                        lo, hi = (0, 1 << 62) if s == 1 else (-(1 << 62), -1)
                        if s == -1:
                            t = sym('t', 64); outs = [([(subst(c, {m: neg(t)}), v) for c, v in fa], subst(v, {m: neg(t)})) for fa, v in outs]
                        else: t = m
                        r = always(outs, t, lo, hi, spec[0], spec[2], spec[1])
                        if r: bad.append('%s() of the time %d (%s) is %d instead of %d' % (fname, r[0], at(r[0]), r[1], r[2]))
                    ob('%s of every time %s' % (fname, 'since 1970' if s == 1 else 'before 1970'), f, body)
            elif not fname.startswith('utc') or deep:
                Y = [1600, 1700, 1800, 1899, 1900, 1904, 1968, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2024, 2100, 2200, 2300, 2400]
                if deep: Y = sorted(set(Y) | set(range(1890, 2110)) | set(range(1580, 2480, 20)))
                for y in Y:
                    def body(A, bad):
                        st = State(); a, b = days(y) * DAY, days(y + 1) * DAY - 1; s = 1 if a >= 0 else -1
                        A.narrow(st, m, *((a, b) if s == 1 else (-b, -a)))
                        outs = outs_of(A, f, [place(A, st, 'date', m if s == 1 else neg(m))], st, bad)
                        r = compare(outs, m, *((a, b) if s == 1 else (-b, -a)), (lambda x: spec[0](s * x)), DAY)
                        if r: bad.append('%s() of the time %d (%s) is %d instead of %d' % (fname, s * r[0], at(s * r[0]), r[1], r[2]))
                    ob('%s in %d' % (fname, y), f, body, 'y')

    # dates made from components
    c3, c7 = mod.dem('jm::Date::Date(unsigned short, unsigned short, unsigned short)'), mod.dem('jm::Date::Date(unsigned short, unsigned short, unsigned short, unsigned short, unsigned short, unsigned short, unsigned short)')
    d, clock = sym('day', 16), [(sym('hours', 16), 3600000, 23), (sym('minutes', 16), 60000, 59), (sym('seconds', 16), 1000, 59), (sym('millis', 16), 1, 999)]
    def linear(e):
        """constant and coefficients of the leaves"""
        e = unext(e)
        if isc(e): return sv(e), {}
        if e.op == 'lin':
            c, t = lin_parts(e); c = signed(c, e.w); r = {}
            for x, k in t.items():
                k = signed(k, e.w); c2, r2 = linear(x); c += k * c2
                for y, z in r2.items(): r[y] = r.get(y, 0) + k * z
            return c, {y: z for y, z in r.items() if z}
        if e.op == 'sym': return 0, {e: 1}
        raise Limit('the time is not a sum of its components: %s' % e)
    def unext(e): return unext(e.a[0]) if e.op in ('zext', 'sext') else e
    Y = sorted(set([1600, 1800, 1900, 1969, 1970, 1972, 1999, 2000, 2023, 2024, 2100, 2200, 2300] + (list(range(1890, 2110)) + list(range(1600, 2500, 50)) if deep else [])))
    made = 0
    for f, full in ((c3, False), (c7, True)):
        for y in Y:
            for mo in range(12):
                if full and not deep and y not in (1969, 2024): continue
                made += 1
                def body(A, bad):
                    st = State(); p = place(A, st, 'date', sym('old', 64)); n = days(y + mo // 11, (mo + 1) % 12 + 1) - days(y, mo + 1)
                    A.narrow(st, d, 1, n); args = [p, const(y, 16), const(mo, 16), d]
                    if full:
                        for x, k, top in clock: A.narrow(st, x, 0, top)
                        args += [x for x, k, top in clock]
                    for o in A.run(f, args, st):
                        if o.kind == 'noreturn': continue
                        if o.kind != 'ret': raise Bad('throws')
                        got = linear(A.load(o.st, add(p, const(off, 64)), 8))
                        want = ((days(y, mo + 1) - 1) * DAY, {d: DAY, **({x: k for x, k, top in clock} if full else {})})
                        if got != want and consistent(A, o.st): bad.append('the time is %s instead of %s' % (got, want))
                ob('date of %d-%02d%s' % (y, mo + 1, ' with time' if full else ''), f, body, 'y')
    # comparison, copies
    a, b = sym('a', 64), sym('b', 64)
    def rel(name, f, want):
        def body(A, bad):
            st = State(); p, q = place(A, st, 'a', a), place(A, st, 'b', b); A.assume(st, icmp('eq', p, q), False)
            for o in A.run(f, [p, q], st):
                if o.kind == 'noreturn': continue
                if o.kind != 'ret': raise Bad('throws')
                for k in '<>=':
                    truth = {icmp('slt', a, b): k == '<', icmp('slt', b, a): k == '>', icmp('eq', a, b): k == '='}
                    if any(o.st.facts.get(c, v) != v for c, v in truth.items()): continue
                    s2 = o.st.copy(); s2.facts.update(truth)
                    v = A.resolve(o.val, s2)
                    if not isc(v): v = subst(o.val, {c2: const(int(x), 1) for c2, x in s2.facts.items() if isinstance(c2, E)})
                    if not isc(v): raise Limit('the result is %s' % v)
                    g = cv(v) if v.w == 1 else sv(v)
                    if g != want[k]: bad.append('%s gives %d for a %s b' % (name, g, k))
        ob(name, f, body)
    for op, w in (('<', (1, 0, 0)), ('>', (0, 1, 0)), ('<=', (1, 0, 1)), ('>=', (0, 1, 1)), ('==', (0, 0, 1)), ('!=', (1, 1, 0))):
        rel('operator' + op, mod.dem('jm::operator%s(jm::Date const&, jm::Date const&)' % op), dict(zip('<>=', w)))
    rel('compareTo', mod.dem('jm::Date::compareTo(jm::Date const&) const'), {'<': -1, '>': 1, '=': 0})
    def stored(key, f, args, want):
        def body(A, bad):
            st = State(); p, q = place(A, st, 'date', sym('old', 64)), place(A, st, 'other', a); A.assume(st, icmp('eq', p, q), False)
            for o in A.run(f, [p] + args(q), st):
                if o.kind == 'noreturn': continue
                if o.kind != 'ret': raise Bad('throws')
                g = A.load(o.st, add(p, const(off, 64)), 8)
                if g is not want: bad.append('the time is %s instead of %s' % (g, want))
        ob(key, f, body)
    stored('copy', mod.dem('jm::Date::Date(jm::Date const&)'), lambda q: [q], a)
    stored('Date(milliseconds)', mod.dem('jm::Date::Date(long)'), lambda q: [a], a)
    stored('setTime', mod.dem('jm::Date::setTime(long)'), lambda q: [a], a)
    def value(key, f, want):
        def body(A, bad):
            st = State(); p = place(A, st, 'date', a)
            for o in A.run(f, [p], st):
                if o.kind == 'noreturn': continue
                if o.kind != 'ret': raise Bad('throws')
                w = want
                if o.val is not w and A.decide(o.st, icmp('eq', o.val, w)) is not True: bad.append('the result is %s instead of %s' % (o.val, w))
        ob(key, f, body)
    value('time', mod.dem('jm::Date::time() const'), a)
    value('isEmpty', mod.dem('jm::Date::isEmpty() const'), icmp('eq', a, const(1 << 63, 64)))
    texts(ck, deep, off, place, ob)
    ck.need(count['c'], 'accessors for every time', 20); ck.need(count['y'], 'accessors x years', 50)

FIELDS = {'Year': (0, 9999), 'Month': (0, 11), 'Date': (1, 31), 'dayOfYear': (0, 365), 'Day': (0, 6), 'Hours': (0, 23), 'Minutes': (0, 59), 'Seconds': (0, 59), 'Milliseconds': (0, 999)}
PRIVATE = {'yearFromTime': 'Year', 'monthFromTime': 'Month', 'dateFromTime': 'Date', 'dayWithinYear': 'dayOfYear', 'weekDay': 'Day', 'hourFromTime': 'Hours', 'minuteFromTime': 'Minutes', 'secondFromTime': 'Seconds', 'milliFromTime': 'Milliseconds'}
WEEK = ['Sonntag', 'Montag', 'Dienstag', 'Mittwoch', 'Donnerstag', 'Freitag', 'Samstag']
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']
MON = ['Jan', 'Feb', 'Mrz', 'Apr', 'Mai', 'Jun', 'Jul', 'Aug', 'Sep', 'Okt', 'Nov', 'Dez']
FORMATS = {'yyyy': ('Year', str), 'yy': ('Year', lambda v: '%02d' % (v % 100)), 'M': ('Month', lambda v: str(v + 1)), 'MM': ('Month', lambda v: '%02d' % (v + 1)), 'MMM': ('Month', lambda v: MON[v]), 'MMMM': ('Month', lambda v: MONTHS[v]),
           'd': ('Date', str), 'dd': ('Date', lambda v: '%02d' % v), 'D': ('dayOfYear', lambda v: str(v + 1)), 'E': ('Day', lambda v: WEEK[v][0]), 'EE': ('Day', lambda v: WEEK[v][:2]), 'EEEE': ('Day', lambda v: WEEK[v]),
           'H': ('Hours', str), 'HH': ('Hours', lambda v: '%02d' % v), 'm': ('Minutes', str), 'mm': ('Minutes', lambda v: '%02d' % v), 's': ('Seconds', str), 'ss': ('Seconds', lambda v: '%02d' % v),
           'S': ('Milliseconds', str), 'SSS': ('Milliseconds', lambda v: '%03d' % v)}
PATTERNS = [[x] for x in FORMATS] + [['yyyy', '-', 'MM', '-', 'dd'], ['dd', '.', 'MM', '.', 'yy'], ['HH', ':', 'mm', ':', 'ss', '.', 'SSS'], ['yyyy', "'T'", 'HH'], ["'at '", 'H', "' and '", 'm'], ['MM', "'dd'", 'dd'], ["'M'"], ["'d'", 'd'], [], ['HH', 'mm', 'ss'], ['yyyy', 'MM', 'dd', "'y'"], [' ', 'EE', ', ']]

def texts(ck, deep, off, place, ob):
    """the texts of dates: calendar components are arbitrary values of their range"""
    mod = ck.mod; T = Text(ck)
    leaf = {k: sym(k.lower(), 64) for k in FIELDS}; numbers = {}; MARK = 0xE000
    for f in mod.fns.values():
        n = f.dem
        if n.startswith('jm::Date::'):
            s = n[10:].split('(')[0]; k = PRIVATE.get(s) or {'year': 'Year', 'month': 'Month', 'date': 'Date', 'day': 'Day', 'hours': 'Hours', 'minutes': 'Minutes', 'seconds': 'Seconds', 'milliseconds': 'Milliseconds'}.get(s) or (s[3:] if s.startswith('utc') else s)
            if k in leaf and not f.decl and (s in PRIVATE or n.endswith('() const')): T.models[f.name] = lambda A, st, av, x, k=k: [(st, 'ret', leaf[k])]
        elif n == 'jm::String::valueOf(long)' or n == 'jm::String::valueOf(int)':
            def number(A, st, av, x):
                v = sext(av[1], 64); i = numbers.setdefault(v, MARK + len(numbers)); T.n += 1
                T.place_string(A, st, av[0], 'number%d' % T.n, [const(i, 16)]); return [(st, 'ret', None)]
            T.models[f.name] = number
        elif n.startswith('jm::I18nBundle::translate('):
            def tr(A, st, av, x):
                c = T.read_string(A, st, av[2], 'a text')[0]; T.n += 1
                T.place_string(A, st, av[0], 'translation%d' % T.n, c); return [(st, 'ret', None)]
            T.models[f.name] = tr
    def check(A, bad, o, res, want):
        """want: from values of the components to the text"""
        V = Values(A); got = T.read_string(A, o.st, res, 'the text')[0]
        dom = V.facts(o.st, {leaf[k]: range(a, b + 1) for k, (a, b) in FIELDS.items()})
        if any(not x for x in dom.values()): return
        if not consistent(A, o.st): return
        back = {i: v for v, i in numbers.items()}
        parts = []
        for c in got:
            if isc(c): parts.append(back.get(cv(c)) or chr(cv(c)))
            else: parts.append(c)
        for fields, spec in want:
            # position of this part: every other part has been read off before
            ls = [leaf[fields]] if fields else []
            vals = dom[ls[0]] if ls else [0]
            take = None
            for v in vals:
                w = spec(v) if fields else spec; i = 0; k = 0
                while i < len(w):
                    if k >= len(parts): bad.append('the text ends before %s (%s = %s)' % (w, fields, v)); return
                    x = parts[k]
                    if isinstance(x, E):
                        l = list(leaves(x))
                        if l and l != ls: bad.append('shows %s where %s should be' % (x, fields)); return
                        y = V.fn(x, l)(*([v] * len(l)))
                        if x.w == 64: x = str(y if y < 1 << 63 else y - (1 << 64))
                        else: x = chr(y)
                    if w[i:i + len(x)] != x: bad.append('shows %s instead of %s for %s = %s' % (''.join(str(z) if isinstance(z, str) else '(%s)' % z for z in parts), w, fields, v)); return
                    i += len(x); k += 1
                if take is not None and take != k: bad.append('the length for %s = %s' % (fields, v)); return
                take = k
            parts = parts[take or 0:]
        if parts: bad.append('shows %d characters too many' % len(parts))
    f = mod.dem('jm::Date::toString() const')
    def iso(A, bad):
        st = State(); p = place(A, st, 'date', sym('t', 64)); res = ptr(sym('&result', 64, True)); A.assume(st, icmp('eq', p, res), False)
        for k, (a, b) in FIELDS.items(): A.narrow(st, leaf[k], a, b)
        for o in A.run(f, [res, p], st):
            if o.kind == 'noreturn': continue
            if o.kind != 'ret': raise Bad('throws')
            check(A, bad, o, res, [('Year', lambda v: '%04d' % v), (None, '-'), ('Month', lambda v: '%02d' % (v + 1)), (None, '-'), ('Date', lambda v: '%02d' % v), (None, 'T'), ('Hours', lambda v: '%02d' % v), (None, ':'),
                                   ('Minutes', lambda v: '%02d' % v), (None, ':'), ('Seconds', lambda v: '%02d' % v), (None, '.'), ('Milliseconds', lambda v: '%03d' % v), (None, 'Z')])
    ob('toString', f, iso, T=T)
    g = mod.dem('jm::DateFormatter::format(jm::String const&, jm::Date const&)'); n = 0
    for pat in PATTERNS:
        n += 1
        def body(A, bad):
            st = State(); p = place(A, st, 'date', sym('t', 64)); res = ptr(sym('&result', 64, True)); q = ptr(sym('&pattern', 64, True))
            for z in T.empties: T.place_string(A, st, obj('global', z), 'empty', [], 16)
            for x, y in ((p, res), (p, q), (res, q)): A.assume(st, icmp('eq', x, y), False)
            T.place_string(A, st, q, 'pattern', [const(ord(c), 16) for c in ''.join(pat)])
            for k, (a, b) in FIELDS.items(): A.narrow(st, leaf[k], a, b)
            want = [FORMATS[x] if x in FORMATS else (None, x.strip("'") if x[:1] == "'" else x) for x in pat]
            for o in A.run(g, [res, q, p], st):
                if o.kind == 'noreturn': continue
                if o.kind != 'ret': raise Bad('throws')
                check(A, bad, o, res, want)
        ob('format "%s"' % ''.join(pat), g, body, T=T)
    ck.need(n, 'formats', 30)
