"""XML written by XMLWriter is well formed and SAXParser reads it back."""
from expr import *
from ai import ptr, obj, State, Limit
from ir import Anchor
from text import Text, Bad, every, consistent, Q
import models, itertools
LEVEL = 'other'
RULE = ('scripts of XMLWriter calls with arbitrary attribute values and character data are abstractly interpreted; every text they write is read on every path (1) by the grammar of XML and (2) by interpreting SAXParser::parse on it '
        'with the facts of that path: both must give the elements, attributes and character data that were written')
EXPLANATION = RULE
ASSUMPTIONS = ['texts up to the stated length', 'output streams accept what is written (decided elsewhere)', 'element and attribute names are names']

class Events:
    def __init__(self, ck):
        T = self.T = Text(ck); T.realconst = True; mod = self.mod = ck.mod; self.ck = ck
        def string(A, st, p): return T.read_string(A, st, p, 'a text')[0]
        for f in mod.fns.values():
            d = f.dem
            def model(name, idx, ret=None):
                def m(A, st, av, x):
                    st.event(name, *[string(A, st, av[i]) for i in idx])
                    return [(st, 'ret', ret)]
                T.models[f.name] = m
            if d == 'jm::Stream::write(jm::String const&)': model('out', [1], const(0, 64))
            elif d == 'jm::SAXAttributes::addAttribute(jm::String, jm::String, jm::String, jm::String)': model('attribute', [2, 3, 4])
            elif d.startswith('jm::SAXAttributes::SAXAttributes(') or d.startswith('jm::SAXAttributes::~'): T.models[f.name] = models.m_nop
            elif d.startswith('jm::SAXParser::'):
                n = d[15:].split('(')[0]
                if n in ('startDocument', 'endDocument'): model(n, [])
                elif n == 'startElement': model('start', [2, 3])
                elif n == 'endElement': model('end', [2, 3])
                elif n in ('characters', 'ignorableWhiteSpaces'): model('text', [1])
            elif d.startswith('jm::String::valueOf('):
                def number(A, st, av, x, d=d):
                    st.event('number', d, av[1]); self.T.n += 1; self.T.place_string(A, st, av[0], 'number%d' % self.T.n, C('77'))
                    return [(st, 'ret', None)]
                T.models[f.name] = number
            elif d == 'jm::Base64::encode(unsigned char const*, long&)':
                def base64(A, st, av, x):
                    n = A.resolve(A.load(st, av[1], 8), st); m = (cv(n) + 2) // 3 * 4
                    st.event('base64', av[0], cv(n)); h = T.heap(A, 'base64%d' % T.n, m, '_ZdaP'); T.n += 1
                    for i in range(m): A.store(st, add(h, const(i, 64)), const(81, 8), 1)
                    A.store(st, av[1], const(m, 64), 8); st.event('new', '_Znam', h, None, x)
                    return [(st, 'ret', h)]
                T.models[f.name] = base64
            elif d == 'jm::MemoryStream::isOpen()': T.models[f.name] = lambda A, st, av, x: [(st, 'ret', TRUE)]
            elif d == 'jm::MemoryStream::close()': T.models[f.name] = models.m_nop
            elif d == 'jm::MemoryStream::write(unsigned char const*, long)':
                def bytes_(A, st, av, x):
                    n = A.resolve(av[2], st)
                    if not isc(n): raise Limit('writes %s bytes' % n)
                    st.event('out', [zext(A.load(st, add(av[1], const(i, 64)), 1), 16) for i in range(cv(n))])
                    return [(st, 'ret', av[2])]
                T.models[f.name] = bytes_
    def string(self, A, st, chars, name):
        p = ptr(sym('&' + name, 64, True)); A.assume(st, icmp('eq', p, const(0, 64)), False)
        self.T.place_string(A, st, p, name, chars); return p

def C(s): return [const(ord(c), 16) for c in s]

# texts read by the parser alone; @ stands for any character except < and &
DOCUMENTS = ['<a k="@@"/>', "<a k='@@'/>", "<a k=\"@\" l='@'>x</a>", '<a>@@</a>', '<a>&lt;@&amp;&quot;</a>', '<a k="&gt;@&apos;"></a>', '<a k = "@"\n l="y/" ></a >', '<n:a><b/>@</n:a>', "<?xml version='1.0'?><a>@</a>", '<a><b k="@"/>@</a>']
DEEP = ['<a k="@@@"/>', "<a k='@@@'/>", '<a><b k="@">@</b>@</a>', '<a>@@@</a>',  '<n:a n:k="@" l="x>@"><m:b/></n:a>', '<a>@<b>@</b>@</a>']
class Malformed(Exception): pass
def read(q, t, wide=False):
    """the grammar of XML for what is written here: (kind, ...) in document order"""
    i = 0; out = []; stack = []; n = len(t)
    is_ = lambda k, s: k < n and q.eq(t[k], ord(s))
    def name(i):
        j = i
        while j < n and not any(q.eq(t[j], ord(s)) for s in ' \n\t/>=<&"\''): j += 1
        if j == i: raise Malformed('a name is missing at position %d' % i)
        return t[i:j], j
    def entity(i):
        """t[i] is &"""
        j = i + 1
        while not is_(j, ';'):
            j += 1
            if j >= n or j > i + 6: raise Malformed('a reference is not ended')
        if not all(isc(c) for c in t[i + 1:j]): raise Malformed('a reference with unknown characters')
        s = ''.join(chr(cv(c)) for c in t[i + 1:j])
        k = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}.get(s)
        if k is None: raise Malformed('the unknown reference &%s;' % s)
        return const(ord(k), 16), j + 1
    def space(i):
        while i < n and any(q.eq(t[i], ord(s)) for s in ' \n\t'): i += 1
        return i
    text = []
    def flush():
        if text and not stack:
            if not all(any(q.eq(c, ord(s)) for s in ' \n\t\r') for c in text): raise Malformed('text outside of the root element')
        elif text: out.append(('text', list(text)))
        del text[:]
    while i < n:
        if is_(i, '<'):
            flush()
            if is_(i + 1, '?'):
                j = i + 2
                while not (is_(j, '?') and is_(j + 1, '>')):
                    j += 1
                    if j >= n: raise Malformed('an instruction is not ended')
                i = j + 2; continue
            if is_(i + 1, '/'):
                nm, i = name(i + 2); i = space(i)
                if not is_(i, '>'): raise Malformed('an end tag is not ended')
                if not stack or stack[-1] != nm: raise Malformed('an end tag does not match')
                stack.pop(); out.append(('end', nm)); i += 1; continue
            nm, i = name(i + 1); at = []
            while True:
                j = space(i)
                if is_(j, '/') and is_(j + 1, '>'): out.append(('start', nm, at)); out.append(('end', nm)); i = j + 2; break
                if is_(j, '>'): out.append(('start', nm, at)); stack.append(nm); i = j + 1; break
                if j == i: raise Malformed('a start tag is not ended')
                an, i = name(j)
                if wide: i = space(i)
                if not is_(i, '='): raise Malformed('an attribute has no value')
                o = space(i + 1) if wide else i + 1
                if not is_(o, '"') and not is_(o, "'"): raise Malformed('a value is not quoted')
                i = o + 1; v = []
                while True:
                    if i >= n: raise Malformed('a value is not ended')
                    if q.eq(t[i], t[o]): break
                    if is_(i, '<'): raise Malformed('a value with <')
                    if is_(i, '&'): c, i = entity(i); v.append(c)
                    else: v.append(t[i]); i += 1
                i += 1; at.append((an, v))
            continue
        if is_(i, '&'): c, i = entity(i); text.append(c)
        else: text.append(t[i]); i += 1
    flush()
    if stack: raise Malformed('an element is not ended')
    return out

def run(ck):
    mod = ck.mod; deep = ck.tier == 'thorough'
    X = Events(ck); T = X.T
    fn = lambda n: mod.dem('jm::XMLWriter::' + n)
    F = dict(new=fn('XMLWriter(jm::Stream*)'), begin=fn('startDocument()'), start=fn('startElement(jm::String const&)'), end=fn('endElement()'), attr=fn('writeAttribute(jm::String const&, jm::String const&)'),
             text=fn('writeCData(jm::String const&, bool)'), indent=fn('startIndent()'), unindent=fn('endIndent()'), base64=fn('WriteBase64(unsigned char*, long)'), over=fn('endDocument()'))
    parse = mod.dem('jm::SAXParser::parse(jm::String const&)')
    V = lambda n, k='v': [sym('%s[%d]' % (k, i), 16) for i in range(n)]
    N = 3 if deep else 2
    scripts = [('empty', [('start', 'a'), ('end',)])]
    for n in range(0, N + 1):
        scripts += [('attribute[%d]' % n, [('start', 'a'), ('attr', 'k', V(n)), ('end',)]), ('text[%d]' % n, [('start', 'a'), ('text', V(n)), ('end',)]),
                    ('attribute of a filled element[%d]' % n, [('start', 'a'), ('attr', 'k', V(n)), ('text', C('x')), ('end',)])]
    scripts += [('two attributes', [('start', 'a'), ('attr', 'k', V(1)), ('attr', 'l', V(1, 'w')), ('end',)]),
                ('two texts', [('start', 'a'), ('text', V(1)), ('text', V(1, 'w')), ('end',)]),
                ('mixed', [('start', 'a'), ('text', V(1)), ('start', 'b'), ('end',), ('text', V(1, 'w')), ('end',)]),
                ('text after child', [('start', 'a'), ('start', 'n:b'), ('attr', 'k', C('x')), ('end',), ('text', V(1)), ('start', 'c'), ('text', C('y')), ('end',), ('end',)]),
                ('late attribute', [('start', 'a'), ('text', C('x')), ('lateattr', 'k', V(1)), ('end',)]),
                ('attribute after a child', [('start', 'a'), ('start', 'b'), ('end',), ('lateattr', 'k', V(1)), ('end',)]),
                ('attribute after the end', [('start', 'a'), ('end',), ('lateattr', 'k', C('x'))]),
                ('attribute after an indented child', [('start', 'a'), ('indent',), ('start', 'b'), ('end',), ('unindent',), ('lateattr', 'k', C('x')), ('end',)]),
                ('document', [('begin',), ('start', 'a'), ('attr', 'k', V(1)), ('start', 'b'), ('end',), ('end',), ('over',)]),
                ('indented', [('begin',), ('start', 'a'), ('indent',), ('start', 'b'), ('attr', 'k', V(1)), ('end',), ('unindent',), ('end',)]),
                ('indented twice', [('begin',), ('start', 'a'), ('indent',), ('start', 'b'), ('indent',), ('start', 'c'), ('end',), ('unindent',), ('end',), ('unindent',), ('end',)]),
                ('base64', [('start', 'a'), ('base64', 3), ('end',)]), ('base64 with fill characters', [('start', 'a'), ('base64', 4), ('start', 'b'), ('end',), ('end',)]),
                ('base64 after a child', [('begin',), ('start', 'c'), ('indent',), ('start', 'a'), ('indent',), ('start', 'b'), ('end',), ('unindent',), ('base64', 1), ('end',), ('unindent',), ('end',)]),
                ('text after an indented child', [('begin',), ('start', 'c'), ('indent',), ('start', 'a'), ('indent',), ('start', 'b'), ('end',), ('unindent',), ('text', C('x')), ('end',), ('unindent',), ('end',)]),
                ('indented with text', [('begin',), ('start', 'a'), ('indent',), ('start', 'b'), ('text', V(1)), ('end',), ('unindent',), ('end',)])]
    for ty, w, sg in (('int', 32, 's'), ('unsigned int', 32, 'z'), ('long', 64, 's'), ('unsigned long', 64, 'z'), ('float', 32, 'f'), ('double', 64, 'f')):
        F['num ' + ty] = fn('writeAttribute(jm::String const&, %s)' % ty)
        v = sym('number', w)
        scripts.append(('attribute of type ' + ty, [('start', 'a'), ('num ' + ty, 'k', v, sg), ('end',)]))
    def begin():
        A = T.ai(); st = State()
        for g in T.empties: T.place_string(A, st, obj('global', g), 'empty', [], 16)
        w = ptr(sym('&writer', 64, True)); s = ptr(sym('&stream', 64, True)); p = ptr(sym('&parser', 64, True)); doc = ptr(sym('&document', 64, True))
        A.store(st, s, add(obj('global', T.vtable('jm::MemoryStream')), const(16, 64)), 8); A.store(st, p, add(obj('global', T.vtable('jm::SAXParser')), const(16, 64)), 8)
        for x, y in itertools.combinations([w, s, p, doc], 2): A.assume(st, icmp('eq', x, y), False)
        return A, st, w, s, p, doc
    count = 0
    for key, script in scripts:
        count += 1
        A, st, w, s, p, doc = begin(); bad = []; und = None
        spaced = any(op[0] in ('indent', 'begin') for op in script)
        want = []; opened = []
        for op in script:
            if op[0] == 'start': want.append(['start', C(op[1]), []]); opened.append(op[1])
            elif op[0] == 'end': want.append(['end', C(opened.pop())])
            elif op[0] == 'attr': [x for x in want if x[0] == 'start'][-1][2].append((C(op[1]), op[2]))
            elif op[0][:3] == 'num': [x for x in want if x[0] == 'start'][-1][2].append((C(op[1]), C('77')))
            elif op[0] == 'base64': want.append(['text', C('Q' * ((op[1] + 2) // 3 * 4))])
            elif op[0] == 'text':
                if want[-1][0] == 'text': want[-1] = ['text', want[-1][1] + op[1]]
                elif op[1]: want.append(['text', op[1]])
        try:
            states = [st]
            for k, op in enumerate([('new',)] + script):
                new = []
                for s0 in states:
                    args = [w]
                    if op[0] == 'new': args.append(s)
                    if op[0][:3] == 'num': args += [X.string(A, s0, C(op[1]), 'name'), op[2]]
                    elif op[0] == 'base64': args += [T.heap(A, 'data', op[1]), const(op[1], 64)]
                    else:
                      for j, o in enumerate(op[1:]): args.append(X.string(A, s0, C(o) if isinstance(o, str) else o, 'argument%d.%d' % (k, j)))
                    if op[0] == 'text': args.append(TRUE if F['text'].args[2].get('w', 1) == 1 else const(1, 8))
                    for o in A.run(F[{'lateattr': 'attr'}.get(op[0], op[0])], args, s0):
                        if o.kind == 'noreturn': continue
                        if o.kind != 'ret': raise Bad('%s throws' % op[0])
                        new.append(o.st)
                states = new
                if len(states) > 20000: raise Limit('too many cases')
            for s0 in states:
                text = [c for e in s0.events() if e[0] == 'out' for c in e[1]]
                for e in s0.events():
                    if e[0] == 'number':
                        [op] = [op for op in script if op[0][:3] == 'num']
                        big = lambda x, sg: x if x.w == 64 else (sext if sg == 's' else zext)(x, 64)
                        to = 'f' if 'double' in e[1] else 'z' if 'unsigned' in e[1] else 's'
                        ok = (e[2].a[0] if e[2].op == 'fpext' else e[2]) is op[2] if to == 'f' else big(e[2], to) == big(op[2], op[3])
                        if to != 'f' and op[3] == 'f' or to == 'f' and op[3] != 'f': ok = False
                        if not ok: bad.append('the number %s of type %s is written as %s with %s' % (op[2], op[0][4:], e[2], e[1]))
                def grammar(q):
                    try: got = read(q, text)
                    except Malformed as e:
                        if consistent(A, q.st): bad.append('writes %s: %s' % (show_(text), e))
                        return
                    if not consistent(A, q.st): return
                    compare(q, A, got, want, spaced, 'the document %s reads as' % show_(text), bad)
                every(A, s0, grammar)
                parsed(X, A, s0.copy(), p, doc, text, want, spaced, bad)
        except Bad as e: bad.append(str(e))
        except Limit as e: und = str(e)
        ck.analysed |= A.analysed
        if bad: und = None
        ck.ob(key, None if und else not bad, '%s:%s' % (parse.file, parse.line), und or '; '.join(list(dict.fromkeys(bad))[:4]))
    count2 = 0
    class O: pass
    for doc_ in DOCUMENTS + (DEEP if deep else []):
        for template in ([doc_] if isinstance(doc_, str) else doc_):
            count2 += 1; text = []
            for c in template: text.append(sym('c[%d]' % len(text), 16) if c == '@' else const(ord(c), 16))
            A, st, w, s, p, doc = begin(); bad = []; und = None
            for c in text:
                if not isc(c):
                    A.narrow(st, c, 1, 0xffff)
                    for no in '<&': A.assume(st, icmp('eq', c, const(ord(no), 16)), False)
            def want(q):
                try: return [list(e) for e in read(q, text, True)]
                except Malformed: return None
            try: parsed(X, A, st, p, doc, text, want, False, bad)
            except Bad as e: bad.append(str(e))
            except Limit as e: und = str(e)
            ck.analysed |= A.analysed
            if bad: und = None
            ck.ob('read ' + template.replace('\n', ' '), None if und else not bad, '%s:%s' % (parse.file, parse.line), und or '; '.join(list(dict.fromkeys(bad))[:4]))
    attributes(ck, deep)
    ck.need(count2, 'documents read', 8)
    ck.need(count, 'scripts', 18); ck.counts['documents'] = T.paths

def parsed(X, A, st, p, doc, text, want, spaced, bad):
    """interprets the parser on text; the elements it reports are compared with want (the result of want(q) if that is a function)"""
    T = X.T; parse = X.mod.dem('jm::SAXParser::parse(jm::String const&)'); mark = len(list(st.events()))
    T.place_string(A, st, doc, 'document', text)
    for o in A.run(parse, [p, doc], st):
        if o.kind == 'noreturn': continue
        T.paths += 1
        if o.kind != 'ret':
            every(A, o.st, lambda q: bad.append('parsing %s throws' % show_(text)) if consistent(A, q.st) and (not callable(want) or want(q) is not None) else None)
            continue
        got = []; at = []; names = []; ev = list(o.st.events())[mark:]
        marks = [e[0] for e in ev if e[0] in ('startDocument', 'endDocument', 'start', 'end', 'text')]
        for e in ev:
            if e[0] == 'attribute':
                at.append((e[2] if e[2] else e[1], e[3]))
            elif e[0] == 'start': got.append(['start', e[2], at]); at = []; names.append(e)
            elif e[0] == 'end': got.append(['end', e[2]]); names.append(e); at = []
            elif e[0] == 'text':
                if got and got[-1][0] == 'text': got[-1] = ['text', got[-1][1] + e[1]]
                else: got.append(['text', e[1]])
        if got and got[0][0] == 'start' and got[0][1][:1] == C('?'): got = got[1:]      # the declaration is reported as an element
        def body(q):
            if not consistent(A, q.st): return
            w = want(q) if callable(want) else want
            if w is None: return
            if marks.count('startDocument') != 1 or marks.count('endDocument') != 1 or marks[0] != 'startDocument' or marks[-1] != 'endDocument': bad.append('the document is not announced once at its begin and end')
            for e in names: local(e, bad)
            compare(q, A, got, w, spaced, 'parsing %s gives' % show_(text), bad)
        every(A, o.st, body)

def local(e, bad):
    l, qn = e[1], e[2]; k = [i for i, c in enumerate(qn) if isc(c) and cv(c) == ord(':')]
    if l != qn[k[-1] + 1 if k else 0:]: bad.append('the local name of %s is %s' % (show_(qn), show_(l)))
def show_(t): return ''.join(chr(cv(c)) if isc(c) else '?' for c in t)
def compare(q, A, got, want, spaced, what, bad):
    white = lambda e: e[0] == 'text' and all(isc(c) and cv(c) in (32, 10) for c in e[1])
    if spaced: got = [e for e in got if not white(e)]; want = [e for e in want if not white(e)]
    def brief(l): return ' '.join({'start': '<%s>', 'end': '</%s>', 'text': '"%s"'}[e[0]] % show_(e[1]) for e in l)
    if [e[0] for e in got] != [e[0] for e in want]: bad.append('%s %s instead of %s' % (what, brief(got), brief(want))); return
    def eq(a, b): return len(a) == len(b) and all(x is y or q.A.decide(q.st, icmp('eq', x, y)) is True for x, y in zip(a, b))
    for g, w in zip(got, want):
        if not eq(g[1], w[1]): bad.append('%s %s instead of %s' % (what, brief([g]), brief([w])))
        if g[0] == 'start' and (len(g[2]) != len(w[2]) or any(not eq(a, c) or not eq(b, d) for (a, b), (c, d) in zip(g[2], w[2]))):
            bad.append('%s the attributes %s instead of %s' % (what, [(show_(a), show_(b)) for a, b in g[2]], [(show_(a), show_(b)) for a, b in w[2]]))

def attributes(ck, deep):
    """SAXAttributes is the list of attributes in the order they were added; a name finds the first of its name"""
    T = Text(ck); mod = ck.mod; count = 0
    fn = lambda n: mod.dem('jm::SAXAttributes::' + n)
    new, copy, assign, free = fn('SAXAttributes()'), fn('SAXAttributes(jm::SAXAttributes const&)'), fn('operator=(jm::SAXAttributes const&)'), fn('~SAXAttributes()')
    add_ = fn('addAttribute(jm::String, jm::String, jm::String, jm::String)')
    L = [('count', 'count() const', None)] + [(n, n + '(unsigned int) const', 'index') for n in ('localName', 'qualifiedName', 'value')] + [(n, n + '(jm::String const&) const', 'name') for n in ('value', 'hasValue')] + \
        [('indexOf', 'indexOf(jm::String) const', 'name'), ('indexOf', 'indexOf(jm::String, jm::String) const', 'uri'), ('value', 'value(jm::String, jm::String) const', 'uri')]
    S = lambda k, n: [sym('%s[%d]' % (k, i), 16) for i in range(n)]
    N = 3 if deep else 2
    for how in ('', 'copied', 'assigned', 'assigned to itself'):
        for n in range(N + 1):
            for what, sig, by, long in [l + (x,) for l in L for x in ((False, True) if l[2] in ('name', 'uri') and n > 1 else (False,))]:
                if how and n < N and not deep and what not in ('count', 'value'): continue
                count += 1
                A = T.ai(); st = State(); bad = []; und = None; f = fn(sig)
                for g in T.empties: T.place_string(A, st, obj('global', g), 'empty', [], 16)
                O = [ptr(sym('&%s' % k, 64, True)) for k in ('attributes', 'other')]
                A.assume(st, icmp('eq', O[0], O[1]), False)
                def string(s0, chars):
                    p = ptr(A.fresh('&text', 64, True)); A.assume(s0, icmp('eq', p, const(0, 64)), False); T.n += 1
                    T.place_string(A, s0, p, 'text%d' % T.n, chars); return p
                ents = [(S('name%d' % i, 2 if i == 0 and n > 1 else 1), S('value%d' % i, 1)) for i in range(n)]
                q_ = S('query', 2 if long else 1); idx = sym('index', 32)
                try:
                    states = [st]
                    def step(fun, mk):
                        nonlocal states
                        out = []
                        for s0 in states:
                            for o in A.run(fun, mk(s0), s0):
                                if o.kind == 'noreturn': continue
                                if o.kind != 'ret': raise Bad('%s throws' % fun.dem)
                                out.append(o.st)
                        states = out
                    step(new, lambda s0: [O[0]])
                    for a, b in ents: step(add_, lambda s0: [O[0]] + [string(s0, x) for x in (C('u'), a, a, b)])
                    me = O[0]
                    if how == 'copied': step(copy, lambda s0: [O[1], O[0]]); me = O[1]
                    elif how == 'assigned':
                        step(new, lambda s0: [O[1]]); step(add_, lambda s0: [O[1]] + [string(s0, C(x)) for x in 'uxxy']); step(assign, lambda s0: [O[1], O[0]]); me = O[1]
                    elif how: step(assign, lambda s0: [O[0], O[0]])
                    if how in ('copied', 'assigned'): step(free, lambda s0: [O[0]])       # the copy has attributes of its own
                    for s0 in states:
                        for i in (range(n) if by == 'index' else [None]):
                            res = ptr(A.fresh('&result', 64, True)); s1 = s0.copy(); A.assume(s1, icmp('eq', res, const(0, 64)), False)
                            args = [me] + ([const(i, 32)] if by == 'index' else [string(s1, q_)] if by == 'name' else [string(s1, C('u')), string(s1, q_)] if by else [])
                            text = what in ('value', 'localName', 'qualifiedName')
                            for o in A.run(f, ([res] if text else []) + args, s1):
                                if o.kind == 'noreturn': continue
                                if o.kind != 'ret': raise Bad('throws')
                                def body(q):
                                    hit = [k for k in range(n) if len(ents[k][0]) == len(q_) and all(q.eq(x, y) for x, y in zip(ents[k][0], q_))][:1] if by in ('name', 'uri') else []
                                    if not consistent(A, q.st): return
                                    if text:
                                        w = ents[i][1 if what == 'value' else 0] if by == 'index' else ents[hit[0]][1] if hit else []
                                        g = T.read_string(A, q.st, res, 'the result')[0]
                                        ok = len(g) == len(w) and all(x is y or A.decide(q.st, icmp('eq', x, y)) is True for x, y in zip(g, w))
                                    else:
                                        w = n if what == 'count' else int(bool(hit)) if what == 'hasValue' else hit[0] if hit else -1
                                        ok = A.decide(q.st, icmp('eq', o.val, const(w, o.val.w))) is True
                                    if not ok: bad.append('%s of %d attributes is wrong' % (what, n))
                                every(A, o.st, body)
                except Bad as e: bad.append(str(e))
                except Limit as e: und = str(e)
                ck.analysed |= A.analysed
                if bad: und = None
                ck.ob('%s%s of %d attributes%s' % (sig, ' (two characters)' if long else '', n, ' ' + how if how else ''), None if und else not bad, '%s:%s' % (f.file, f.line), und or '; '.join(list(dict.fromkeys(bad))[:4]))
    ck.need(count, 'attribute queries', 60)
