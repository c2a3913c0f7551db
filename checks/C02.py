"""UTF-8 and UTF-16."""
from expr import *
from ai import ptr
from text import Text, Q
LEVEL = 'other'
RULE = ('encoding and decoding are abstractly interpreted for every text of the small lengths with arbitrary characters (bytes); on every path the result is compared with the '
        'published transformation format, every read is checked against the extent of the text including its terminator')
EXPLANATION = RULE
ASSUMPTIONS = ['UTF-8 sequences of four bytes (no 16-bit character) are only checked for staying inside the text', 'UTF-16 text ends with a zero character']

def run(ck):
    T = Text(ck); T.split = True; deep = ck.tier == 'thorough'
    D = lambda n='&decoder': ('any', ptr(sym(n, 64, True)))
    z8 = lambda e: trunc(e, 8)
    def enc8(q, cs):
        out = []
        for c in cs:
            if q.true(icmp('ult', c, const(0x80, 16))): out.append(z8(c))
            elif q.true(icmp('ult', c, const(0x800, 16))): out += [z8(or_(lshr(c, const(6, 16)), const(0xC0, 16))), z8(or_(and_(c, const(0x3f, 16)), const(0x80, 16)))]
            else: out += [z8(or_(lshr(c, const(12, 16)), const(0xE0, 16))), z8(or_(and_(lshr(c, const(6, 16)), const(0x3f, 16)), const(0x80, 16))), z8(or_(and_(c, const(0x3f, 16)), const(0x80, 16)))]
        return out
    for n in (0, 1, 2, 3) + ((4,) if deep else ()):
        T.case('UTF-8 encode[%d]' % n, 'jm::UTF8Decoder::encode(jm::CharArray const&)', [D(), ('chars', 's', n)], lambda q, d, s: {'ret': enc8(q, s)}, ret='bytes')
        for be in (0, 1):
            def pre(A, st, be=be): A.store(st, add(D()[1], const(ck.mod.off('jm::UTF16Decoder', 'be'), 64)), const(be, 8), 1)
            def enc16(q, d, s, be=be):
                out = []
                for c in s:
                    p = [z8(c), z8(lshr(c, const(8, 16)))]
                    out += p[::-1] if be else p
                return {'ret': out}
            T.case('UTF-16%s encode[%d]' % ('BE' if be else 'LE', n), 'jm::UTF16Decoder::encode(jm::CharArray const&)', [D(), ('chars', 's', n)], enc16, ret='bytes', pre=pre)
            def dec16(q, d, b, be=be):
                s = b[:]; k = len(s)
                pair = lambda i: or_(shl(zext(s[i + (1 - be)], 16), const(8, 16)), zext(s[i + be], 16))
                i = 0
                if k >= 2:
                    for m in ((0xFE, 0xFF), (0xFF, 0xFE)):
                        if q.eq(s[0], m[0]) and q.eq(s[1], m[1]): i = 2
                if k >= 3 and i == 0 and q.eq(s[0], 0xEF) and q.eq(s[1], 0xBB) and q.eq(s[2], 0xBF): return {'throw': True}
                out = []
                while i + 1 < k:
                    if q.eq(s[i], 0) and q.eq(s[i + 1], 0): break
                    out.append(pair(i)); i += 2
                return {'ret': out}
            T.case('UTF-16%s decode[%d]' % ('BE' if be else 'LE', n), 'jm::UTF16Decoder::decode(char const*)', [D(), ('cstr', 's', 2 * n, 2, True)], dec16, ret='chars', pre=pre, leak=False)
    def dec8(q, d, b):
        """sequences of up to three bytes and single bytes; None where the format says nothing"""
        k = len(b); i = 0; out = []
        if k >= 2 and q.eq(b[0], 0xFE) and q.eq(b[1], 0xFF): return {'throw': True}
        if k >= 2 and q.eq(b[0], 0xFF) and q.eq(b[1], 0xFE): return {'throw': True}
        if k >= 3 and q.eq(b[0], 0xEF) and q.eq(b[1], 0xBB) and q.eq(b[2], 0xBF): i = 3
        W = lambda e: zext(e, 16)
        while i < k:
            if q.eq(b[i], 0): break
            if q.within(b[i], 0, 0x7F): out.append(W(b[i])); i += 1; continue
            n = 2 if q.within(b[i], 0xC0, 0xDF) else 3 if q.within(b[i], 0xE0, 0xEF) else 0
            if n == 0: return None
            if i + n > k: return None
            v = and_(W(b[i]), const(0x1F if n == 2 else 0x0F, 16))
            for j in range(1, n):
                if not q.within(b[i + j], 0x80, 0xBF): return None
                v = or_(shl(v, const(6, 16)), and_(W(b[i + j]), const(0x3F, 16)))
            out.append(v); i += n
        return {'ret': out}
    for n in (0, 1, 2, 3, 4) + ((5,) if deep else ()):
        T.case('UTF-8 decode[%d]' % n, 'jm::UTF8Decoder::decode(char const*)', [D(), ('cstr', 's', n)], dec8, ret='chars', leak=False)
    # strings constructed from text
    def ctor(q, t, b, n=None):
        r = dec8(q, None, b)
        return r if r is None or r.get('throw') else {'t': r['ret']}
    for n in (0, 1, 2, 3):
        T.case('String(text)[%d]' % n, 'jm::String::String(char const*)', [('raw', 't'), ('cstr', 's', n)], ctor, leak=n < 2)
        T.case('String(text, length)[%d]' % n, 'jm::String::String(char const*, long)', [('raw', 't'), ('cstr', 's', n), ('int', n)], ctor, leak=n < 2)
        T.case('String(bytes)[%d]' % n, 'jm::String::String(jm::ByteArray const&)', [('raw', 't'), ('bytes', 's', n)], ctor, leak=n < 2)
    ck.counts['cases'] = T.n; ck.counts['paths'] = T.paths
