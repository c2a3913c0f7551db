"""Single-byte code pages."""
from expr import *
from ai import State, ptr, obj, Limit
from ir import Anchor
from text import Text, Bad
import piece
LEVEL = 'other'
RULE = ('constructor, decoding and encoding of each code page are abstractly interpreted with one arbitrary byte (or character) at each position of a text; the paths partition '
        'the domain and are tabulated over all 256 bytes (65536 characters); the tables are compared with the published code page and with each other')
EXPLANATION = RULE
ASSUMPTIONS = ['bytes that the code page leaves undefined (Windows-1252: 81, 8D, 8F, 90, 9D) and characters outside of the code page are not decided']

def run(ck):
    T = Text(ck); m = ck.mod
    pages = (('Windows1252Decoder', 'cp1252'), ('MacRomanDecoder', 'mac_roman'), ('RawDecoder', 'latin-1'))
    n = 0
    for cls, codec in pages:
        # the published code page; MacRoman maps byte DB to the euro sign and F0 to the private use character
        std = {}
        for b in range(1, 256):
            try: std[b] = ord(bytes([b]).decode(codec))
            except UnicodeDecodeError: pass
        ctor = m.dem('jm::%s::%s()' % (cls, cls), strict=False); dec = m.dem('jm::%s::decode(char const*)' % cls, strict=False); enc = m.dem('jm::%s::encode(jm::CharArray const&)' % cls, strict=False)
        if not (ctor and dec and enc): raise Anchor('%s not found' % cls)
        def base():
            A = T.ai(); st = State(); a = ptr(sym('&decoder', 64, True))
            outs = A.run(ctor, [a], st)
            if len(outs) != 1: raise Anchor('%s: construction depends on its surroundings' % cls)
            A.size = {k: v for k, v in A.size.items()}
            return A, outs[0].st, a
        for size, pos in ((1, 0), (3, 0), (3, 1), (3, 2)):
            k = '%s[%d of %d]' % (cls, pos + 1, size)
            # decoding
            for what in ('decode', 'encode'):
                key = '%s.%s' % (k, what); bad = []
                where = '%s:%s' % ((dec if what == 'decode' else enc).file, (dec if what == 'decode' else enc).line)
                try:
                    A, st, a = base()
                    r = obj('alloca', 'result')
                    if what == 'decode':
                        x = sym('b', 8)
                        h = T.heap(A, 'text', size + 1)
                        for i in range(size): A.store(st, add(h, const(i, 64)), x if i == pos else const(65 + i, 8), 1)
                        A.store(st, add(h, const(size, 64)), const(0, 8), 1)
                        A.assume(st, icmp('eq', x, const(0, 8)), False)
                        outs = A.run(dec, [r, a, h], st)
                    else:
                        x = sym('c', 16); ca = ptr(sym('&chars', 64, True)); A.assume(st, icmp('eq', x, const(0, 16)), False)
                        T.place_chars(A, st, ca, 'chars', [x if i == pos else const(65 + i, 16) for i in range(size)])
                        outs = A.run(enc, [r, a, ca], st)
                    ck.analysed |= A.analysed
                    if any(o.kind != 'ret' for o in outs): ck.ob(key, False, where, 'may throw'); continue
                    def val(o):
                        if what == 'decode': got = T.read_chars(A, o.st, r, 'the text')[0]
                        else: got = T.read_bytes(A, o.st, r, 'the encoded text')[0]
                        if len(got) != size: raise Bad('%d elements instead of %d' % (len(got), size))
                        for i, g in enumerate(got):
                            g = A.resolve(g, o.st)
                            if i != pos and not (isc(g) and cv(g) == 65 + i): raise Bad('element %d is %s' % (i, g))
                        return got[pos]
                    t = piece.tabulate(A, outs, x, val)
                except Bad as e: ck.ob(key, False, where, str(e)); continue
                except (piece.Untab, Limit) as e: ck.ob(key, None, where, str(e)); continue
                if what == 'decode': bad = [(b, t.get(b), u) for b, u in std.items() if t.get(b) != u]
                else: bad = [(u, t.get(u), b) for b, u in std.items() if t.get(u) != b]
                n += len(std)
                ck.ob(key, not bad, where, ', '.join('%02X gives %s instead of %02X' % (b, 'nothing' if g is None else '%02X' % g, u) for b, g, u in bad[:8]))
    ck.counts['table entries'] = n
