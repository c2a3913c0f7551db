"""Fixed-width integer and float (de)serialisation."""
import re
from expr import *
from ai import AI, State, ptr, isptr
from ir import Anchor
from mem import getter_field
LEVEL = 'proof'
RULE = ('value graph of every (de)serialiser computed by abstract interpretation for symbolic buffer, offset and value; bit provenance of each '
        'byte written / of the value returned compared with the byte order named by the function; written cells and advance compared with the width')
EXPLANATION = RULE
ASSUMPTIONS = ['offset + width does not wrap around 2^32 (offset < 2^31)', 'host is little endian for the reads of a double/float through a cast (target triple of the build)']
PAT = re.compile(r'^(de)?serialize(LE|BE)(U?)(Int(16|24|32|64)|Double|Float)$')

def run(ck):
    mod = ck.mod
    fns = sorted([f for f in mod.libfns() if PAT.match(f.sname) and not f.cls], key=lambda f: f.dem)
    ns = nd = 0
    for f in fns:
        m = PAT.match(f.sname)
        width = {'Double': 64, 'Float': 32}.get(m.group(4)) or int(m.group(5))
        n = width // 8; be = m.group(2) == 'BE'
        A = AI(mod); args = A.argsyms(f)
        where = '%s:%s' % (f.file, f.line)
        st = State()
        off = args[1]
        A.narrow(st, off, 0, (1 << 31) - 64)
        offx = zext(off, 64)
        outs = A.run(f, args, st)
        ck.analysed |= A.analysed
        rets = [o for o in outs if o.kind == 'ret']
        other = [o for o in outs if o.kind != 'ret']
        if not m.group(1):
            ns += 1
            val = args[2]
            ok = len(rets) >= 1 and not other
            msg = '' if ok else 'does not return normally on every path'
            for o in rets:
                log = o.st.mem.get(args[0], ())
                for b in o.st.mem:
                    if b is not args[0] and not (b.op == 'obj' and b.a[0] == 'alloca') and o.st.mem[b]: ok = False; msg = 'writes outside the buffer'
                touched = set()
                for d, of, sz, v in log:
                    if d in ('havoc', 'fill') or d is not offx: ok = False; msg = 'writes at an address other than buffer+offset+k'; continue
                    touched |= set(range(of, of + sz))
                if touched != set(range(n)): ok = False; msg = 'writes bytes %s of the field instead of 0..%d' % (sorted(touched), n - 1)
                for j in range(n):
                    b = A.load(o.st, add(add(args[0], offx), const(j, 64)), 1)
                    lo = 8 * (n - 1 - j) if be else 8 * j
                    want = [(val, lo + k) for k in range(8)]
                    if bits(b) != want: ok = False; msg = 'byte %d is %s, expected bits %d..%d of the value' % (j, b, lo, lo + 7)
                if not (isc(o.val) and cv(o.val) == n): ok = False; msg = 'returns %s, expected the width %d' % (o.val, n)
            ck.ob('write:' + f.dem, ok, where, msg)
        else:
            nd += 1
            byarr = 'ByteArray' in f.dem
            ok = bool(rets); msg = '' if ok else 'never returns a value'
            for o in other:
                if o.kind != 'throw' or not byarr: ok = False; msg = 'does not return on every path'
            for o in rets:
                got = bits(o.val) if o.val is not None else []
                if len(got) != width: ok = False; msg = 'returns %d bits' % len(got); continue
                base = args[0]
                if byarr:
                    bo = getter_field(mod, 'jm::ByteArray::constData() const'); base = A.load(State(), add(args[0], const(bo, 64)), 8, True)
                for i in range(width):
                    j = i // 8; byte = n - 1 - j if be else j
                    want = (base, offx, byte, i % 8)
                    g = got[i]
                    if not isinstance(g, tuple) or leafbyte(g) != want:
                        ok = False; msg = 'bit %d of the result is %s, expected bit %d of byte %d' % (i, g, i % 8, byte); break
                for b, log in o.st.mem.items():
                    if log and not (b.op == 'obj' and b.a[0] in ('alloca', 'heap')): ok = False; msg = 'reading modifies memory'
            ck.ob('read:' + f.dem, ok, where, msg)
    ck.need(ns, 'serialisers', 11); ck.need(nd, 'deserialisers', 18)

def leafbyte(g):
    leaf, bit = g
    if leaf.op != 'init': return None
    d = leaf.a[2]
    return (leaf.a[0], d if isinstance(d, E) else None, leaf.a[1] + bit // 8, bit % 8)
