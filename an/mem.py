"""Helpers that read facts out of abstract states."""
from expr import *
import ai

def byte_leaf(leaf, bit):
    """(base, dyn, byteoffset, bit-in-byte) of a bit of initial memory content"""
    if leaf.op == 'init':
        base, off, dyn = leaf.a[0], leaf.a[1], leaf.a[2]
        return (base, dyn if isinstance(dyn, E) else None, off + bit // 8, bit % 8)
    return None

def written(st, base):
    """[(dyn, off, size, val)] in program order"""
    return list(st.mem.get(base, ()))

def cells(A, st, base, dyn, off, n):
    """content after the function: n bytes at base+dyn+off"""
    a = base if dyn is None else add(base, dyn)
    return [A.load(st, add(a, const(off + j, 64)), 1) for j in range(n)]

def getter_field(mod, dem):
    """offset of the member an accessor returns (the field is identified by the public accessor, not by name)"""
    f = mod.dem(dem)
    A = ai.AI(mod); args = A.argsyms(f)
    outs = [o for o in A.run(f, args) if o.kind == 'ret']
    for o in outs:
        v = o.val
        if v is not None and v.op == 'init' and v.a[0] is args[0]: return v.a[1]
    from ir import Anchor
    raise Anchor('%s does not return a member' % dem)

def cbits(e):
    """bit provenance with initial memory identified byte by byte (independent of the access width)"""
    out = []
    for g in bits(e):
        if isinstance(g, tuple) and g[0].op == 'init':
            l = g[0]; d = l.a[2]
            out.append(('m', l.a[0].id, d.id if isinstance(d, E) else 0, l.a[1] + g[1] // 8, g[1] % 8))
        elif isinstance(g, tuple): out.append((g[0].id, g[1]))
        else: out.append(g)
    return out
def same(a, b):
    if a is b: return True
    if a.w != b.w: return False
    x = cbits(a)
    return x == cbits(b) and None not in x
