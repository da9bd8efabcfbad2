"""Contracts of the SSE intrinsics the code uses, over 128-bit vectors; byte memory seen as 128-bit words."""
import z3
from core import *
from models import *
def lanes(v, w): return [z3.Extract(w * i + w - 1, w * i, v) for i in range(128 // w)]
def cat(ls): return z3.simplify(z3.Concat(*reversed(ls)))
class V128(Obj):
    """bytes at base[off..) as an array of 128-bit words"""
    def __init__(s, base, off): s.base, s.off = base, off
    def copy(s): return s
    def bound(s, cx):
        v = cx.read(s.base); n = cx.ix(vlen(v)); return z3.If(z3.ULE(cx.ix(s.off), n), z3.LShR(n - cx.ix(s.off), z3.BitVecVal(4, 64)), z3.BitVecVal(0, 64))
    def get_path(s, cx, p):
        if p[0] != 'i': raise Unsupported('vector view')
        v = cx.read(s.base); k = cx.ix(p[1]); bs = []
        for i in range(16):
            x = cx.vec_get(v, cx.norm(cx.ix(s.off) + k * 16 + i)); bs.append(z3.BitVecVal(x, 8) if isinstance(x, int) else x)
        return cat(bs)
def bitcast(cx, e, v):
    """reinterpret_cast of a byte pointer to a pointer to 128-bit vectors"""
    T = cx.T(e['t'])
    if T['k'] != 'ptr' or not isinstance(v, Ptr) or v.ref is None: return None
    if cx.T(T['e'])['k'] != 'vec': return None
    r = v.ref
    if isinstance(cx.store.get(r.cell), V128): return None
    if not r.path or r.path[-1][0] != 'i': raise Unsupported('vector view of an object')
    cx.res.assumed.add('descriptor memory is 16-byte aligned where it is read as 128-bit words')
    c = cx.new_cell('words', V128(Ref(r.cell, r.path[:-1]), r.path[-1][1])); return Ptr(c.at(z3.BitVecVal(0, 64)))
class PS(Obj):
    """four single-precision lanes, each the exact conversion of an integer (or unknown)"""
    def __init__(s, ls): s.ls = ls
    def copy(s): return s
    def havoc(s, cx, base): return PS([None] * 4)
def V(cx, a):
    v = rd(cx, a)
    if isinstance(v, Undef): cx.undef_use(v); return cx.fresh('undef', z3.BitVecSort(128))
    return v
def intr(name):
    def d(f):
        @model(name)
        def g(cx, c): return f(cx, *[V(cx, a) for a in c.args])
        return f
    return d
@model('_mm_load_si128', '_mm_loadu_si128', '_mm_lddqu_si128')
def _(cx, c):
    p = rd(cx, c.args[0]); cx.check_ref(cx.deref(p)); return cx.read(p.ref)
intr('_mm_setzero_si128')(lambda cx: z3.BitVecVal(0, 128))
def b32(x): return z3.BitVecVal(x, 32) if isinstance(x, int) else x
intr('_mm_set_epi32')(lambda cx, a, b, c, d: cat([b32(d), b32(c), b32(b), b32(a)]))
intr('_mm_set1_epi8')(lambda cx, a: cat([(z3.BitVecVal(a, 8) if isinstance(a, int) else a)] * 16))
intr('_mm_xor_si128')(lambda cx, a, b: a ^ b)
intr('_mm_and_si128')(lambda cx, a, b: a & b)
intr('_mm_or_si128')(lambda cx, a, b: a | b)
intr('_mm_andnot_si128')(lambda cx, a, b: ~a & b)
def srl16(cx, a, n):
    n = z3.Extract(63, 0, n) if isz(n) and n.size() == 128 else z3.BitVecVal(n, 64) if isinstance(n, int) else z3.ZeroExt(32, n)
    return cat([z3.If(z3.UGT(n, 15), z3.BitVecVal(0, 16), z3.LShR(x, z3.Extract(15, 0, n))) for x in lanes(a, 16)])
intr('_mm_srl_epi16')(srl16)
intr('_mm_srli_epi16')(srl16)
def shuffle(cx, a, b):
    src = lanes(a, 8); out = []
    for ix in lanes(b, 8):
        r = src[15]; lo = z3.Extract(3, 0, ix)
        for k in range(14, -1, -1): r = z3.If(lo == k, src[k], r)
        out.append(z3.If(z3.Extract(7, 7, ix) == 1, z3.BitVecVal(0, 8), r))
    return cat(out)
intr('_mm_shuffle_epi8')(shuffle)
def lanewise(w, f): return lambda cx, a, b: cat([f(x, y) for x, y in zip(lanes(a, w), lanes(b, w))])
for w in (8, 16, 32, 64):
    intr('_mm_add_epi%d' % w)(lanewise(w, lambda x, y: x + y)); intr('_mm_sub_epi%d' % w)(lanewise(w, lambda x, y: x - y))
def sad(cx, a, b):
    h = cx.hooks.get('lanes')
    if h: a = h(cx, a)
    d = [z3.ZeroExt(24, z3.If(z3.UGE(x, y), x - y, y - x)) for x, y in zip(lanes(a, 8), lanes(b, 8))]
    return cat([z3.ZeroExt(32, sum(d[1:8], d[0])), z3.ZeroExt(32, sum(d[9:], d[8]))])
intr('_mm_sad_epu8')(sad)
intr('_mm_cvtepi32_ps')(lambda cx, a: PS(lanes(a, 32)))
intr('_mm_movehl_ps')(lambda cx, a, b: PS([b.ls[2], b.ls[3], a.ls[2], a.ls[3]]))
def cvtps(cx, a):
    out = []
    for i, x in enumerate(a.ls):
        u = cx.fresh('cvt', z3.BitVecSort(32))
        if x is not None and cx.hint(lambda: cx.valid(z3.And(x <= 2**24, x >= -2**24))): out.append(x); continue
        out.append(u if x is None else z3.If(z3.And(x <= 2**24, x >= -2**24), x, u))     # single precision is exact up to 2^24
    return cat(out)
intr('_mm_cvtps_epi32')(cvtps)
intr('_mm_cvtsi128_si32')(lambda cx, a: z3.Extract(31, 0, a))
intr('_mm_extract_epi16')(lambda cx, a, i: z3.ZeroExt(16, lanes(a, 16)[cx.conc(i) & 7]))
intr('_mm_unpackhi_epi64')(lambda cx, a, b: cat([lanes(a, 64)[1], lanes(b, 64)[1]]))
intr('_mm_srli_si128')(lambda cx, a, n: z3.LShR(a, 8 * min(cx.conc(n), 16)) if cx.conc(n) < 16 else z3.BitVecVal(0, 128))
