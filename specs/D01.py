"""D01: Hamming distance counts exactly the differing bits."""
from descutil import *
import simd
UNITS = {'desc': r'^(aslam::common::|vu::)'}
ASSUMPTIONS = ['descriptor memory is 16-byte aligned (required by the SSE loads; the aligned form is part of the interface)', 'the SSE intrinsics behave as documented (engine/simd.py); integer to single-precision conversion is exact up to 2^24', 'sizes are positive multiples of 16 bytes up to 496 (the 8-bit lane counters of the algorithm)']
LEVEL_NOTE = "loop invariant over the 16 byte lanes proved for every content and every admitted size; refusal of unequal sizes proved for all sizes"
REPLAY_SECS = (15, 200)
I, B = z3.BitVecSort(64), z3.BitVecSort(32)
def pop(x): return sum([z3.ZeroExt(31, z3.Extract(i, i, x)) for i in range(1, 8)], z3.ZeroExt(31, z3.Extract(0, 0, x)))
def glob(cx, v, V):
    if 'init' in V: return cx.new_cell('global:' + V['n'], cx.ev(V['init']))
class Lanes:
    """P_i(k): differing bits in byte i of the first k 16-byte words (defined by its recursion)"""
    def __init__(s, cx, A, oa, Bb, ob):
        cx.fresh_n += 1; s.cx = cx; s.P = [z3.Function('bits!%d!%d' % (cx.fresh_n, i), I, B) for i in range(16)]; s.x = lambda j: z3.Select(A, oa + j) ^ z3.Select(Bb, ob + j); s.seen = set()
        for P in s.P: cx.assume(P(z3.BitVecVal(0, 64)) == 0)
    def step(s, k):
        """definition of P(k+1)"""
        for i, P in enumerate(s.P): s.cx.assume(P(z3.simplify(k + 1)) == P(k) + pop(s.x(k * 16 + i)))
    def total(s, n): return sum([P(n) for P in s.P[1:]], s.P[0](n))
def t_loop(env):
    cx = env.ctx('desc', 'bv'); p = cx.prog; st = {}; cx.hooks['bitcast'] = simd.bitcast; cx.hooks['global'] = glob
    fid = fn_id(p, 'vu::hamming')
    def inv(cx, L):
        N, G = st['N'], st['G']; k = cx.ix(L['signature1'].ref.path[-1][1]); k2 = cx.ix(L['signature2'].ref.path[-1][1]); x4 = L['xmm4']
        if st.get('entered'): G.step(z3.simplify(k - 1))
        st['entered'] = True
        ls = simd.lanes(x4, 8)
        return [('position', z3.And(k2 == k, z3.ULT(k, N)))] + [('lane %d' % i, z3.And(z3.ZeroExt(24, ls[i]) == P(k), z3.ULE(P(k), z3.Extract(31, 0, k) * 8))) for i, P in enumerate(G.P)]
    def known(cx, x):
        """replace each lane by the ghost count it is proved equal to"""
        N, G = st['N'], st['G']; N32 = z3.Extract(31, 0, N); G.step(z3.simplify(N - 1)); out = []
        for y, P in zip(simd.lanes(x, 8), G.P):
            q = P(N)
            cx.oblige('lane invariant after the loop', z3.And(y == z3.Extract(7, 0, q), z3.ULE(q, N32 * 8)))
            b = cx.fresh('lane', z3.BitVecSort(8)); cx.assume(z3.And(q == z3.ZeroExt(24, b), z3.ULE(q, N32 * 8))); out.append(b)
            cx.assume(y == b)
        st['total'] = sum([z3.ZeroExt(24, b) for b in out[1:]], z3.ZeroExt(24, out[0]))
        return simd.cat(out)
    cx.hooks['lanes'] = known
    cx.loopspecs = [LoopSpec(inv, name='word loop')]
    def run(cx):
        st.clear(); N = cx.fresh('words', I); N32 = z3.Extract(31, 0, N); cx.input('16-byte words', N)
        cx.assume(z3.And(z3.UGE(N, 1), z3.ULE(N, 31)))
        et = byte_t(cx); a, A = buf(cx, 'a', et, N * 16); b, Bb = buf(cx, 'b', et, N * 16); z = z3.BitVecVal(0, 64)
        G = Lanes(cx, A, z, Bb, z); st.update(N=N, G=G)
        s, v = attempt(cx, lambda: call(cx, fid, None, Ptr(a.at(z)), Ptr(b.at(z)), z3.simplify(z3.Extract(31, 0, N * 16))))
        cx.oblige('the distance is computed', s == 'ok')
        if s != 'ok': return
        G.step(z3.simplify(N - 1))
        cx.oblige('distance equals the number of differing bits', v == st.get('total', G.total(N))); cx.oblige('the distance is between 0 and the number of bits', z3.ULE(v, z3.Extract(31, 0, N) * 128)); cx.cover('end')
    cx.explore('hamming', run); return cx
H = z3.Function('hamming', z3.ArraySort(I, z3.BitVecSort(8)), I, z3.ArraySort(I, z3.BitVecSort(8)), I, B, B)
def contract(cx, c):
    """contract of Hamming::operator()(a, b, size), proved in task 'loop'"""
    a, b, n = [cx.read(x) for x in c.args]; out = []
    n = z3.BitVecVal(n, 32) if isinstance(n, int) else n
    cx.oblige('precondition of the distance: positive multiple of 16 bytes up to 496', z3.And(n & 15 == 0, n >= 16, n <= 496))
    for p in (a, b):
        r = cx.deref(p); base = Ref(r.cell, r.path[:-1]); v = vcopy(cx.read(base)); cx.vec_sym(v); off = cx.ix(r.path[-1][1])
        cx.oblige('memory access in bounds', z3.And(z3.ULE(off, cx.ix(v.n)), z3.ULE(z64(n), cx.ix(v.n) - off)), 'distance operand'); out += [v.arr, off]
    h = H(out[0], out[1], out[2], out[3], n); cx.assume(z3.And(h >= 0, h <= n * 8)); return h
def t_diff(env):
    cx = env.ctx('desc', 'bv'); p = cx.prog
    for f in p.find('aslam::common::Hamming::operator()'): cx.contracts[f] = contract
    for nm in ('diff_const', 'diff_write'):
        f = fn_id(p, 'vu::' + nm); t = rtype(p, f, 0)
        for ka, kb in ([('alias', 'alias'), ('own', 'own'), ('own', 'alias')] if nm == 'diff_write' else [('alias', 'alias')]):
            def run(cx, f=f, ka=ka, kb=kb, t=t):
                a, b = mk(cx, 'a', t, ka), mk(cx, 'b', t, kb); (_, sa, _, oa, A), (_, sb, _, ob, Bb) = view(cx, a), view(cx, b)
                for x in (sa, sb): cx.assume(z3.And(x & 15 == 0, x >= 16, x <= 496))
                s, v = attempt(cx, lambda: call(cx, f, None, a, b))
                if s != 'ok': cx.oblige('descriptors of equal size are compared', sa != sb)
                else:
                    cx.oblige('descriptors of unequal size are refused', sa == sb)
                    # symmetric by the contract of the distance: the count of a^b is that of b^a
                    cx.oblige('the distance covers the whole of both descriptors', z3.Or(v == z3.ZeroExt(32, H(A, oa, Bb, ob, sa)), v == z3.ZeroExt(32, H(Bb, ob, A, oa, sa)))); cx.cover('end')
            cx.explore('%s %s %s' % (nm, ka, kb), run)
    return cx
def tasks(env):
    return [Task('loop', t_loop), Task('sizes', t_diff)]
