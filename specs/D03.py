"""D03: descriptor means and spread match their definitions."""
from descutil import byte_t
from util import *
import algos, eigen
from eigen import *
UNITS = {'desc': r'^(aslam::common::|vu::)'}
ASSUMPTIONS = ['bit access and Hamming distance as contracted in D01 and D02', 'fewer than 2^28 descriptor bytes and fewer than 2^31 descriptors', 'floating point arithmetic is exact real arithmetic', 'the descriptors averaged have one size', 'counts per bit are introduced as ghost functions with their recursive definition', 'Eigen column sums, first minimal coefficient and squared norm behave as specified']
LEVEL_NOTE = "counting loops, mean rounding, float mean, pairwise distances, closest-to-median choice and deviations proved for all numbers, sizes and contents in real arithmetic"
REPLAY_SECS = (15, 200)
Z, R_ = z3.IntSort(), z3.RealSort()
BIT = z3.Function('bit_of_byte', Z, Z, z3.BoolSort())
def bax(cx): t = z3.Int('t!z'); cx.assume(z3.ForAll([t], z3.Not(BIT(0, t)), patterns=[BIT(0, t)]))
def getbit(cx, c):
    """contract of getBit, proved in D02"""
    b = cx.ix(cx.read(c.args[0])); m = mval(cx, c.args[1])
    if not cx.branch(z3.And(b / 8 < cx.ix(m.r))): raise Abort(cx.cur_line, 'CHECK_LT')
    return BIT(m.term(cx, b / 8, 0), b % 8)
def setbit(cx, c):
    """contract of setBit, proved in D02"""
    b = cx.ix(cx.read(c.args[0])); r = cx.deref(cx.read(c.args[1])); m = mval(cx, r)
    if not cx.branch(z3.And(b / 8 < cx.ix(m.r))): raise Abort(cx.cur_line, 'CHECK_LT')
    v, w = m.term(cx, b / 8, 0), cx.fresh('byte', Z); t = z3.Int('t!sb'); cx.assume(z3.And(w >= 0, w < 256)); cx.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < 8), BIT(w, t) == z3.Or(t == b % 8, BIT(v, t))), patterns=[BIT(w, t)]))
    n = m.copy(); n.put(cx, b / 8, 0, w); cx.write(r, n)
class Count:
    """C(b, i): how many of the first i descriptors have bit b set"""
    def __init__(s, cx, has): 
        cx.fresh_n += 1; s.C = z3.Function('count!%d' % cx.fresh_n, Z, Z, Z); b, i = z3.Ints('b!c i!c'); C = s.C
        cx.assume(z3.ForAll([b], C(b, 0) == 0, patterns=[C(b, 0)])); cx.assume(z3.ForAll([b, i], z3.Implies(i >= 0, C(b, i + 1) == C(b, i) + z3.If(has(b, i), 1, 0)), patterns=[C(b, i + 1)]))
    def step(s, cx, has, i): b = z3.Int('b!c'); cx.assume(z3.ForAll([b], s.C(b, i + 1) == s.C(b, i) + z3.If(has(b, i), 1, 0), patterns=[s.C(b, i)]))
def sums_of(cx, L):
    v = vcopy(L['sums']); cx.vec_sym(v); return v
def outer(st):
    def inv(cx, L):
        i = cx.ix(L['i']) if L.has('i') else cx.ix(cx.read(L.idx)); v = sums_of(cx, L); b = z3.Int('b!o')
        return [('range', z3.And(i >= 0, i <= st['n'])), ('one counter per bit', cx.ix(v.n) == st['nb'])] + st['same'](cx) + [('counted so far', z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < st['nb']), z3.Select(v.arr, b) == st['G'].C(b, i)), patterns=[z3.Select(v.arr, b)]))]
    return LoopSpec(inv, name='descriptor loop', depth=0)
def inner(st, idx=False):
    def inv(cx, L):
        i = st['outer'](cx, L); k = cx.ix(L['bit']); v = sums_of(cx, L); b = z3.Int('b!i'); C = st['G'].C; st['G'].step(cx, st['has'], i)
        return [('range', z3.And(k >= 0, k <= st['nb'], i >= 0, i < st['n'])), ('one counter per bit', cx.ix(v.n) == st['nb'])] + st['same'](cx) + [('counted so far', z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < st['nb']), z3.Select(v.arr, b) == z3.If(b < k, C(b, i + 1), C(b, i))), patterns=[z3.Select(v.arr, b)]))]
    return LoopSpec(inv, name='bit loop', depth=1)
def inp(cx, p, fid, i=0):
    D = sym_mat(cx, 'descriptors', ptype(p, fid, i)); r, n = cx.ix(D.r), cx.ix(D.c); cx.assume(z3.And(r < 2**28, n < 2**31 - 1)); cx.input('bytes', r); cx.input('descriptors', n); return D, r, n
def has_of(cx, D): return lambda b, i: BIT(D.term(cx, b / 8, i), b % 8)
def counts(cx):
    """exploration state for the two counting loops"""
def bitc(cx, p):
    for f in p.find('aslam::common::descriptor_utils::getBit'): cx.contracts[f] = getbit
    for f in p.find('aslam::common::descriptor_utils::setBit'): cx.contracts[f] = setbit
def t_round(env):
    cx = env.ctx('desc', 'int'); p = cx.prog; fid = fn_id(p, 'vu::mean_rounded'); st = {}; bitc(cx, p)
    def setl(cx, L):
        k = cx.ix(L['bit']); m = mval(cx, st['m']); b = z3.Int('b!s'); n = st['n']; C = st['G'].C
        return [('range', z3.And(k >= 0, k <= st['nb'])), ('size', cx.ix(m.r) == st['r']), ('bits so far', z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < st['nb']), BIT(m.term(cx, b / 8, 0), b % 8) == z3.And(b < k, C(b, n) > n / 2)), patterns=[C(b, n)]))]
    cx.loopspecs = [outer(st), inner(st), LoopSpec(setl, name='majority', depth=0)]
    st['outer'] = lambda cx, L: cx.ix(L['i']); st['same'] = lambda cx: [('mean stays zero', z3.And(cx.ix(mval(cx, st['m']).r) == st['r'], zero(cx, mval(cx, st['m']))))]
    def zero(cx, m): b = z3.Int('b!z'); return z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < st['r']), m.term(cx, b, 0) == 0))
    def run(cx):
        bax(cx); D, r, n = inp(cx, p, fid); has = has_of(cx, D); G = Count(cx, has); m = cx.new_cell('mean', sym_mat(cx, 'mean', ptype(p, fid, 1))); st.update(D=D, r=r, n=n, nb=r * 8, G=G, has=has, m=m); d = cx.new_cell('descriptors', D.copy())
        s, v = attempt(cx, lambda: call(cx, fid, None, d, Ptr(m)))
        if s != 'ok': cx.oblige('descriptors of at least one byte are accepted', r <= 0); return
        M = mval(cx, m); b = z3.Int('b!p'); cx.oblige('the mean has the size of a descriptor', z3.And(cx.ix(M.r) == r, r > 0))
        cx.oblige('a bit is set exactly when more than half of the descriptors have it', z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < 8 * r), BIT(M.term(cx, b / 8, 0), b % 8) == (G.C(b, n) > n / 2)), patterns=[G.C(b, n)])); cx.oblige('the descriptors are unchanged', same_mat(cx, mval(cx, d), D)); cx.cover('end')
    cx.explore('rounded mean', run); return cx
def t_float(env):
    cx = env.ctx('desc', 'int'); p = cx.prog; fid = fn_id(p, 'vu::mean_float'); st = {}; bitc(cx, p)
    def frac(cx, L):
        k = cx.ix(L['bit']); m = mval(cx, st['m']); b = z3.Int('b!s'); n = st['n']; C = st['G'].C
        return [('range', z3.And(k >= 0, k <= st['nb'])), ('size', cx.ix(m.r) == st['nb']), ('fractions so far', z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < k), m.term(cx, b, 0) == z3.ToReal(C(b, n)) / z3.ToReal(n)), patterns=[C(b, n)]))]
    cx.loopspecs = [outer(st), inner(st), LoopSpec(frac, name='fractions', depth=0)]
    st['outer'] = lambda cx, L: cx.ix(L['i']); st['same'] = lambda cx: [('size of the mean', cx.ix(mval(cx, st['m']).r) == st['nb'])]
    def run(cx):
        bax(cx); D, r, n = inp(cx, p, fid); has = has_of(cx, D); G = Count(cx, has); m = cx.new_cell('mean', sym_mat(cx, 'mean', ptype(p, fid, 1))); st.update(D=D, r=r, n=n, nb=r * 8, G=G, has=has, m=m); d = cx.new_cell('descriptors', D.copy())
        s, v = attempt(cx, lambda: call(cx, fid, None, d, Ptr(m)))
        if s != 'ok': cx.oblige('descriptors are accepted', z3.Or(r <= 0, n <= 0)); return
        M = mval(cx, m); b = z3.Int('b!p'); cx.oblige('the mean has one entry per bit', z3.And(cx.ix(M.r) == 8 * r, n > 0))
        cx.oblige('an entry is the fraction of descriptors that have the bit', z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < 8 * r), M.term(cx, b, 0) == z3.ToReal(G.C(b, n)) / z3.ToReal(n)), patterns=[G.C(b, n)])); cx.oblige('the descriptors are unchanged', same_mat(cx, mval(cx, d), D)); cx.cover('end')
    cx.explore('float mean', run); return cx
def gsum(cx, tag, term):
    cx.fresh_n += 1; F = z3.Function('%s!%d' % (tag, cx.fresh_n), Z, R_); cx.assume(F(0) == 0); return F, lambda k: F(k + 1) == F(k) + term(k)
def col_of(cx, p, what):
    """which column of which matrix a data pointer designates"""
    r = cx.deref(p)
    if not r.path or r.path[-1][0] != 'e': raise Unsupported('descriptor data pointer')
    base = Ref(r.cell, r.path[:-1]); v = cx.read(base); i, j = r.path[-1][1]
    cx.oblige('a descriptor starts at its first byte', eqi(cx, i, 0), what)
    if isinstance(v, View): return v.ref, add(cx, v.j0, j), v
    return base, j, v
def t_abs(env):
    cx = env.ctx('desc', 'int'); p = cx.prog; fid = fn_id(p, 'vu::abs_dev'); st = {}; HAM = z3.Function('distance_to_mean', Z, Z)
    def mean(cx, c):
        """contract of descriptorMeanRoundedToBinaryValue, proved in task 'rounded mean'"""
        d = mval(cx, c.args[0]); r = cx.deref(cx.read(c.args[1])); same_cols(cx, d)
        if not cx.branch(cx.ix(d.r) > 0): raise Abort(cx.cur_line, 'CHECK_GT')
        cur = cx.read(r); m = fresh_mat(cx, 'mean', cur.t, cur.et, d.r, 1); cx.write(r, m); st['mean'] = r
    def same_cols(cx, d): cx.oblige('the mean is taken over all descriptors', same_mat(cx, d, st['D'], 'sc'))
    def ham(cx, c):
        """contract of Hamming::operator(), proved in D01"""
        a, ja, _ = col_of(cx, cx.read(c.args[0]), 'a'); b, jb, _ = col_of(cx, cx.read(c.args[1]), 'b'); n = cx.ix(cx.read(c.args[2]))
        if 'mean' not in st: raise Unsupported('distance before the mean')
        cells = {a.cell: ja, b.cell: jb}; other = [c_ for c_ in cells if c_ != st['mean'].cell]
        cx.oblige('the distance is to the mean', st['mean'].cell in cells and other == [st['d'].cell]); cx.oblige('the distance covers the whole descriptor', n == st['r'])
        if other != [st['d'].cell]: raise PathEnd()
        j = cx.ix(cells[other[0]]); cx.assume(z3.And(HAM(j) >= 0, HAM(j) <= 8 * st['r'])); return HAM(j)
    for f in p.find('aslam::common::Hamming::operator()'): cx.contracts[f] = ham
    for f in p.find('aslam::common::descriptor_utils::descriptorMeanRoundedToBinaryValue'): cx.contracts[f] = mean
    def inv(cx, L):
        i = cx.ix(L['i']); F, step = st['F']; cx.assume(z3.Implies(i >= 0, step(i))); return [('range', z3.And(i >= 0, i <= st['n'])), ('sum so far', cx.zr(L['deviation']) == F(i))]
    cx.loopspecs = [LoopSpec(inv, name='deviation loop')]
    def run(cx):
        st.clear(); D, r, n = inp(cx, p, fid); cx.assume(r > 0); d = cx.new_cell('descriptors', D.copy()); F = gsum(cx, 'distances', lambda k: z3.ToReal(HAM(k))); st.update(D=D, r=r, n=n, d=d, F=F)
        s, v = attempt(cx, lambda: call(cx, fid, None, d)); cx.oblige('the deviation is computed', s == 'ok')
        if s != 'ok': return
        cx.oblige('mean absolute deviation is the mean distance to the mean, zero for fewer than two', cx.zr(v) == z3.If(n < 2, 0, F[0](n) / z3.ToReal(n))); cx.oblige('the descriptors are unchanged', same_mat(cx, mval(cx, d), D)); cx.cover('end')
    cx.explore('mean absolute deviation', run); return cx
def t_diff(env):
    cx = env.ctx('desc', 'int'); p = cx.prog; fid = fn_id(p, 'vu::diff_mean'); st = {}; bitc(cx, p)
    def inv(cx, L):
        k = cx.ix(L['bit']); m = mval(cx, L.ref('bits_of_descriptor')); b = z3.Int('b!d')
        return [('range', z3.And(k >= 0, k <= st['nb'])), ('size', cx.ix(m.r) == st['nb']), ('bits so far', z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < k), m.term(cx, b, 0) == z3.If(st['bit'](b), z3.RealVal(1), z3.RealVal(0)))))]
    cx.loopspecs = [LoopSpec(inv, name='bit loop')]
    SQ = z3.Real('squared_distance')
    def sq(cx, m):
        b = z3.Int('b!q'); x = z3.If(st['bit'](b), z3.RealVal(1), z3.RealVal(0)) - st['M'].term(cx, b, 0)
        cx.oblige('the norm is taken over every bit', cx.ix(m.r) == st['nb']); e = m.term(cx, b, 0)
        cx.oblige('the norm is taken of the difference to the mean', z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < st['nb']), z3.Or(e == x, e == -x)))); return SQ
    cx.hooks['squaredNorm'] = sq
    def run(cx):
        bax(cx); d0 = sym_mat(cx, 'descriptor', ptype(p, fid, 0)); M = sym_mat(cx, 'mean', ptype(p, fid, 1)); r = cx.ix(d0.r); cx.assume(z3.And(r < 2**27, cx.ix(M.r) < 2**31 - 1)); st.update(nb=8 * r, bit=lambda b: BIT(d0.term(cx, b / 8, 0), b % 8), M=M); d, m = cx.new_cell('descriptor', d0.copy()), cx.new_cell('mean', M.copy())
        s, v = attempt(cx, lambda: call(cx, fid, None, d, m))
        if s != 'ok': cx.oblige('a mean with one entry per bit is accepted', cx.ix(M.r) != 8 * r); return
        cx.oblige('a mean of another size is refused', cx.ix(M.r) == 8 * r); cx.oblige('the squared norm is returned', cx.zr(v) == SQ); cx.oblige('the inputs are unchanged', z3.And(same_mat(cx, mval(cx, d), d0), same_mat(cx, mval(cx, m), M))); cx.cover('end')
    cx.explore('difference to the mean', run); return cx
def t_std(env):
    cx = env.ctx('desc', 'int'); p = cx.prog; fid = fn_id(p, 'vu::std_dev'); st = {}; SQ = z3.Function('squared_difference', Z, R_)
    def mean(cx, c):
        """contract of floatDescriptorMean, proved in task 'float mean'"""
        d = mval(cx, c.args[0]); r = cx.deref(cx.read(c.args[1])); cx.oblige('the mean is taken over all descriptors', same_mat(cx, d, st['D'], 'sc'))
        cur = cx.read(r); m = fresh_mat(cx, 'mean', cur.t, cur.et, cx.norm(cx.ix(d.r) * 8), 1); cx.write(r, m); st['mean'] = (r, m.copy())
    def diff(cx, c):
        """contract of differenceToMeanSquaredNorm, proved in task 'difference to the mean'"""
        a = c.args[0]; av = cx.read(a) if isinstance(a, Ref) else a; r, m = st['mean']; M = mval(cx, c.args[1]); A = mval(cx, a)
        cx.oblige('the difference is to the mean', same_mat(cx, M, m, 'dm')); j = st['col'](cx); i = z3.Int('i!dc')
        cx.oblige('the differences are taken of the descriptors in turn', z3.And(cx.ix(A.r) == st['r'], z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < st['r']), A.term(cx, i, 0) == st['D'].term(cx, i, j))))); cx.assume(SQ(j) >= 0); return SQ(j)
    for f in p.find('aslam::common::descriptor_utils::floatDescriptorMean'): cx.contracts[f] = mean
    for f in p.find('aslam::common::descriptor_utils::differenceToMeanSquaredNorm'): cx.contracts[f] = diff
    def inv(cx, L):
        i = cx.ix(L['i']); F, step = st['F']; cx.assume(z3.Implies(i >= 0, step(i))); st['col'] = lambda cx: cx.ix(L['i']); return [('range', z3.And(i >= 0, i <= st['n'])), ('sum so far', z3.And(cx.zr(L['deviation_squared']) == F(i), F(i) >= 0))]
    cx.loopspecs = [LoopSpec(inv, name='deviation loop')]
    def run(cx):
        st.clear(); D, r, n = inp(cx, p, fid); cx.assume(r > 0); d = cx.new_cell('descriptors', D.copy()); F = gsum(cx, 'squares', lambda k: SQ(k)); st.update(D=D, r=r, n=n, d=d, F=F)
        s, v = attempt(cx, lambda: call(cx, fid, None, d)); cx.oblige('the deviation is computed', s == 'ok')
        if s != 'ok': return
        w = cx.zr(v); cx.oblige('standard deviation is the root of the mean squared difference, zero for fewer than two', z3.And(w >= 0, z3.If(n < 2, w == 0, w * w == F[0](n) / z3.ToReal(n)))); cx.oblige('the descriptors are unchanged', same_mat(cx, mval(cx, d), D)); cx.cover('end')
    cx.explore('standard deviation', run); return cx
def t_med(env):
    cx = env.ctx('desc', 'int'); p = cx.prog; fid = fn_id(p, 'vu::closest'); st = {}; H = z3.Function('pairwise_distance', Z, Z, Z)
    def ph(cx, v):
        r = v.ref
        if r is not None and r.path and r.path[-1][0] == 'e' and r.cell == st['d'].cell:
            cx.oblige('a descriptor starts at its first byte', eqi(cx, r.path[-1][1][0], 0)); return cx.ix(r.path[-1][1][1]) + 1
    def hp(cx, z, t): return Ptr(Ref(st['d'].cell, (('e', (0, z3.simplify(z - 1))),)), z)
    cx.hooks['ptr_handle'], cx.hooks['handle_ptr'] = ph, hp
    def bits(cx, c):
        """contract of GetNumBitsDifferent, proved in D01"""
        ab = []
        for a in c.args:
            v = cx.read(a); pp = v.f['data_']; cx.oblige('the distance covers the whole descriptor', cx.ix(v.f['size_bytes_']) == st['r']); j = cx.ix(cx.deref(pp).path[-1][1][1]); cx.oblige('the distance is between descriptors of the set', z3.And(j >= 0, j < st['n'])); ab.append(j)
        a, b = ab; cx.assume(z3.And(H(a, b) == H(b, a), H(a, b) >= 0, H(a, b) <= 8 * st['r'])); return H(a, b)
    for f in p.find('aslam::common::GetNumBitsDifferent'): cx.contracts[f] = bits
    def wrapv(L, cx):
        v = vcopy(L['wrapped_descriptors']); cx.vec_sym(v); return v
    def wrapped(cx, L, upto):
        v = wrapv(L, cx); so = cx.sort(v.et); j = z3.Int('j!w'); e = z3.Select(v.arr, j)
        return [('wrapped count', cx.ix(v.n) == upto), ('wrapped columns', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < upto), z3.And(so.f_data_(e) == j + 1, so.f_size_bytes_(e) == st['r'])), patterns=[e]))]
    def w(cx, L): k = cx.ix(L['descriptor_idx']); return [('range', z3.And(k >= 0, k <= st['n']))] + wrapped(cx, L, k)
    def mat(cx, L, cond):
        m = mval(cx, L.ref('hamming_distance_matrix')); a, b = z3.Ints('a!m b!m'); n = st['n']; lo, hi = z3.If(a < b, a, b), z3.If(a < b, b, a)
        return [('matrix size', z3.And(cx.ix(m.r) == n, cx.ix(m.c) == n)), ('distances so far', z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < n, b >= 0, b < n), m.term(cx, a, b) == z3.If(z3.And(a != b, cond(lo, hi)), H(a, b), 0))))]
    sym = lambda cx: cx.assume(z3.ForAll([z3.Int('a!s'), z3.Int('b!s')], H(z3.Int('a!s'), z3.Int('b!s')) == H(z3.Int('b!s'), z3.Int('a!s')), patterns=[H(z3.Int('a!s'), z3.Int('b!s'))]))
    def row(cx, L): k = cx.ix(L['descriptor_idx_row']); return [('range', z3.And(k >= 0, k <= st['n']))] + wrapped(cx, L, st['n']) + mat(cx, L, lambda lo, hi: lo < k)
    def col(cx, L): k, l = cx.ix(L['descriptor_idx_row']), cx.ix(L['descriptor_idx_col']); return [('range', z3.And(k >= 0, k < st['n'], l >= k + 1, l <= st['n']))] + wrapped(cx, L, st['n']) + mat(cx, L, lambda lo, hi: z3.Or(lo < k, z3.And(lo == k, hi < l)))
    cx.loopspecs = [LoopSpec(w, name='wrap loop'), LoopSpec(row, name='row loop'), LoopSpec(col, name='column loop', depth=1)]
    S = z3.Function('summed_distance', Z, Z)
    def colsum(cx, m):
        a, b = z3.Ints('a!k b!k'); n = st['n']
        cx.oblige('the sums are taken of the pairwise distances', z3.And(cx.ix(m.r) == n, cx.ix(m.c) == n, z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < n, b >= 0, b < n), m.term(cx, a, b) == z3.If(a == b, 0, H(a, b))))))
        return Mat(None, m.et, 1, m.c, at=lambda i, j: S(j))
    cx.hooks['colsum'] = colsum
    def run(cx):
        st.clear(); D, r, n = inp(cx, p, fid); cx.assume(n >= 1); d = cx.new_cell('descriptors', D.copy()); st.update(D=D, r=r, n=n, d=d); o = cx.new_cell('index', cx.fresh('index', Z)); sym(cx)
        s, v = attempt(cx, lambda: call(cx, fid, None, d, Ptr(o)))
        if s != 'ok': cx.oblige('descriptors of at least one byte are accepted', r <= 0); return
        k = cx.ix(cx.read(o)); j = z3.Int('j!p'); cx.oblige('the index designates a descriptor', z3.And(k >= 0, k < n))
        cx.oblige('the chosen descriptor is the first of minimal summed distance', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(S(k) <= S(j), z3.Implies(j < k, S(k) < S(j)))))); cx.oblige('the descriptors are unchanged', same_mat(cx, mval(cx, d), D)); cx.cover('end')
    cx.explore('closest to median', run); return cx
def tasks(env): return [Task('rounded mean', t_round), Task('float mean', t_float), Task('absolute deviation', t_abs), Task('difference to the mean', t_diff), Task('standard deviation', t_std), Task('closest to median', t_med)]
