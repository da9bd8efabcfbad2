"""S02: counting and summary statistics match their definitions."""
from util import *
import algos, eigen
UNITS = {'stl': r'^(aslam::common::|vu::)'}
ASSUMPTIONS = ['floating point arithmetic is exact real arithmetic', 'the total number of nested elements fits size_t', 'std::nth_element and sorting put the k-th order statistic at position k; the extremum of the elements before or after it is the neighbouring one', 'prefix sums are introduced as ghost functions with their recursive definition']
LEVEL_NOTE = "all sizes and contents, real arithmetic; the driver compares with extended precision on sampled data"
REPLAY_SECS = (12, 200)
def ghost_sum(cx, tag, sort, term):
    """F(0)=0, F(k+1)=F(k)+term(k)"""
    cx.fresh_n += 1; F = z3.Function('%s!%d' % (tag, cx.fresh_n), z3.IntSort(), sort); k = z3.Int('k!' + tag)
    cx.assume(F(0) == 0); cx.assume(z3.ForAll([k], z3.Implies(k >= 0, F(k + 1) == F(k) + term(k)), patterns=[F(k + 1)])); return F, lambda k: F(k + 1) == F(k) + term(k)
def t_count(env):
    cx = env.ctx('stl', 'int'); p = cx.prog; fid = fn_id(p, 'vu::count_nested'); st = {}
    def inv(cx, L):
        i = cx.ix(cx.read(L.idx)); F, step = st['F']; cx.assume(z3.Implies(i >= 0, step(i)))
        return [('range', z3.And(i >= 0, i <= st['n'])), ('sum so far', cx.ix(L['num_elements']) == F(i))]
    cx.loopspecs = [LoopSpec(inv, name='outer list')]
    def run(cx):
        l = cx.sym('lists', ptype(p, fid, 0)); cx.input('outer size', l.n); so = cx.sort(l.et); at = lambda k: so.len(z3.Select(l.arr, k))
        st['n'] = cx.ix(l.n); st['F'] = F, step = ghost_sum(cx, 'total', z3.IntSort(), at); k = z3.Int('k!fit')
        cx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= l.n), z3.And(F(k) >= 0, F(k) < 2**64)), patterns=[F(k)]))
        lc = cx.new_cell('lists', l); s, v = attempt(cx, lambda: call(cx, fid, None, lc))
        cx.oblige('counting returns', s == 'ok'); cx.oblige('the count is the sum of the inner sizes', cx.ix(v) == F(l.n)); cx.cover('end')
    cx.explore('count', run); return cx
def rng_args(cx, p, fid, n_pos):
    t = cx.sym('data', rectype(p, 'std::vector') if False else vec_t(p)); cx.input('size', t.n); cx.assume(cx.ix(t.n) > 0 if n_pos else cx.ix(t.n) == 0)
    dc = cx.new_cell('data', t); return dc, t, Ptr(dc.at(0)), Ptr(dc.at(t.n))
def vec_t(p):
    for i, T in enumerate(p.types):
        if T['k'] == 'rec' and T['q'] == 'std::vector' and p.types[T['a'][0]['t']]['k'] == 'fp': return i
    raise Unsupported('vector<double>')
def t_avg(env, which):
    cx = env.ctx('stl', 'int'); p = cx.prog; fid = fn_id(p, 'vu::' + which); st = {}
    def at(L): return itpos(cx, L['element_i'])
    def inv_mean(cx, L):
        i = at(L); F, step = st['F']; cx.assume(z3.Implies(i >= 0, step(i)))
        return [('range', z3.And(i >= 0, i <= st['n'])), ('sum so far', cx.zr(L['mu']) == F(i))]
    def inv_dev(cx, L):
        i = at(L); F, step = st['Q']; cx.assume(z3.Implies(i >= 0, step(i)))
        return [('range', z3.And(i >= 0, i <= st['n'])), ('mean', cx.zr(L['mu']) == st['mean']), ('squares so far', cx.zr(L['sum']) == F(i)), ('not negative', F(i) >= 0)]
    loop = lambda cx, L: (inv_dev if L.has('sum') else inv_mean)(cx, L); cx.loopspecs = [LoopSpec(loop, name='mean loop')] + ([LoopSpec(loop, name='deviation loop')] if which == 'dev' else [])
    def fold(cx, A, off, n, init, op):
        """std::accumulate: the ghost sum it computes, by induction on the length"""
        for F, step in (st['F'], st['Q']):
            k = cx.fresh('k', z3.IntSort()); x = z3.Select(A, off + k)
            ok = cx.valid(z3.Implies(z3.And(k >= 0, k < n, step(k)), cx.zr(op(F(k), x)) == F(k + 1)))
            if not ok: continue
            cx.oblige('the sum of the range, step', z3.Implies(z3.And(k >= 0, k < n, step(k)), cx.zr(op(F(k), x)) == F(k + 1)))
            if F is st['Q'][0]: sign(cx, F, n)
            return F(n) + cx.zr(init) if cx.valid(op(F(k) + cx.zr(init), x) == op(F(k), x) + cx.zr(init)) else None
    def sign(cx, F, n):
        k = cx.fresh('k', z3.IntSort()); cx.oblige('squares are not negative, step', z3.Implies(z3.And(k >= 0, k < n, F(k) >= 0, st['Q'][1](k)), F(k + 1) >= 0)); cx.assume(F(n) >= 0)
    cx.hooks['accumulate'] = fold
    def run(cx, empty):
        dc, t, b, e = rng_args(cx, p, fid, not empty); n = cx.ix(t.n); D = t.arr; st['n'] = n
        st['F'] = ghost_sum(cx, 'sum', z3.RealSort(), lambda k: z3.Select(D, k)); st['mean'] = mean = st['F'][0](n) / z3.ToReal(n)
        st['Q'] = ghost_sum(cx, 'squares', z3.RealSort(), lambda k: (z3.Select(D, k) - mean) * (z3.Select(D, k) - mean))
        s, v = attempt(cx, lambda: call(cx, fid, None, b, e))
        if empty: cx.oblige('an empty range is refused', s != 'ok'); cx.cover('end'); return
        cx.oblige('a non-empty range is accepted', s == 'ok', s)
        if s != 'ok': return
        if which == 'avg': cx.oblige('mean is the sum over the count', cx.zr(v) == mean)
        else: cx.oblige('deviation is the square root of the mean squared difference', z3.And(cx.zr(v) >= 0, cx.zr(v) * cx.zr(v) == st['Q'][0](n) / z3.ToReal(n)))
        cx.oblige('the data is unchanged', seq_eq(cx, cx.read(dc), t)); cx.cover('end')
    cx.explore(which, lambda cx: run(cx, False)); sp = cx.loopspecs; cx.loopspecs = []
    cx.explore(which + ' of nothing', lambda cx: run(cx, True)); return cx
def t_med(env):
    cx = env.ctx('stl', 'int'); p = cx.prog; fid = fn_id(p, 'vu::med'); st = {}
    def nth(cx, P, cmp):
        # P.A[K-th] after the call is the order statistic of the rearranged range; a range that ends at an already placed element is the set of smaller ones
        pr = cx.ghost['perms'][:-1]; OS = st['OS']; full = cx.valid(z3.And(P.off == 0, P.n == st['n']))
        cx.assume(z3.Implies(z3.And(P.k >= 0, P.k < P.n), z3.Select(P.R, P.off + P.k) == OS(P.k)) if full or (pr and cx.valid(z3.And(P.off == 0, P.n == pr[-1].k))) else z3.BoolVal(True))
    cx.hooks['nth_element'] = nth
    def whole(cx, P): return cx.valid(z3.And(P.off == 0, P.n == st['n']))
    def sorted_(cx, P, cmp, upto):
        j = z3.Int('j!os')
        if not cmp and whole(cx, P): cx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < upto), z3.Select(P.R, j) == st['OS'](j)), patterns=[z3.Select(P.R, j)]))
    cx.hooks['sort'] = sorted_
    def extremum(cx, arr, off, n, v, mx, cmp):
        """the greatest of the elements before the k-th order statistic is the previous one, the least of those after it the next"""
        pr = cx.ghost['perms']
        if cmp or not pr or not whole(cx, pr[-1]) or pr[-1].k is None or not cx.valid(arr == pr[-1].R): return
        k = pr[-1].k
        if mx and cx.valid(z3.And(off == 0, n == k, k > 0, k < st['n'])): cx.assume(v == st['OS'](k - 1))
        elif not mx and cx.valid(z3.And(off == k + 1, off + n == st['n'], n > 0)): cx.assume(v == st['OS'](k + 1))
    cx.hooks['extremum'] = extremum
    def run(cx, empty):
        cx.ghost['perms'] = []
        dc, t, b, e = rng_args(cx, p, fid, not empty); n = cx.ix(t.n); st['n'] = n; st['OS'] = OS = z3.Function('order_statistic', z3.IntSort(), z3.RealSort())
        s, v = attempt(cx, lambda: call(cx, fid, None, b, e))
        if empty: cx.oblige('an empty range is refused', s != 'ok'); cx.cover('end'); return
        cx.oblige('a non-empty range is accepted', s == 'ok', s)
        if s != 'ok': return
        h = n / 2
        cx.oblige('median is the middle element, or the average of the two middle ones', cx.zr(v) == z3.If(n % 2 == 1, OS(h), (OS(h) + OS(h - 1)) / 2)); cx.cover('end')
    cx.explore('median', lambda cx: run(cx, False)); cx.explore('median of nothing', lambda cx: run(cx, True)); return cx
def tasks(env): return [Task('count', t_count), Task('mean', lambda e: t_avg(e, 'avg')), Task('deviation', lambda e: t_avg(e, 'dev')), Task('median', t_med)]
