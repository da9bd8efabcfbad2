"""S01: erasing by index removes exactly those elements."""
from util import *
import algos, eigen
from eigen import *
UNITS = {'stl': r'^(aslam::common::|vu::)'}
ASSUMPTIONS = ['duplicate or (matrix variants) unsorted index lists are outside the contract', 'std::sort, std::copy and Eigen block copies behave as specified (engine/algos.py, engine/eigen.py)', 'counting of indices below a position is introduced as a ghost function']
LEVEL_NOTE = "contracts of the vector, fixed-row, fixed-column and adapter variants proved for all sizes, contents and index lists"
REPLAY_SECS = (15, 200)
def indices(cx, p, fid, k):
    v = cx.sym('idx', ptype(p, fid, k)); cx.input('number of indices', v.n); return v
class Count:
    """S[0..m) strictly increasing; C(p): how many entries are below p"""
    def __init__(s, cx, S, m, tag='c'):
        cx.fresh_n += 1; s.S, s.m, s.C, s.cx = S, m, z3.Function('below!%d' % cx.fresh_n, z3.IntSort(), z3.IntSort()), cx
        p = z3.Int('p!cnt'); C = s.C(p); g = lambda i: z3.Select(S, i)
        cx.assume(z3.ForAll([p], z3.And(C >= 0, C <= m, z3.Implies(C > 0, g(C - 1) < p), z3.Implies(C < m, g(C) >= p)), patterns=[C]))
        i, j = z3.Int('i!lem'), z3.Int('j!lem')
        # lemma 'distinct sorted integers are at least as far apart as their positions' (proved in task 'lemma')
        cx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < m), g(j) - g(i) >= j - i), patterns=[z3.MultiPattern(g(i), g(j))]))
    def kept(s, p): return z3.Or(s.C(p) >= s.m, z3.Select(s.S, s.C(p)) != p)
def lemma(env):
    cx = env.ctx('stl', 'int')
    def run(cx):
        S = z3.Const('S', z3.ArraySort(z3.IntSort(), z3.IntSort())); m, i, j, a = z3.Ints('m i j a'); g = lambda k: z3.Select(S, k)
        cx.assume(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a + 1 < m), g(a) < g(a + 1)), patterns=[g(a)]))
        cx.assume(z3.And(i >= 0, i <= j))
        P = lambda j: z3.Implies(j < m, g(j) - g(i) >= j - i)
        cx.oblige('lemma spacing, base', P(i)); cx.oblige('lemma spacing, step', z3.Implies(P(j), P(j + 1))); cx.cover('end')
    cx.explore('lemma', run); return cx
def pos(it): return it.ref.path[-1][1] if isinstance(it, Ptr) else it
def distinct(A, m):
    i, j = z3.Int('i!ds'), z3.Int('j!ds'); return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < m), z3.Select(A, i) != z3.Select(A, j)), patterns=[z3.MultiPattern(z3.Select(A, i), z3.Select(A, j))])
def inrange(A, m, n): i = z3.Int('i!ir'); return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.Select(A, i) < n), patterns=[z3.Select(A, i)])
def t_vec(env, inplace, mode, bound=None):
    """mode: 'ok' valid distinct indices, 'bad' some index out of range"""
    cx = env.ctx('stl', 'int', opts=dict(fork_loops=True, unroll=8) if bound else {}); p = cx.prog; st = {}
    fid = fn_id(p, 'vu::erase_vec' if inplace else 'vu::erase_copy'); di, ii = (2, 0) if inplace else (0, 1)
    def inv(cx, L):
        it, bb, red = L.pos('it'), cx.ix(pos(L['it_block_begin'])), L['reduced_vector']; N = st.get('N')
        if N is None:
            P = cx.ghost['perms'][-1]; i, j = z3.Int('i!ss'), z3.Int('j!ss')
            cx.oblige('sorted indices strictly increase', z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < P.n), z3.Select(P.R, i) < z3.Select(P.R, j))))
            N = st['N'] = Count(cx, P.R, P.n); P.C = N
        q = z3.Int('q!inv'); g = lambda k: z3.Select(N.S, k); vv = vcopy(red); cx.vec_sym(vv)
        return [('range', z3.And(it >= 0, it <= N.m)), ('block start', bb == z3.If(it == 0, 0, g(it - 1) + 1)), ('length', cx.ix(vv.n) == bb - it), ('room', z3.And(bb <= st['n'], bb >= it)),
                ('copied', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < bb, N.kept(q)), z3.And(N.C(q) <= it, q - N.C(q) < cx.ix(vv.n), z3.Select(vv.arr, q - N.C(q)) == z3.Select(st['D'], q))), patterns=[N.C(q)]))]
    cx.loopspecs = [] if bound else [LoopSpec(inv, name='block copy')]
    def run(cx):
        st.clear(); cx.ghost['perms'] = []
        idx = indices(cx, p, fid, ii); data = cx.sym('data', ptype(p, fid, di)); cx.input('container size', data.n)
        if bound:
            idx = Vec(idx.et, items=[cx.fresh_int('i%d' % k, 0, 2**64 - 1) for k in range(cx.choose(bound))]); data = Vec(data.et, items=[cx.sym('d%d' % k, data.et) for k in range(cx.choose(bound + 1))])
        iv = vcopy(idx); cx.vec_sym(iv); A, m = iv.arr, cx.ix(iv.n); dv = vcopy(data); cx.vec_sym(dv); D, n = dv.arr, cx.ix(dv.n); st['D'], st['n'] = D, n
        cx.assume(z3.And(distinct(A, m)))
        if mode == 'ok': cx.assume(z3.And(inrange(A, m, n), m <= n))
        else: b = cx.fresh('bad', z3.IntSort()); cx.assume(z3.And(b >= 0, b < m, z3.Select(A, b) >= n))
        dc, ic = cx.new_cell('data', data), cx.new_cell('indices', idx)
        s, v = attempt(cx, lambda: call(cx, fid, None, ic, n, Ptr(dc)) if inplace else call(cx, fid, None, dc, ic))
        if mode == 'bad': cx.oblige('an out-of-range index is refused', s != 'ok'); cx.cover('end'); return
        cx.oblige('valid indices are accepted', s == 'ok', s)
        if s != 'ok': return
        out = vcopy(cx.read(dc) if inplace else v); cx.vec_sym(out); q = z3.Int('q!post'); k = z3.Int('k!post')
        N = st.get('N')
        if N is None:       # no index at all, or a bounded run
            if cx.ghost['perms']: N = Count(cx, cx.ghost['perms'][-1].R, m)
            else: N = Count(cx, A, m)
        cx.oblige('the result has the remaining count', cx.ix(out.n) == n - m)
        cx.oblige('every element that is not erased stays, in order', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.Select(A, k) != q), patterns=[z3.Select(A, k)])), z3.Select(out.arr, q - N.C(q)) == z3.Select(D, q))))
        if not inplace: cx.oblige('the container is not modified', seq_eq(cx, cx.read(dc), data))
        cx.oblige('the index list is not modified', seq_eq(cx, cx.read(ic), idx)); cx.cover('end')
    cx.explore(p.funcs[fid]['n'], run); return cx
ADAPT = {'vu::erase_cols': ('c', False), 'vu::erase_rows': ('r', False), 'vu::erase_xcols': ('c', True), 'vu::erase_xrows': ('r', True)}
def t_mat(env, name, mode):
    cx = env.ctx('stl', 'int'); p = cx.prog; st = {}; ax, wrapped = ADAPT[name]; fid = fn_id(p, name)
    def inner(v): return mval(cx, cx.read(v).f['matrix'].ref) if wrapped else v
    def inv(cx, L):
        N, k = st['N'], L.pos('i'); fill, start = cx.ix(L['result_fill_index']), cx.ix(L['container_block_start'])
        R = L['result']; R = mval(cx, R.f['matrix'].ref) if wrapped else R
        C = mval(cx, st['m']); D = st['D']; g = lambda i: z3.Select(N.S, i); q, o = z3.Int('q!inv'), z3.Int('o!inv'); n, oth = st['n'], st['oth']
        dr, do = (R.c, R.r) if ax == 'c' else (R.r, R.c); at = (lambda M, q, o: M.term(cx, o, q)) if ax == 'c' else (lambda M, q, o: M.term(cx, q, o))
        return [('range', z3.And(k >= 0, k <= N.m)), ('block start', start == z3.If(k == 0, 0, g(k - 1) + 1)), ('fill', fill == start - k), ('room', z3.And(start <= n, fill >= 0, start >= 0)),
                ('result size', z3.And(cx.ix(dr) == n - N.m, cx.ix(do) == oth)), ('source unchanged', same_mat(cx, C, D, 'su')),
                ('copied', z3.ForAll([q, o], z3.Implies(z3.And(q >= 0, q < start, N.kept(q), o >= 0, o < oth), z3.And(N.C(q) <= k, q - N.C(q) < fill, at(R, q - N.C(q), o) == at(D, q, o))), patterns=[z3.MultiPattern(N.C(q), at(D, q, o))]))]
    cx.loopspecs = [LoopSpec(inv, name='block copy')]
    def run(cx):
        st.clear(); idx = indices(cx, p, fid, 0); iv = vcopy(idx); A, m = iv.arr, cx.ix(iv.n)
        T = ptype(p, fid, 2)
        if wrapped:
            mt = cx.T(dict(cx.fields(T))['matrix'])['e']; M = sym_mat(cx, 'container', mt); mc = cx.new_cell('matrix', M); cc = cx.new_cell('adapter', Rec(T, {'matrix': Ptr(mc), 'allocated_self': False}))
        else: M = sym_mat(cx, 'container', T); mc = cc = cx.new_cell('container', M)
        n, oth = (M.c, M.r) if ax == 'c' else (M.r, M.c); n, oth = cx.ix(n), cx.ix(oth); cx.assume(z3.And(n < 2**31 - 1, oth < 2**31 - 1)); cx.input('size', n)
        i, j = z3.Int('i!ss'), z3.Int('j!ss')
        cx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < m), z3.Select(A, i) < z3.Select(A, j)), patterns=[z3.MultiPattern(z3.Select(A, i), z3.Select(A, j))]))
        if mode == 'ok': cx.assume(z3.And(inrange(A, m, n), m <= n)); N = Count(cx, A, m)
        else: b = cx.fresh('bad', z3.IntSort()); cx.assume(z3.And(b >= 0, b < m, z3.Select(A, b) >= n)); N = Count(cx, A, m)
        st.update(N=N, D=M.copy(), m=mc, n=n, oth=oth); ic = cx.new_cell('indices', idx)
        s, v = attempt(cx, lambda: call(cx, fid, None, ic, n, Ptr(cc)))
        if mode == 'bad': cx.oblige('an out-of-range index is refused', s != 'ok'); cx.cover('end'); return
        cx.oblige('valid indices are accepted', s == 'ok', s)
        if s != 'ok': return
        R = mval(cx, cx.read(cc).f['matrix'].ref if wrapped else cc); D = st['D']; q, o, k = z3.Int('q!post'), z3.Int('o!post'), z3.Int('k!post')
        dr, do = (R.c, R.r) if ax == 'c' else (R.r, R.c); at = (lambda M, q, o: M.term(cx, o, q)) if ax == 'c' else (lambda M, q, o: M.term(cx, q, o))
        cx.oblige('the result has the remaining count', z3.And(cx.ix(dr) == n - m, cx.ix(do) == oth))
        cx.oblige('every row or column that is not erased stays, in order', z3.ForAll([q, o], z3.Implies(z3.And(q >= 0, q < n, o >= 0, o < oth, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.Select(A, k) != q), patterns=[z3.Select(A, k)])), at(R, q - N.C(q), o) == at(D, q, o))))
        cx.oblige('the index list is not modified', seq_eq(cx, cx.read(ic), idx)); cx.cover('end')
    cx.explore(p.funcs[fid]['n'] + ' ' + name, run); return cx
def tasks(env):
    out = [Task('lemma', lemma)]
    for inp in (False, True):
        for md in ('ok', 'bad'): out.append(Task('vector-%s-%s' % ('inplace' if inp else 'copy', md), lambda e, i=inp, m=md: t_vec(e, i, m)))
    for nm in ADAPT:
        for md in ('ok', 'bad'): out.append(Task('%s-%s' % (nm[10:], md), lambda e, n=nm, m=md: t_mat(e, n, m)))
    return out
