"""A01: the sample accumulator's statistics match the samples added."""
from util import *
UNITS = {'acc': r'^(statistics::|vu::)'}
ASSUMPTIONS = ['samples and sums are exact real numbers of magnitude at most DBL_MAX', 'fewer than 2^31 - 1 samples', 'window sizes 1, 2, 7, 100 and unbounded (each instantiation proved for all sample sequences)']
LEVEL_NOTE = "class invariant over the ghost sample history proved for Add, contracts of every query proved from it; instantiations for windows 1, 2, 7, 100 and unbounded"
REPLAY_SECS = (10, 120)
I, R = z3.IntSort(), z3.RealSort(); INF = 2**31 - 1
def acc_type(p, W):
    for i, T in enumerate(p.types):
        if T['k'] == 'rec' and T['q'] == 'statistics::Accumulator' and i in p.records and p.tname(i).replace(' ', '').endswith(',%d>' % W): return i
    raise Unsupported('accumulator type for window %d' % W)
def fid(p, W, n):
    f = [i for i in range(len(p.funcs)) if p.funcs[i]['n'] == 'vu::Acc<%d>::%s' % (W, n)]
    if not f: raise Unsupported('entry point')
    return f[0]
class St:
    """an accumulator after N samples H(0..N-1); S: prefix sums of H"""
    def __init__(s, cx, W, N, H, S): s.cx, s.W, s.N, s.H, s.S = cx, W, N, H, S; s.len = N if W == INF else z3.If(N < W, N, W)
    def idx(s, k): return k if s.W == INF else s.N - 1 - (s.N - 1 - k) % s.W
    def inv(s, a):
        cx = s.cx; v = vcopy(a.f['samples_']); cx.vec_sym(v); k = z3.Int('k!acc'); i = z3.Int('i!acc'); z = lambda n: cx.zr(a.f[n]); H, N = s.H, s.N
        arr = v.arr; s.arr = arr
        return [('sample count', z3.And(cx.ix(a.f['total_samples_']) == N, cx.ix(a.f['sample_index_']) == N)), ('number of kept samples', cx.ix(v.n) == s.len),
                ('kept samples', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < s.len), z3.Select(arr, k) == H(s.idx(k))))), ('sum', z('sum_') == s.S(N)), ('window sum', z('window_sum_') == s.S(N) - s.S(N - s.len)), ('last sample', z3.Implies(N >= 1, z('most_recent_') == H(N - 1))),
                ('maximum', z3.And(z3.Implies(N == 0, z('max_') == -MAX), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z('max_') >= H(i)), patterns=[H(i)]), z3.Implies(N >= 1, z3.Exists([i], z3.And(i >= 0, i < N, z('max_') == H(i)))))),
                ('minimum', z3.And(z3.Implies(N == 0, z('min_') == MAX), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z('min_') <= H(i)), patterns=[H(i)]), z3.Implies(N >= 1, z3.Exists([i], z3.And(i >= 0, i < N, z('min_') == H(i))))))]
MAX = z3.RealVal(int(1.7976931348623157e308))
def state(cx, W):
    cx.fresh_n += 1; H, S = z3.Function('H!%d' % cx.fresh_n, I, R), z3.Function('S!%d' % cx.fresh_n, I, R); N = cx.input('samples', cx.fresh('N', I)); i = z3.Int('i!h')
    cx.assume(z3.And(N >= 0, N < INF - 1, S(0) == 0)); cx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(H(i) <= MAX, H(i) >= -MAX)), patterns=[H(i)])); st = St(cx, W, N, H, S); a = cx.sym('acc', acc_type(cx.prog, W))
    if W != INF: pass
    for n, f in st.inv(a): cx.assume(f)
    return st, cx.new_cell('acc', a), a
def t_build(W):
    def t(env):
        cx = env.ctx('acc', 'int'); p = cx.prog
        def run(cx):
            s, r = attempt(cx, lambda: call(cx, fid(p, W, 'make'), None)); cx.oblige('an accumulator can be made', s == 'ok')
            if s != 'ok': return
            H, S = z3.Function('H0', I, R), z3.Function('S0', I, R); cx.assume(S(0) == 0)
            for n, f in St(cx, W, z3.IntVal(0), H, S).inv(cx.read(r.ref)):
                if n != 'last sample': cx.oblige('a new accumulator has no samples: ' + n, f)
            cx.cover('end')
        cx.explore('new', run)
        def run(cx):
            st, ac, a = state(cx, W); x = cx.input('sample', cx.fresh('x', R)); cx.assume(z3.And(x <= MAX, x >= -MAX)); N, H, S = st.N, st.H, st.S; o = N - st.len; cx.assume(z3.And(S(N + 1) == S(N) + H(N), H(N) == x, S(o + 1) == S(o) + H(o)))
            s, r = attempt(cx, lambda: call(cx, fid(p, W, 'add'), None, Ptr(ac), x)); cx.oblige('adding returns', s == 'ok')
            if s != 'ok': return
            for n, f in St(cx, W, N + 1, H, S).inv(cx.read(ac)): cx.oblige('after adding a sample: ' + n, f)
            cx.cover('end')
        cx.explore('add', run); return cx
    return t
def t_query(W):
    def t(env):
        cx = env.ctx('acc', 'int'); p = cx.prog; st_ = {}
        for nm in ('count', 'sum', 'mean', 'rolling', 'last', 'max', 'min', 'samples'):
            def run(cx, nm=nm):
                st, ac, a = state(cx, W); N, S, L = st.N, st.S, st.len; s, r = attempt(cx, lambda: call(cx, fid(p, W, nm), None, ac)); cx.oblige('the query returns', s == 'ok')
                if s != 'ok': return
                if nm == 'samples':
                    cx.oblige('the kept samples are listed', isinstance(r, Ref) and r.cell == ac.cell and [x[1] for x in r.path] == ['samples_']); cx.cover('end'); return
                r = cx.zr(rd(cx, r)) if nm != 'count' else cx.ix(rd(cx, r)); i = z3.Int('i!q')
                if nm == 'count': cx.oblige('the number of samples is reported', r == N)
                elif nm == 'sum': cx.oblige('the sum of all samples is reported', r == S(N))
                elif nm == 'mean': cx.oblige('the mean of all samples is reported', z3.If(N == 0, r == 0, r == S(N) / z3.ToReal(N)))
                elif nm == 'rolling': cx.oblige('the mean of the samples in the window is reported', z3.If(N == 0, r == 0, r == (S(N) - S(N - L)) / z3.ToReal(L)))
                elif nm == 'last': cx.oblige('the last sample is reported', z3.Implies(N >= 1, r == st.H(N - 1)))
                else:
                    b = (lambda i: r >= st.H(i)) if nm == 'max' else (lambda i: r <= st.H(i)); k = cx.fresh('k', I)
                    cx.oblige('no sample lies beyond the reported extreme', z3.Implies(z3.And(k >= 0, k < N), b(k))); cx.oblige('the reported extreme is a sample', z3.Implies(N >= 1, z3.Exists([i], z3.And(i >= 0, i < N, r == st.H(i)))))
                cx.cover('end')
            cx.explore(nm, run)
        def inv(cx, L):
            i = cx.ix(cx.read(L.idx)); st = st_['st']; Q = st_['Q']; d = z3.Select(st.arr, i) - st_['mean']; cx.assume(z3.And(Q(0) == 0, Q(i + 1) == Q(i) + d * d)); return [('range', z3.And(i >= 0, i <= st.len)), ('deviations so far', cx.zr(L['var']) == Q(i))]
        cx.loopspecs = [LoopSpec(inv, name='deviations')]
        def run(cx, nm):
            st, ac, a = state(cx, W); cx.fresh_n += 1; Q = z3.Function('Q!%d' % cx.fresh_n, I, R); N, S, L = st.N, st.S, st.len; m = z3.simplify(cx.fresh('mean', R)); cx.assume(z3.If(N == 0, m == 0, m == (S(N) - S(N - L)) / z3.ToReal(L)))
            def rolling(cx, c): return m
            cx.contracts['statistics::Accumulator::RollingMean'] = rolling; st_.update(st=st, Q=Q, mean=m)
            if nm == 'deviation':
                vr = cx.fresh('variance', R); cx.contracts['statistics::Accumulator::LazyVariance'] = lambda cx, c: vr
                cx.hooks['sqrt'] = lambda cx, x: cx.uf('root', R, R)(x)
            s, r = attempt(cx, lambda: call(cx, fid(p, W, nm), None, ac)); cx.contracts.pop('statistics::Accumulator::RollingMean'); cx.contracts.pop('statistics::Accumulator::LazyVariance', None); cx.oblige('the query returns', s == 'ok')
            if s != 'ok': return
            r = cx.zr(rd(cx, r))
            if nm == 'deviation': cx.oblige('the deviation is the root of the variance', r == cx.uf('root', R, R)(vr)); cx.cover('end'); return
            cx.oblige('the variance of the samples in the window is reported', z3.If(L < 2, r == 0, r == Q(L) / z3.ToReal(L - 1))); cx.cover('end')
        cx.explore('variance', lambda cx: run(cx, 'variance')); cx.explore('deviation', lambda cx: run(cx, 'deviation')); return cx
    return t
def t_lemma(env):
    cx = env.ctx('acc', 'int')
    def run(cx):    # a sum over the ring changes by the difference of the replaced entry; so it is the sum over the window
        A, B, f, g, P = [z3.Function(n, I, R) for n in 'ABfgP']; k, k0, W, N = z3.Ints('k k0 W N'); E = lambda k: B(k) == A(k) + z3.If(k > k0, g(k0) - f(k0), 0)
        cx.assume(z3.And(A(0) == 0, B(0) == 0, k >= 0, k0 >= 0, A(k + 1) == A(k) + f(k), B(k + 1) == B(k) + g(k), z3.Implies(k != k0, g(k) == f(k)), W >= 1, k0 < W, N >= W))
        cx.oblige('lemma ring: base', E(z3.IntVal(0))); cx.oblige('lemma ring: step', z3.Implies(E(k), E(k + 1)))
        x, y = z3.Reals('x y'); cx.assume(z3.And(E(W), A(W) == P(N) - P(N - W), P(N + 1) == P(N) + y, P(N - W + 1) == P(N - W) + x, f(k0) == x, g(k0) == y)); cx.oblige('lemma ring: the sum over the ring stays the sum over the window', B(W) == P(N + 1) - P(N + 1 - W)); cx.cover('end')
    cx.explore('ring', run); return cx
def tasks(env):
    ts = [Task('lemma', t_lemma)]
    for W in (1, 2, 7, 100, INF): ts += [Task('window %s: adding' % ('unbounded' if W == INF else W), t_build(W)), Task('window %s: queries' % ('unbounded' if W == INF else W), t_query(W))]
    return ts
