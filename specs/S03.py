"""S03: keeping or drawing N elements returns a true sub-multiset; matrix columns become a list."""
from util import *
import algos, eigen
from eigen import *
UNITS = {'stl': r'^(aslam::common::|vu::)'}
ASSUMPTIONS = ['the comparator is a strict weak order', 'std::partial_sort rearranges its range and puts the smallest elements first', 'random engines return some value in their range; termination of the drawing loop is not proved', 'drawing zero elements is outside the contract']
LEVEL_NOTE = "all sizes, N, contents, comparators and draws"
REPLAY_SECS = (12, 200)
def arr(cx, v): v = vcopy(v); cx.vec_sym(v); return v.arr, cx.ix(v.n)
def better_ct(cx, so):
    B = cx.uf('better', so, so, z3.BoolSort()); x, y, z = z3.Consts('x!b y!b z!b', so)
    cx.assume(z3.ForAll([x], z3.Not(B(x, x)), patterns=[B(x, x)])); cx.assume(z3.ForAll([x, y, z], z3.Implies(z3.And(B(x, y), B(y, z)), B(x, z)), patterns=[z3.MultiPattern(B(x, y), B(y, z))]))
    cx.assume(z3.ForAll([x, y, z], z3.Implies(z3.And(z3.Not(B(x, y)), z3.Not(B(y, z))), z3.Not(B(x, z))), patterns=[z3.MultiPattern(B(x, y), B(y, z))]))
    cx.contracts['vu::Better::operator()'] = lambda cx, c: B(cx.pack(rd(cx, c.args[0]), et(cx, c, 0)), cx.pack(rd(cx, c.args[1]), et(cx, c, 1))); return B
def et(cx, c, k): t = c.f['pt'][k]; T = cx.T(t); return T['e'] if T['k'] == 'ref' else t
def t_keep(env, which):
    cx = env.ctx('stl', 'int'); p = cx.prog; fid = fn_id(p, 'vu::keep'); st = {}
    def inv_zero(cx, L):
        i = cx.ix(cx.read(L.idx)); la, ln = arr(cx, cx.read(st['log'])); q = z3.Int('q!lg')
        return [('range', z3.And(i >= 0, i <= st['n'])), ('each element reported once', z3.And(ln == i, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < i), z3.Select(la, q) == z3.Select(st['D'], q)))))]
    def inv_rm(cx, L):
        i = itpos(cx, L['it']); P = cx.ghost['perms'][-1]; la, ln = arr(cx, cx.read(st['log'])); q = z3.Int('q!lg'); ca, cn = arr(cx, cx.read(st['cc']))
        return [('range', z3.And(i >= st['k'], i <= st['n'])), ('container', z3.And(cn == st['n'], ca == P.R)), ('each removed element reported once', z3.And(ln == i - st['k'], z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < i - st['k']), z3.Select(la, q) == z3.Select(P.R, q + st['k'])))))]
    cx.loopspecs = [LoopSpec(inv_zero if which == 'none' else inv_rm, name='removal action')]
    def run(cx):
        cx.ghost['perms'] = []; T = ptype(p, fid, 2); data = cx.sym('data', T); cx.input('size', data.n); D, n = data.arr, cx.ix(data.n); k = cx.fresh_int('max', 0, 2**63); cx.input('N', k)
        cx.assume({'none': k == 0, 'some': z3.And(k > 0, k < n), 'all': z3.And(k > 0, k >= n)}[which])
        so = cx.sort(data.et); B = better_ct(cx, so); log = cx.new_cell('removed', Vec(data.et, items=[])); cx.vec_sym(cx.store[log.cell])
        def act(cx, c): push(cx, log, vcopy(rd(cx, c.args[0]))); return None
        cx.contracts['vu::OnRemove::operator()'] = act
        cc = cx.new_cell('container', data); st.update(n=n, k=k, D=D, log=log, cc=cc); b = cx.new_cell('cmp', Rec(ptype(p, fid, 1), {})); r = cx.new_cell('action', Rec(ptype(p, fid, 3), {}))
        s, v = attempt(cx, lambda: call(cx, fid, None, k, b, Ptr(cc), r))
        cx.oblige('keeping returns', s == 'ok', s)
        if s != 'ok': return
        la, ln = arr(cx, cx.read(log)); oa, on = arr(cx, cx.read(cc)); q, h = z3.Int('q!p'), z3.Int('h!p')
        want = z3.If(k < n, k, n)
        cx.oblige('min(N, size) elements are kept', z3.And(on == want, cx.ix(v) == want)); cx.oblige('every removed element is reported', ln == n - want)
        pm = cx.ghost['perms']
        if pm: P = pm[-1]; A, R, pi, rho = P.A, P.R, P.pi, P.rho
        else: R = D; pi = rho = lambda x: x
        inr = lambda x: z3.And(x >= 0, x < n)
        cx.oblige('kept and removed elements together are the original ones', z3.And(z3.ForAll([q], z3.Implies(inr(q), z3.And(inr(pi(q)), rho(pi(q)) == q, z3.If(q < want, z3.Select(oa, q), z3.Select(la, q - want)) == z3.Select(D, pi(q))))), z3.ForAll([q], z3.Implies(inr(q), z3.And(inr(rho(q)), pi(rho(q)) == q)))))
        cx.oblige('no kept element ranks below a removed one', z3.ForAll([q, h], z3.Implies(z3.And(q >= 0, q < on, h >= 0, h < ln), z3.Not(B(z3.Select(la, h), z3.Select(oa, q))))))
        cx.cover('end')
    cx.explore('keep ' + which, run); return cx
def t_draw(env, name, which):
    cx = env.ctx('stl', 'int'); p = cx.prog; fid = fn_id(p, 'vu::' + name); st = {}
    def inv_pick(cx, L):
        S = L['random_indices']; k = z3.Int('k!pk')
        return [('valid positions', z3.ForAll([k], z3.Implies(z3.Select(S.dom, k), z3.And(k >= 0, k < st['n'])), patterns=[z3.Select(S.dom, k)])), ('count', z3.And(cx.ix(S.n) >= 0, cx.ix(S.n) <= st['k']))]
    def inv_copy(cx, L):
        V = cx.read(L.idx); sq = cx.read(L.extra['visit_order']); oa, on = arr(cx, cx.read(st['oc'])); i, j = z3.Int('i!cp'), z3.Int('j!cp'); g = lambda x: z3.Select(sq.arr, x); vn = cx.ix(V.n); st['seq'] = sq.arr
        S = cx.read(L.extra['range'])
        return [('one element for each position', z3.And(vn >= 0, on == vn, cx.ix(sq.n) == vn)), ('visited', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < vn), z3.And(z3.Select(V.dom, g(i)), g(i) >= 0, g(i) < st['n'], z3.Select(oa, i) == z3.Select(st['D'], g(i)))), patterns=[g(i)])),
                ('distinct', z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < vn), g(i) != g(j)), patterns=[z3.MultiPattern(g(i), g(j))]))]
    cx.loopspecs = [LoopSpec(inv_pick, name='drawing'), LoopSpec(inv_copy, name='copying')]
    def run(cx):
        T = ptype(p, fid, 1); data = cx.sym('input', T); out = cx.sym('output', T); D, n = data.arr, cx.ix(data.n); k = cx.fresh_int('N', 1, 2**63); cx.input('size', n); cx.input('N', k)
        cx.assume(k < n if which == 'some' else k >= n)
        dc, oc = cx.new_cell('input', data), cx.new_cell('output', out); st.update(n=n, k=k, D=D, oc=oc, seq=None)
        a = [k, dc, Ptr(oc)] + ([cx.fresh_bool('fixed')] if name == 'draw' else [])
        s, v = attempt(cx, lambda: call(cx, fid, None, *a))
        cx.oblige('drawing returns', s == 'ok', s)
        if s != 'ok': return
        oa, on = arr(cx, cx.read(oc)); q, h = z3.Int('q!p'), z3.Int('h!p'); g = (lambda x: z3.Select(st['seq'], x)) if st['seq'] is not None else (lambda x: x)
        cx.oblige('min(N, size) elements are returned', on == z3.If(k < n, k, n))
        cx.oblige('elements come from the input', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < on), z3.And(g(q) >= 0, g(q) < n, z3.Select(oa, q) == z3.Select(D, g(q))))))
        cx.oblige('from distinct positions', z3.ForAll([q, h], z3.Implies(z3.And(q >= 0, q < h, h < on), g(q) != g(h))))
        cx.oblige('the input is unchanged', seq_eq(cx, cx.read(dc), data)); cx.cover('end')
    cx.explore('%s %s' % (name, which), run); return cx
def t_cols(env):
    cx = env.ctx('stl', 'int'); p = cx.prog; fid = fn_id(p, 'vu::cols'); st = {}
    def inv(cx, L):
        i = cx.ix(L['idx']); ov = cx.read(st['oc']); oa, on = arr(cx, ov); so = cx.sort(ov.et); q = z3.Int('q!cv'); ins = L['inserter']
        return [('range', z3.And(i >= 0, i <= st['n'])), ('count', on == i), ('values', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < i), z3.And(*[getattr(so, 'm%d_0' % r)(z3.Select(oa, q)) == st['M'].term(cx, z3.IntVal(r), q) for r in range(3)]))))]
    cx.loopspecs = [LoopSpec(inv, name='columns')]
    def run(cx):
        M = sym_mat(cx, 'matrix', ptype(p, fid, 0)); mc = cx.new_cell('matrix', M); oc = cx.new_cell('out', cx.sym('out', ptype(p, fid, 1))); n = cx.ix(M.c); cx.input('columns', n); st.update(M=M.copy(), n=n, oc=oc)
        s, v = attempt(cx, lambda: call(cx, fid, None, mc, Ptr(oc))); cx.oblige('conversion returns', s == 'ok', s)
        if s != 'ok': return
        ov = cx.read(oc); oa, on = arr(cx, ov); so = cx.sort(ov.et); q = z3.Int('q!cv')
        cx.oblige('one element for each column', on == n); cx.oblige('elements are the columns in order', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(*[getattr(so, 'm%d_0' % r)(z3.Select(oa, q)) == M.term(cx, z3.IntVal(r), q) for r in range(3)]))))
        cx.oblige('the matrix is unchanged', same_mat(cx, mval(cx, mc), M)); cx.cover('end')
    cx.explore('columns to list', run); return cx
def tasks(env):
    return [Task('keep-' + w, lambda e, w=w: t_keep(e, w)) for w in ('none', 'some', 'all')] + [Task('%s-%s' % (n, w), lambda e, n=n, w=w: t_draw(e, n, w)) for n in ('draw', 'draw3') for w in ('some', 'all')] + [Task('columns', t_cols)]
