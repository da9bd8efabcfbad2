"""G01: the occupancy grid places and counts every point correctly."""
from gridutil import *
UNITS = UNIT
ASSUMPTIONS = ASSUME
LEVEL_NOTE = "class invariant (placement, count) and contracts of construction, reset, both adds, reweighting and listing proved for all grids; insertion with a minimum distance is covered under G02"
REPLAY_SECS = (15, 200)
def t_lemmas(env):
    cx = env.ctx('grid', 'int')
    def run(cx):
        m, c, u = z3.Reals('max cell u'); R = z3.Int('R'); k = z3.Int('k'); cx.assume(z3.And(m > 0, c > 0, z3.ToReal(R) * c >= m, z3.ToReal(R - 1) * c < m, u >= 0, u < m, z3.ToReal(k) * c <= u, u < z3.ToReal(k + 1) * c))
        cx.oblige('lemma coordinates: the row of a coordinate inside is a row of the grid', z3.And(k >= 0, k < R)); cx.cover('end')
    cx.explore('coordinates', run)
    def run(cx):        # one cell changes
        T, U, d, e = z3.Function('T', I, I, I), z3.Function('U', I, I, I), z3.Function('d', I, I, I), z3.Function('e', I, I, I); R, C, a, b, i, j, x, y = z3.Ints('R C a b i j x y')
        P = lambda i, j: U(i, j) == T(i, j) + z3.If(scanned(a, b, i, j), e(a, b) - d(a, b), 0)
        cx.assume(z3.And(R >= 1, C >= 1, a >= 0, a < R, b >= 0, b < C, T(0, 0) == 0, U(0, 0) == 0, i >= 0, i < R, j >= 0, j < C, z3.Implies(z3.Not(z3.And(i == a, j == b)), e(i, j) == d(i, j)), T(i, j + 1) == T(i, j) + d(i, j), U(i, j + 1) == U(i, j) + e(i, j), T(i + 1, 0) == T(i, C), U(i + 1, 0) == U(i, C)))
        cx.oblige('lemma one cell: base', P(0, 0)); cx.oblige('lemma one cell: next column', z3.Implies(P(i, j), P(i, j + 1))); cx.oblige('lemma one cell: next row', z3.Implies(P(i, C), P(i + 1, 0))); cx.cover('end')
    cx.explore('one cell', run)
    def run(cx):        # differences and monotonicity
        T, U, D, d, e, r = [z3.Function(n, I, I, I) for n in 'TUDder']; C, i, j, a, b = z3.Ints('C i j a b'); cx.assume(z3.And(C >= 1, i >= 0, j >= 0, j < C, T(0, 0) == 0, U(0, 0) == 0, D(0, 0) == 0))
        for F, t in ((T, d), (U, e), (D, r)): cx.assume(z3.And(F(i, j + 1) == F(i, j) + t(i, j), F(i + 1, 0) == F(i, C)))
        P = lambda i, j: U(i, j) == T(i, j) - D(i, j); cx.assume(e(i, j) == d(i, j) - r(i, j))
        cx.oblige('lemma difference: base', P(0, 0)); cx.oblige('lemma difference: next column', z3.Implies(P(i, j), P(i, j + 1))); cx.oblige('lemma difference: next row', z3.Implies(P(i, C), P(i + 1, 0)))
        Q = lambda i, j: z3.Implies(z3.Or(a < i, z3.And(a == i, b <= j)), T(a, b) <= T(i, j)); cx.assume(z3.And(d(i, j) >= 0, a >= 0, b >= 0, b <= C))
        M = lambda i, j: z3.And(T(i, j) >= 0, z3.Implies(scanned(a, b, i, j), T(a, b) + d(a, b) <= T(i, j)))
        cx.assume(z3.And(b < C, d(a, b) >= 0, T(a, b + 1) == T(a, b) + d(a, b))); cx.oblige('lemma monotone: base', M(0, 0)); cx.oblige('lemma monotone: next column', z3.Implies(M(i, j), M(i, j + 1))); cx.oblige('lemma monotone: next row', z3.Implies(M(i, C), M(i + 1, 0)))
        Z = lambda i, j: T(i, j) == 0; cx.oblige('lemma empty: next column', z3.Implies(z3.And(Z(i, j), d(i, j) == 0), Z(i, j + 1))); cx.oblige('lemma empty: next row', z3.Implies(Z(i, C), Z(i + 1, 0))); cx.cover('end')
    cx.explore('sums', run); return cx
def point(cx, g, f, k, p):
    v = cx.sym('point', ptype(p, f, k)); z = cx.pack(v, g.pt_t); cx.input('u', g.u(z)); cx.input('v', g.v(z)); cx.input('weight', g.w(z)); return cx.new_cell('point', v), z
def t_add(env):
    cx = env.ctx('grid', 'int'); p = cx.prog
    for nm in ('add', 'add_limited'):
        f = fn_id(p, 'vu::' + nm)
        def run(cx, f=f, nm=nm):
            v, g0 = sym_grid(cx); gc = cx.new_cell('grid', v); pc, z = point(cx, g0, f, 1, p); args = [Ptr(gc), pc]; lim = None
            if nm == 'add_limited': lim = cx.input('limit', cx.fresh_int('limit', 0, 2**64 - 1)); args.append(lim)
            s, ret = attempt(cx, lambda: call(cx, f, None, *args)); ok = g0.valid(z) if lim is None else z3.And(g0.valid(z), lim >= 1)
            if s != 'ok': cx.oblige('coordinates inside the grid are accepted', z3.Not(ok)); return
            cx.oblige('coordinates outside the grid are refused', ok)
            if not cx.branch(ok): return
            a, b = g0.ROW(g0.u(z)), g0.COL(g0.v(z)); cx.assume(z3.And(a >= 0, a < g0.R, b >= 0, b < g0.C)); g1 = G(cx, cx.read(gc)); one_cell(cx, g1, g0, a, b)
            n0, n1 = g0.size(a, b), g1.size(a, b); k = z3.Int('k!ad'); old = lambda k: g0.pt(a, b, k); new = lambda k: g1.pt(a, b, k)
            added = z3.And(n1 == n0 + 1, new(n0) == z, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n0), new(k) == old(k))))
            if lim is None: cx.oblige('exactly the given point is added', added)
            else:
                r = cx.zb(ret)
                if cx.branch(n0 < lim): cx.oblige('the point is added while the cell has room', added); cx.oblige('storing the point is reported', r)
                else:
                    lighter = z3.Exists([k], z3.And(k >= 0, k < n0, g0.w(old(k)) < g0.w(z)))
                    if cx.branch(r):
                        h = cx.input('replaced', cx.fresh('h', I)); cx.assume(z3.And(h >= 0, h < n0, new(h) != old(h))) if False else None
                        q = z3.Int('q!ad'); weakest = lambda h: z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n0), z3.And(g0.w(old(q)) >= g0.w(old(h)), new(q) == z3.If(q == h, z, old(q)))))
                        cx.oblige('a weakest point is replaced by a strictly heavier one', z3.And(n1 == n0, z3.Exists([k], z3.And(k >= 0, k < n0, g0.w(old(k)) < g0.w(z), weakest(k)))))
                    else: cx.oblige('a full cell of points at least as heavy is kept', z3.And(g1.cell(a, b) == g0.cell(a, b), z3.Not(lighter)))
            cx.cover('end')
        cx.explore(nm, run)
    return cx
def t_cell(env):
    cx = env.ctx('grid', 'int'); p = cx.prog
    for nm in ('cell', 'cell_c'):
        f = fn_id(p, 'vu::' + nm)
        def run(cx, f=f, nm=nm):
            v, g0 = sym_grid(cx); gc = cx.new_cell('grid', v); u, w = [cx.input(n, cx.fresh(n, z3.RealSort())) for n in ('u', 'v')]
            s, r = attempt(cx, lambda: call(cx, f, None, Ptr(gc) if nm == 'cell' else gc, u, w)); ok = g0.valid_uv(u, w)
            if s != 'ok': cx.oblige('coordinates inside the grid are accepted', z3.Not(ok)); return
            cx.oblige('coordinates outside the grid are refused', ok)
            if not cx.branch(ok): return
            pth = r.path; cx.oblige('the cell of the coordinates is returned', r.cell == gc.cell and len(pth) == 3 and pth[0] == ('f', 'grid_'))
            cx.oblige('the cell of the coordinates is returned', AND(eqi(cx, pth[1][1], g0.ROW(u)), eqi(cx, pth[2][1], g0.COL(w)))); g1 = G(cx, cx.read(gc)); cx.oblige('looking up changes nothing', z3.And(g1.g == g0.g, g1.count == g0.count)); cx.cover('end')
        cx.explore(nm, run)
    def run(cx):
        v, g0 = sym_grid(cx); gc = cx.new_cell('grid', v); cx.oblige('the count is reported', eqi(cx, call(cx, fn_id(p, 'vu::count'), None, gc), g0.count)); cx.cover('end')
    cx.explore('count', run); return cx
def t_make(env):
    cx = env.ctx('grid', 'int'); p = cx.prog; f = fn_id(p, 'vu::make')
    def inv(cx, L):
        i = cx.ix(cx.read(L.idx)); g = G(cx, cx.read(L.frame.this)); a, b = z3.Int('a!mk'), z3.Int('b!mk')
        return [('range', z3.And(i >= 0, i <= g.R)), ('rows', z3.And(g.n == g.R)), ('rows done', z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < i), g.rs.len(g.row(a)) == g.C), patterns=[g.row(a)])), ('rows to do', z3.ForAll([a], z3.Implies(z3.And(a >= i, a < g.R), g.rs.len(g.row(a)) == 0), patterns=[g.row(a)])),
                ('cells are empty', z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < i, b >= 0, b < g.C), g.size(a, b) == 0), patterns=[g.cell(a, b)]))]
    cx.loopspecs = [LoopSpec(inv, name='allocate')]
    def run(cx):
        mr, mc, cr, cc = [cx.input(n, cx.fresh(n, z3.RealSort())) for n in ('max rows', 'max cols', 'cell rows', 'cell cols')]; cx.assume(z3.And(cr > 0, cc > 0))
        def ceil(cx, x):
            k = cx.fresh('ceil', I); cx.assume(z3.And(z3.ToReal(k) >= x, z3.ToReal(k) < x + 1, z3.Implies(x > 0, k >= 1), k < 2**31)); cx.ghost['ceil'] = cx.ghost.get('ceil', []) + [(k, x)]; return z3.ToReal(k)
        cx.hooks['ceil'] = ceil; cx.ghost['ceil'] = []
        s, r = attempt(cx, lambda: call(cx, f, None, mr, mc, cr, cc)); ok = z3.And(mr > 0, mc > 0, mr >= cr, mc >= cc)
        if s != 'ok': cx.oblige('a positive area of at least one cell is accepted', z3.Not(ok)); return
        cx.oblige('an area smaller than a cell is refused', ok); g = G(cx, cx.read(r.ref)); i, j = z3.Int('i!pm'), z3.Int('j!pm')
        cx.oblige('the grid stores its dimensions', z3.And(g.mr == mr, g.mc == mc, g.cr == cr, g.cc == cc)); ks = cx.ghost['ceil']
        cx.oblige('the cells cover the area', z3.And(z3.Or(*[z3.And(g.R == k, x == mr / cr) for k, x in ks]), z3.Or(*[z3.And(g.C == k, x == mc / cc) for k, x in ks])))
        for n, q in g.shape(): cx.oblige('the grid is well formed: ' + n, q)
        cx.oblige('a new grid is empty', z3.And(g.count == 0, z3.ForAll([i, j], z3.Implies(g.rng(i, j), g.size(i, j) == 0)))); cx.cover('end')
    cx.explore('construction', run); return cx
def t_reset(env):
    cx = env.ctx('grid', 'int'); p = cx.prog; st = {}
    def cur(cx): return G(cx, cx.read(st['gc']))
    def empty(cx, L, i, j):
        g = cur(cx); g0 = st['g0']; a, b = z3.Int('a!rs'), z3.Int('b!rs')
        return [('shape', z3.And(g.n == g0.n, g.same_dims(g0))), ('columns', z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < g.R), g.rs.len(g.row(a)) == g.C), patterns=[g.row(a)])), ('scanned cells are empty', z3.ForAll([a, b], z3.Implies(z3.And(g.rng(a, b), scanned(a, b, i, j)), g.size(a, b) == 0), patterns=[g.cell(a, b)]))]
    def outer(cx, L): st['i'] = L.idx; i = cx.ix(cx.read(L.idx)); return [('range', z3.And(i >= 0, i <= st['g0'].R))] + empty(cx, L, i, 0)
    def inner(cx, L): i, j = cx.ix(cx.read(st['i'])), cx.ix(cx.read(L.idx)); return [('range', z3.And(j >= 0, j <= st['g0'].C, i >= 0, i < st['g0'].R))] + empty(cx, L, i, j)
    cx.loopspecs = [LoopSpec(outer, name='rows'), LoopSpec(inner, name='columns')]
    def run(cx):
        v, g0 = sym_grid(cx); gc = cx.new_cell('grid', v); st.update(gc=gc, g0=g0); s, r = attempt(cx, lambda: call(cx, fn_id(p, 'vu::reset'), None, Ptr(gc))); cx.oblige('reset returns', s == 'ok')
        if s != 'ok': return
        g = cur(cx); i, j = z3.Int('i!pm'), z3.Int('j!pm'); cx.oblige('after reset the grid is empty', z3.And(g.count == 0, z3.ForAll([i, j], z3.Implies(g.rng(i, j), g.size(i, j) == 0)))); cx.oblige('the grid keeps its dimensions', g.same_dims(g0))
        for n, q in g.shape(): cx.oblige('the grid stays well formed: ' + n, q)
        cx.cover('end')
    cx.explore('reset', run); return cx
def t_list(env):
    cx = env.ctx('grid', 'int'); p = cx.prog; st = {}; f = fn_id(p, 'vu::list')
    def filled(cx, i, j):
        g, T = st['g0'], st['T'].T; o = vcopy(cx.read(st['oc'])); cx.vec_sym(o); a, b, k = z3.Int('a!ls'), z3.Int('b!ls'), z3.Int('k!ls'); arr = atom(cx, o.arr)
        cx.assume(z3.ForAll([a, b], z3.Implies(z3.And(g.rng(a, b), scanned(a, b, i, j)), z3.And(T(a, b) >= 0, T(a, b) + g.size(a, b) <= T(i, j))), patterns=[T(a, b)]))      # lemma monotone
        return [('length', cx.ix(o.n) == T(i, j)), ('cells listed so far', z3.ForAll([a, b, k], z3.Implies(z3.And(g.rng(a, b), scanned(a, b, i, j), k >= 0, k < g.size(a, b)), z3.Select(arr, T(a, b) + k) == g.pt(a, b, k)), patterns=[z3.MultiPattern(T(a, b), g.pt(a, b, k))]))]
    def outer(cx, L): st['i'] = L.ref('i_row'); i = cx.ix(L['i_row']); return [('range', z3.And(i >= 0, i <= st['g0'].R))] + filled(cx, i, z3.IntVal(0))
    def inner(cx, L):
        i, j = cx.ix(cx.read(st['i'])), cx.ix(L['j_col']); st['T'].step(i, j); return [('range', z3.And(j >= 0, j <= st['g0'].C, i >= 0, i < st['g0'].R))] + filled(cx, i, j)
    cx.loopspecs = [LoopSpec(outer, name='rows'), LoopSpec(inner, name='columns')]
    def run(cx):
        v, g0 = sym_grid(cx); gc = cx.new_cell('grid', v); T = Sum(cx, g0, g0.size); cx.assume(g0.count == T.total); out = cx.sym('out', ptype(p, f, 1)); oc = cx.new_cell('points', out); st.update(g0=g0, T=T, oc=oc)
        s, r = attempt(cx, lambda: call(cx, f, None, gc, Ptr(oc))); cx.oblige('listing returns', s == 'ok', s)
        if s != 'ok': return
        o = vcopy(cx.read(oc)); cx.vec_sym(o); a, b, k = z3.Int('a!pl'), z3.Int('b!pl'), z3.Int('k!pl')
        cx.oblige('as many points as reported are listed', z3.And(cx.ix(o.n) == g0.count, cx.ix(r) == g0.count)); cx.assume(z3.ForAll([a, b], z3.Implies(g0.rng(a, b), z3.And(T.T(a, b) >= 0, T.T(a, b) + g0.size(a, b) <= T.total)), patterns=[T.T(a, b)]))
        cx.oblige('every stored point is listed at a place of its own', z3.ForAll([a, b, k], z3.Implies(z3.And(g0.rng(a, b), k >= 0, k < g0.size(a, b)), z3.And(T.T(a, b) + k < cx.ix(o.n), z3.Select(o.arr, T.T(a, b) + k) == g0.pt(a, b, k)))))
        g1 = G(cx, cx.read(gc)); cx.oblige('listing changes nothing', z3.And(g1.g == g0.g, g1.count == g0.count)); cx.cover('end')
    cx.explore('listing', run); return cx
def t_weight(env):
    cx = env.ctx('grid', 'int'); p = cx.prog; st = {}; f = fn_id(p, 'vu::set_weight')
    def same(g, g0, q, o, w): return z3.And(g.u(q) == g0.u(o), g.v(q) == g0.v(o), g.f(q, 'id') == g0.f(o, 'id'), g.w(q) == w)
    def body(cx, i, j, kk):
        g, g0 = G(cx, cx.read(st['gc'])), st['g0']; a, b, k = z3.Int('a!sw'), z3.Int('b!sw'), z3.Int('k!sw'); done = z3.Or(scanned(a, b, i, j), z3.And(a == i, b == j, k < kk))
        return [('shape', z3.And(g.n == g0.n, g.same_dims(g0), g.count == g0.count)), ('columns', z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < g.R), g.rs.len(g.row(a)) == g.C), patterns=[g.row(a)])), ('sizes', z3.ForAll([a, b], z3.Implies(g.rng(a, b), g.size(a, b) == g0.size(a, b)), patterns=[g.cell(a, b)])),
                ('points', z3.ForAll([a, b, k], z3.Implies(z3.And(g.rng(a, b), k >= 0, k < g0.size(a, b)), z3.If(done, same(g, g0, g.pt(a, b, k), g0.pt(a, b, k), st['w']), g.pt(a, b, k) == g0.pt(a, b, k))), patterns=[g.pt(a, b, k)]))]
    def outer(cx, L): st['i'] = L.ref('i_row'); i = cx.ix(L['i_row']); return [('range', z3.And(i >= 0, i <= st['g0'].R))] + body(cx, i, 0, 0)
    def inner(cx, L): st['j'] = L.ref('j_col'); i, j = cx.ix(cx.read(st['i'])), cx.ix(L['j_col']); return [('range', z3.And(j >= 0, j <= st['g0'].C, i >= 0, i < st['g0'].R))] + body(cx, i, j, 0)
    def pts(cx, L): i, j, k = cx.ix(cx.read(st['i'])), cx.ix(cx.read(st['j'])), cx.ix(cx.read(L.idx)); g = st['g0']; return [('range', z3.And(g.rng(i, j), k >= 0, k <= g.size(i, j)))] + body(cx, i, j, k)
    cx.loopspecs = [LoopSpec(outer, name='rows'), LoopSpec(inner, name='columns'), LoopSpec(pts, name='points')]
    def run(cx):
        v, g0 = sym_grid(cx); gc = cx.new_cell('grid', v); w = cx.input('weight', cx.fresh('w', z3.RealSort())); st.update(gc=gc, g0=g0, w=w); s, r = attempt(cx, lambda: call(cx, f, None, Ptr(gc), w)); cx.oblige('reweighting returns', s == 'ok')
        if s != 'ok': return
        g = G(cx, cx.read(gc)); a, b, k = z3.Int('a!pw'), z3.Int('b!pw'), z3.Int('k!pw'); rg = z3.And(g.rng(a, b), k >= 0, k < g0.size(a, b))
        cx.oblige('only weights change', z3.And(g.count == g0.count, z3.ForAll([a, b], z3.Implies(g.rng(a, b), g.size(a, b) == g0.size(a, b))), z3.ForAll([a, b, k], z3.Implies(rg, same(g, g0, g.pt(a, b, k), g0.pt(a, b, k), w))))); post_shape(cx, g, g0); cx.cover('end')
    cx.explore('reweighting', run); return cx
def tasks(env): return [Task('lemmas', t_lemmas), Task('adding', t_add), Task('lookup', t_cell), Task('construction', t_make), Task('reset', t_reset), Task('listing', t_list), Task('reweighting', t_weight)]
