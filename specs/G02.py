"""G02: thinning an occupancy grid keeps the strongest points, and insertion with a minimum distance keeps the strongest of the neighbours."""
from gridutil import *
UNITS = UNIT
ASSUMPTIONS = ASSUME + ['weights exceed the lowest value of their type', 'termination of removePointsFromFullestCellsUntilSize: each round is proved to remove a point']
BOUNDED = ['addPointOrReplaceWeakestNearestPoints: replay driver against a reference implementation']
LEVEL_NOTE = "per-cell thinning, thinning of all cells, the fullest-cell search and thinning to a total proved for all grids through their contracts; insertion with a minimum distance by bounded replay against a reference"
REPLAY_SECS = (20, 200)
N = 'aslam::common::WeightedOccupancyGrid::'
def coords(p):
    for i, T in enumerate(p.types):
        if T['k'] == 'rec' and T['q'].endswith('WeightedOccupancyGrid::GridCoordinates') and i in p.records: return i
    raise Unsupported('grid coordinates type')
def t_cell(env):
    cx = env.ctx('grid', 'int'); p = cx.prog; f = fn_id(p, N + 'removeWeightedPointsFromOverfullCell')
    def run(cx):
        cx.ghost['perms'] = []; v, g0 = sym_grid(cx); gc = cx.new_cell('grid', v); c = cx.sym('coords', coords(p)); a, b = cx.ix(c.f['i_rows']), cx.ix(c.f['j_cols']); cx.input('row', a); cx.input('column', b)
        lim = cx.input('limit', cx.fresh_int('limit', 0, 2**64 - 1)); cx.assume(z3.Implies(g0.rng(a, b), g0.count >= g0.size(a, b)))      # lemma monotone
        s, r = attempt(cx, lambda: call(cx, f, gc, cx.new_cell('coords', c), lim)); ok = g0.rng(a, b)
        if s != 'ok': cx.oblige('a cell of the grid is accepted', z3.Not(ok)); return
        cx.oblige('a cell outside the grid is refused', ok)
        if not cx.branch(ok): return
        g1 = G(cx, cx.read(gc)); n = g0.size(a, b); r = cx.ix(r); one_cell(cx, g1, g0, a, b); m = z3.If(n <= lim, n, lim)
        cx.oblige('the cell is cut to the limit', g1.size(a, b) == m); cx.oblige('the number of removed points is returned', r == n - m)
        if cx.branch(n <= lim): cx.oblige('a cell within the limit is untouched', z3.And(g1.g == g0.g, g1.count == g0.count)); cx.cover('small'); return
        if not cx.ghost['perms']: raise Unsupported('the cell is not thinned by a library sort')
        P = cx.ghost['perms'][-1]; k, l, q = z3.Int('k!tc'), z3.Int('l!tc'), z3.Int('q!tc'); K = lambda k: z3.And(k >= 0, k < m)
        x, y = cx.fresh('x', I), cx.fresh('y', I); cx.assume(z3.And(K(x), K(y))); P.at(cx, x); P.at(cx, y); R = lambda t: z3.Select(P.R, t)
        cx.oblige('the kept points are the strongest ones', z3.And(R(x) == g1.pt(a, b, x), R(y) == g1.pt(a, b, y))); cx.oblige('the kept points are points of the cell', z3.And(P.pi(x) >= 0, P.pi(x) < n, g1.pt(a, b, x) == g0.pt(a, b, P.pi(x))))
        cx.oblige('each kept point comes from one place', z3.And(P.rho(P.pi(x)) == x, P.rho(P.pi(y)) == y, R(x) == R(x)))
        cx.oblige('the kept points are distinct', z3.Implies(x != y, P.pi(x) != P.pi(y)))
        cx.oblige('no lighter point is kept while a heavier one is dropped', z3.ForAll([k, q], z3.Implies(z3.And(K(k), q >= 0, q < n, P.rho(q) >= m), g0.w(g0.pt(a, b, q)) <= g1.w(g1.pt(a, b, k))))); cx.cover('cut')
    cx.explore('cell', run); return cx
def thin_contract(cx, st, p):
    """removal from one cell, as proved by 'cell': Thin names what is proved about the kept points"""
    def con(cx, c):
        g = G(cx, cx.read(c.obj)); co = rd(cx, c.args[0]); a, b, lim = cx.ix(co.f['i_rows']), cx.ix(co.f['j_cols']), cx.ix(rd(cx, c.args[1])); cx.oblige('the cell handed over exists', g.rng(a, b)); n = g.size(a, b); m = z3.If(n <= lim, n, lim)
        cx.assume(z3.And(n >= 0, g.count >= n))       # class invariant, lemma monotone
        if 'on_thin' in st: st['on_thin'](cx, g, a, b, lim)
        v = vcopy(cx.read(c.obj)); nv = Vec(v.f['grid_'].et, v.f['grid_'].n, cx.fresh('grid', g.g.sort())); cx.write(c.obj.fld('grid_'), nv); cx.write(c.obj.fld('current_num_points_'), cx.norm(g.count - (n - m)))
        h = G(cx, cx.read(c.obj)); i = z3.Int('i!ct'); cx.assume(z3.And(h.frame(g, a, b), h.size(a, b) == m, st['Thin'](g.cell(a, b), h.cell(a, b), lim), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < g.R), h.rs.len(h.row(i)) == g.C), patterns=[h.row(i)])))
        if 'S' in st: cx.assume(st['S'](h.g) == st['S'](g.g) - (n - m))        # lemma one cell
        return cx.norm(n - m)
    cx.contracts[N + 'removeWeightedPointsFromOverfullCell'] = con
def thin_uf(cx, g): st = cx.uf('Thin', g.cs.sort if hasattr(g.cs, 'sort') and not callable(g.cs.sort) else g.cell(0, 0).sort(), g.cell(0, 0).sort(), I, z3.BoolSort()); return st
def t_all(env):
    cx = env.ctx('grid', 'int'); p = cx.prog; st = {}; f = fn_id(p, 'vu::thin'); thin_contract(cx, st, p)
    def sofar(cx, L, i, j):
        g, g0, U, T = G(cx, cx.read(st['gc'])), st['g0'], st['U'].T, st['T'].T; a, b = z3.Int('a!ta'), z3.Int('b!ta'); cx.assume(z3.And(0 <= U(i, j), U(i, j) <= T(i, j), T(i, j) <= g0.count))     # lemmas difference, monotone
        r = cx.ix(L['num_removed'])
        return [('shape', z3.And(g.n == g0.n, g.same_dims(g0))), ('columns', z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < g.R), g.rs.len(g.row(a)) == g.C), patterns=[g.row(a)])), ('removed', r == U(i, j)), ('count', g.count == g0.count - U(i, j)),
                ('cells to do', g.frame(g0, done=lambda a, b: scanned(a, b, i, j))), ('cells done', z3.ForAll([a, b], z3.Implies(z3.And(g0.rng(a, b), scanned(a, b, i, j)), z3.And(g.size(a, b) == z3.If(g0.size(a, b) <= st['lim'], g0.size(a, b), st['lim']), st['Thin'](g0.cell(a, b), g.cell(a, b), st['lim']))), patterns=[g.cell(a, b)]))]
    def outer(cx, L): st['i'] = L.idx; i = cx.ix(cx.read(L.idx)); return [('range', z3.And(i >= 0, i <= st['g0'].R))] + sofar(cx, L, i, z3.IntVal(0))
    def inner(cx, L):
        i, j = cx.ix(cx.read(st['i'])), cx.ix(cx.read(L.idx)); st['U'].step(i, j); st['T'].step(i, j); return [('range', z3.And(j >= 0, j <= st['g0'].C, i >= 0, i < st['g0'].R))] + sofar(cx, L, i, j)
    cx.loopspecs = [LoopSpec(outer, name='rows'), LoopSpec(inner, name='columns')]
    def run(cx):
        v, g0 = sym_grid(cx); gc = cx.new_cell('grid', v); lim = cx.input('limit', cx.fresh_int('limit', 0, 2**64 - 1)); T = Sum(cx, g0, g0.size); U = Sum(cx, g0, lambda i, j: z3.If(g0.size(i, j) > lim, g0.size(i, j) - lim, 0), 'U'); cx.assume(g0.count == T.total)
        st.update(gc=gc, g0=g0, lim=lim, T=T, U=U, Thin=thin_uf(cx, g0)); s, r = attempt(cx, lambda: call(cx, f, None, Ptr(gc), lim)); ok = lim >= 1
        if s != 'ok': cx.oblige('a positive limit is accepted', z3.Not(ok)); return
        cx.oblige('a limit of zero is refused', ok); g = G(cx, cx.read(gc)); a, b = z3.Int('a!pa'), z3.Int('b!pa'); rg = g0.rng(a, b)
        cx.oblige('every cell is thinned to the limit and keeps its strongest points', z3.ForAll([a, b], z3.Implies(rg, z3.And(g.size(a, b) <= lim, g.size(a, b) == z3.If(g0.size(a, b) <= lim, g0.size(a, b), lim), st['Thin'](g0.cell(a, b), g.cell(a, b), lim)))))
        cx.oblige('the number of removed points is returned', cx.ix(r) == U.total); cx.oblige('the count drops by the number of removed points', g.count == g0.count - U.total); cx.oblige('the grid keeps its dimensions', g.same_dims(g0)); cx.cover('end')
    cx.explore('all cells', run); return cx
def t_fullest(env):
    cx = env.ctx('grid', 'int'); p = cx.prog; st = {}; f = fn_id(p, N + 'getFullestGridCell')
    def best(cx, L, i, j):
        g = st['g0']; co = L['coords']; a, b = z3.Int('a!fu'), z3.Int('b!fu'); x, y, m = cx.ix(co.f['i_rows']), cx.ix(co.f['j_cols']), cx.ix(L['max_size'])
        return [('position', g.rng(x, y)), ('size', z3.And(m >= 0, z3.Or(m == 0, m == g.size(x, y)))), ('largest so far', z3.ForAll([a, b], z3.Implies(z3.And(g.rng(a, b), scanned(a, b, i, j)), g.size(a, b) <= m), patterns=[g.cell(a, b)]))]
    def outer(cx, L): st['i'] = L.idx; i = cx.ix(cx.read(L.idx)); return [('range', z3.And(i >= 0, i <= st['g0'].R))] + best(cx, L, i, 0)
    def inner(cx, L): i, j = cx.ix(cx.read(st['i'])), cx.ix(cx.read(L.idx)); return [('range', z3.And(j >= 0, j <= st['g0'].C, i >= 0, i < st['g0'].R))] + best(cx, L, i, j)
    cx.loopspecs = [LoopSpec(outer, name='rows'), LoopSpec(inner, name='columns')]
    def run(cx):
        v, g0 = sym_grid(cx); gc = cx.new_cell('grid', v); st.update(gc=gc, g0=g0); s, r = attempt(cx, lambda: call(cx, f, gc)); cx.oblige('the search returns', s == 'ok')
        if s != 'ok': return
        r = r if not isinstance(r, (Ref, Ptr)) else rd(cx, r); x, y = cx.ix(r.f['i_rows']), cx.ix(r.f['j_cols']); a, b = z3.Int('a!pf'), z3.Int('b!pf'); cx.oblige('a cell of the grid is found', g0.rng(x, y))
        cx.oblige('no cell holds more points than the one found', z3.ForAll([a, b], z3.Implies(g0.rng(a, b), g0.size(a, b) <= g0.size(x, y)))); g1 = G(cx, cx.read(gc)); cx.oblige('the search changes nothing', z3.And(g1.g == g0.g, g1.count == g0.count)); cx.cover('end')
    cx.explore('fullest cell', run); return cx
def t_total(env):
    cx = env.ctx('grid', 'int'); p = cx.prog; st = {}; f = fn_id(p, 'vu::thin_total'); thin_contract(cx, st, p); ct = coords(p)
    def fullest(cx, c):
        g = G(cx, cx.read(c.obj)); v = cx.sym('fullest', ct); x, y = cx.ix(v.f['i_rows']), cx.ix(v.f['j_cols']); a, b = z3.Int('a!cf'), z3.Int('b!cf')
        cx.assume(z3.And(g.rng(x, y), z3.ForAll([a, b], z3.Implies(g.rng(a, b), g.size(a, b) <= g.size(x, y)), patterns=[g.cell(a, b)]))); n = g.size(x, y); cx.assume(z3.And(n >= 0, z3.Implies(st['S'](g.g) > 0, n >= 1), n <= st['S'](g.g)))   # lemmas empty, monotone
        return v
    cx.contracts[N + 'getFullestGridCell'] = fullest
    def on_thin(cx, g, a, b, lim):
        i, j = z3.Int('i!ot'), z3.Int('j!ot'); cx.oblige('points are taken from a fullest cell', z3.ForAll([i, j], z3.Implies(g.rng(i, j), g.size(i, j) <= g.size(a, b)))); cx.oblige('one point is taken at a time', z3.And(lim == g.size(a, b) - 1, lim >= 0))
    def inv(cx, L):
        g, g0 = G(cx, cx.read(st['gc'])), st['g0']; a, b = z3.Int('a!tt'), z3.Int('b!tt')
        return [('shape', z3.And(g.n == g0.n, g.same_dims(g0))), ('columns', z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < g.R), g.rs.len(g.row(a)) == g.C), patterns=[g.row(a)])), ('sizes', z3.ForAll([a, b], z3.Implies(g.rng(a, b), z3.And(g.size(a, b) >= 0, g.size(a, b) <= g0.size(a, b))), patterns=[g.cell(a, b)])), ('count', z3.And(g.count == st['S'](g.g), g.count >= 0, g.count <= g0.count)), ('not too few', z3.Or(z3.And(g.count == g0.count, g.g == g0.g), z3.And(g.count >= st['max'], g.count < g0.count)))]
    cx.loopspecs = [LoopSpec(inv, name='rounds')]
    def run(cx):
        v, g0 = sym_grid(cx); gc = cx.new_cell('grid', v); mx = cx.input('maximum', cx.fresh_int('max', 0, 2**64 - 1)); S = cx.uf('SumOf', g0.g.sort(), I); cx.assume(S(g0.g) == g0.count); st.update(gc=gc, g0=g0, max=mx, S=S, Thin=thin_uf(cx, g0), on_thin=on_thin)
        s, r = attempt(cx, lambda: call(cx, f, None, Ptr(gc), mx)); ok = mx >= 1
        if s != 'ok': cx.oblige('a positive maximum is accepted', z3.Not(ok)); return
        cx.oblige('a maximum of zero is refused', ok); g = G(cx, cx.read(gc)); cx.oblige('exactly as many points remain as allowed', g.count == z3.If(g0.count <= mx, g0.count, mx)); cx.oblige('a grid within the maximum is untouched', z3.Implies(g0.count <= mx, g.g == g0.g)); cx.oblige('the count stays the sum of the cell sizes', g.count == S(g.g)); cx.oblige('the grid keeps its dimensions', g.same_dims(g0)); cx.cover('end')
    cx.explore('total', run); return cx
def tasks(env): return [Task('one cell', t_cell), Task('all cells', t_all), Task('fullest cell', t_fullest), Task('total', t_total)]
