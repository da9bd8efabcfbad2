"""Occupancy grid: symbolic grids, their class invariant, prefix sums over the cells in scan order."""
from util import *
import algos, eigen
UNIT = {'grid': r'^(aslam::common::|vu::)'}
ASSUME = ['coordinates, cell sizes and distances are exact real numbers', 'cell sizes are positive', 'the number of points fits size_t']
I = z3.IntSort()
def gtype(p):
    for i, T in enumerate(p.types):
        if T['k'] == 'rec' and T['q'] == 'aslam::common::WeightedOccupancyGrid' and i in p.records: return i
    raise Unsupported('grid type')
def atom(cx, t):
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: return t
    a = cx.fresh('atom', t.sort()); cx.assume(a == t); return a
class G:
    """view of a grid value: cell(i, j), size(i, j), pt(i, j, k)"""
    def __init__(s, cx, rec, st=None):
        s.cx, s.rec = cx, rec; v = vcopy(rec.f['grid_']); cx.vec_sym(v); s.g = atom(cx, v.arr); s.n = cx.ix(v.n); s.row_t = v.et; s.rs = cx.sort(v.et); s.cell_t = cx.elem(v.et); s.cs = cx.sort(s.cell_t); s.pt_t = cx.elem(s.cell_t); s.ps = cx.sort(s.pt_t)
        s.R, s.C, s.count = cx.ix(rec.f['num_grid_rows_']), cx.ix(rec.f['num_grid_cols_']), cx.ix(rec.f['current_num_points_']); s.mr, s.mc, s.cr, s.cc = [cx.zr(rec.f[k]) for k in ('max_input_coordinate_rows_', 'max_input_coordinate_cols_', 'cell_size_rows_', 'cell_size_cols_')]
    def row(s, i): return z3.Select(s.g, i)
    def cell(s, i, j): return z3.Select(s.rs.arr(s.row(i)), j)
    def size(s, i, j): return s.cs.len(s.cell(i, j))
    def pt(s, i, j, k): return z3.Select(s.cs.arr(s.cell(i, j)), k)
    def f(s, p, n): return getattr(s.ps, 'f_'+n)(p)
    def u(s, p): return s.f(p, 'u_rows')
    def v(s, p): return s.f(p, 'v_cols')
    def w(s, p): return s.f(p, 'weight')
    def rng(s, i, j): return z3.And(i >= 0, i < s.R, j >= 0, j < s.C)
    def same_dims(s, o): return z3.And(s.R == o.R, s.C == o.C, s.mr == o.mr, s.mc == o.mc, s.cr == o.cr, s.cc == o.cc)
    # invariant parts
    def shape(s):
        i = z3.Int('i!sh'); j = z3.Int('j!sh')
        return [('rows', z3.And(s.n == s.R, s.R >= 1, s.C >= 1)), ('columns', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.R), s.rs.len(s.row(i)) == s.C), patterns=[s.row(i)])),
                ('cell sizes', z3.ForAll([i, j], z3.Implies(s.rng(i, j), s.size(i, j) >= 0), patterns=[s.cell(i, j)]))]
    def place(s, gi=None):
        i, j, k = z3.Int('i!pl'), z3.Int('j!pl'), z3.Int('k!pl'); p = s.pt(i, j, k)
        return ('every stored point lies in its cell', z3.ForAll([i, j, k], z3.Implies(z3.And(s.rng(i, j), k >= 0, k < s.size(i, j)), s.at_home(p, i, j)), patterns=[p]))
    def at_home(s, p, i, j): return z3.And(s.valid(p), s.ROW(s.u(p)) == i, s.COL(s.v(p)) == j)
    def valid(s, p): return s.valid_uv(s.u(p), s.v(p))
    def valid_uv(s, u, v): return z3.And(u >= 0, v >= 0, u < s.mr, v < s.mc)
    def ROW(s, u): return s.cx.uf('rowOf', z3.RealSort(), I)(u)
    def COL(s, v): return s.cx.uf('colOf', z3.RealSort(), I)(v)
    def frame(s, o, a=None, b=None, done=None):
        """the cells of s other than (a, b) are those of o"""
        i, j = z3.Int('i!fr'), z3.Int('j!fr'); c = z3.Not(z3.And(i == a, j == b)) if a is not None else True if done is None else z3.Not(done(i, j))
        return z3.ForAll([i, j], z3.Implies(z3.And(s.rng(i, j), c), s.cell(i, j) == o.cell(i, j)), patterns=[s.cell(i, j)])
def scanned(a, b, i, j): return z3.Or(a < i, z3.And(a == i, b < j))
def floor_hooks(cx, g):
    """floor(u / cell size) is the row (column) of u: lemma 'coordinates' puts it inside the grid"""
    def h(cx, x):
        x = z3.simplify(x) if False else x
        if z3.is_app_of(x, z3.Z3_OP_DIV):
            a, b = x.arg(0), x.arg(1)
            if b.eq(g.cr): r = g.ROW(a); cx.assume(z3.Implies(z3.And(a >= 0, a < g.mr), z3.And(r >= 0, r < g.R))); return z3.ToReal(r)
            if b.eq(g.cc): r = g.COL(a); cx.assume(z3.Implies(z3.And(a >= 0, a < g.mc), z3.And(r >= 0, r < g.C))); return z3.ToReal(r)
        return None
    cx.hooks['floor'] = h
def sym_grid(cx, same_size=False):
    """a grid that satisfies its class invariant; the count is the sum of the cell sizes"""
    v = cx.sym('grid', gtype(cx.prog)); g = G(cx, v); cx.assume(z3.And(g.mr > 0, g.mc > 0, g.cr > 0, g.cc > 0, g.R < 2**31, g.C < 2**31))
    for n, f in g.shape() + [g.place()]: cx.assume(f)
    cx.input('rows', g.R); cx.input('columns', g.C); cx.input('points', g.count); floor_hooks(cx, g); cx.assume(z3.And(g.count >= 0, g.count < 2**62)); return v, g
class Sum:
    """prefix sums T(i, j) of term(i, j) over the cells before (i, j) in scan order"""
    def __init__(s, cx, g, term, tag='T'):
        cx.fresh_n += 1; s.T = z3.Function('%s!%d' % (tag, cx.fresh_n), I, I, I); s.g, s.term, s.cx = g, term, cx; T = s.T; i, j = z3.Int('i!sum'), z3.Int('j!sum')
        cx.assume(T(0, 0) == 0)
        cx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, j >= 0, j < g.C), T(i, j + 1) == T(i, j) + term(i, j)), patterns=[T(i, j + 1)]))
        cx.assume(z3.ForAll([i], z3.Implies(i >= 0, T(i + 1, 0) == T(i, g.C)), patterns=[T(i + 1, 0)])); s.total = T(g.R, 0)
    def step(s, i, j): s.cx.assume(z3.Implies(z3.And(i >= 0, j >= 0, j < s.g.C), s.T(i, j + 1) == s.T(i, j) + s.term(i, j))); s.cx.assume(z3.Implies(i >= 0, s.T(i + 1, 0) == s.T(i, s.g.C)))
def post_shape(cx, g1, g0, place=True):
    cx.oblige('the grid keeps its dimensions', g1.same_dims(g0))
    for n, f in g1.shape(): cx.oblige('the grid stays well formed: ' + n, f)
    if place: n, f = g1.place(); cx.oblige(n, f)
def one_cell(cx, g1, g0, a, b):
    """only cell (a, b) changes and the count changes by as much as its size (lemma 'one cell': then the count stays the sum)"""
    cx.oblige('other cells are unchanged', g1.frame(g0, a, b)); cx.oblige('the count changes by as much as the cell', g1.count - g0.count == g1.size(a, b) - g0.size(a, b)); post_shape(cx, g1, g0)
