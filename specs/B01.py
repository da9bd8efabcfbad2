"""B01: calibration target grid indexing and geometry."""
REPLAY_SRC = ['REPO/aslam_cv_calibration/src/target-base.cc']; REPLAY_SECS = (10, 120)
from calibutil import *
UNITS = UNIT
def t_index(env):
    cx = env.ctx('calib', 'int'); p = cx.prog
    def run(cx):
        T = target(cx); c = cx.new_cell('target', T); R, C = fld(T, 'rows_'), fld(T, 'cols_'); i = cx.input('point', cx.fresh_int('point', 0, 2**64 - 1))
        s, v = attempt(cx, lambda: call(cx, fn_id(p, 'vu::to_grid'), None, c, i))
        if s != 'ok': cx.oblige('a point of the target has grid coordinates', i >= R * C); return
        cx.oblige('an index outside the target is refused', i < R * C)
        if not cx.branch(i < R * C): return
        a, b = cx.ix(v.f['first']), cx.ix(v.f['second'])
        cx.oblige('the grid position is in range', z3.And(a >= 0, a < R, b >= 0, b < C)); cx.oblige('the points are stored row by row', C * a + b == i)
        s, j = attempt(cx, lambda: call(cx, fn_id(p, 'vu::to_point'), None, c, v.f['first'], v.f['second']))
        cx.oblige('the grid position is accepted back', s == 'ok')
        if s == 'ok': cx.oblige('index and grid position round-trip', cx.ix(j) == i)
        cx.oblige('queries change nothing', same_target(cx, cx.read(c), T)); cx.cover('end')
    cx.explore('index to grid', run)
    def run(cx):
        T = target(cx); c = cx.new_cell('target', T); R, C = fld(T, 'rows_'), fld(T, 'cols_'); a, b = [cx.input(n, cx.fresh_int(n, 0, 2**64 - 1)) for n in ('row', 'col')]
        s, i = attempt(cx, lambda: call(cx, fn_id(p, 'vu::to_point'), None, c, a, b)); ok = z3.And(a < R, b < C)
        if s != 'ok': cx.oblige('a grid position inside the target is accepted', z3.Not(ok)); return
        cx.oblige('a grid position outside the target is refused', ok)
        if not cx.branch(ok): return
        i = cx.ix(i); d = R - 1 - a; cx.assume(z3.And(R == a + 1 + d))
        cx.oblige('the points are stored row by row', i == C * a + b); cx.oblige('the index is in range', z3.And(i >= 0, i < R * C))
        s, v = attempt(cx, lambda: call(cx, fn_id(p, 'vu::to_grid'), None, c, i))
        cx.oblige('the index is accepted back', s == 'ok')
        if s == 'ok':
            x, y = cx.ix(v.f['first']), cx.ix(v.f['second']); cx.oblige('grid position and index round-trip', z3.And(x == a, y == b))
        cx.cover('end')
    cx.explore('grid to index', run); return cx
def t_geom(env):
    cx = env.ctx('calib', 'int'); p = cx.prog
    for nm in ('point', 'point_mutable', 'grid_point'):
        def run(cx, nm=nm):
            T = target(cx); c = cx.new_cell('target', T); R, C = fld(T, 'rows_'), fld(T, 'cols_'); P = fld(T, 'points_target_frame_')
            if nm == 'grid_point':
                a, b = [cx.input(n, cx.fresh_int(n, 0, 2**64 - 1)) for n in ('row', 'col')]; args = (a, b); i = C * a + b; ok = z3.And(a < R, b < C)
            else: i = cx.input('point', cx.fresh_int('point', 0, 2**64 - 1)); args = (i,); ok = i < R * C
            s, v = attempt(cx, lambda: call(cx, fn_id(p, 'vu::' + nm), None, Ptr(c) if nm == 'point_mutable' else c, *args))
            if s != 'ok': cx.oblige('an index of the target is accepted', z3.Not(ok)); return
            cx.oblige('an index outside the target is refused', ok)
            if not cx.branch(ok): return
            if nm == 'point_mutable':
                cx.oblige('the pointer refers to the target', v.ref is not None and v.ref.cell == c.cell and v.ref.path[:-1][-1:] == (('f', 'points_target_frame_'),))
                x, y = v.ref.path[-1][1]; cx.oblige('the pointer refers to the first coordinate of the point', AND(eqi(cx, x, 0), eqi(cx, y, i)))
            else:
                V = mval(cx, v)
                for k in range(3): cx.oblige('the position stored for that index is returned', pk(cx, V.el(cx, k, 0), V.et) == pk(cx, P.el(cx, k, i), P.et))
            cx.oblige('queries change nothing', same_target(cx, cx.read(c), T)); cx.cover('end')
        cx.explore(nm, run)
    def run(cx):
        T = target(cx); c = cx.new_cell('target', T); R, C = fld(T, 'rows_'), fld(T, 'cols_'); P = fld(T, 'points_target_frame_')
        for nm, want in (('rows', R), ('cols', C), ('size', R * C)): cx.oblige('the target reports rows times columns points', eqi(cx, call(cx, fn_id(p, 'vu::' + nm), None, c), want), nm)
        cx.oblige('all points are returned', same_mat(cx, mval(cx, call(cx, fn_id(p, 'vu::points'), None, c)), P))
        for nm, k, far in (('width', 0, C - 1), ('height', 1, C * (R - 1))):
            s, v = attempt(cx, lambda: call(cx, fn_id(p, 'vu::' + nm), None, c)); cx.oblige('every target has an extent', s == 'ok', nm)
            if s == 'ok': d = pk(cx, P.el(cx, k, far), P.et) - pk(cx, P.el(cx, k, 0), P.et); cx.oblige('the extent is the distance of the outer points', cx.pack(v, P.et) == z3.If(d >= 0, d, -d), nm)
        cx.cover('end')
    cx.explore('sizes', run)
    f = fn_id(p, 'vu::make'); pt = ptype(p, f, 2)
    def run(cx):
        r, c = [cx.input(n, cx.fresh_int(n, 0, 2**31 - 1)) for n in ('rows', 'cols')]; cx.assume(r * c < 2**31); M = cx.sym('points', pt); m = cx.new_cell('points', M); n = cx.ix(M.c)
        ok = z3.And(r >= 1, c >= 1, r * c == n); s, v = attempt(cx, lambda: call(cx, f, None, r, c, m))
        if s != 'ok': cx.oblige('rows times columns points are accepted', z3.Not(ok)); return
        cx.oblige('any other number of points is refused', ok); T = cx.read(v.ref)
        cx.oblige('the target stores what it is given', AND(eqi(cx, fld(T, 'rows_'), r), eqi(cx, fld(T, 'cols_'), c), same_mat(cx, fld(T, 'points_target_frame_'), M))); cx.cover('end')
    cx.explore('construction', run); return cx
ASSUMPTIONS = ['a target has fewer than 2^31 points', 'coordinates are real numbers (differences are exact)']
LEVEL_NOTE = "contracts of every accessor and of the constructor proved for all target sizes, positions and indices"
def tasks(env): return [Task('indexing', t_index), Task('geometry', t_geom)]
