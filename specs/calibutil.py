"""Calibration targets and observations: symbolic objects and views of them."""
from util import *
import algos, eigen
from eigen import *
UNIT = {'calib': r'^(aslam::calibration::|vu::)'}
I = z3.IntSort()
def g_size(cx):
    """rows, cols >= 1 with fewer than 2^31 points; the product is introduced with the facts of multiplication used"""
    r, c = cx.fresh('rows', I), cx.fresh('cols', I); cx.assume(z3.And(r >= 1, c >= 1, r * c < 2**31)); return r, c
def target(cx, name='target', rec='vu::Target'):
    t = rectype(cx.prog, rec); v = cx.sym(name, t); r, c = g_size(cx)
    P = fld(v, 'points_target_frame_'); P.c = r * c
    setf(v, 'rows_', r); setf(v, 'cols_', c); cx.input('rows', r); cx.input('columns', c); return v
def holder(v, n):
    if n in v.f: return v
    for x in v.f.values():
        if isinstance(x, Rec):
            h = holder(x, n)
            if h is not None: return h
    return None
def fld(v, n): return holder(v, n).f[n]
def setf(v, n, x): holder(v, n).f[n] = x
def col(cx, M, k): return [cx.zr(M.el(cx, i, k)) for i in range(3)] if False else [pk(cx, M.el(cx, i, k), M.et) for i in range(cx.conc(M.r))]
def same_target(cx, a, b):
    A, B = fld(a, 'points_target_frame_'), fld(b, 'points_target_frame_')
    return AND(eqi(cx, fld(a, 'rows_'), fld(b, 'rows_')), eqi(cx, fld(a, 'cols_'), fld(b, 'cols_')), same_mat(cx, A, B))
def atom(cx, t):
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: return t
    a = cx.fresh('atom', t.sort()); cx.assume(a == t); return a
def obs_inv(cx, ids, M, n):
    """the index holds exactly the first n ids, each with a position at which it stands"""
    val, dom = atom(cx, cx.map_val(M)), atom(cx, M.dom); k, i = z3.Int('k!ob'), z3.Int('i!ob'); id_ = lambda i: pk(cx, ids.el(cx, i, 0), ids.et); u = lambda x: z3.If(x < 0, x + 2**64, x)
    return [('every observed id is indexed', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(dom, u(id_(i)))), patterns=[id_(i)])),
            ('every index entry is an observed id', z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(z3.Select(val, k) >= 0, z3.Select(val, k) < n, u(id_(z3.Select(val, k))) == k)), patterns=[z3.Select(dom, k)]))]
def observation(cx):
    """a symbolic observation that satisfies the invariant of its class"""
    p = cx.prog; t = rectype(p, 'aslam::calibration::TargetObservation'); T = target(cx, rec='aslam::calibration::TargetBase'); tc = cx.new_cell('target', T)
    pt = lambda n: [ft for k, ft in cx.fields(t) if k == n][0]
    ids, C = cx.sym('ids', pt('corner_ids_')), cx.sym('corners', pt('image_corners_')); cx.assume(z3.And(cx.ix(ids.r) < 2**31, C.c == ids.r)); cx.input('observed corners', ids.r); C.c = ids.r
    j = z3.Int('j!id'); e = pk(cx, ids.el(cx, j, 0), ids.et); cx.assume(z3.ForAll([j], z3.And(e >= -2**31, e < 2**31), patterns=[e]))
    M = cx.sym('index', pt('cornerid_to_index_map_')); v = Rec(t, {'target_': Ptr(tc), 'image_height': cx.sym('h', pt('image_height')), 'image_width': cx.sym('w', pt('image_width')), 'corner_ids_': ids, 'image_corners_': C, 'cornerid_to_index_map_': M})
    for k, f in obs_inv(cx, ids, M, cx.ix(ids.r)): cx.assume(f)
    return v, T, tc
