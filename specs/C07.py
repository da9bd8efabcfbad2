"""C07: camera rigs map every camera id to its own camera."""
from util import *
import core, models, eigen
from models import *
UNITS = {'rig': r'^(aslam::NCamera|aslam::Sensor|vu::)'}
REPLAY_SRC = ['REPO/aslam_cv_common/src/%s.cc' % n for n in ('hash-id', 'internal/unique-id')] + ['REPO/aslam_cv_cameras/src/%s.cc' % n for n in ('camera', 'camera-pinhole', 'camera-unified-projection', 'camera-3d-lidar', 'camera-factory', 'distortion', 'distortion-radtan', 'distortion-equidistant', 'distortion-fisheye')]
REPLAY_LIBS = ['-lyaml-cpp', '-lglog', '-lgflags', '-lprotobuf', '-lopencv_core', '-pthread']; REPLAY_SECS = (10, 120)
I, B = z3.IntSort(), z3.BoolSort()
NC = 'aslam::NCamera'; TR = 'kindr::minimal::QuatTransformation'
core.SYM_TYPES['std::weak_ptr'] = lambda cx, b, t: Ptr(None)
class Cams(Obj):
    """all cameras: id, geometry (an arbitrary value) and whether the distortion was removed, by handle; handles from top on are free"""
    F = ('ids', 'geom', 'removed', 'top')
    def __init__(s, t, *a):
        s.t = t
        for k, v in zip(s.F, a): setattr(s, k, v)
    def copy(s): return Cams(s.t, *[getattr(s, k) for k in s.F])
    def havoc(s, cx, base): return Cams(s.t, *[cx.fresh('h_' + k, getattr(s, k).sort()) for k in s.F])
    def get_path(s, cx, p):
        if p[0] != 'i': raise Unsupported('path %s into the cameras' % (p,))
        return Cam(s, p[1])
    def set_path(s, cx, path, val):
        if len(path) < 2 or path[1] != ('f', 'id_') or len(path) > 2: raise Unsupported('store into a camera')
        n = s.copy(); n.ids = z3.Store(s.ids, path[0][1], val); return n
class Cam(Obj):
    def __init__(s, w, h): s.w, s.h = w, h
    def get_path(s, cx, p):
        if p == ('f', 'id_'): return z3.Select(s.w.ids, s.h)
        raise Unsupported('path %s into a camera' % (p,))
class World:
    def __init__(s, cx):
        s.cx = cx; p = cx.prog; s.idt = ptype(p, fn_id(p, 'vu::index'), 1); cx.opaques = set(cx.opaques) | {cx.T(s.idt)['q'], TR}; s.ID = cx.sort(s.idt)
        s.valid = z3.Function('valid id', s.ID, B); s.age = z3.Function('when the id was made', s.ID, I); s.null = z3.Const('invalid id', s.ID); cx.assume(z3.Not(s.valid(s.null)))
        A = lambda n, so: z3.Const(n, z3.ArraySort(I, so)); w = Cams(s.idt, A('ids', s.ID), A('geometry', I), A('removed', B), z3.Int('first free handle'))
        s.cell = cx.new_cell('cams', w); s.w0 = w; s.clock = cx.new_cell('clock', z3.Int('clock0')); s.t0 = z3.Int('clock0'); h = z3.Int('h!w'); cx.assume(w.top > 0)
        e = z3.Select(w.ids, h); cx.assume(z3.ForAll([h], z3.Implies(h < w.top, s.age(e) < s.t0), patterns=[e])); cx.assume(s.t0 > 0); q = cx.T(s.idt)['q']
        def ref(h): return Ref(s.cell.cell, (('i', h),))
        s.ref = ref
        def hp(cx, z, t):
            if cx.branch(z == 0): return NULL
            return Ptr(ref(z), z)
        cx.hooks['handle_ptr'] = hp
        cx.hooks['ptr_handle'] = lambda cx, v: v.ref.path[0][1] if v.ref.cell == s.cell.cell and v.ref.path else None
        C = cx.contracts
        C['aslam::HashId::isValid'] = C[q + '::isValid'] = lambda cx, c: s.valid(cx.read(c.obj))
        def gen(cx, c):
            p = rd(cx, c.args[0]); cx.oblige('an id is made for somebody', p.ref is not None); i = cx.fresh('new id', s.ID); now = cx.ix(cx.read(s.clock)); cx.assume(z3.And(s.valid(i), s.age(i) == now)); cx.write(s.clock, now + 1); cx.write(p.ref, i)
        C['aslam::generateId'] = gen
        C['aslam::Id::Id'] = C[q + '::' + q.split('::')[-1]] = lambda cx, c: rd(cx, c.args[0]) if c.args else s.null
        core.TYPE_DEFAULT[q] = lambda cx, t: s.null
        def asg(cx, c): cx.write(c.obj, rd(cx, c.args[0])); return c.obj
        C[q + '::operator='] = C[TR + '::operator='] = asg
        C[TR + '::QuatTransformation'] = lambda cx, c: rd(cx, c.args[0]) if c.args else cx.fresh('transformation', cx.sort(c.node['t']))
        C['aslam::operator=='] = lambda cx, c: rd(cx, c.args[0]) == rd(cx, c.args[1])
        C['aslam::HashId::operator=='] = C[q + '::operator=='] = lambda cx, c: cx.read(c.obj) == rd(cx, c.args[0])
        C['aslam::HashId::operator!='] = C[q + '::operator!='] = lambda cx, c: cx.read(c.obj) != rd(cx, c.args[0])
        def handle(cx, r):
            if r.cell != s.cell.cell or not r.path: raise Unsupported('a camera of unknown origin')
            return r.path[0][1]
        def clone(cx, c):
            """a separate camera with the same id, geometry and distortion (shown for the pinhole camera in C06)"""
            h = handle(cx, c.obj); w = cx.read(s.cell).copy(); n = w.top; w.ids, w.geom, w.removed, w.top = z3.Store(w.ids, n, w.ids[h]), z3.Store(w.geom, n, w.geom[h]), z3.Store(w.removed, n, w.removed[h]), n + 1; put(cx, w); return Ptr(ref(n), n)
        def remove(cx, c): h = handle(cx, c.obj); w = cx.read(s.cell).copy(); w.removed = z3.Store(w.removed, h, z3.BoolVal(True)); put(cx, w)
        def put(cx, w): cx.write(s.cell, w)
        C['aslam::Camera::clone'], C['aslam::Camera::removeDistortion'] = clone, remove
        s.good = z3.Function('valid camera', I, B)
        def valid(cx, c):
            if c.obj.cell == s.cell.cell and c.obj.path: h = handle(cx, c.obj); w = cx.read(s.cell); return z3.And(s.valid(w.ids[h]), s.good(w.geom[h]))
            return cx.call_body(vfid, c.obj, [])
        vfid = p.find('aslam::Sensor::isValid')[0]; C['aslam::Sensor::isValid'] = valid
    def now(s): return s.cx.read(s.cell)
class Rig:
    """view of a rig value"""
    def __init__(s, W, v):
        s.v, s.W, cx = v, W, W.cx; f = v.f; s.cams, s.T, s.map = f['cameras_'], f['T_C_B_'], f['id_to_index_']; s.n = cx.ix(s.cams.n); s.val = cx.map_val(s.map)
    def h(s, i):
        V = s.cams; cx = s.W.cx
        if V.items is not None: return vec_arr(cx, V)[i]
        return z3.Select(V.arr, i)
    def t(s, i): V = s.T; return z3.Select(vec_arr(s.W.cx, V) if V.items is not None else V.arr, i)
    def id(s, i, w): return z3.Select(w.ids, s.h(i))
def vec_arr(cx, V):
    a = z3.K(I, cx.pack(V.items[0], V.et)) if V.items else cx.fresh('none', z3.ArraySort(I, cx.sort(V.et)))
    for i, x in enumerate(V.items): a = z3.Store(a, i, cx.pack(x, V.et))
    return a
def fall(vs, body, pats):
    try: return z3.ForAll(vs, body, patterns=pats)
    except z3.Z3Exception: return z3.ForAll(vs, body)
def inv_map(R, w, upto, name=''):
    """every id maps to the index of its camera and back"""
    k = z3.Const('k!im', R.W.ID); i = z3.Int('i!im'); d, v = z3.Select(R.map.dom, k), z3.Select(R.val, k); e = R.id(i, w)
    yield name + 'every camera is found by its id', fall([i], z3.Implies(z3.And(i >= 0, i < upto), z3.And(z3.Select(R.map.dom, e), z3.Select(R.val, e) == i)), [R.h(i)])
    yield name + 'ids found belong to cameras', fall([k], z3.Implies(d, z3.And(v >= 0, v < upto, R.id(v, w) == k)), [d])
def inv_rig(R, w, name='', cams=True):
    i, j = z3.Ints('i!r j!r'); yield name + 'one transformation per camera', z3.And(R.n >= 0, R.W.cx.ix(R.T.n) == R.n)
    yield name + 'cameras exist and have valid ids', fall([i], z3.Implies(z3.And(i >= 0, i < R.n), z3.And(R.h(i) > 0, R.h(i) < w.top, R.W.valid(R.id(i, w)))), [R.h(i)])
    yield from inv_map(R, w, R.n, name)
def distinct(R, w, upto):
    i, j = z3.Ints('i!d j!d'); return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < upto), R.id(i, w) != R.id(j, w)), patterns=[z3.MultiPattern(R.h(i), R.h(j))])
def rig(cx, W, name='rig', inv=True):
    v = cx.sym(name, rectype(cx.prog, NC)); r = cx.new_cell(name, v); R = Rig(W, v); cx.input('number of cameras', R.n); cx.assume(z3.And(R.n >= 0, R.n < 2 ** 31)); cx.assume(z3.And(W.valid(v.f['id_']), W.age(v.f['id_']) < W.t0))
    if inv:
        for _, f in inv_rig(R, W.w0): cx.assume(f)
    return r, R
def vsame(cx, a, b):
    out = []
    for n in a.f:
        x, y = a.f[n], b.f[n]
        if isinstance(x, eigen.Mat): out.append(eigen.same_mat(cx, x, y) if hasattr(eigen, 'same_mat') else AND(*[eqi(cx, x.term(cx, i, j), y.term(cx, i, j)) for i in range(6) for j in range(6)]))
        elif isinstance(x, MapV): out.append(AND(x.dom == y.dom, cx.map_val(x) == cx.map_val(y)))
        elif isinstance(x, Vec): out.append(seq_eq(cx, x, y) if n in ('topic_', 'description_') else vec_same(cx, x, y))
        else: out.append(eqi(cx, x, y))
    return AND(*out)
def vec_same(cx, x, y):
    i = z3.Int('i!vs'); ax, ay = [V.arr if V.items is None else vec_arr(cx, V) for V in (x, y)]; return z3.And(cx.ix(x.n) == cx.ix(y.n), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < cx.ix(x.n)), ax[i] == ay[i])))
def frame_cams(w, w0):
    """cameras that were there before are as they were"""
    h = z3.Int('h!fr'); return z3.ForAll([h], z3.Implies(h < w0.top, z3.And(w.ids[h] == w0.ids[h], w.geom[h] == w0.geom[h], w.removed[h] == w0.removed[h])))
def seen(R, w, i):
    j = z3.Int('j!se'); return fall([j], z3.Implies(z3.And(j >= 0, j < i), z3.And(R.h(j) != 0, R.W.valid(R.id(j, w)))), [R.h(j)])
def setup(cx, specs=()):
    W = World(cx); return W
def loops(st):
    def init(cx, L):
        W = st['W']; o = cx.read(L.frame.this); R = Rig(W, o); w = W.now(); i = cx.ix(cx.read(L.idx)); yield 'range', z3.And(i >= 0, i <= R.n)
        yield from inv_map(R, w, i); yield 'cameras seen are good', seen(R, w, i)
    return LoopSpec(init, name='lookup table')
def refused_ok(R, w, W, cx):
    """what a rig may be made of: cameras that exist, valid ids, as many transformations"""
    i = z3.Int('i!ok'); return z3.And(cx.ix(R.T.n) == R.n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < R.n), z3.And(R.h(i) != 0, W.valid(R.id(i, w)))), patterns=[R.h(i)]))
def t_make(env):
    cx = env.ctx('rig', 'int', opts=dict(feas_ms=250)); p = cx.prog; st = {}; cx.loopspecs = [loops(st)]
    for nm in ('make', 'makec'):
        def run(cx, nm=nm):
            W = setup(cx); st['W'] = W; f = fn_id(p, 'vu::' + nm); k = 1 if nm == 'makec' else 0; id_ = cx.fresh('rig id', W.ID); T = cx.sym('T', ptype(p, f, 1)); C = cx.sym('cameras', ptype(p, f, 2 + k)); D = cx.sym('description', ptype(p, f, 3 + k)); n = cx.input('number of cameras', cx.ix(C.n)); cx.assume(n < 2 ** 31)
            class V: pass
            R = V(); R.W, R.n, R.T, R.h = W, n, T, lambda i: z3.Select(C.arr, i); R.id = lambda i, w: z3.Select(w.ids, R.h(i)); i = z3.Int('i!mk')
            cx.assume(z3.ForAll([i], z3.And(R.h(i) >= 0, R.h(i) < W.w0.top), patterns=[R.h(i)])); cx.assume(distinct(R, W.w0, n)); ok = z3.And(W.valid(id_), refused_ok(R, W.w0, W, cx))
            a = [cx.new_cell('id', id_), cx.new_cell('T', T)] + ([cx.new_cell('cov', cx.sym('cov', ptype(p, f, 2)))] if k else []) + [cx.new_cell('cams', C), cx.new_cell('desc', D)]
            s, v = attempt(cx, lambda: call(cx, f, None, *a))
            if s != 'ok': cx.oblige('cameras with valid ids and one transformation each make a rig', z3.Not(ok)); return
            cx.oblige('missing cameras, invalid ids and unequal counts are refused', ok); o = cx.read(v.ref); Q = Rig(W, o); w = W.now()
            for nm_, g in inv_rig(Q, w): cx.oblige(nm_, g)
            cx.oblige('the rig holds the given cameras, transformations, id and description', AND(vec_same(cx, Q.cams, C), vec_same(cx, Q.T, T), o.f['id_'] == id_, seq_eq(cx, o.f['description_'], D), eqi(cx, o.f['has_T_G_B_fixed_localization_covariance_'], bool(k)))); cx.oblige('no camera is changed', frame_cams(w, W.w0)); cx.cover('end')
        cx.explore({'make': 'construction', 'makec': 'construction with covariance'}[nm], run)
    def run(cx):
        W = setup(cx); st['W'] = W; s, v = attempt(cx, lambda: call(cx, fn_id(p, 'vu::empty'), None)); cx.oblige('an empty rig can be made', s == 'ok')
        if s == 'ok': Q = Rig(W, cx.read(v.ref)); k = z3.Const('k!e', W.ID); cx.oblige('an empty rig has no cameras', z3.And(Q.n == 0, cx.ix(Q.T.n) == 0, z3.ForAll([k], z3.Not(z3.Select(Q.map.dom, k))))); cx.cover('end')
    cx.explore('empty rig', run)
    return cx
def t_query(env):
    cx = env.ctx('rig', 'int', opts=dict(feas_ms=250)); p = cx.prog
    def q(nm, fn, extra):
        def run(cx):
            W = setup(cx); r, R = rig(cx, W); v0 = vcopy(R.v); w0 = W.w0; f = fn_id(p, 'vu::' + nm); same = lambda: cx.oblige('queries change nothing', AND(vsame(cx, cx.read(r), v0), frame_cams(W.now(), w0)))
            fn(cx, W, r, R, f, same)
        cx.explore(extra, run)
    def index(cx, W, r, R, f, same, has=False):
        i = cx.fresh('id', W.ID); s, v = attempt(cx, lambda: call(cx, f, None, r, cx.new_cell('id', i)))
        if s != 'ok': cx.oblige('valid ids are looked up', z3.Not(W.valid(i))); return
        j = cx.fresh('j', I); cx.assume(z3.And(j >= 0, j < R.n)); e = R.id(j, W.w0)
        if has:
            b = cx.zb(v); cx.oblige('the id of a camera of the rig is known', z3.Implies(e == i, b)); k = z3.Int('k!ex'); cx.oblige('only ids of cameras of the rig are known', z3.Implies(b, z3.And(z3.Select(R.map.dom, i), R.id(z3.Select(R.val, i), W.w0) == i, z3.Select(R.val, i) < R.n, z3.Select(R.val, i) >= 0)))
        else:
            x = cx.ix(v); cx.oblige('the id of a camera maps to the index of that camera', z3.Implies(e == i, x == j)); cx.oblige('an index found is that of a camera with the id', z3.Or(x == -1, z3.And(x >= 0, x < R.n, R.id(x, W.w0) == i)))
        same(); cx.cover('end')
    q('index', index, 'index of an id'); q('has', lambda *a: index(*a, has=True), 'is an id known')
    def byindex(what):
        def go(cx, W, r, R, f, same):
            i = cx.input('index', cx.fresh_int('index', 0, 2 ** 64 - 1)); s, v = attempt(cx, lambda: call(cx, f, None, r, i)); inside = i < R.n
            if s != 'ok': cx.oblige('every index of the rig is accepted', z3.Not(inside)); return
            cx.oblige('an index beyond the rig is refused', inside); h = R.h(i)
            if what == 'id': cx.oblige('the id at an index is that of its camera', rd(cx, v) == z3.Select(W.w0.ids, h))
            elif what == 'T': cx.oblige('the transformation at an index is returned', rd(cx, v) == R.t(i)); cx.oblige('it is the one stored in the rig', v.cell == r.cell)
            else:
                ref = v.ref if isinstance(v, Ptr) else v; cx.oblige('the camera at an index is returned', ref is not None and ref.cell == W.cell.cell and ref.path[0][1] == h)
            same(); cx.cover('end')
        return go
    q('id', byindex('id'), 'id at an index'); q('at', byindex('T'), 'transformation at an index'); q('mat', byindex('T'), 'mutable transformation at an index')
    for nm in ('cam', 'mcam', 'shared', 'cshared'): q(nm, byindex('cam'), 'camera at an index (%s)' % nm)
    def byid(cx, W, r, R, f, same):
        i = cx.fresh('id', W.ID); s, v = attempt(cx, lambda: call(cx, f, None, r, cx.new_cell('id', i))); j = cx.fresh('j', I); known = z3.And(W.valid(i), z3.Select(R.map.dom, i))
        if s != 'ok': cx.oblige('the transformation of every camera of the rig is found', z3.Not(known)); return
        cx.oblige('unknown ids are refused', known); cx.assume(z3.And(j >= 0, j < R.n, R.id(j, W.w0) == i)); cx.oblige('the transformation found is that of the camera with the id', rd(cx, v) == R.t(j)); cx.oblige('it is the one stored in the rig', v.cell == r.cell); same(); cx.cover('end')
    q('of', byid, 'transformation of an id'); q('mof', byid, 'mutable transformation of an id')
    def num(cx, W, r, R, f, same): s, v = attempt(cx, lambda: call(cx, f, None, r)); cx.oblige('the number of cameras is reported', AND(s == 'ok', s == 'ok' and eqi(cx, v, 2 * R.n))); same(); cx.cover('end')
    q('num', num, 'number of cameras')
    def lists(n):
        def go(cx, W, r, R, f, same): s, v = attempt(cx, lambda: call(cx, f, None, r)); cx.oblige('the lists are returned in order', s == 'ok' and vec_same(cx, cx.read(v), R.v.f[n])); same(); cx.cover('end')
        return go
    q('all', lists('cameras_'), 'list of cameras'); q('trans', lists('T_C_B_'), 'list of transformations'); return cx
def t_change(env):
    cx = env.ctx('rig', 'int', opts=dict(feas_ms=250)); p = cx.prog
    def run(cx):
        W = setup(cx); r, R = rig(cx, W); f = fn_id(p, 'vu::put'); i = cx.input('index', cx.fresh_int('index', 0, 2 ** 64 - 1)); t = cx.fresh('T', cx.sort(ptype(p, f, 2))); v0 = vcopy(R.v); s, v = attempt(cx, lambda: call(cx, f, None, r, i, cx.new_cell('T', t)))
        if s != 'ok': cx.oblige('every index of the rig is accepted', z3.Not(i < R.n)); return
        cx.oblige('an index beyond the rig is refused', i < R.n); Q = Rig(W, cx.read(r)); j = z3.Int('j!p'); cx.oblige('exactly that transformation is replaced', z3.And(cx.ix(Q.T.n) == R.n, Q.t(i) == t, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < R.n, j != i), Q.t(j) == R.t(j))))); o = vcopy(cx.read(r)); o.f['T_C_B_'] = v0.f['T_C_B_']; cx.oblige('nothing else changes', AND(vsame(cx, o, v0), frame_cams(W.now(), W.w0))); cx.cover('end')
    cx.explore('set transformation', run)
    def run(cx):
        W = setup(cx); r, R = rig(cx, W); f = fn_id(p, 'vu::swap'); i = cx.input('index', cx.fresh_int('index', 0, 2 ** 64 - 1)); h = cx.fresh('camera', I); cx.assume(z3.And(h >= 0, h < W.w0.top)); j, k = z3.Int('j!s'), cx.fresh('k', I)
        e = z3.Select(W.w0.ids, h); cx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < R.n, j != i), R.id(j, W.w0) != e), patterns=[R.h(j)]))
        ct = ptype(p, f, 2); v0 = vcopy(R.v); ptr = NULL if cx.branch(h == 0) else Ptr(W.ref(h), h); s, v = attempt(cx, lambda: call(cx, f, None, r, i, cx.new_cell('camera', ptr))); ok = z3.And(h != 0, i < R.n, W.valid(e))
        if s != 'ok': cx.oblige('a camera with a valid id replaces another', z3.Not(ok)); return
        cx.oblige('a missing camera, an invalid id and an index beyond the rig are refused', ok); Q = Rig(W, cx.read(r)); w = W.now(); cx.oblige('exactly that camera is replaced', z3.And(Q.n == R.n, Q.h(i) == h, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < R.n, j != i), Q.h(j) == R.h(j)))))
        for nm_, g in inv_rig(Q, w): cx.oblige(nm_, g)
        o = vcopy(cx.read(r)); o.f['cameras_'], o.f['id_to_index_'] = v0.f['cameras_'], v0.f['id_to_index_']; cx.oblige('nothing else changes', AND(vsame(cx, o, v0), frame_cams(w, W.w0))); cx.cover('end')
    cx.explore('replace a camera', run)
    return cx
def t_clone(nm):
    def go(env):
        cx = env.ctx('rig', 'int', opts=dict(feas_ms=250)); p = cx.prog; st = {}
        def cams_inv(cx, V, i, w, mode):
            """the first i cameras of the clone: new objects, one for each camera of the source"""
            W, R = st['W'], st['R']; h = lambda j: z3.Select(V.arr if V.items is None else vec_arr(cx, V), j); j, k = z3.Ints('j!c k!c')
            yield 'separate new cameras', fall([j], z3.Implies(z3.And(j >= 0, j < i), z3.And(h(j) == W.w0.top + j, h(j) < w.top)), [h(j)])
            yield 'cameras keep their geometry', fall([j], z3.Implies(z3.And(j >= 0, j < i), w.geom[h(j)] == W.w0.geom[R.h(j)]), [h(j)])
            yield 'existing cameras are unchanged', frame_cams(w, W.w0)
        def ids_inv(cx, V, lo, hi, w):
            R, W = st['R'], st['W']; h = lambda j: z3.Select(V.arr if V.items is None else vec_arr(cx, V), j); j = z3.Int('j!i')
            yield 'ids are kept', fall([j], z3.Implies(z3.And(j >= lo, j < hi), z3.And(w.ids[h(j)] == W.w0.ids[R.h(j)], w.removed[h(j)] == W.w0.removed[R.h(j)])), [h(j)])
        def cc(cx, L):
            W, R = st['W'], st['R']; o = cx.read(L.frame.this); i = cx.ix(cx.read(L.idx)); V = o.f['cameras_']; w = W.now()
            if 'other' not in [cx.prog.vars[v]['n'] for v in L.frame.vars]: raise Unsupported('not the copy')
            yield 'range', z3.And(i >= 0, i <= R.n, cx.ix(V.n) == i, w.top == W.w0.top + i); yield from cams_inv(cx, V, i, w, 0); yield from ids_inv(cx, V, 0, i, w)
        def init(cx, L):
            W = st['W']; o = cx.read(L.frame.this); R = Rig(W, o); w = W.now(); i = cx.ix(cx.read(L.idx)); yield 'range', z3.And(i >= 0, i <= R.n); yield from inv_map(R, w, i); yield 'cameras seen are good', seen(R, w, i)
        def valid(cx, L):
            W = st['W']; o = cx.read(L.frame.this); i = cx.ix(cx.read(L.idx)); yield 'range', z3.And(i >= 0, i <= cx.ix(o.f['cameras_'].n))
        def renew(cx, L):
            W, R = st['W'], st['R']; w = W.now(); i = cx.ix(cx.read(L.idx)); o = cx.read(st['out']); V = o.f['cameras_']; h = lambda j: z3.Select(V.arr, j); j, k = z3.Ints('j!n k!n'); now = cx.ix(cx.read(W.clock)); idj = w.ids[h(j)]
            yield 'range', z3.And(i >= 0, i <= R.n, cx.ix(V.n) == R.n, w.top == W.w0.top + R.n, now >= W.t0); yield from cams_inv(cx, V, R.n, w, 1); yield from ids_inv(cx, V, i, R.n, w)
            yield 'new ids', fall([j], z3.Implies(z3.And(j >= 0, j < i), z3.And(W.valid(idj), W.age(idj) >= W.t0, W.age(idj) < now, w.removed[h(j)] == z3.Or(nm == 'plain', W.w0.removed[R.h(j)]))), [h(j)])
            yield 'ids differ', z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < i), W.age(idj) < W.age(w.ids[h(k)])), patterns=[z3.MultiPattern(h(j), h(k))])
        def pick(cx, L):
            n = cx.prog.funcs[L.frame.fid]['n'] if L.frame.fid is not None else ''; s = n.split('::')[-1]
            return {'NCamera': cc, 'initInternal': init, 'isValidImpl': valid, 'cloneWithNewIds': renew, 'cloneRigWithoutDistortion': renew}.get(s)
        def inv(cx, L):
            g = pick(cx, L)
            if g is None: raise Unsupported('invariant does not bind: loop in %s' % L.frame.label)
            if g is renew:
                for n in ('new_ncamera', 'rig_without_distortion'):
                    if L.has(n): st['out'] = L[n].ref
            yield from g(cx, L)
        cx.loopspecs = [LoopSpec(inv, name='cameras %d' % k) for k in range(6)]
        def run(cx):
            W = setup(cx); r, R = rig(cx, W); st.clear(); st.update(W=W, R=R); v0 = vcopy(R.v); j = z3.Int('j!v'); allok = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < R.n), W.good(W.w0.geom[R.h(j)])), patterns=[R.h(j)]); cx.assume(allok)
            s, v = attempt(cx, lambda: call(cx, fn_id(p, 'vu::' + nm), None, r)); cx.oblige('every valid rig is copied', s == 'ok')
            if s != 'ok': return
            o = cx.read(v.ref); Q = Rig(W, o); w = W.now(); new = nm in ('fresh', 'plain'); i = cx.fresh('i', I); cx.assume(z3.And(i >= 0, i < R.n)); cx.oblige('as many cameras', z3.And(Q.n == R.n)); 
            for nm_, g in inv_rig(Q, w): cx.oblige(nm_, g)
            cx.oblige('cameras and transformations keep their pairing', z3.And(w.geom[Q.h(i)] == W.w0.geom[R.h(i)], Q.t(i) == R.t(i))); k = cx.fresh('k', I); cx.assume(z3.And(k >= 0, k < R.n, k != i)); cx.oblige('the cameras are separate objects', z3.And(Q.h(i) >= W.w0.top, Q.h(i) != Q.h(k)))
            cx.oblige('the source and its cameras are unchanged', AND(vsame(cx, cx.read(r), v0), frame_cams(w, W.w0)))
            if new: cx.oblige('every id is new', z3.And(W.age(Q.id(i, w)) >= W.t0, W.age(o.f['id_']) >= W.t0, Q.id(i, w) != Q.id(k, w)))
            else: cx.oblige('ids are kept', z3.And(Q.id(i, w) == R.id(i, W.w0), o.f['id_'] == v0.f['id_']))
            cx.oblige('distortion is removed only on request', w.removed[Q.h(i)] == z3.Or(nm == 'plain', W.w0.removed[R.h(i)]))
            for n in ('topic_', 'description_'): cx.oblige('%s is copied' % n[:-1], seq_eq(cx, o.f[n], v0.f[n]))
            n = 'T_G_B_fixed_localization_covariance_'; cx.oblige('the covariance is copied', AND(eqi(cx, o.f['has_' + n], v0.f['has_' + n]), *[eqi(cx, o.f[n].term(cx, a, b), v0.f[n].term(cx, a, b)) for a in range(6) for b in range(6)])); cx.cover('end')
        cx.explore({'copy': 'copy', 'clone': 'clone', 'fresh': 'clone with new ids', 'plain': 'clone without distortion'}[nm], run); return cx
    return go
def tasks(env): return [Task('construction', t_make), Task('queries', t_query), Task('changes', t_change)] + [Task('clone %s' % n, t_clone(n)) for n in ('copy', 'clone', 'fresh', 'plain')]
ASSUMPTIONS = ['the cameras of a rig have different valid ids, and ids are not changed behind the back of the rig', 'Camera::clone makes a separate camera with the same id, geometry and distortion (shown for the pinhole camera in C06)', 'generateId returns a valid id that no camera has (I03)', 'rigid transformations are values with copy and assignment (the minkindr dependency is replaced by a stand-in header)', 'random rigs and the yaml form of rigs are outside the contracts']
TECHNIQUE = "contract-based deductive verification (extracted C++, symbolic execution; class invariant of the rig over a heap of cameras, loop invariants for copying, renaming and the lookup table; z3)"
LEVEL_NOTE = "class invariant and contracts of construction, queries, changes and all four ways of copying proved for rigs of any size"
