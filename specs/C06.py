"""C06: pinhole projection, back-projection, Jacobians and result classification."""
REPLAY_SRC = ['REPO/aslam_cv_common/src/%s.cc' % n for n in ('sensor', 'hash-id', 'internal/unique-id')] + ['REPO/aslam_cv_cameras/src/distortion-%s.cc' % n for n in ('radtan', 'equidistant', 'fisheye')]; REPLAY_LIBS = ['-lyaml-cpp', '-lglog', '-lgflags', '-lprotobuf', '-lopencv_core', '-pthread']; REPLAY_SECS = (15, 150)
from distutil import *
from models import model
import core, models
from core import Union_
UNITS = {'camera': r'^(aslam::|vu::)'}
CAM = 'aslam::PinholeCamera'; KN = ['fu', 'fv', 'cu', 'cv']; MIN = Fraction('1e-10')
VIS, OUT, BEHIND, INVALID = 0, 1, 2, 3
INT = z3.IntSort()
@model('cv::Mat_::clone')
def _(cx, c): return cx.read(c.obj)
@model('cv::Mat_::Mat_')
def _(cx, c): return rd(cx, c.args[0]) if len(c.args) == 1 else cx.fresh('mask', cx.sort(c.node['t']))
core.SYM_TYPES['std::unique_ptr'] = lambda cx, b, t: Ptr(None)
def ctx(env): cx = env.ctx('camera', 'int', opts=dict(fdiv=False)); cx.opaques = set(cx.opaques) | {'cv::Mat_'}; return cx
def fld(v, n): return holder(v, n).f
def matof(cx, o, xs): return Mat(o.t, o.et, len(xs), 1, [[x] for x in xs])
def camera(cx, m, par=None, K=None):
    """a pinhole camera holding intrinsics K and a distortion model m with coefficients par; image of any size"""
    p = cx.prog; v = cx.sym('c', rectype(p, CAM)); K = [real(cx, n) for n in KN] if K is None else K
    f = fld(v, 'intrinsics_'); f['intrinsics_'] = matof(cx, f['intrinsics_'], K); d = cx.new_cell('distortion', obj(cx, m, par)); f['distortion_'] = Ptr(d)
    cx.assume(z3.And(K[0] > 0, K[1] > 0)); cx.input('image width', f['image_width_']); cx.input('image height', f['image_height_']); return v, d
def pt(cx, names, n='p'):
    xs = [real(cx, k) if isinstance(k, str) else k for k in names]; et = next(i for i, T in enumerate(cx.prog.types) if T['k'] == 'fp' and T.get('w', 64) == 64)
    return cx.new_cell(n, Mat(None, et, len(xs), 1, [[x] for x in xs])), xs
def stub(cx, m, at, par, tag=''):
    """contracts of the distortion model (proved in C01-C03): map, Jacobian and parameter Jacobian at the point `at` with coefficients par"""
    n = NPAR[m]; c = lambda s: z3.Const(tag + s, R); F = [c('dx'), c('dy')]; J = [[c('J%d%d' % (i, j)) for j in (0, 1)] for i in (0, 1)]; P = [[c('P%d%d' % (i, j)) for j in range(n)] for i in (0, 1)]
    def args(cx, coef, x, y):
        M = mval(cx, coef.ref) if isinstance(coef, Ptr) else mval(cx, coef); cx.oblige('the model is used with the selected coefficients', AND(eqi(cx, M.r, n), *[M.term(cx, i, 0) == par[i] for i in range(n)]))
        oblige_eq(cx, 'the model is applied to the normalized point', [(x, at[0]), (y, at[1])], smp)
    def distort(cx, k):
        q = rd(cx, k.args[1]).ref; cf = rd(cx, k.args[0]); args(cx, cf if cf.ref is not None else stored(cx.read(k.obj)) , *xy(cx, q)); cx.write(eref(cx, q, 0, 0), F[0]); cx.write(eref(cx, q, 1, 0), F[1]); j = rd(cx, k.args[2])
        if j.ref is not None:
            for a in (0, 1):
                for b in (0, 1): cx.write(eref(cx, j.ref, a, b), J[a][b])
    def param(cx, k):
        cf = rd(cx, k.args[0]); args(cx, cf if cf.ref is not None else stored(cx.read(k.obj)), *xy(cx, k.args[1])); j = rd(cx, k.args[2]).ref; o = mval(cx, j); cx.write(j, Mat(o.t, o.et, 2, n, [list(r) for r in P]))
    cx.contracts[CLS[m] + '::distortUsingExternalCoefficients'] = distort; cx.contracts[CLS[m] + '::distortParameterJacobian'] = param; return F, J, P
def smp(rng):
    class E(dict):
        def __missing__(s, k): s[k] = rng.uniform(-2, 2); return s[k]
    e = E()
    for n in ('x', 'y', 'cu', 'cv', 'dx', 'dy', 'u', 'v', 'h', 'efu', 'efv', 'ecu', 'ecv', 'w') + tuple('%s%d%d' % (a, i, j) for a in 'JP' for i in (0, 1) for j in range(4)): e[n] = rng.uniform(-2, 2)
    for n in ('fu', 'fv', 'efu', 'efv'): e[n] = rng.uniform(.3, 3)
    e['z'] = rng.choice([rng.uniform(.2, 3), rng.uniform(-3, -.2)]); return e
def project(m, K, F): return K[0] * F[0] + K[2], K[1] * F[1] + K[3]
def classify(cx, v, u, w, z):
    f = fld(v, 'image_width_'); W, H = [z3.ToReal(cx.ix(f[n])) if not isinstance(f[n], int) else z3.RealVal(f[n]) for n in ('image_width_', 'image_height_')]
    vis = z3.And(u >= 0, w >= 0, u < W, w < H); deep = z >= z3.RealVal(MIN)
    return vis, deep
def status(cx, r): return cx.ix(cx.read(r).f['status_'] if isinstance(r, Ref) else r.f['status_'])
def oblige_status(cx, v, r, u, w, z):
    vis, deep = classify(cx, v, u, w, z); s = status(cx, r); lo = z3.RealVal(MIN)
    cx.oblige('a point in front of the camera is visible exactly inside the image', z3.Implies(z > lo, s == z3.If(vis, VIS, OUT)))
    cx.oblige('a point behind the camera is reported as such', z3.Implies(z < 0, s == BEHIND))
    cx.oblige('a point in the camera plane is no valid projection', z3.Implies(z == 0, s == INVALID))
    cx.oblige('a point closer than the minimal depth is not reported as behind the camera', z3.Implies(z3.And(z > 0, z <= lo), z3.Or(s == INVALID, s == z3.If(vis, VIS, OUT))))
def same_cam(cx, a, b, d=None, d0=None):
    """all fields of the camera are kept (its distortion model: the same object with the same coefficients)"""
    out = []
    def go(x, y):
        for n in x.f:
            u, w = x.f[n], y.f[n]
            if isinstance(u, Rec): go(u, w)
            elif isinstance(u, Mat): out.append(same_mat(cx, u, w))
            elif isinstance(u, Ptr): out.append(u.ref is not None and w.ref is not None and u.ref.cell == w.ref.cell)
            elif isinstance(u, Vec): out.append(seq_eq(cx, u, w))
            elif isinstance(u, Union_): out.extend(models.veq_b(g, k) for g, k in zip(u.bytes, w.bytes))
            elif isinstance(u, Arr): out.extend(eqi(cx, g, k) for g, k in zip(u.a, w.a))
            else: out.append(eqi(cx, u, w))
    go(a, b)
    if d is not None: out.append(same_obj(cx, cx.read(d), d0))
    return AND(*out)
# ---- the functional form: every combination of sources and requested Jacobians
def t_functional(m, given):
    def go(env):
        cx = ctx(env); p = cx.prog; f = fn_id(p, 'vu::functional')
        for combo in range(16):
            ext, jp, ji, jd = [combo >> k & 1 for k in range(4)]
            def run(cx, ext=ext, jp=jp, ji=ji, jd=jd):
                par = [real(cx, n) for n in PN[m]]; v, d = camera(cx, m, [cx.fresh('stored', R) for _ in par] if given else par); d0 = cx.read(d); K = fld(v, 'intrinsics_')['intrinsics_']; K = [K.term(cx, i, 0) for i in range(4)]
                c = cx.new_cell('c', v); X, (x, y, z) = pt(cx, 'xyz'); cx.assume(z != 0)
                I = Ptr(None)
                if ext: K = [real(cx, 'e' + n) for n in KN]; I = Ptr(cx.new_cell('I', vec(cx, ptype(p, f, 2), K)))
                C = Ptr(coeffs(cx, f, 3, par)) if given else Ptr(None); k = cx.new_cell('k', cx.sym('k', ptype(p, f, 4)))
                J3, JI, JD = [cx.new_cell(n, cx.sym(n, ptype(p, f, i))) for n, i in (('J3', 5), ('JI', 6), ('JD', 7))]
                if m == 'nul': F, J, P = (x / z, y / z), [[1, 0], [0, 1]], [[], []]
                else: F, J, P = stub(cx, m, (x / z, y / z), par)
                s, r = attempt(cx, lambda: call(cx, f, None, c, X, I, C, Ptr(k), Ptr(J3 if jp else None), Ptr(JI if ji else None), Ptr(JD if jd else None))); cx.oblige('every point off the camera plane is projected', s == 'ok')
                if s != 'ok': return
                u, w = xy(cx, k); oblige_eq(cx, 'the keypoint is the distorted normalized point mapped by the intrinsics', list(zip((u, w), project(m, K, F))), smp); oblige_status(cx, v, r, u, w, z)
                if jp: M = mval(cx, J3); oblige_eq(cx, 'the point Jacobian is the derivative of the projection', [(M.term(cx, i, j), K[i] * e) for i in (0, 1) for j, e in enumerate((J[i][0] / z, J[i][1] / z, -(x * J[i][0] + y * J[i][1]) / (z * z)))], smp)
                if jp and m == 'nul': M = mval(cx, J3); oblige_eq(cx, 'the point Jacobian is the derivative of the computed keypoint', lambda: [(M.term(cx, i, j), diff((u, w)[i], q)) for i in (0, 1) for j, q in enumerate((x, y, z))], smp)
                if ji:
                    M = mval(cx, JI); cx.oblige('the intrinsics Jacobian has two rows and four columns', AND(eqi(cx, M.r, 2), eqi(cx, M.c, 4)))
                    oblige_eq(cx, 'the intrinsics Jacobian is the derivative of the keypoint', lambda: [(M.term(cx, i, j), diff((u, w)[i], q)) for i in (0, 1) for j, q in enumerate(K)], smp)
                if jd:
                    M = mval(cx, JD); cx.oblige('the distortion Jacobian has one column per coefficient', AND(eqi(cx, M.r, 2), eqi(cx, M.c, NPAR[m])))
                    if par: oblige_eq(cx, 'the distortion Jacobian is the derivative of the keypoint in the coefficients', [(M.term(cx, i, j), K[i] * P[i][j]) for i in (0, 1) for j in range(len(par))], smp)
                cx.oblige('the camera is not changed', same_cam(cx, cx.read(c), v, d, d0)); cx.oblige('the inputs are not changed', AND(*[mval(cx, X).term(cx, i, 0) == q for i, q in enumerate((x, y, z))], *([mval(cx, I.ref).term(cx, i, 0) == q for i, q in enumerate(K)] if ext else []), *([mval(cx, C.ref).term(cx, i, 0) == q for i, q in enumerate(par)] if given else []))); cx.cover('end')
            cx.explore('%s, Jacobians %d%d%d' % ('intrinsics given' if ext else 'own intrinsics', jp, ji, jd), run)
        def run(cx):
            v, d = camera(cx, m); c = cx.new_cell('c', v); X, (x, y, z) = pt(cx, ('x', 'y', z3.RealVal(0))); k = cx.new_cell('k', cx.sym('k', ptype(p, f, 4)))
            if m != 'nul':
                F = [z3.Const(n, R) for n in ('dx', 'dy')]
                def any_(cx, q): r = rd(cx, q.args[1]).ref; cx.write(eref(cx, r, 0, 0), F[0]); cx.write(eref(cx, r, 1, 0), F[1])
                cx.contracts[CLS[m] + '::distortUsingExternalCoefficients'] = any_
            s, r = attempt(cx, lambda: call(cx, f, None, c, X, Ptr(None), Ptr(None), Ptr(k), Ptr(None), Ptr(None), Ptr(None)))
            if s == 'ok': cx.oblige('a point in the camera plane is no valid projection', status(cx, r) == INVALID); cx.cover('end')
        cx.explore('camera plane', run)
        for what in ('wrong number of intrinsics', 'no keypoint'):
            def run(cx, what=what):
                v, d = camera(cx, m); c = cx.new_cell('c', v); X, _ = pt(cx, 'xyz'); i = cx.sym('I', ptype(p, f, 2)); k = cx.new_cell('k', cx.sym('k', ptype(p, f, 4)))
                if what[0] == 'w': cx.assume(cx.ix(i.r) != 4)
                s, _ = attempt(cx, lambda: call(cx, f, None, c, X, Ptr(cx.new_cell('I', i)) if what[0] == 'w' else Ptr(None), Ptr(None), Ptr(k if what[0] == 'w' else None), Ptr(None), Ptr(None), Ptr(None))); cx.oblige(what + ' is refused', s != 'ok'); cx.cover('end')
            cx.explore(what, run)
        return cx
    return go
# ---- entry points that delegate to the functional form
def t_entry(env):
    cx = ctx(env); p = cx.prog; m = 'radtan'
    for nm in ('functional4', 'project3', 'project3j', 'project4', 'project4j', 'projectable3', 'projectable4'):
        f = fn_id(p, 'vu::' + nm); hom = '4' in nm and nm != 'functional4'
        def run(cx, sign, nm=nm, f=f, hom=hom):
            par = [real(cx, n) for n in PN[m]]; v, d = camera(cx, m, par); d0 = cx.read(d); c = cx.new_cell('c', v); K = fld(v, 'intrinsics_')['intrinsics_']; K = [K.term(cx, i, 0) for i in range(4)]
            X, q = pt(cx, ('x', 'y', 'z', 'w') if hom else 'xyz'); x, y, z = q[:3]; cx.assume(z != 0)
            if hom: cx.assume(q[3] < 0 if sign < 0 else q[3] >= 0)
            if sign < 0: x, y, z = -x, -y, -z
            k = cx.new_cell('k', cx.sym('k', ptype(p, f, 4 if nm == 'functional4' else 2))) if nm[:4] != 'proj' or nm[7] != 'a' else None; args = [c, X]
            if nm == 'functional4': args += [Ptr(None), Ptr(None)]
            if k is not None: args.append(Ptr(k))
            J3 = None
            if nm[-1] == 'j': J3 = cx.new_cell('J', cx.sym('J', ptype(p, f, 3))); args.append(Ptr(J3))
            F, J, P = stub(cx, m, (x / z, y / z), par); s, r = attempt(cx, lambda: call(cx, f, None, *args)); cx.oblige('every point off the camera plane is projected', s == 'ok')
            if s != 'ok': return
            eu, ew = project(m, K, F)
            if k is None:
                vis, deep = classify(cx, v, eu, ew, z); b = cx.zb(r); lo = z3.RealVal(MIN); cx.oblige('a visible point is projectable', z3.Implies(z3.And(vis, z > lo), b)); cx.oblige('a point behind the camera is not projectable', z3.Implies(z < 0, z3.Not(b)))
            else:
                u, w = xy(cx, k); oblige_eq(cx, 'the keypoint is the projection with the stored parameters', [(u, eu), (w, ew)], smp); oblige_status(cx, v, r, u, w, z)
            if J3 is not None:
                M = mval(cx, J3); oblige_eq(cx, 'the point Jacobian is the derivative of the projection', [(M.term(cx, i, j), (-1 if sign < 0 else 1) * K[i] * e) for i in (0, 1) for j, e in enumerate((J[i][0] / z, J[i][1] / z, -(x * J[i][0] + y * J[i][1]) / (z * z)))] + ([(M.term(cx, i, 3), z3.RealVal(0)) for i in (0, 1)] if hom else []), smp)
            cx.oblige('the camera is not changed', same_cam(cx, cx.read(c), v, d, d0)); cx.cover('end')
        for sign in ((1, -1) if hom else (1,)): cx.explore('%s%s' % (nm, ', negative scale' if sign < 0 else ''), lambda cx, sign=sign, run=run: run(cx, sign))
    return cx
def t_template(env):
    cx = ctx(env); p = cx.prog
    for m, nm in (('nul', 'functionalt'), ('fish', 'functionalf')):
        def run(cx, m=m, nm=nm):
            f = fn_id(p, 'vu::' + nm); par = [real(cx, n) for n in PN[m]]; v, d = camera(cx, m); d0 = cx.read(d); c = cx.new_cell('c', v); K = [real(cx, 'e' + n) for n in KN]; x, y, z = [real(cx, n) for n in 'xyz']; cx.assume(z != 0)
            X = cx.new_cell('X', vec(cx, ptype(p, f, 1), [x, y, z])); I = cx.new_cell('I', vec(cx, ptype(p, f, 2), K)); C = cx.new_cell('C', vec(cx, ptype(p, f, 3), par)); k = cx.new_cell('k', cx.sym('k', ptype(p, f, 4)))
            s, r = attempt(cx, lambda: call(cx, f, None, c, X, I, C, Ptr(k))); cx.oblige('every point off the camera plane is projected', s == 'ok')
            if s != 'ok': return
            a, b = x / z, y / z; S = a * a + b * b; u, w = xy(cx, k); E = lambda F: list(zip((u, w), project(m, K, F)))
            def sm(rng): e = smp(rng); e.update({n: w for n, w in sampler(m)(rng).items() if n not in ('x', 'y')}); return e
            oblige_eq(cx, 'the template projects with the given parameters', lambda: E(formula(m, a, b, par)), sm, [E(val) for cond, val in limit(m, a, b, par, S) if cx.valid(cond)]); oblige_status(cx, v, r, u, w, z); cx.oblige('the camera is not changed', same_cam(cx, cx.read(c), v, d, d0)); cx.cover('end')
        cx.explore('template ' + m, run)
    return cx
# ---- back-projection
def t_back(env):
    cx = ctx(env); p = cx.prog
    for nm in ('back3', 'back4'):
        f = fn_id(p, 'vu::' + nm)
        for m in ('nul', 'radtan'):
            def run(cx, nm=nm, f=f, m=m):
                par = [real(cx, n) for n in PN[m]]; v, d = camera(cx, m, par); d0 = cx.read(d); c = cx.new_cell('c', v); Ki = fld(v, 'intrinsics_')['intrinsics_']; K = [Ki.term(cx, i, 0) for i in range(4)]; U, (u, w) = pt(cx, 'uv'); a, b = (u - K[2]) / K[0], (w - K[3]) / K[1]
                o = cx.new_cell('o', cx.sym('o', ptype(p, f, 2))); E = (a, b)
                for n in (CLS['radtan'] + '::undistortUsingExternalCoefficients', 'aslam::Distortion::undistort'): cx.contracts.pop(n, None)
                if m != 'nul':
                    E = tuple(z3.Const(n, R) for n in ('dx', 'dy'))
                    def un(cx, q):
                        M = mval(cx, q.args[0]); r = rd(cx, q.args[1]).ref; cx.oblige('the model is used with the stored coefficients', AND(eqi(cx, M.r, len(par)), *[M.term(cx, i, 0) == g for i, g in enumerate(par)])); g, h = xy(cx, r); oblige_eq(cx, 'the model is applied to the normalized pixel', [(g, a), (h, b)], smp)
                        cx.write(eref(cx, r, 0, 0), E[0]); cx.write(eref(cx, r, 1, 0), E[1])
                    cx.contracts[CLS[m] + '::undistortUsingExternalCoefficients'] = un
                    cx.contracts['aslam::Distortion::undistort'] = lambda cx, q: un(cx, core.Call(q.f, q.obj, [stored(cx.read(q.obj))] + list(q.args), q.node))
                s, r = attempt(cx, lambda: call(cx, f, None, c, U, Ptr(o))); cx.oblige('every pixel is back-projected', s == 'ok')
                if s != 'ok': return
                M = mval(cx, o); cx.oblige('back-projection succeeds', cx.zb(r)); oblige_eq(cx, 'the ray is the undistorted normalized pixel at unit depth', [(M.term(cx, i, 0), e) for i, e in enumerate(E + (z3.RealVal(1),) + ((z3.RealVal(0),) if nm == 'back4' else ()))], smp)
                cx.oblige('the camera is not changed', same_cam(cx, cx.read(c), v, d, d0)); cx.cover('end')
                if m == 'nul':
                    g = fn_id(p, 'vu::project3' if nm == 'back3' else 'vu::project4'); k = cx.new_cell('k', cx.sym('k', ptype(p, g, 2)))
                    def back():
                        X = cx.new_cell('ray', Mat(None, M.et, M.r, 1, [[M.term(cx, i, 0)] for i in range(M.r)])); return call(cx, g, None, c, X, Ptr(k))
                    s, r = attempt(cx, back); cx.oblige('the ray is projected', s == 'ok')
                    if s == 'ok': gu, gw = xy(cx, k); oblige_eq(cx, 'projecting the back-projected pixel returns the pixel', [(gu, u), (gw, w)], smp); oblige_status(cx, v, r, u, w, z3.RealVal(1)); cx.cover('round trip')
            cx.explore('%s %s' % (nm, m), run)
        def run(cx, f=f):
            v, d = camera(cx, 'nul'); U, _ = pt(cx, 'uv'); s, _ = attempt(cx, lambda: call(cx, f, None, cx.new_cell('c', v), U, Ptr(None))); cx.oblige('a missing result is refused', s != 'ok'); cx.cover('end')
        cx.explore(nm + ' nowhere', run)
    f = fn_id(p, 'vu::borders')
    def run(cx):
        for n in (CLS['radtan'] + '::undistortUsingExternalCoefficients', 'aslam::Distortion::undistort'): cx.contracts.pop(n, None)
        v, d = camera(cx, 'nul'); c = cx.new_cell('c', v); h = fld(v, 'intrinsics_')['intrinsics_']; K = [h.term(cx, i, 0) for i in range(4)]; o = cx.new_cell('r', cx.sym('r', ptype(p, f, 1))); W, H = [z3.ToReal(cx.ix(fld(v, n)[n])) for n in ('image_width_', 'image_height_')]
        s, _ = attempt(cx, lambda: call(cx, f, None, c, o)); cx.oblige('the border rays are computed', s == 'ok')
        if s != 'ok': return
        M = mval(cx, o); cx.oblige('there are eight rays', AND(eqi(cx, M.r, 4), eqi(cx, M.c, 8))); B = [(0, 0), (0, H / 2), (0, H - 1), (W - 1, 0), (W - 1, H / 2), (W - 1, H - 1), (W / 2, 0), (W / 2, H - 1)]
        cx.oblige('the rays go through the corners and the middles of the borders', AND(*[z3.And(M.term(cx, 0, i) * K[0] == a - K[2], M.term(cx, 1, i) * K[1] == b - K[3], M.term(cx, 2, i) == 1, M.term(cx, 3, i) == 0) for i, (a, b) in enumerate(B)])); cx.cover('end')
    cx.explore('border rays', run)
    return cx
# ---- visibility, construction, parameters
def t_visible(env):
    cx = ctx(env); p = cx.prog
    def run(cx):
        v, d = camera(cx, 'nul'); U = cx.new_cell('u', vec(cx, ptype(p, fn_id(p, 'vu::visible'), 1), [real(cx, 'u'), real(cx, 'v')])); u, w = xy(cx, U); s, r = attempt(cx, lambda: call(cx, fn_id(p, 'vu::visible'), None, cx.new_cell('c', v), U)); cx.oblige('visibility is decided', s == 'ok')
        if s == 'ok': cx.oblige('a keypoint is visible exactly inside the image', cx.zb(r) == classify(cx, v, u, w, u)[0]); cx.cover('end')
    cx.explore('visible', run)
    def run(cx):
        f = fn_id(p, 'vu::margin'); v, d = camera(cx, 'nul'); U = cx.new_cell('u', vec(cx, ptype(p, f, 1), [real(cx, 'u'), real(cx, 'v')])); u, w = xy(cx, U); g = real(cx, 'margin'); W, H = [z3.ToReal(cx.ix(fld(v, n)[n])) for n in ('image_width_', 'image_height_')]
        s, r = attempt(cx, lambda: call(cx, f, None, cx.new_cell('c', v), U, g)); ok = z3.And(2 * g < W, 2 * g < H)
        if s != 'ok': cx.oblige('a margin that leaves room is accepted', z3.Not(ok)); return
        cx.oblige('a margin of half the image is refused', ok); cx.oblige('a keypoint is visible exactly inside the margin', cx.zb(r) == z3.And(u >= g, w >= g, u < W - g, w < H - g)); cx.cover('end')
    cx.explore('margin', run)
    def ok(cx, M): return z3.And(cx.ix(M.r) == 4, *[M.term(cx, i, 0) > 0 for i in range(4)])
    for nm in ('valid', 'valid2'):
        def run(cx, nm=nm):
            f = fn_id(p, 'vu::' + nm); i = 0 if nm == 'valid' else 1; M = cx.sym('I', ptype(p, f, i)); cx.input('number of intrinsics', cx.ix(M.r)); m_ = cx.new_cell('I', M); s, r = attempt(cx, lambda: call(cx, f, None, *([m_] if i == 0 else [cx.new_cell('c', camera(cx, 'nul')[0]), m_]))); cx.oblige('validity is decided', s == 'ok')
            if s == 'ok': cx.oblige('exactly four positive intrinsics are valid', cx.zb(r) == ok(cx, M)); cx.cover('end')
        cx.explore(nm, run)
    for nm in ('make', 'make4', 'maked'):
        def run(cx, nm=nm):
            f = fn_id(p, 'vu::' + nm); W, H = [cx.input(n, cx.sym(n, p.funcs[f]['pt'][-3 if nm == 'maked' else -2])) for n in ('width', 'height')]; d = None
            if nm == 'make4': K = [real(cx, n) for n in KN]; args = K + [W, H]; good = z3.And(*[k > 0 for k in K])
            else:
                M = cx.sym('I', ptype(p, f, 0)); cx.input('number of intrinsics', cx.ix(M.r)); K = None; args = [cx.new_cell('I', M), W, H]; good = ok(cx, M)
            if nm == 'maked': dc = cx.new_cell('distortion', obj(cx, 'radtan')); d = cx.new_cell('d', Ptr(dc)); args.append(d)
            s, r = attempt(cx, lambda: call(cx, f, None, *args))
            if s != 'ok': cx.oblige('valid intrinsics are accepted', z3.Not(good)); return
            cx.oblige('invalid intrinsics are refused', good); o = cx.read(r.ref); I = fld(o, 'intrinsics_')['intrinsics_']; K = K or [M.term(cx, i, 0) for i in range(4)]
            cx.oblige('the camera holds the intrinsics and the image size', AND(eqi(cx, I.r, 4), *[I.term(cx, i, 0) == k for i, k in enumerate(K)], eqi(cx, fld(o, 'image_width_')['image_width_'], W), eqi(cx, fld(o, 'image_height_')['image_height_'], H), eqi(cx, fld(o, 'line_delay_nanoseconds_')['line_delay_nanoseconds_'], 0), eqi(cx, fld(o, 'camera_type_')['camera_type_'], 0)))
            q = fld(o, 'distortion_')['distortion_']; cx.oblige('the camera has its distortion model', q.ref is not None and (q.ref.cell == dc.cell if nm == 'maked' else p.tname(cx.read(q.ref).t) == CLS['nul'])); cx.cover('end')
        cx.explore(nm, run)
    def run(cx):
        m = 'radtan'; v, d = camera(cx, m); d0 = cx.read(d); c = cx.new_cell('c', v)
        s, r = attempt(cx, lambda: call(cx, fn_id(p, 'vu::clone'), None, c)); cx.oblige('a camera can be cloned', s == 'ok')
        if s != 'ok': return
        o = cx.read(r.ref); q = fld(o, 'distortion_')['distortion_']; cx.oblige('the clone is a pinhole camera of its own with its own distortion model', isinstance(o, Rec) and p.tname(o.t) == CAM and r.ref.cell != c.cell and q.ref is not None and q.ref.cell != d.cell and p.tname(cx.read(q.ref).t) == CLS[m] and same_obj(cx, cx.read(q.ref), d0))
        fo = fld(o, 'distortion_'); keep = fo['distortion_']; fo['distortion_'] = Ptr(d); cx.oblige('the clone has the parameters of the camera', same_cam(cx, o, v)); fo['distortion_'] = keep
        cx.oblige('the camera is not changed', same_cam(cx, cx.read(c), v, d, d0)); cx.cover('end')
    cx.explore('clone', run)
    def run(cx):
        v, d = camera(cx, 'nul'); h = fld(v, 'intrinsics_')['intrinsics_']; K = [h.term(cx, i, 0) for i in range(4)]; s, r = attempt(cx, lambda: call(cx, fn_id(p, 'vu::matrix'), None, cx.new_cell('c', v))); cx.oblige('the camera matrix is built', s == 'ok')
        if s == 'ok': M = mval(cx, r); E = [K[0], 0, K[2], 0, K[1], K[3], 0, 0, 1]; cx.oblige('the camera matrix holds the intrinsics', AND(*[M.term(cx, i // 3, i % 3) == e for i, e in enumerate(E)])); cx.cover('end')
    cx.explore('camera matrix', run)
    def run(cx):
        f = fn_id(p, 'vu::truth'); r = cx.sym('r', ptype(p, f, 0)); s, b = attempt(cx, lambda: call(cx, f, None, cx.new_cell('r', r))); cx.oblige('a result converts to bool', s == 'ok'); s2, g = attempt(cx, lambda: call(cx, fn_id(p, 'vu::status'), None, cx.new_cell('r', r)))
        if s == 'ok' and s2 == 'ok': cx.oblige('a result is true exactly for a visible keypoint', cx.zb(b) == (cx.ix(r.f['status_']) == VIS)); cx.oblige('the status is reported', eqi(cx, g, r.f['status_'])); cx.cover('end')
    cx.explore('result', run)
    return cx
# ---- lists of points, by loop invariant, the single projection by its contract
def t_many(env):
    cx = ctx(env); p = cx.prog
    for nm, n, o, q in (('many', 3, 2, 'aslam::PinholeCamera::project3Functional'), ('backmany', 2, 3, 'aslam::PinholeCamera::backProject3')):
        f = fn_id(p, 'vu::' + nm)
        def run(cx, nm=nm, n=n, o=o, q=q, f=f):
            v, d = camera(cx, 'nul'); c = cx.new_cell('c', v); N = cx.input('number of points', cx.fresh('N', INT)); cx.assume(z3.And(N >= 0, N < 2 ** 31 - 1)); src = [z3.Function('src%d' % i, INT, R) for i in range(n)]; et = mval(cx, pt(cx, 'xyz')[0]).et
            def at(i, j):
                t = src[n - 1](j)
                for k in range(n - 1): t = z3.If(cx.ix(i) == k, src[k](j), t)
                return t
            X = cx.new_cell('X', Mat(None, et, n, N, at=at)); out = cx.new_cell('out', cx.sym('out', ptype(p, f, 2))); res = cx.new_cell('res', cx.sym('res', ptype(p, f, 3))); F = [z3.Function('F%d' % i, *([R] * (n + 1))) for i in range(o)]; S = z3.Function('S', *([R] * n + [INT]))
            def one(cx, k):
                M = mval(cx, k.args[0]); a = [M.term(cx, i, 0) for i in range(n)]; w = rd(cx, k.args[3 if nm == 'many' else 1]).ref
                for i in range(o): cx.write(eref(cx, w, i, 0), F[i](*a))
                st = S(*a); cx.assume(z3.And(st >= 0, st <= (4 if nm == 'many' else 1)))
                if nm == 'backmany': return st != 0
                for jj in k.args[4:]: cx.oblige('no Jacobian is asked for', rd(cx, jj).ref is None)
                cx.oblige('the stored parameters are used', rd(cx, k.args[1]).ref is None and rd(cx, k.args[2]).ref is None)
                rt = ptype(p, fn_id(p, 'vu::status'), 0); r = cx.sym('r', rt); r.f['status_'] = st; return r
            cx.contracts[q] = one; g = cx.fresh('g', INT); cx.assume(z3.And(g >= 0, g < N)); A = [src[i](g) for i in range(n)]
            def good(cx):
                M = mval(cx, out); V = cx.read(res); e = cx.vec_get(V, g); val = cx.ix(e.f['status_']) if nm == 'many' else cx.ix(e); return z3.And(*[M.term(cx, i, g) == F[i](*A) for i in range(o)], val == S(*A))
            def inv(cx, L):
                i = cx.ix(L['i']); M = mval(cx, out); V = cx.read(res); yield 'sizes', z3.And(0 <= i, i <= N, cx.ix(M.r) == o, cx.ix(M.c) == N, cx.ix(V.n) == N); yield 'done', z3.Implies(g < i, good(cx))
            cx.loopspecs = [LoopSpec(inv, name='points')]
            s, _ = attempt(cx, lambda: call(cx, f, None, c, X, Ptr(out), Ptr(res))); cx.oblige('every list of points is processed', s == 'ok')
            if s != 'ok': return
            M = mval(cx, out); V = cx.read(res); cx.oblige('there is one result per point', z3.And(cx.ix(M.r) == o, cx.ix(M.c) == N, cx.ix(V.n) == N)); cx.oblige('each result is that of the single point', good(cx)); cx.cover('end')
        cx.explore(nm, run)
    return cx
ASSUMPTIONS = ASSUME[:1] + ['the distortion models obey their contracts (C01 to C04)', 'focal lengths are positive', 'the chain rule of calculus', 'the minkindr dependency, which is not installed, is replaced by a stand-in header (stubs/); two headers included by camera-pinhole.cc but not used by it are left out']
TECHNIQUE = "contract-based deductive verification (extracted C++, symbolic execution; keypoints and Jacobians compared as normal forms of rational functions, lists of points by loop invariants)"
LEVEL_NOTE = "projection, back-projection, Jacobians for every combination of parameter sources and requested outputs, classification, visibility and construction proved for all points, intrinsics and image sizes in real arithmetic"
def tasks(env): return [Task('functional %s %s' % (m, 'given' if g else 'stored'), t_functional(m, g)) for m in ('nul', 'radtan') for g in (0, 1)] + [Task('entry points', t_entry), Task('template', t_template), Task('back-projection', t_back), Task('visibility and construction', t_visible), Task('lists', t_many)]
