"""C04: undistortion inverts distortion (fisheye, null); the iterative models take Gauss-Newton steps until within tolerance."""
REPLAY_SRC = ['REPO/aslam_cv_cameras/src/%s.cc' % n for n in ('distortion', 'distortion-radtan', 'distortion-equidistant', 'distortion-fisheye')]; REPLAY_LIBS = ['-lglog', '-lgflags']; REPLAY_SECS = (10, 120)
from distutil import *
UNITS = UNIT
Q = lambda x: z3.RealVal(Fraction(x))
def same(a, b):
    try: return all(field.zero([(a, b)]))
    except (field.NotField, field.TooBig, RecursionError): return False
def fish_hooks(cx, x, y, w, S, ghost):
    """facts about the elementary functions at the arguments the two maps evaluate them at"""
    t, r = fn('tan')(w / 2), fn('sqrt')(S); z = 2 * t * r; A = fn('atan')(z); T = fn('tan')(z)
    cx.assume(z3.And(r >= 0, r * r == S, z3.Implies(S > 0, r > 0), z3.Implies(S == 0, r == 0)))
    cx.assume(z3.And(z3.Implies(w == 0, t == 0), z3.Implies(w >= Q('0.5'), z3.And(t > 0, t < 1)), z3.Implies(z > 0, A > 0), z3.Implies(z == 0, A == 0), z3.Implies(w >= Q('0.5'), z3.And((z > 0) == (r > 0), z >= 0))))
    cx.assume(z3.Implies(z3.And(z > 0, z <= Q('0.01')), z3.And(z <= T, T <= z * (1 + z * z))))
    if not ghost: ghost.update(z=z, A=A, T=T, t=t, r=r)
    def sqrt(cx, v):
        V = cx.zr(v)
        for root, sq in ((r, S), (A / w, None), (2 * t / w * r, None), (r * A, None), (z, None)):
            if same(root * root, V):
                cx.oblige('lemma: the root is not negative', root >= 0); return root
        return None
    def tan(cx, v):
        V = cx.zr(v)
        if same(V, w / 2): return t
        if same(V, A): return z
        if same(V, z): return T
        return None
    cx.hooks.update(sqrt=sqrt, tan=tan, atan=lambda cx, v: A if same(cx.zr(v), z) else None, cos=lambda cx, v: None)
def t_fish(env):
    cx = env.ctx('distortion', 'int'); p = cx.prog; f, g = fn_id(p, 'vu::fish_distort'), fn_id(p, 'vu::fish_undistort')
    for given in (0, 1):
        for case in ('on the axis', 'off the axis'):
            for wc in ('w = 0', 'w in its range'):
                def run(cx, given=given, case=case, wc=wc):
                    w = real(cx, 'w') if wc != 'w = 0' else z3.RealVal(0); x, y = (real(cx, 'x'), real(cx, 'y')) if case != 'on the axis' else (z3.RealVal(0), z3.RealVal(0)); S = x * x + y * y; gh = {}
                    if wc != 'w = 0': cx.assume(z3.And(w >= Q('0.5'), w <= Q('1.5')))
                    if case != 'on the axis': cx.assume(S > 0)
                    fish_hooks(cx, x, y, w, S, gh); d = obj(cx, 'fish', [w]); dc = cx.new_cell('d', d); c = coeffs(cx, f, 1, [w]); a = point(cx, f, 2, x, y)
                    s, _ = attempt(cx, lambda: call(cx, f, None, dc, Ptr(c) if given else Ptr(None), Ptr(a), Ptr(None))); cx.oblige('every point is distorted', s == 'ok')
                    if s != 'ok': return
                    lim = z3.RealVal(Fraction(89) * Fraction(repr(math.pi)) / 180) - Q('1e-9')
                    if wc != 'w = 0': cx.assume(z3.Implies(S >= Q('1e-5'), gh['A'] <= lim))          # within the field of view of the model
                    s, _ = attempt(cx, lambda: call(cx, g, None, dc, c, Ptr(a))); cx.oblige('every distorted point is undistorted', s == 'ok')
                    if s != 'ok': return
                    X, Y = xy(cx, a)
                    if case == 'on the axis' or wc == 'w = 0': cx.oblige('undistorting the distorted point returns the point', z3.And(X == x, Y == y))
                    elif cx.valid(S < Q('1e-5')):
                        # both maps are radial: the point comes back along its ray, scaled by tan(z)/z
                        q = gh['T'] / gh['z']; z = gh['z']
                        oblige_eq(cx, 'near the axis the point comes back scaled by tan(z)/z or exactly', lambda: [(X, x * q), (Y, y * q)], sampler('fish'), [[(X, x), (Y, y)]])
                        cx.oblige('tan(z)/z is 1 up to z squared', z3.And(z > 0, z <= Q('0.01')))
                    else: oblige_eq(cx, 'undistorting the distorted point returns the point', lambda: [(X, x), (Y, y)], sampler('fish'))
                    cx.oblige('the coefficients are not changed', z3.And(mval(cx, c).term(cx, 0, 0) == w, same_obj(cx, cx.read(dc), d))); cx.cover('end')
                cx.explore('%s, %s, %s' % ('coefficients given' if given else 'stored coefficients', case, wc), run)
    return cx
def t_nul(env):
    cx = env.ctx('distortion', 'int'); p = cx.prog; f, g = fn_id(p, 'vu::nul_distort'), fn_id(p, 'vu::nul_undistort')
    def run(cx):
        x, y = real(cx, 'x'), real(cx, 'y'); dc = cx.new_cell('d', obj(cx, 'nul')); c = coeffs(cx, f, 1, []); a = point(cx, f, 2, x, y)
        s, _ = attempt(cx, lambda: call(cx, f, None, dc, Ptr(c), Ptr(a), Ptr(None))); s2, _ = attempt(cx, lambda: call(cx, g, None, dc, c, Ptr(a))); cx.oblige('the calls return', s == 'ok' and s2 == 'ok')
        X, Y = xy(cx, a); cx.oblige('undistorting the distorted point returns the point', z3.And(X == x, Y == y)); cx.cover('end')
    cx.explore('null', run); return cx
N = 30
def t_iter(m):
    def go(env):
        cx = env.ctx('distortion', 'int', opts=dict(max_s=400, feas_ms=80)); known = {}; p = cx.prog; g = fn_id(p, 'vu::%s_undistort' % m)
        def run(cx):
            par = [real(cx, n) for n in PN[m]]; x, y = real(cx, 'x'), real(cx, 'y'); dc = cx.new_cell('d', obj(cx, m)); c = coeffs(cx, g, 1, par); a = point(cx, g, 2, x, y); tol = cx.input('tolerance', z3.Const('tol', R)); cx.assume(tol > 0)
            cell = cx.new_cell('FLAGS_acv_inv_distortion_tolerance', tol); cx.hooks['global'] = lambda s, v, V: cell if V['n'].split('::')[-1].startswith('FLAGS_acv_inv_distortion_tolerance') else None
            H = [(x, y)]; st = []      # iterates (as constants) and, per evaluated iterate, (terms, map value, Jacobian)
            def stub(cx, cc):
                pt = rd(cx, cc.args[1]).ref; u, v = xy(cx, pt); k = len(st); J = rd(cx, cc.args[2]).ref
                cr = rd(cx, cc.args[0]).ref; K = mval(cx, cr) if cr is not None else None
                cx.oblige('the map is evaluated with the given coefficients', K is not None and z3.And(*[K.term(cx, i, 0) == par[i] for i in range(len(par))]))
                if k > N + 2: raise Unsupported('more map evaluations than iterations')
                nx, ny = check(cx, k, u, v); F = [cx.uf('F%d%d' % (k, i), R)() for i in range(4)] if False else [z3.Const('F%d_%d' % (k, i), R) for i in range(4)]; e = [z3.Const('e%d_%d' % (k, i), R) for i in range(2)]; d = [x - e[0], y - e[1]]       # by its error
                st.append(((nx, ny), e, F)); cx.assume(z3.Implies(z3.And(nx == 0, ny == 0), z3.And(e[0] == x, e[1] == y)))
                cx.write(eref(cx, pt, 0, 0), d[0]); cx.write(eref(cx, pt, 1, 0), d[1])
                if J is not None:
                    for i in (0, 1):
                        for j in (0, 1): cx.write(eref(cx, J, i, j), F[2 * i + j])
            def rename(cx, u, v, nx, ny):
                """variables of the function that hold the iterate hold its name from now on (equal value, shorter term)"""
                for r in list(cx.frames[-1].vars.values()) if cx.frames else []:
                    w = cx.read(r) if isinstance(r, Ref) else None
                    if isinstance(w, Mat) and (cx.conc(w.r), cx.conc(w.c)) == (2, 1) and w.term(cx, 0, 0).eq(u) and w.term(cx, 1, 0).eq(v): cx.write(eref(cx, r, 0, 0), nx); cx.write(eref(cx, r, 1, 0), ny)
            def check(cx, k, u, v):
                """(u, v) is iterate k: from iterate k-1 by one Gauss-Newton step; name it"""
                if k == 0:
                    oblige_eq(cx, 'the iteration starts at the distorted point', [(u, x), (v, y)], smp); return x, y
                (px, py), e, F = st[k - 1]; det = F[0] * F[3] - F[1] * F[2]
                U, V = u, v
                key = (k, U.get_id(), V.get_id())
                if key not in known: known[key] = (U, V); oblige_eq(cx, 'each step is a Gauss-Newton step', lambda: [(U, px + (F[3] * e[0] - F[1] * e[1]) / det), (V, py + (F[0] * e[1] - F[2] * e[0]) / det)], smp)
                nx, ny = z3.Const('it%d_x' % k, R), z3.Const('it%d_y' % k, R); rename(cx, u, v, nx, ny); return nx, ny
            def smp(rng):
                e = {'x': rng.uniform(-2, 2), 'y': rng.uniform(-2, 2), 'tol': 1e-8}
                for n in PN[m]: e[n] = rng.uniform(-.4, .4)
                for k in range(N + 3):
                    for i in range(4): e['F%d_%d' % (k, i)] = rng.uniform(-2, 2)
                    for n in ('e%d_0', 'e%d_1', 'it%d_x', 'it%d_y'): e[n % k] = rng.uniform(-2, 2)
                return e
            cx.contracts[CLS[m] + '::distortUsingExternalCoefficients'] = stub
            cx.hooks['inverse'] = lambda cx, M, d: Mat(None, M.et, 2, 2, [[M.term(cx, 1, 1) / d, -M.term(cx, 0, 1) / d], [-M.term(cx, 1, 0) / d, M.term(cx, 0, 0) / d]])
            s, _ = attempt(cx, lambda: call(cx, g, None, dc, c, Ptr(a))); cx.oblige('undistortion returns', s == 'ok')
            if s != 'ok': return
            X, Y = xy(cx, a); err = lambda k: st[k][1][0] * st[k][1][0] + st[k][1][1] * st[k][1][1]
            if not st:
                cx.oblige('only points at the axis are returned without an iteration', x * x + y * y < Q('1e-6') if m == 'equi' else z3.And(x == 0, y == 0)); cx.oblige('they are returned unchanged', z3.And(X == x, Y == y)); return
            k = len(st); check(cx, k, X, Y)
            if k == N: cx.oblige('the iteration goes on only while the error exceeds the tolerance', z3.And(*[err(j) > tol for j in range(k - 1)]))
            else:
                cx.oblige('the iteration stops within tolerance or after thirty steps', z3.And(k < N, err(k - 1) <= tol)); cx.oblige('the iteration goes on only while the error exceeds the tolerance', z3.And(*[err(j) > tol for j in range(k - 1)]) if k > 1 else True)
            if k == 1: cx.cover('one step')
        cx.explore('iteration', run)
        def run(cx):
            par = [real(cx, n) for n in PN[m]]; dc = cx.new_cell('d', obj(cx, m)); c = coeffs(cx, g, 1, par); a = point(cx, g, 2, z3.RealVal(0), z3.RealVal(0)); tol = cx.input('tolerance', z3.Const('tol', R)); cx.assume(tol > 0)
            cell = cx.new_cell('FLAGS_acv_inv_distortion_tolerance', tol); cx.hooks['global'] = lambda s, v, V: cell if V['n'].split('::')[-1].startswith('FLAGS_acv_inv_distortion_tolerance') else None
            def stub(cx, cc):
                pt = rd(cx, cc.args[1]).ref; u, v = xy(cx, pt); cx.oblige('the axis stays the iterate', z3.And(u == 0, v == 0)); J = rd(cx, cc.args[2]).ref
                if J is not None: store(cx, J, cx.sym('F', cx.read(J).t))
                cx.write(eref(cx, pt, 0, 0), z3.RealVal(0)); cx.write(eref(cx, pt, 1, 0), z3.RealVal(0))
            cx.contracts[CLS[m] + '::distortUsingExternalCoefficients'] = stub
            s, _ = attempt(cx, lambda: call(cx, g, None, dc, c, Ptr(a))); cx.oblige('undistortion returns', s == 'ok')
            if s == 'ok': X, Y = xy(cx, a); cx.oblige('the axis is returned unchanged', z3.And(X == 0, Y == 0)); cx.cover('end')
        cx.explore('axis', run); return cx
    return go
ASSUMPTIONS = ASSUME + ['Jacobians met by the iteration are regular', 'tan and atan are inverse on the open quarter circle, z <= tan z <= z(1+z^2) for 0 < z <= 0.01, 0 < tan(w/2) < 1 for w in [0.5, 1.5]', 'the acv_inv_distortion_tolerance flag is positive']
TECHNIQUE = "contract-based deductive verification (extracted C++, symbolic execution; compositions compared as normal forms over the field generated by the elementary functions; the map is a contract in the iterations)"
LEVEL_NOTE = "fisheye and null inversion proved for all points and w = 0 or w in [0.5,1.5]; iterations proved step by step up to their limit of thirty"
def tasks(env): return [Task('fisheye inversion', t_fish), Task('null inversion', t_nul), Task('radtan iteration', t_iter('radtan')), Task('equi iteration', t_iter('equi'))]
