"""C01: the point Jacobian of every distortion model is the derivative of its distortion map."""
REPLAY_SRC = ['REPO/aslam_cv_cameras/src/%s.cc' % n for n in ('distortion', 'distortion-radtan', 'distortion-equidistant', 'distortion-fisheye')]; REPLAY_LIBS = ['-lglog', '-lgflags']; REPLAY_SECS = (10, 120)
from distutil import *
UNITS = UNIT
def t_jac(m):
    def go(env):
        cx = env.ctx('distortion', 'int'); p = cx.prog; f = fn_id(p, 'vu::%s_distort' % m)
        for given in (0, 1):
            def run(cx, given=given):
                par = [real(cx, n) for n in PN[m]]; x, y = real(cx, 'x'), real(cx, 'y'); d = obj(cx, m, None if given else par); dc = cx.new_cell('d', d)
                C = Ptr(coeffs(cx, f, 1, par)) if given else Ptr(None); a, b = point(cx, f, 2, x, y), point(cx, f, 2, x, y)
                J = cx.new_cell('J', cx.sym('J', ptype(p, f, 3)))
                s, _ = attempt(cx, lambda: call(cx, f, None, dc, C, Ptr(a), Ptr(None))); cx.oblige('every point is distorted', s == 'ok')
                s2, _ = attempt(cx, lambda: call(cx, f, None, dc, C, Ptr(b), Ptr(J))); cx.oblige('every point is distorted with its Jacobian', s2 == 'ok')
                if 'ok' != s or s2 != 'ok': return
                A, B = xy(cx, a), xy(cx, b); sm = sampler(m)
                oblige_eq(cx, 'the distorted point does not depend on the Jacobian', list(zip(A, B)), sm)
                M = mval(cx, J); g = [[M.term(cx, i, j) for j in range(2)] for i in range(2)]; D = lambda o: [(g[i][j], diff(o[i], v)) for i in range(2) for j, v in enumerate((x, y))]
                alts = []; S = x * x + y * y
                if any(cx.valid(c) for c, _ in limit(m, x, y, par, S)) and cx.valid(S > 0): alts = [lambda: D(formula(m, x, y, par))]      # the map uses a limit: the Jacobian may be that of the formula
                oblige_eq(cx, 'the Jacobian is the derivative of the distortion', lambda: D(B), sm, alts)
                cx.oblige('the model is not changed', same_obj(cx, cx.read(dc), d)); cx.cover('end')
            cx.explore('coefficients given' if given else 'stored coefficients', run)
        return cx
    return go
ASSUMPTIONS = ASSUME
TECHNIQUE = "contract-based deductive verification (extracted C++, symbolic execution; derivative and Jacobian compared as normal forms over the field generated by the elementary functions)"
LEVEL_NOTE = "Jacobians proved equal to the symbolic derivative of the map on every branch, for all points and parameters"
def tasks(env): return [Task(m + ' jacobian', t_jac(m)) for m in ('radtan', 'equi', 'fish', 'nul')]
