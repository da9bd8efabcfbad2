"""C02: the parameter Jacobian of every distortion model is the derivative of the distorted point in the coefficients."""
REPLAY_SRC = ['REPO/aslam_cv_cameras/src/%s.cc' % n for n in ('distortion', 'distortion-radtan', 'distortion-equidistant', 'distortion-fisheye')]; REPLAY_LIBS = ['-lglog', '-lgflags']; REPLAY_SECS = (10, 120)
from distutil import *
UNITS = UNIT
def cosine(cx, v): c = fn('cos')(v); cx.assume(c != 0); return c
def t_jac(m):
    def go(env):
        cx = env.ctx('distortion', 'int'); p = cx.prog; cx.hooks['cos'] = cosine; f, g = fn_id(p, 'vu::%s_distort' % m), fn_id(p, 'vu::%s_param' % m)
        for given in (0, 1):
            def run(cx, given=given):
                par = [real(cx, n) for n in PN[m]]; x, y = real(cx, 'x'), real(cx, 'y'); d = obj(cx, m, None if given else par); dc = cx.new_cell('d', d)
                C = Ptr(coeffs(cx, f, 1, par)) if given else Ptr(None); a, b = point(cx, f, 2, x, y), point(cx, g, 2, x, y); J = cx.new_cell('J', cx.sym('J', ptype(p, g, 3)))
                s, _ = attempt(cx, lambda: call(cx, f, None, dc, C, Ptr(a), Ptr(None))); cx.oblige('every point is distorted', s == 'ok')
                s2, _ = attempt(cx, lambda: call(cx, g, None, dc, C, b, Ptr(J))); cx.oblige('the Jacobian is computed for every point, with given and with stored coefficients', s2 == 'ok')
                if 'ok' != s or s2 != 'ok': return
                A, n = xy(cx, a), len(par); sm = sampler(m); M = mval(cx, J); S = x * x + y * y
                cx.oblige('one row per coordinate and one column per coefficient', AND(eqi(cx, M.r, 2), eqi(cx, M.c, n))); cx.oblige('the point is not changed', z3.And(*[u == v for u, v in zip(xy(cx, b), (x, y))]))
                cx.oblige('the model is not changed', same_obj(cx, cx.read(dc), d))
                if n == 0: cx.cover('end'); return
                G = [[M.term(cx, i, j) for j in range(n)] for i in range(2)]; D = lambda o: [(G[i][j], diff(o[i], v)) for i in range(2) for j, v in enumerate(par)]; alts = []
                if any(cx.valid(c) for c, _ in limit(m, x, y, par, S)) and cx.valid(S > 0) and m != 'fish': alts = [lambda: D(formula(m, x, y, par))]
                oblige_eq(cx, 'the parameter Jacobian is the derivative of the distortion', lambda: D(A), sm, alts); cx.cover('end')
            cx.explore('coefficients given' if given else 'stored coefficients', run)
        return cx
    return go
ASSUMPTIONS = ASSUME
TECHNIQUE = "contract-based deductive verification (extracted C++, symbolic execution; derivative and Jacobian compared as normal forms over the field generated by the elementary functions)"
LEVEL_NOTE = "parameter Jacobians proved equal to the symbolic derivative of the map on every branch, for all points and parameters"
def tasks(env): return [Task(m + ' parameters', t_jac(m)) for m in ('radtan', 'equi', 'fish', 'nul')]
