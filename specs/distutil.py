"""Distortion models: symbolic objects, the published formulas and the numeric sampler of the identity checks."""
from util import *
import algos, eigen, field, math
from eigen import *
from field import oblige_eq, diff, fn
UNIT = {'distortion': r'^(aslam::|vu::)'}
NPAR = {'radtan': 4, 'equi': 4, 'fish': 1, 'nul': 0}
CLS = {'radtan': 'aslam::RadTanDistortion', 'equi': 'aslam::EquidistantDistortion', 'fish': 'aslam::FisheyeDistortion', 'nul': 'aslam::NullDistortion'}
PN = {'radtan': ['k1', 'k2', 'p1', 'p2'], 'equi': ['k1', 'k2', 'k3', 'k4'], 'fish': ['w'], 'nul': []}
R = z3.RealSort(); real = lambda cx, n: cx.input(n, z3.Const(n, R))
def vec(cx, t, xs): return Mat(t, cx.T(t)['a'][0]['t'], len(xs), 1, [[x] for x in xs])
def obj(cx, m, par=None):
    """a model object holding coefficients par (of the documented number)"""
    t = rectype(cx.prog, CLS[m]); v = cx.sym('d', t); par = [cx.fresh('stored', R) for _ in range(NPAR[m])] if par is None else par; h = holder(v, 'distortion_coefficients_'); o = h.f['distortion_coefficients_']
    h.f['distortion_coefficients_'] = Mat(o.t, o.et, len(par), 1, [[x] for x in par]); return v
def holder(v, n):
    if n in v.f: return v
    for x in v.f.values():
        if isinstance(x, Rec):
            h = holder(x, n)
            if h is not None: return h
    return None
def stored(v): return holder(v, 'distortion_coefficients_').f['distortion_coefficients_']
def point(cx, f, i, x, y): return cx.new_cell('point', vec(cx, ptype(cx.prog, f, i), [x, y]))
def xy(cx, ref): M = mval(cx, ref); return M.term(cx, 0, 0), M.term(cx, 1, 0)
def coeffs(cx, f, i, par): return cx.new_cell('coefficients', vec(cx, ptype(cx.prog, f, i), par))
def same_obj(cx, a, b): return same_mat(cx, stored(a), stored(b))
# ---- published formulas, over the elementary functions of the reals
def formula(m, x, y, k):
    S = x * x + y * y
    if m == 'nul': return x, y
    if m == 'radtan':
        rad = 1 + k[0] * S + k[1] * S * S
        return x * rad + 2 * k[2] * x * y + k[3] * (S + 2 * x * x), y * rad + 2 * k[3] * x * y + k[2] * (S + 2 * y * y)
    r = fn('sqrt')(S)
    if m == 'equi': th = fn('atan')(r); s = th * (1 + k[0] * th ** 2 + k[1] * th ** 4 + k[2] * th ** 6 + k[3] * th ** 8) / r
    else: s = fn('atan')(2 * fn('tan')(k[0] / 2) * r) / (r * k[0])
    return x * s, y * s
def limit(m, x, y, k, S):
    """(condition, value): where the code may use the limit of the formula instead, and that limit"""
    if m == 'equi': return [(S <= z3.RealVal(Fraction('1e-8')) ** 2, (x, y))]
    if m == 'fish': t = 2 * fn('tan')(k[0] / 2) / k[0]; return [(k[0] * k[0] <= z3.RealVal(Fraction('1e-5')), (x, y)), (S <= z3.RealVal(Fraction('1e-5')), (x * t, y * t))]
    return []
def sampler(m):
    def s(rng):
        def sc(lo, hi): return rng.choice([-1, 1]) * 10 ** rng.uniform(lo, hi)
        if rng.random() < .25: z = rng.uniform(-12, -1); x, y = sc(z - .3, z), sc(z - .3, z)
        elif rng.random() < .1: x, y = 0.0, sc(-3, .5)
        elif rng.random() < .2: x, y = sc(.3, 2), sc(.3, 2)
        else: x, y = sc(-2, .6), sc(-2, .6)
        e = {'x': x, 'y': y}
        for i, n in enumerate(PN[m]): e[n] = rng.choice([0.0, rng.uniform(-.4, .4), rng.uniform(-.4, .4)])
        if m == 'fish': e['w'] = rng.choice([rng.uniform(.5, 1.5)] * 6 + [0.0, 1e-17, sc(-4, -1)])
        return e
    return s
ASSUME = ['doubles are real numbers and sqrt, atan, tan, sin, cos the real functions (rounding is not modelled; the driver measures it)', 'derivatives of the elementary functions (calculus)', 'tan(w/2) is defined (cos(w/2) != 0)']
