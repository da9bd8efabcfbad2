"""T01: time unit conversions, the invalid time, the printed form."""
from util import *
UNITS = {'time': r'^(vu::|aslam)'}
REPLAY_SRC = []
TECHNIQUE = "contract-based deductive verification: verification conditions generated from the clang AST of time.h, discharged by z3; executable contract replayed on the compiled code"
ASSUMPTIONS = ['floating-point arithmetic is treated as real arithmetic', 'std::to_string yields the decimal digits of its argument', 'the product with the unit factor is representable in 64 bits']
FACT = {'sec': 10**9, 'milli': 10**6, 'micro': 10**3, 'nano': 1}
MIN = -2**63
zint = lambda x: z3.IntVal(x) if isinstance(x, int) else x
def glob(cx, v, V):
    if 'init' in V: return cx.new_cell('global:' + V['n'], cx.ev(V['init']))
def ctx(env):
    cx = env.ctx('time', 'int'); cx.hooks['global'] = glob; return cx
def t_int(env):
    cx = ctx(env); p = cx.prog
    for u, k in FACT.items():
        f = fn_id(p, 'vu::c_' + u)
        def run(cx, f=f, k=k, u=u):
            v = cx.input('value', cx.fresh('v', z3.IntSort())); cx.assume(z3.And(v * k >= MIN, v * k < 2**63))
            st, r = attempt(cx, lambda: call(cx, f, None, v))
            cx.oblige('integer conversion returns', st == 'ok')
            cx.oblige('integer conversion multiplies by exactly the unit factor', eqi(cx, r, v * k)); cx.cover('end')
        cx.explore('integer conversion from ' + u, run)
    return cx
def t_float(env):
    cx = ctx(env); p = cx.prog
    for n, u in [('t_sec', 'sec'), ('t_milli', 'milli'), ('t_micro', 'micro'), ('h_sec', 'sec')]:
        f = fn_id(p, 'vu::' + n)
        def run(cx, f=f, k=FACT[u]):
            v = cx.input('timestamp', cx.fresh('v', z3.IntSort())); cx.assume(z3.And(v >= MIN, v < 2**63))
            st, r = attempt(cx, lambda: call(cx, f, None, v))
            cx.oblige('conversion to a floating-point unit returns', st == 'ok')
            cx.oblige('conversion to a floating-point unit divides by the unit factor', cx.zr(r) * k == z3.ToReal(v)); cx.cover('end')
        cx.explore('to floating point: ' + n, run)
    for n, u in [('f_sec', 'sec'), ('f_milli', 'milli'), ('f_micro', 'micro'), ('g_sec', 'sec')]:
        f = fn_id(p, 'vu::' + n)
        def run(cx, f=f, k=FACT[u]):
            v = cx.input('value', cx.fresh('v', z3.RealSort())); cx.assume(z3.And(v * k > MIN, v * k < 2**63))
            st, r = attempt(cx, lambda: call(cx, f, None, v))
            cx.oblige('conversion from a floating-point unit returns', st == 'ok')
            R, x = z3.ToReal(zint(r)), v * k
            cx.oblige('conversion from a floating-point unit multiplies by the factor and truncates towards zero', z3.If(x >= 0, z3.And(R <= x, x < R + 1), z3.And(R >= x, x > R - 1))); cx.cover('end')
        cx.explore('from floating point: ' + n, run)
    return cx
def t_valid(env):
    cx = ctx(env); p = cx.prog
    fv, fi = fn_id(p, 'vu::valid'), fn_id(p, 'vu::invalid')
    def run(cx):
        v = cx.input('time', cx.fresh('v', z3.IntSort())); cx.assume(z3.And(v >= MIN, v < 2**63))
        s1, i = attempt(cx, lambda: call(cx, fi, None)); s2, r = attempt(cx, lambda: call(cx, fv, None, v))
        cx.oblige('validity test returns', s1 == 'ok' and s2 == 'ok')
        cx.oblige('the invalid time is the smallest 64-bit value', eqi(cx, i, MIN))
        cx.oblige('exactly the one invalid time is invalid', cx.zb(r) == (v != zint(i))); cx.cover('end')
    cx.explore('validity', run); return cx
def t_text(env):
    cx = ctx(env); p = cx.prog; f = fn_id(p, 'vu::text')
    memo = {}
    def digits(cx, v):
        """digits of a non-negative term, most significant first (contract of to_string)"""
        k = zint(v).sexpr()
        if k in memo: return memo[k]
        n = cx.choose(19) + 1
        ds = [cx.fresh('d%d' % i, z3.IntSort()) for i in range(n)]
        for i, d in enumerate(ds): cx.assume(z3.And(d >= (1 if i == 0 and n > 1 else 0), d <= 9))
        cx.assume(zint(v) == z3.Sum([d * 10**(n - 1 - i) for i, d in enumerate(ds)]))
        memo[k] = ds; return ds
    def tostr(cx, c, v):
        if cx.branch(lt(cx, v, 0)): raise Unsupported('text of a negative number')
        et = cx.T(c.f['ret'])['a'][0]['t']
        return Vec(et, items=[48 + d for d in digits(cx, v)])
    cx.hooks['to_string'] = tostr
    def run(cx):
        memo.clear()
        v = cx.input('time', cx.fresh('v', z3.IntSort())); cx.assume(z3.And(v >= 0, v < 2**63))
        T = [48 + d for d in digits(cx, v)]; n = len(T)
        st, r = attempt(cx, lambda: call(cx, f, None, v))
        cx.oblige('printing a time returns', st == 'ok')
        want = T + [ord(c) for c in 'ns'] if n < 10 else T[:n - 9] + [ord(c) for c in 's '] + T[n - 9:] + [ord(c) for c in 'ns']
        cx.oblige('printed form has the expected length', eqi(cx, r.n, len(want)))
        cx.oblige('printed form is every digit: last nine nanoseconds, the rest seconds', AND(*[eqi(cx, cx.vec_get(r, i), w) for i, w in enumerate(want)])); cx.cover('end')
    cx.explore('timeNanosecondsToString', run); return cx
def tasks(env):
    return [Task('integer', t_int), Task('float', t_float), Task('validity', t_valid), Task('text', t_text)]
