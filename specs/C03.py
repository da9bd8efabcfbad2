"""C03: distortion maps compute the published formulas with the right coefficients; parameter validity; base class."""
REPLAY_SRC = ['REPO/aslam_cv_cameras/src/%s.cc' % n for n in ('distortion', 'distortion-radtan', 'distortion-equidistant', 'distortion-fisheye')]; REPLAY_LIBS = ['-lglog', '-lgflags']; REPLAY_SECS = (10, 120)
from distutil import *
UNITS = UNIT; MODELS_ = ('radtan', 'equi', 'fish', 'nul')
def symvec(cx, f, i):
    """coefficient vector of any length"""
    t = ptype(cx.prog, f, i); v = cx.sym('c', t); cx.input('number of coefficients', cx.ix(v.r)); return cx.new_cell('c', v), v
def t_map(m):
    def go(env):
        cx = env.ctx('distortion', 'int'); p = cx.prog; f = fn_id(p, 'vu::%s_distort' % m)
        for given in (0, 1):
            def run(cx, given=given):
                par = [real(cx, n) for n in PN[m]]; x, y = real(cx, 'x'), real(cx, 'y'); d = obj(cx, m, None if given else par); dc = cx.new_cell('d', d)
                cc = coeffs(cx, f, 1, par); c0 = mval(cx, cc).copy(); C = Ptr(cc) if given else Ptr(None); a = point(cx, f, 2, x, y)
                s, _ = attempt(cx, lambda: call(cx, f, None, dc, C, Ptr(a), Ptr(None))); cx.oblige('every point is distorted', s == 'ok')
                if s != 'ok': return
                A = xy(cx, a); S = x * x + y * y; alts = []
                for cond, val in limit(m, x, y, par, S):
                    if cx.valid(cond): alts.append(list(zip(A, val)))
                if m in ('equi', 'fish') and cx.valid(S <= 0): alts.append(list(zip(A, (x, y))))
                oblige_eq(cx, 'the distorted point follows the formula of the model (near the axis: its limit)', lambda: list(zip(A, formula(m, x, y, par))), sampler(m), alts)
                cx.oblige('the model is not changed', same_obj(cx, cx.read(dc), d)); cx.oblige('the coefficients are not changed', same_mat(cx, mval(cx, cc), c0)); cx.cover('end')
            cx.explore('coefficients given' if given else 'stored coefficients', run)
        def run(cx):
            d = obj(cx, m); dc = cx.new_cell('d', d); a = point(cx, f, 2, z3.RealVal(0), z3.RealVal(0)); par = [real(cx, n) for n in PN[m]]; C = coeffs(cx, f, 1, par)
            cx.hooks['sqrt'] = lambda cx, v: z3.RealVal(0) if cx.valid(cx.zr(v) == 0) else None
            try: s, _ = attempt(cx, lambda: call(cx, f, None, dc, Ptr(C), Ptr(a), Ptr(None)))
            finally: del cx.hooks['sqrt']
            cx.oblige('the axis is distorted', s == 'ok')
            if s == 'ok': A = xy(cx, a); cx.oblige('the optical axis is mapped to itself', z3.And(A[0] == 0, A[1] == 0)); cx.cover('end')
        cx.explore('axis', run)
        if m == 'nul': return cx
        for what in ('distort', 'param', 'undistort', 'null point'):
            g = fn_id(p, 'vu::%s_%s' % (m, 'distort' if what == 'null point' else what))
            def run(cx, what=what, g=g):
                d = obj(cx, m); dc = cx.new_cell('d', d); cc, v = symvec(cx, g, 1); a = point(cx, g, 2, real(cx, 'x'), real(cx, 'y'))
                if what != 'null point': cx.assume(cx.ix(v.r) != NPAR[m])
                args = dict(distort=lambda: (Ptr(cc), Ptr(a), Ptr(None)), param=lambda: (Ptr(cc), a, Ptr(cx.new_cell('J', cx.sym('J', ptype(p, g, 3))))), undistort=lambda: (cc, Ptr(a)))
                args['null point'] = lambda: (Ptr(cc), Ptr(None), Ptr(None))
                s, _ = attempt(cx, lambda: call(cx, g, None, dc, *args[what]())); cx.oblige('a wrong number of coefficients is refused' if what != 'null point' else 'a missing point is refused', s != 'ok'); cx.cover('end')
            cx.explore(what + ': wrong input', run)
        return cx
    return go
def valid(cx, m, v):
    n = cx.ix(v.r)
    if m == 'nul': return z3.BoolVal(True)
    if m != 'fish': return n == NPAR[m]
    w = v.term(cx, 0, 0); tiny = z3.RealVal(Fraction('1e-16')); return z3.And(n == 1, z3.Or(z3.And(w < tiny, -w < tiny), z3.And(w >= z3.RealVal(Fraction('0.5')), w <= z3.RealVal(Fraction('1.5')))))
def t_valid(env):
    cx = env.ctx('distortion', 'int'); p = cx.prog
    for m in MODELS_:
        for nm in ('valid', 'dvalid'):
            f = fn_id(p, 'vu::%s_%s' % (m, nm)); i = 0 if nm == 'valid' else 1
            def run(cx, m=m, f=f, i=i):
                cc, v = symvec(cx, f, i); d = cx.new_cell('d', obj(cx, m)); s, r = attempt(cx, lambda: call(cx, f, None, *([d, cc] if i else [cc]))); cx.oblige('the check returns', s == 'ok')
                if s == 'ok': cx.oblige('exactly the documented coefficients are valid', cx.zb(r) == valid(cx, m, v)); cx.cover('end')
            cx.explore('%s %s' % (m, nm), run)
        def run(cx, m=m):
            d = obj(cx, m); dc = cx.new_cell('d', d); cx.oblige('the documented number of coefficients is reported', AND(eqi(cx, call(cx, fn_id(p, 'vu::%s_count' % m), None), NPAR[m]), eqi(cx, call(cx, fn_id(p, 'vu::%s_size' % m), None, dc), NPAR[m])))
            s, r = attempt(cx, lambda: call(cx, fn_id(p, 'vu::%s_clone' % m), None, dc)); cx.oblige('a model can be cloned', s == 'ok')
            if s != 'ok': return
            o = cx.read(r.ref); cx.oblige('a clone is a separate object of the same model', isinstance(o, Rec) and p.tname(o.t) == CLS[m] and r.ref.cell != dc.cell)
            cx.oblige('a clone has equal coefficients and type', AND(same_obj(cx, o, d), eqi(cx, holder(o, 'distortion_type_').f['distortion_type_'], holder(d, 'distortion_type_').f['distortion_type_']))); cx.oblige('cloning does not change the original', same_obj(cx, cx.read(dc), d)); cx.cover('end')
        cx.explore(m + ' basics', run)
        f = fn_id(p, 'vu::%s_make' % m); TY = {'nul': 0, 'equi': 1, 'fish': 2, 'radtan': 3}
        def run(cx, m=m, f=f):
            cc, v = symvec(cx, f, 0) if m != 'nul' else (None, None); s, r = attempt(cx, lambda: call(cx, f, None, *([cc] if cc is not None else [])))
            if s != 'ok': cx.oblige('valid coefficients are accepted', z3.Not(valid(cx, m, v)) if v is not None else False); return
            if v is not None: cx.oblige('a model is made of valid coefficients only', valid(cx, m, v))
            o = cx.read(r.ref); st = stored(o)
            if v is not None: cx.oblige('the model stores the coefficients', AND(eqi(cx, st.r, NPAR[m]), *[st.term(cx, i, 0) == v.term(cx, i, 0) for i in range(NPAR[m])]))
            else: cx.oblige('the null model has no coefficients', eqi(cx, st.r, 0))
            q = cx.new_cell('o', o); cx.oblige('the model has its type', eqi(cx, call(cx, fn_id(p, 'vu::type'), None, q), TY[m])); cx.cover('end')
        cx.explore(m + ' construction', run)
        f = fn_id(p, 'vu::set_params')
        def run(cx, m=m, f=f):
            cc, v = symvec(cx, f, 1); d = obj(cx, m); dc = cx.new_cell('d', d); s, r = attempt(cx, lambda: call(cx, f, None, Ptr(dc), cc)); ok = valid(cx, m, v); n = cx.ix(v.r)
            if s != 'ok': cx.oblige('valid coefficients can be set', z3.Not(ok)); cx.oblige('refused coefficients are not stored', same_obj(cx, cx.read(dc), d)); return
            cx.oblige('invalid coefficients are refused', ok); st = stored(cx.read(dc)); k = cx.fresh('k', z3.IntSort()); cx.assume(z3.And(k >= 0, k < n))
            cx.oblige('the coefficients are stored', z3.And(cx.ix(st.r) == n, pk(cx, st.el(cx, k, 0), st.et) == v.term(cx, k, 0)) if NPAR[m] == 0 else AND(eqi(cx, st.r, n), *[z3.Implies(n == NPAR[m], pk(cx, st.el(cx, i, 0), st.et) == v.term(cx, i, 0)) for i in range(NPAR[m])]))
            cx.oblige('the type stays', eqi(cx, holder(cx.read(dc), 'distortion_type_').f['distortion_type_'], holder(d, 'distortion_type_').f['distortion_type_'])); cx.cover('end')
        cx.explore(m + ' set coefficients', run)
    return cx
def t_base(env):
    """the entry points of the base class apply the model of the object with its stored coefficients"""
    cx = env.ctx('distortion', 'int'); p = cx.prog; U = lambda cx, m, i, *a: cx.uf('%s!%d' % (m, i), *([R] * (len(a) + 1)))(*a)
    def stub(m, kind):
        def h(cx, c):
            cf, pt = (c.args[0], c.args[1]); x = rd(cx, pt); cx.oblige('a point is passed', x.ref is not None); cr = rd(cx, cf) if kind == 'distort' else cf; ob = cx.read(c.obj)
            if kind == 'distort': k = stored(ob) if cr.ref is None else mval(cx, cr.ref)
            else: k = mval(cx, cr)
            par = [k.term(cx, i, 0) for i in range(cx.conc(k.r))]; a, b = xy(cx, x.ref); fx, fy = [U(cx, m + kind, i, a, b, *par) for i in (0, 1)]
            cx.write(eref(cx, x.ref, 0, 0), fx); cx.write(eref(cx, x.ref, 1, 0), fy)
            if kind == 'distort':
                j = rd(cx, c.args[2])
                if j.ref is not None:
                    for u in (0, 1):
                        for v in (0, 1): cx.write(eref(cx, j.ref, u, v), U(cx, m + 'J', 2 * u + v, a, b, *par))
        return h
    for m in MODELS_:
        def run(cx, nm, m=m):
            for k in ('distort', 'undistort'): cx.contracts['%s::%sUsingExternalCoefficients' % (CLS[m], k)] = stub(m, k)
            kind = 'undistort' if nm.startswith('un') else 'distort'; f = fn_id(p, 'vu::' + nm); par = [real(cx, n) for n in PN[m]]; x, y = real(cx, 'x'), real(cx, 'y'); d = obj(cx, m, par); dc = cx.new_cell('d', d)
            a = point(cx, f, 1, x, y); o = a; J = None; args = [Ptr(a)]
            if nm[-1] == '2': o = point(cx, f, 2, *[cx.fresh('junk', R) for _ in 'xy']); args = [a, Ptr(o)]
            if nm[-1] == '3': J = cx.new_cell('J', cx.sym('J', ptype(p, f, 2))); args = [Ptr(a), Ptr(J)]
            s, _ = attempt(cx, lambda: call(cx, f, None, dc, *args)); cx.oblige('the call returns', s == 'ok')
            if s != 'ok': return
            cx.oblige('the model of the object is applied with its stored coefficients', z3.And(*[g == U(cx, m + kind, i, x, y, *par) for i, g in enumerate(xy(cx, o))]))
            if J is not None: M = mval(cx, J); cx.oblige('the Jacobian of the model is returned', z3.And(*[M.term(cx, u, v) == U(cx, m + 'J', 2 * u + v, x, y, *par) for u in (0, 1) for v in (0, 1)]))
            if nm[-1] == '2': cx.oblige('the input point is not changed', z3.And(*[g == w for g, w in zip(xy(cx, a), (x, y))]))
            cx.oblige('the model is not changed', same_obj(cx, cx.read(dc), d)); cx.cover('end')
        for nm in ('distort1', 'distort2', 'distort3', 'undistort1', 'undistort2'): cx.explore('%s %s' % (m, nm), lambda cx, nm=nm, run=run: run(cx, nm))
        def run(cx, m=m):
            par = [real(cx, n) for n in PN[m]]; d = obj(cx, m, par); dc = cx.new_cell('d', d); M = mval(cx, call(cx, fn_id(p, 'vu::get_params'), None, dc)); cx.oblige('the stored coefficients are returned', same_mat(cx, M, stored(d)))
            if par:
                q = call(cx, fn_id(p, 'vu::get_mutable'), None, Ptr(dc)); cx.oblige('the pointer refers to the first coefficient', q.ref is not None and q.ref.cell == dc.cell and q.ref.path[-1] == ('e', (0, 0)) and ('f', 'distortion_coefficients_') in q.ref.path)
            cx.cover('end')
        cx.explore(m + ' accessors', run)
        for m2 in MODELS_:
            def run(cx, m=m, m2=m2):
                A, B = [[cx.input('%s%d' % (s, i), cx.fresh(s, R)) for i in range(NPAR[k])] for s, k in (('a', m), ('b', m2))]; a, b = obj(cx, m, A), obj(cx, m2, B)
                for o, k in ((a, m), (b, m2)): holder(o, 'distortion_type_').f['distortion_type_'] = {'nul': 0, 'equi': 1, 'fish': 2, 'radtan': 3}[k]
                s, r = attempt(cx, lambda: call(cx, fn_id(p, 'vu::equal'), None, cx.new_cell('a', a), cx.new_cell('b', b))); cx.oblige('models can be compared', s == 'ok')
                if s == 'ok': cx.oblige('models are equal exactly when model and coefficients are', cx.zb(r) == (z3.And(*[u == v for u, v in zip(A, B)]) if m == m2 else z3.BoolVal(False))); cx.cover('end')
            cx.explore('%s == %s' % (m, m2), run)
    return cx
def t_template(env):
    cx = env.ctx('distortion', 'int'); p = cx.prog
    for m in ('fish', 'nul'):
        def run(cx, m=m):
            f = fn_id(p, 'vu::%s_template' % m); par = [real(cx, n) for n in PN[m]]; x, y = real(cx, 'x'), real(cx, 'y'); d = cx.new_cell('d', obj(cx, m)); a, o = point(cx, f, 2, x, y), point(cx, f, 3, *[cx.fresh('junk', R) for _ in 'xy'])
            s, _ = attempt(cx, lambda: call(cx, f, None, d, coeffs(cx, f, 1, par), a, Ptr(o))); cx.oblige('every point is distorted', s == 'ok')
            if s != 'ok': return
            A = xy(cx, o); S = x * x + y * y; alts = [list(zip(A, v)) for c, v in limit(m, x, y, par, S) if cx.valid(c)]
            oblige_eq(cx, 'the template computes the formula of the model', lambda: list(zip(A, formula(m, x, y, par))), sampler(m), alts); cx.oblige('the point is not changed', z3.And(*[g == w for g, w in zip(xy(cx, a), (x, y))])); cx.cover('end')
        cx.explore(m, run)
    return cx
ASSUMPTIONS = ASSUME
TECHNIQUE = "contract-based deductive verification (extracted C++, symbolic execution; z3, and normal forms over the field generated by the elementary functions)"
LEVEL_NOTE = "maps, templates, validity, construction, cloning, comparison and the base class entry points proved for all points and coefficients"
def tasks(env): return [Task(m + ' map', t_map(m)) for m in MODELS_] + [Task('coefficients', t_valid), Task('base class', t_base), Task('templates', t_template)]
