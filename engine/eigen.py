"""Eigen matrices as values: shapes (symbolic or fixed), elements as closures or grids; blocks as views."""
import z3, re
from fractions import Fraction
from core import *
from models import *
import core, models
class Mat(Obj):
    """rows x cols matrix; g: list of rows (concrete shape) or at: (i, j) -> value"""
    def __init__(s, t, et, r, c, g=None, at=None): s.t, s.et, s.r, s.c, s.g, s.at = t, et, r, c, g, at
    def copy(s): return Mat(s.t, s.et, s.r, s.c, [list(x) for x in s.g] if s.g is not None else None, s.at)
    def el(s, cx, i, j):
        if s.g is not None:
            a, b = cx.conc(i), cx.conc(j)
            if a is not None and b is not None:
                if not (0 <= a < len(s.g) and 0 <= b < len(s.g[a])): raise Unsupported('matrix index outside a fixed matrix')
                return s.g[a][b]
            v = None
            for p in range(len(s.g)):
                for q in range(len(s.g[p]) if s.g else 0):
                    x = s.g[p][q]
                    if v is None: v = x; continue
                    cnd = z3.simplify(z3.And(cx.ix(i) == p, cx.ix(j) == q)); v = cx.norm(z3.If(cnd, cx.pack(x, s.et), cx.pack(v, s.et)))
            if v is None: return cx.unpack(cx.fresh('noelem', cx.sort(s.et)), s.et)
            return v
        return s.at(cx.ix(i), cx.ix(j))
    def term(s, cx, i, j): return cx.pack(s.el(cx, i, j), s.et)
    def put(s, cx, i, j, v):
        if s.g is not None:
            a, b = cx.conc(i), cx.conc(j)
            if a is not None and b is not None: s.g[a][b] = v; return
            for p in range(len(s.g)):
                for q in range(len(s.g[p])):
                    s.g[p][q] = cx.norm(z3.If(z3.simplify(z3.And(cx.ix(i) == p, cx.ix(j) == q)), cx.pack(v, s.et), cx.pack(s.g[p][q], s.et)))
            return
        o, V, I, J = s.at, cx.pack(v, s.et), cx.ix(i), cx.ix(j); s.at = lambda a, b: z3.If(z3.And(a == I, b == J), V, pk(cx, o(a, b), s.et))
    def get_path(s, cx, p):
        if p[0] != 'e': raise Unsupported('path %s into a matrix' % (p,))
        return s.el(cx, *p[1])
    def set_path(s, cx, path, val):
        if path[0][0] != 'e' or len(path) != 1: raise Unsupported('path %s into a matrix' % (path,))
        m = s.copy(); m.put(cx, path[0][1][0], path[0][1][1], val); return m
    def havoc(s, cx, base):
        T = cx.T(s.t) if s.t is not None else None; d = static_dims(cx, s.t) if s.t is not None else (None, None)
        r = s.r if d[0] is not None else havoc_dim(cx, base + '.rows'); c = s.c if d[1] is not None else havoc_dim(cx, base + '.cols')
        return fresh_mat(cx, base, s.t, s.et, r, c)
    def pack(s, cx, t):
        so = mat_sort(cx, t)
        r, c = static_dims(cx, t)
        return so.mk(*[pk(cx, s.el(cx, i, j), s.et) for j in range(c) for i in range(r)])
    def as_elem(s, cx, t): return gridded(cx, s, t)
    def __repr__(s): return 'Mat(%sx%s,%s)' % (s.r, s.c, s.g)
def gridded(cx, m, t):
    r, c = static_dims(cx, t); et = cx.T(t)['a'][0]['t']
    if r is None or c is None: n = m.copy(); n.t = t; return n
    cx.oblige('matrix shapes agree', AND(eqi(cx, m.r, r), eqi(cx, m.c, c)))
    return Mat(t, et, r, c, [[cx.unpack(pk(cx, m.el(cx, i, j), et), et) if not (m.g is not None and isinstance(m.g[i][j], Undef)) else m.g[i][j] for j in range(c)] for i in range(r)])
def pk(cx, v, et): return v if isz(v) else cx.pack(v, et)
def havoc_dim(cx, base): v = cx.fresh(base, cx.isort()); cx.assume_len(v); return v
def static_dims(cx, t):
    a = cx.T(t)['a']; r, c = int(a[1]['i']), int(a[2]['i']); f = lambda x: None if x == -1 else x
    return f(r), f(c)
def fresh_mat(cx, base, t, et, r, c):
    a, b = cx.conc(r), cx.conc(c); so = cx.sort(et)
    if a is not None and b is not None and a * b <= 400: return Mat(t, et, a, b, [[cx.unpack(cx.fresh('%s_%d%d' % (base, i, j), so), et) for j in range(b)] for i in range(a)])
    cx.fresh_n += 1; f = z3.Function('%s!m%d' % (base, cx.fresh_n), cx.isort(), cx.isort(), so)
    return Mat(t, et, r, c, at=lambda i, j: f(i, j))
def sym_mat(cx, base, t):
    r, c = static_dims(cx, t); 
    if r is None: r = havoc_dim(cx, base + '.rows')
    if c is None: c = havoc_dim(cx, base + '.cols')
    return fresh_mat(cx, base, t, cx.T(t)['a'][0]['t'], r, c)
def default_mat(cx, t):
    r, c = static_dims(cx, t); et = cx.T(t)['a'][0]['t']; r, c = r or 0, c or 0
    return Mat(t, et, r, c, [[Undef(et) for _ in range(c)] for _ in range(r)])
core.TYPE_DEFAULT['Eigen::Matrix'] = default_mat
core.SYM_TYPES['Eigen::Matrix'] = sym_mat
def mat_sort(cx, t):
    r, c = static_dims(cx, t); nm = cx.prog.tname(t)
    if r is None or c is None: raise Unsupported('sort of a dynamic matrix')
    if nm in cx.sorts: return cx.sorts[nm][0]
    D = z3.Datatype(nm); so = cx.sort(cx.T(t)['a'][0]['t']); D.declare('mk', *[('m%d_%d' % (i, j), so) for j in range(c) for i in range(r)]); S = D.create(); cx.sorts[nm] = (S,); return S
core.EXTRA_SORTS['Eigen::Matrix'] = mat_sort
def mat_unpack(cx, z, t):
    r, c = static_dims(cx, t); so = mat_sort(cx, t); et = cx.T(t)['a'][0]['t']
    return Mat(t, et, r, c, [[cx.unpack(z3.simplify(getattr(so, 'm%d_%d' % (i, j))(z)), et) for j in range(c)] for i in range(r)])
core.EXTRA_UNPACK['Eigen::Matrix'] = mat_unpack
class View(Obj):
    """block [i0, i0+r) x [j0, j0+c) of the matrix at ref; tr: transposed"""
    def __init__(s, ref, i0, j0, r, c, tr=False): s.ref, s.i0, s.j0, s.r, s.c, s.tr = ref, i0, j0, r, c, tr
    def havoc(s, cx, base): return s
    def as_elem(s, cx, t): return gridded(cx, mval(cx, s), t)
    def idx(s, cx, i, j):
        if s.tr: i, j = j, i
        return add(cx, s.i0, i), add(cx, s.j0, j)
    def get_path(s, cx, p): return cx.read(Ref(s.ref.cell, s.ref.path + (('e', s.idx(cx, *p[1])),)))
    def set_path(s, cx, path, val): cx.write(Ref(s.ref.cell, s.ref.path + (('e', s.idx(cx, *path[0][1])),)), val); return s
def mval(cx, x):
    """matrix value of an expression / reference"""
    v = cx.read(x) if isinstance(x, Ref) else x
    if isinstance(v, Mat): return v
    if isinstance(v, View):
        b = mval(cx, v.ref); r, c = (v.c, v.r) if v.tr else (v.r, v.c)
        R, C = cx.conc(v.r), cx.conc(v.c)
        if b.g is not None and R is not None and C is not None and cx.conc(v.i0) is not None and cx.conc(v.j0) is not None:
            return Mat(None, b.et, R, C, [[b.el(cx, *v.idx(cx, i, j)) for j in range(C)] for i in range(R)])
        bb = b.copy(); return Mat(None, b.et, v.r, v.c, at=lambda i, j: pk(cx, bb.el(cx, *v.idx(cx, i, j)), b.et))
    raise Unsupported('matrix expression %r' % (type(v),))
def lref(cx, x):
    """reference to the matrix or view behind x"""
    return x if isinstance(x, Ref) else cx.new_cell('mexpr', x)
def dims(cx, x):
    v = cx.read(x) if isinstance(x, Ref) else x
    if isinstance(v, (Mat, View)): return v.r, v.c
    raise Unsupported('dimensions of %r' % type(v))
def store(cx, ref, m):
    """m assigned to the matrix or view at ref (resizing a matrix)"""
    d = cx.read(ref)
    if isinstance(d, View):
        cx.oblige('matrix shapes agree', AND(eqi(cx, d.r, m.r), eqi(cx, d.c, m.c)), 'assignment to a block')
        base = mval(cx, d.ref); R, C = cx.conc(d.r), cx.conc(d.c)
        root = cx.read(d.ref)
        if isinstance(root, View): raise Unsupported('view of a view')
        nb = base.copy()
        if nb.g is not None and R is not None and C is not None and cx.conc(d.i0) is not None and cx.conc(d.j0) is not None:
            for i in range(R):
                for j in range(C):
                    a, b = d.idx(cx, i, j); nb.put(cx, a, b, m.el(cx, i, j))
        else:
            old = base.copy(); et = base.et; i0, j0 = cx.ix(d.i0), cx.ix(d.j0); r, c = (cx.ix(d.c), cx.ix(d.r)) if d.tr else (cx.ix(d.r), cx.ix(d.c)); mm = m.copy()
            sub = (lambda a, b: pk(cx, mm.el(cx, b, a), et)) if d.tr else (lambda a, b: pk(cx, mm.el(cx, a, b), et))
            if m.g is not None and (len(m.g) == 0 or len(m.g[0]) == 0): return ref
            nb = Mat(base.t, et, base.r, base.c, at=lambda a, b: z3.If(z3.And(a >= i0, a < i0 + r, b >= j0, b < j0 + c), sub(a - i0, b - j0), pk(cx, old.el(cx, a, b), et) if not (old.g is not None and (not old.g or not old.g[0])) else sub(a - i0, b - j0)))
        cx.write(d.ref, nb); return ref
    n = m.copy(); n.t, n.et = d.t, d.et
    if d.t is not None:
        R, C = static_dims(cx, d.t)
        if R == 1 and C is None and not is1(cx, m.r): n = trans(cx, n)      # vectors assign across orientation
        elif C == 1 and R is None and not is1(cx, m.c): n = trans(cx, n)
        if R is not None: cx.oblige('matrix shapes agree', eqi(cx, n.r, R), 'assignment')
        if C is not None: cx.oblige('matrix shapes agree', eqi(cx, n.c, C), 'assignment')
        if R is not None and C is not None and n.g is None: n = gridded(cx, n, d.t)
    cx.write(ref, n); return ref
def is1(cx, n): return cx.conc(n) == 1
def trans(cx, m):
    if m.g is not None: return Mat(m.t, m.et, m.c, m.r, [[m.g[i][j] for i in range(m.r)] for j in range(m.c)])
    o = m.at; return Mat(m.t, m.et, m.c, m.r, at=lambda i, j: o(j, i))
def inside(cx, v, i, j):
    """an index check that Eigen makes (asserts); out of range is a failure"""
    cx.oblige('matrix index in range', AND(le(cx, 0, i), lt(cx, i, v[0]), le(cx, 0, j), lt(cx, j, v[1])))
def eref(cx, x, i, j): r = lref(cx, x); return Ref(r.cell, r.path + (('e', (i, j)),))
def view(cx, x, i0, j0, r, c):
    ref = lref(cx, x); n, m = dims(cx, ref); v = cx.read(ref)
    cx.oblige('matrix block in range', AND(le(cx, 0, i0), le(cx, 0, j0), le(cx, 0, r), le(cx, 0, c), le(cx, add(cx, i0, r), n), le(cx, add(cx, j0, c), m)))
    if isinstance(v, View):
        if v.tr: raise Unsupported('block of a transposed view')
        return View(v.ref, add(cx, v.i0, i0), add(cx, v.j0, j0), r, c)
    return View(ref, i0, j0, r, c)
D = lambda *n: ['Eigen::%s::%s' % (c, m) for m in n for c in ('DenseBase', 'MatrixBase', 'PlainObjectBase', 'EigenBase', 'DenseCoeffsBase', 'Matrix', 'Block', 'MapBase', 'Map', 'CwiseBinaryOp', 'CwiseUnaryOp', 'CwiseNullaryOp', 'Product', 'Transpose', 'Array', 'ArrayBase', 'Ref', 'VectorBlock')]
@model(*D('rows'))
def _(cx, c): return dims(cx, c.obj)[0]
@model(*D('cols'))
def _(cx, c): return dims(cx, c.obj)[1]
@model(*D('size'))
def _(cx, c):
    r, k = dims(cx, c.obj)
    if cx.conc(r) is not None and cx.conc(k) is not None: return cx.conc(r) * cx.conc(k)
    if cx.conc(r) == 1: return k
    if cx.conc(k) == 1: return r
    return cx.norm(cx.ix(r) * cx.ix(k))
@model(*D('middleCols', 'middleRows', 'col', 'row', 'block', 'head', 'tail', 'segment', 'leftCols', 'rightCols', 'topRows', 'bottomRows', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'))
def _(cx, c):
    a = [rd(cx, x) for x in c.args]; r, k = dims(cx, c.obj); n = c.f['s']; ta = [int(x['i']) for x in c.f.get('ta') or [] if 'i' in x]
    if n == 'col': return view(cx, c.obj, 0, a[0], r, 1)
    if n == 'row': return view(cx, c.obj, a[0], 0, 1, k)
    if n == 'block':
        if len(a) == 2: return view(cx, c.obj, a[0], a[1], ta[0], ta[1])
        return view(cx, c.obj, *a)
    vert = cx.conc(k) == 1
    if n == 'middleCols': return view(cx, c.obj, 0, a[0], r, a[1] if len(a) > 1 else ta[0])
    if n == 'middleRows': return view(cx, c.obj, a[0], 0, a[1] if len(a) > 1 else ta[0], k)
    if n in ('head', 'tail', 'segment'):
        ln = ta[0] if ta else a[-1]; st = 0 if n == 'head' else a[0] if n == 'segment' else sub(cx, r if vert else k, ln)
        return view(cx, c.obj, st, 0, ln, 1) if vert else view(cx, c.obj, 0, st, 1, ln)
    ln = ta[0] if ta else (a[0] if a else None)
    if n == 'leftCols': return view(cx, c.obj, 0, 0, r, ln)
    if n == 'rightCols': return view(cx, c.obj, 0, sub(cx, k, ln), r, ln)
    if n == 'topRows': return view(cx, c.obj, 0, 0, ln, k)
    if n == 'bottomRows': return view(cx, c.obj, sub(cx, r, ln), 0, ln, k)
    R, C = (ta[0], ta[1]) if ta else (a[0], a[1])
    return view(cx, c.obj, 0 if 'top' in n else sub(cx, r, R), 0 if 'Left' in n else sub(cx, k, C), R, C)
@model(*D('operator()', 'operator[]', 'coeff', 'coeffRef', 'x', 'y', 'z', 'w'))
def _(cx, c):
    r, k = dims(cx, c.obj); n = c.f['s']
    if n in 'xyzw': a = ['xyzw'.index(n)]
    else: a = [rd(cx, x) for x in c.args]
    if len(a) == 2: i, j = a
    elif cx.conc(k) == 1: i, j = a[0], 0
    elif cx.conc(r) == 1: i, j = 0, a[0]
    else: raise Unsupported('linear index into a matrix')
    inside(cx, (r, k), i, j)
    rr = eref(cx, c.obj, i, j)
    return rr
@model(*D('operator='))
def _(cx, c):
    m = mval(cx, c.args[0]); return store(cx, c.obj, m.copy())
@model(*D('resize', 'conservativeResize'))
def _(cx, c):
    d = cx.read(c.obj); a = []
    for x, pt in zip(c.args, c.f['pt']): a.append(None if 'NoChange' in cx.prog.tname(pt) else rd(cx, x))
    R, C = static_dims(cx, d.t)
    if len(a) == 1: a = [a[0], d.c] if C is not None else [d.r, a[0]]
    r, k = [o if x is None else x for x, o in zip(a, (d.r, d.c))]
    cx.oblige('matrix size is not negative', AND(le(cx, 0, r), le(cx, 0, k)))
    if R is not None: cx.oblige('matrix shapes agree', eqi(cx, r, R))
    if C is not None: cx.oblige('matrix shapes agree', eqi(cx, k, C))
    same = cx.valid(cx.zb(AND(eqi(cx, r, d.r), eqi(cx, k, d.c))))
    if same: return
    n = fresh_mat(cx, 'resized', d.t, d.et, r, k)
    if c.f['s'] == 'conservativeResize':
        o = d.copy()
        if n.g is not None and o.g is not None:
            for i in range(min(n.r, o.r)):
                for j in range(min(n.c, o.c)): n.g[i][j] = o.g[i][j]
        else:
            f = n; g = n.at if n.g is None else (lambda i, j: pk(cx, f.el(cx, i, j), d.et)); n = Mat(d.t, d.et, r, k, at=lambda i, j: z3.If(z3.And(i < cx.ix(o.r), j < cx.ix(o.c)), pk(cx, o.el(cx, i, j), d.et), g(i, j)))
    cx.write(c.obj, n)
@model(*D('swap'))
def _(cx, c):
    a, b = cx.read(c.obj), cx.read(c.args[0])
    if not (isinstance(a, Mat) and isinstance(b, Mat)): raise Unsupported('swap of views')
    cx.write(c.obj, b.copy()); cx.write(c.args[0], a.copy())
@model(*D('derived', 'const_cast_derived', 'noalias', 'matrix', 'array', 'eval', 'lazyAssign', 'const_derived'))
def _(cx, c): return c.obj
@model('Eigen::Matrix::Matrix')
def _(cx, c):
    t = c.node['t']; d = default_mat(cx, t); et = d.et; a = c.args
    if not a: return d
    if len(a) == 1:
        v = cx.read(a[0]) if isinstance(a[0], Ref) else a[0]
        if isinstance(v, (Mat, View)):
            r = cx.new_cell('mat', d); store(cx, r, mval(cx, a[0]).copy()); return cx.read(r)
        if isinstance(v, Ptr):
            R, C = static_dims(cx, t)
            return Mat(t, et, R, C, [[cx.read(cx.deref(cx.ptr_add(v, j * R + i))) for j in range(C)] for i in range(R)])
        R, C = static_dims(cx, t)
        if R is None or C is None: return fresh_mat(cx, 'mat', t, et, v if R is None else R, v if C is None else C)
        return Mat(t, et, 1, 1, [[v]])
    xs = [rd(cx, x) for x in a]; R, C = static_dims(cx, t)
    if len(xs) == 2 and (R is None or C is None): return fresh_mat(cx, 'mat', t, et, xs[0], xs[1])
    xs = [scal(cx, x, et) for x in xs]
    if C == 1: return Mat(t, et, R, 1, [[x] for x in xs])
    return Mat(t, et, 1, C, [xs])
def scal(cx, x, et):
    if cx.T(et)['k'] == 'fp' and isinstance(x, int) and not isinstance(x, bool): return Fraction(x)
    if cx.T(et)['k'] == 'fp' and isz(x) and x.sort() == z3.IntSort(): return z3.ToReal(x)
    return x
def same_mat(cx, a, b, tag='m'):
    """formula: equal shape and elements"""
    if a.g is not None and b.g is not None:
        if (a.r, a.c) != (b.r, b.c): return z3.BoolVal(False)
        return z3.And(*[a.term(cx, i, j) == b.term(cx, i, j) for i in range(a.r) for j in range(a.c)])
    i, j = z3.Int('i!%s' % tag), z3.Int('j!%s' % tag)
    return z3.And(cx.ix(a.r) == cx.ix(b.r), cx.ix(a.c) == cx.ix(b.c), z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < cx.ix(a.r), j >= 0, j < cx.ix(a.c)), a.term(cx, i, j) == b.term(cx, i, j))))
# reductions: sums are introduced as opaque values; a hook may prove what is summed and name the result
@model(*D('setZero', 'setOnes', 'setConstant', 'fill'))
def _(cx, c):
    d = cx.read(c.obj); n = c.f['s']; et = mval(cx, c.obj).et; v = 0 if n == 'setZero' else 1 if n == 'setOnes' else rd(cx, c.args[-1])
    r, k = dims(cx, c.obj); store(cx, c.obj, const_mat(cx, None, et, r, k, v)); return c.obj
def const_mat(cx, t, et, r, k, v):
    v = scal(cx, v, et); a, b = cx.conc(r), cx.conc(k)
    if a is not None and b is not None and a * b <= 400: return Mat(t, et, a, b, [[v] * b for _ in range(a)])
    z = cx.pack(v, et); return Mat(t, et, r, k, at=lambda i, j: z)
@model(*D('Zero', 'Ones', 'Constant'))
def _(cx, c):
    n = c.f['s']; T = expr_type(cx, c); R, C = static_dims(cx, T); et = cx.T(T)['a'][0]['t']; a = [rd(cx, x) for x in c.args]; v = 0 if n == 'Zero' else 1 if n == 'Ones' else a.pop()
    if len(a) == 2: R, C = a
    elif len(a) == 1: R, C = (R, a[0]) if R == 1 else (a[0], C)
    return const_mat(cx, None, et, R, C, v)
def expr_type(cx, c):
    """the Eigen::Matrix type a static expression builder belongs to"""
    m = re.search(r'Eigen::Matrix<', c.f['n'])
    if c.f.get('rec') is not None:
        T = cx.T(c.f['rec'])
        if T.get('q') == 'Eigen::Matrix': return c.f['rec']
        for x in T.get('a') or []:
            if 't' in x and cx.T(x['t']).get('q') == 'Eigen::Matrix': return x['t']
    raise Unsupported('matrix type of ' + c.f['n'])
class Sum(Obj):
    def __init__(s, ref): s.ref = ref
@model(*D('data'))
def _(cx, c): r = lref(cx, c.obj); return Ptr(Ref(r.cell, r.path + (('e', (0, 0)),)))
@model(*D('colwise'))
def _(cx, c): return ('colwise', mval(cx, c.obj).copy())
@model('Eigen::VectorwiseOp::sum')
def _(cx, c):
    m = rd(cx, c.obj)[1]; h = cx.hooks.get('colsum')
    if h is None: raise Unsupported('column sums')
    return h(cx, m)
@model(*D('minCoeff', 'maxCoeff'))
def _(cx, c):
    m = mval(cx, c.obj); r, k = cx.conc(m.r), cx.conc(m.c); mx = c.f['s'] == 'maxCoeff'; et = m.et
    row = r == 1; n = m.c if row else m.r
    if not row and k != 1:
        if m.g is None: raise Unsupported('extremum of a matrix')
        xs = [m.term(cx, i, j) for i in range(r) for j in range(k)]
        if c.args: raise Unsupported('index of the extremum of a matrix')
        v = xs[0]
        for x in xs[1:]: v = z3.If(x > v if mx else x < v, x, v)
        return cx.norm(v)
    cx.oblige('extremum of a non-empty vector', lt(cx, 0, n)); f = lambda i: m.term(cx, 0, i) if row else m.term(cx, i, 0); p = cx.fresh('arg', cx.isort()); i = z3.Const('i!ext', cx.isort())
    bt = (lambda a, b: a > b) if mx else (lambda a, b: a < b)
    cx.assume(z3.And(p >= 0, p < cx.ix(n), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < cx.ix(n)), z3.And(z3.Not(bt(f(i), f(p))), z3.Implies(i < p, bt(f(p), f(i))))))))
    if c.args: cx.write(cx.deref(rd(cx, c.args[0])), p)
    return cx.unpack(f(p), et)
@model(*D('squaredNorm'))
def _(cx, c):
    m = mval(cx, c.obj)
    if m.g is not None: return cx.norm(sum([m.term(cx, i, j) * m.term(cx, i, j) for i in range(m.r) for j in range(m.c)], z3.RealVal(0)))
    h = cx.hooks.get('squaredNorm')
    if h is None: raise Unsupported('norm of a dynamic vector')
    return h(cx, m)
@model(*D('operator-', 'operator+'))
def _(cx, c):
    a = mval(cx, c.obj) if c.obj is not None else mval(cx, c.args[0]); rest = c.args if c.obj is not None else c.args[1:]
    op = c.f['s'][-1]
    if not rest: return cmap(cx, a, lambda x: -x)
    b = mval(cx, rest[0]); cx.oblige('matrix shapes agree', AND(eqi(cx, a.r, b.r), eqi(cx, a.c, b.c)), 'operator' + op)
    return zip2(cx, a, b, (lambda x, y: x - y) if op == '-' else (lambda x, y: x + y))
def cmap(cx, a, f):
    if a.g is not None: return Mat(None, a.et, a.r, a.c, [[cx.norm(f(a.term(cx, i, j))) for j in range(a.c)] for i in range(a.r)])
    return Mat(None, a.et, a.r, a.c, at=lambda i, j: f(a.term(cx, i, j)))
def zip2(cx, a, b, f):
    R, C = (cx.conc(a.r), cx.conc(a.c)); R, C = (cx.conc(b.r) if R is None else R), (cx.conc(b.c) if C is None else C)
    if R is not None and C is not None and a.g is not None or b.g is not None and R is not None and C is not None: return Mat(None, a.et, R, C, [[cx.norm(f(a.term(cx, i, j), b.term(cx, i, j))) for j in range(C)] for i in range(R)])
    return Mat(None, a.et, a.r, a.c, at=lambda i, j: f(a.term(cx, i, j), b.term(cx, i, j)))
class CommaInit(Obj):
    """m << a, b, ...: the next element to fill, row by row"""
    def __init__(s, ref, k): s.ref, s.k = ref, k
    def havoc(s, cx, base): return s
def comma_put(cx, ref, k, v):
    r, c = [cx.conc(x) for x in dims(cx, ref)]
    if r is None or c is None: raise Unsupported('comma initialization of a dynamic matrix')
    w = cx.read(v) if isinstance(v, Ref) else v
    if isinstance(w, (Mat, View)):
        m = mval(cx, v); n = cx.conc(m.r)
        if c != 1 or cx.conc(m.c) != 1 or n is None: raise Unsupported('comma initialization with blocks')
        if k + n > r: cx.oblige('a comma initializer has as many values as the matrix', False); raise PathEnd()
        xs = [m.term(cx, i, 0) for i in range(n)]
        for i, x in enumerate(xs): cx.write(eref(cx, ref, k + i, 0), x)
        return CommaInit(ref, k + n)
    if k >= r * c: cx.oblige('a comma initializer has as many values as the matrix', False); raise PathEnd()
    cx.write(eref(cx, ref, k // c, k % c), scal(cx, w, mval(cx, ref).et)); return CommaInit(ref, k + 1)
@model(*D('operator<<'))
def _(cx, c): return comma_put(cx, c.obj, 0, c.args[0])
@model('Eigen::CommaInitializer::operator,')
def _(cx, c):
    o = cx.read(c.obj) if isinstance(c.obj, Ref) else c.obj; return comma_put(cx, o.ref, o.k, c.args[0])
@model('Eigen::CommaInitializer::finished')
def _(cx, c): o = cx.read(c.obj) if isinstance(c.obj, Ref) else c.obj; return o.ref
def is_mat(cx, x):
    v = cx.read(x) if isinstance(x, Ref) else x; return isinstance(v, (Mat, View))
def mmulm(cx, a, b):
    cx.oblige('matrix shapes agree', eqi(cx, a.c, b.r), 'product')
    r, k, c = cx.conc(a.r), cx.conc(a.c), cx.conc(b.c)
    if None in (r, k, c): raise Unsupported('product of dynamic matrices')
    return Mat(None, a.et, r, c, [[cx.norm(z3.Sum(*[a.term(cx, i, l) * b.term(cx, l, j) for l in range(k)]) if k > 1 else a.term(cx, i, 0) * b.term(cx, 0, j)) for j in range(c)] for i in range(r)])
@model(*D('operator*'), 'Eigen::operator*')
def _(cx, c):
    xs = ([c.obj] if c.obj is not None else []) + list(c.args); m = [is_mat(cx, x) for x in xs]
    if all(m): return mmulm(cx, mval(cx, xs[0]), mval(cx, xs[1]))
    a, k = (mval(cx, xs[0]), rd(cx, xs[1])) if m[0] else (mval(cx, xs[1]), rd(cx, xs[0])); K = cx.pack(scal(cx, k, a.et), a.et); return cmap(cx, a, lambda x: x * K)
@model(*D('operator/'))
def _(cx, c):
    a = mval(cx, c.obj); k = scal(cx, rd(cx, c.args[0]), a.et); K = cx.pack(k, a.et)
    if cx.T(a.et)['k'] != 'fp': raise Unsupported('integer division of a matrix')
    cx.oblige('no division by zero (real)', K != 0); return cmap(cx, a, lambda x: x / K)
@model(*D('operator*=', 'operator/='))
def _(cx, c):
    a = mval(cx, c.obj)
    if is_mat(cx, c.args[0]): store(cx, c.obj, mmulm(cx, a, mval(cx, c.args[0]))); return c.obj
    K = cx.pack(scal(cx, rd(cx, c.args[0]), a.et), a.et)
    if c.f['s'] == 'operator/=': cx.oblige('no division by zero (real)', K != 0)
    store(cx, c.obj, cmap(cx, a, (lambda x: x * K) if c.f['s'] == 'operator*=' else (lambda x: x / K))); return c.obj
@model(*D('operator+=', 'operator-='))
def _(cx, c):
    a, b = mval(cx, c.obj), mval(cx, c.args[0]); cx.oblige('matrix shapes agree', AND(eqi(cx, a.r, b.r), eqi(cx, a.c, b.c)), c.f['s'])
    store(cx, c.obj, zip2(cx, a, b, (lambda x, y: x - y) if '-' in c.f['s'] else (lambda x, y: x + y))); return c.obj
@model(*D('transpose', 'adjoint'))
def _(cx, c): return trans(cx, mval(cx, c.obj))
@model(*D('transposeInPlace'))
def _(cx, c): store(cx, c.obj, trans(cx, mval(cx, c.obj)))
@model(*D('dot'))
def _(cx, c):
    a, b = mval(cx, c.obj), mval(cx, c.args[0]); f = lambda m: [m.term(cx, i, j) for i in range(cx.conc(m.r)) for j in range(cx.conc(m.c))]
    if a.g is None or b.g is None: raise Unsupported('inner product of dynamic vectors')
    return cx.norm(z3.Sum(*[x * y for x, y in zip(f(a), f(b))]))
@model(*D('norm'))
def _(cx, c):
    m = mval(cx, c.obj)
    if m.g is None: raise Unsupported('norm of a dynamic vector')
    return models.real_sqrt(cx, cx.norm(z3.Sum(*[m.term(cx, i, j) * m.term(cx, i, j) for i in range(m.r) for j in range(m.c)], z3.RealVal(0))))
@model(*D('determinant'))
def _(cx, c): m = mval(cx, c.obj); return cx.norm(det2(cx, m))
def det2(cx, m):
    if (cx.conc(m.r), cx.conc(m.c)) != (2, 2): raise Unsupported('determinant of a matrix that is not 2x2')
    return m.term(cx, 0, 0) * m.term(cx, 1, 1) - m.term(cx, 0, 1) * m.term(cx, 1, 0)
@model(*D('inverse'))
def _(cx, c):
    m = mval(cx, c.obj); d = det2(cx, m); h = cx.hooks.get('inverse')
    if h: return h(cx, m, d)
    cx.oblige('the inverted matrix is regular', d != 0); t = lambda i, j: m.term(cx, i, j)
    return Mat(None, m.et, 2, 2, [[t(1, 1) / d, -t(0, 1) / d], [-t(1, 0) / d, t(0, 0) / d]])
@model(*D('setIdentity'))
def _(cx, c):
    v = cx.read(c.obj); et = mval(cx, c.obj).et
    if c.args: raise Unsupported('resizing setIdentity')
    r, k = [cx.conc(x) for x in dims(cx, c.obj)]
    if r is None or k is None: raise Unsupported('identity of a dynamic size')
    store(cx, c.obj, ident(cx, et, r, k)); return c.obj
def ident(cx, et, r, k): return Mat(None, et, r, k, [[scal(cx, 1 if i == j else 0, et) for j in range(k)] for i in range(r)])
@model(*D('Identity'))
def _(cx, c):
    T = expr_type(cx, c); R, C = static_dims(cx, T); a = [cx.conc(rd(cx, x)) for x in c.args]
    if a: R, C = a
    return ident(cx, cx.T(T)['a'][0]['t'], R, C)
@model(*D('operator==', 'operator!='))
def _(cx, c):
    a, b = mval(cx, c.obj), mval(cx, c.args[0]); f = same_mat(cx, a, b, tag='eq')
    if a.g is None or b.g is None: cx.oblige('matrix shapes agree', AND(eqi(cx, a.r, b.r), eqi(cx, a.c, b.c)), 'comparison')
    elif (a.r, a.c) != (b.r, b.c): cx.oblige('matrix shapes agree', False, 'comparison'); raise PathEnd()
    return cx.norm(f if c.f['s'] == 'operator==' else z3.Not(f))
@model('Eigen::Ref::Ref')
def _(cx, c):
    """a read-only Ref holds the value it is made of (the sources never write through an aliasing object of the same type)"""
    r = cx.T(c.node['t']); inner = r['a'][0]
    m = mval(cx, c.args[0]).copy(); n = m.copy(); n.t = None; return n
