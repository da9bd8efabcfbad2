"""Matrices and images as sequences of bytes: what channel serialization sees of them."""
from util import *
import algos, eigen
from eigen import static_dims
UNITS = {'chan': r'^(aslam::internal::|vu::)'}
FLAGS = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=nonnull-attribute']
SRC, LIBS = ['REPO/aslam_cv_common/src/channel-serialization.cc'], ['-lglog', '-lopencv_core']
Z = z3.IntSort(); AZ = z3.ArraySort(Z, Z)
class ByteMat(Obj):
    """Eigen matrix: rows, columns and its bytes"""
    def __init__(s, t, r, c, esz, b): s.t, s.r, s.c, s.esz, s.b = t, r, c, esz, b
    def copy(s): return ByteMat(s.t, s.r, s.c, s.esz, vcopy(s.b))
    def get_path(s, cx, p):
        if p != ('f', 'bytes'): raise Unsupported('path into a matrix')
        return s.b
    def set_path(s, cx, path, val):
        n = s.copy(); n.b = val if len(path) == 1 else cx._upd(n.b, path[1:], val); return n
    def havoc(s, cx, base): return fresh_bm(cx, s.t, base)
def prod(cx, *x):
    k, zs = 1, []
    for v in x:
        c = cx.conc(v)
        if c is not None: k *= c
        else: zs.append(cx.ix(v))
    if not zs or k == 0: return k
    t = zs[0]
    for z in zs[1:]: t = t * z
    return k * t if k != 1 else t
def chart(cx): return cx.type_named('i8')
def mkb(cx, base, n): return Vec(chart(cx), n, cx.fresh(base, AZ))
def byte_rng(cx, a): j = z3.Int('j!br'); cx.assume(z3.ForAll([j], z3.And(z3.Select(a, j) >= -128, z3.Select(a, j) < 128), patterns=[z3.Select(a, j)]))
def sized(cx, t, r, c, base):
    esz = cx.sizeof(cx.T(t)['a'][0]['t']); b = mkb(cx, base + '.bytes', prod(cx, esz, r, c)); byte_rng(cx, b.arr); return ByteMat(t, r, c, esz, b)
def fresh_bm(cx, t, base):
    r, c = static_dims(cx, t); esz = cx.sizeof(cx.T(t)['a'][0]['t'])
    def dim(n): v = cx.fresh(base + n, Z); cx.assume(z3.And(v >= 0, v < 2**31)); return v
    r = dim('.rows') if r is None else r; c = dim('.cols') if c is None else c
    m = sized(cx, t, r, c, base); n = m.b.n
    if isz(n): cx.assume(z3.And(n >= 0, n < 2**62))
    return m
def mat_resize(cx, c):
    m = cx.read(c.obj); R, C = static_dims(cx, m.t)
    a = [rd(cx, x) for x in c.args]; pt = [cx.prog.tname(x) for x in c.f['pt']]
    r, k = m.r, m.c
    if len(a) == 1: r, k = (a[0], 1) if C == 1 else (1, a[0])
    else:
        if 'NoChange' not in pt[0]: r = a[0]
        if 'NoChange' not in pt[1]: k = a[1]
    # Eigen evaluates all branches of the shape tests at run time: fixed dimensions cannot change
    if R is not None: cx.oblige('a fixed dimension is kept', eqi(cx, r, R)); r = R
    if C is not None: cx.oblige('a fixed dimension is kept', eqi(cx, k, C)); k = C
    cx.oblige('matrix size is not negative', AND(le(cx, 0, r), le(cx, 0, k)))
    n = prod(cx, m.esz, r, k)
    if not cx.branch(lt(cx, n, 2**63)): raise Throw('std::bad_alloc', cx.cur_line)
    cx.assume(cx.ix(n) >= 0) if isz(n) else None
    cx.write(c.obj, sized(cx, m.t, r, k, 'resized'))
class CvMat(Obj):
    """two-dimensional image: size, type, and a pointer to its bytes"""
    def __init__(s, **k): s.d = k
    def copy(s): return CvMat(**s.d)
    def get_path(s, cx, p):
        if p[0] == 'f' and p[1] in s.d: return s.d[p[1]]
        raise Unsupported('path %s into an image' % (p,))
    def set_path(s, cx, path, val): n = s.copy(); n.d[path[0][1]] = val; return n
    def havoc(s, cx, base): raise Unsupported('havoc of an image')
ESZ = [1, 1, 2, 2, 4, 4, 8, 2]
def esz_of(cx, d):
    k = cx.conc(d)
    if k is not None: return ESZ[k]
    z = z3.IntVal(2)
    for i, e in enumerate(ESZ[:7]): z = z3.If(d == i, e, z)
    return z
def cv_len(cx, m): return prod(cx, esz_of(cx, m.d['depth']), m.d['rows'], m.d['cols'], m.d['channels'])
def mk_img(cx, name, depth=None, dims=2, cont=True):
    i = lambda n, lo, hi: (lambda v: (cx.assume(z3.And(v >= lo, v < hi)), v)[1])(cx.input(name + '.' + n, cx.fresh(name + '.' + n, Z)))
    m = CvMat(rows=i('rows', 0, 2**31), cols=i('cols', 0, 2**31), depth=depth if depth is not None else i('depth', 0, 8), channels=i('channels', 1, 513), dims=dims, cont=cont, data=None)
    n = cv_len(cx, m)
    cx.assume(z3.And(n >= 0, n < 2**62)); b = mkb(cx, name + '.bytes', n); byte_rng(cx, b.arr); cell = cx.new_cell(name + '.bytes', b); m.d['data'] = Ptr(cell.at(0)); return m
def canon(cx, z):
    """a value read from the buffer that z is known to equal, else z"""
    if not isz(z): return z
    for w in cx.ghost.get('words', []):
        if w.eq(z) or cx.hint(lambda: cx.valid(z == w)): return w
    return z
def cv_create(cx, c):
    r, k, ty = [rd(cx, x) for x in c.args]
    if not cx.branch(AND(le(cx, 0, r), le(cx, 0, k))): raise Throw('cv::Exception', cx.cur_line)
    ty = cx.ix(ty); d, ch = canon(cx, z3.simplify(ty % 8)), canon(cx, z3.simplify((ty / 8) % 512 + 1)); r, k = canon(cx, r), canon(cx, k)
    m = CvMat(rows=r, cols=k, depth=d, channels=ch, dims=2, cont=True, data=None); n = cv_len(cx, m)
    if not cx.branch(lt(cx, n, 2**63)): raise Throw('cv::Exception', cx.cur_line)
    cx.assume(n >= 0); b = mkb(cx, 'created', n); byte_rng(cx, b.arr); cell = cx.new_cell('created', b); m.d['data'] = Ptr(cell.at(0)); cx.write(c.obj, m)
def setup(cx, exact=False):
    if exact: cx.opts['exact_u64'] = True
    for q, fn in {'Eigen::PlainObjectBase::rows': lambda cx, c: cx.read(c.obj).r, 'Eigen::PlainObjectBase::cols': lambda cx, c: cx.read(c.obj).c, 'Eigen::PlainObjectBase::resize': mat_resize,
                  'Eigen::PlainObjectBase::data': lambda cx, c: Ptr(Ref(c.obj.cell, c.obj.path + (('f', 'bytes'), ('i', 0)))),
                  'cv::Mat::isContinuous': lambda cx, c: cx.read(c.obj).d['cont'], 'cv::Mat::depth': lambda cx, c: cx.read(c.obj).d['depth'], 'cv::Mat::channels': lambda cx, c: cx.read(c.obj).d['channels'],
                  'cv::Mat::total': lambda cx, c: prod(cx, cx.read(c.obj).d['rows'], cx.read(c.obj).d['cols']), 'cv::Mat::create': cv_create}.items(): cx.contracts[q] = fn
    ct = chart(cx)
    def isbytes(p): return isinstance(p, Ptr) and p.ref is not None and (len(p.ref.path) > 1 and p.ref.path[-2] == ('f', 'bytes') or p.ref.cell.startswith(('created', 'image')))
    def mc(cx, c, d, s, n):
        if not (isbytes(d) or isbytes(s)): return None
        return seq_copy(cx, d, s, n, ct, ct)
    cx.hooks['memcpy'] = mc
def chars(cx, v): v = vcopy(v); cx.vec_sym(v); return v
def buf_of(cx, p):
    """(base reference, offset, sequence) a char pointer designates"""
    r = p.ref; base = Ref(r.cell, r.path[:-1]); return base, cx.ix(r.path[-1][1]), chars(cx, cx.read(base))
def le32(cx, b, o):
    x = [z3.Select(b.arr, cx.ix(o) + k) for k in range(4)]; x = [z3.If(v < 0, v + 256, v) for v in x]; return x[0] + 256 * x[1] + 65536 * x[2] + 16777216 * x[3]
def le64(cx, b, o): return le32(cx, b, o) + 2**32 * le32(cx, b, cx.ix(o) + 4)
def hdr(cx, b, o=0): return [le32(cx, b, cx.ix(o) + 4 * k) for k in range(4)]
def atom(cx, a):
    if a.decl().kind() != z3.Z3_OP_UNINTERPRETED: c = cx.fresh('arr', a.sort()); cx.assume(c == a); return c
    return a
def same_bytes(cx, a, oa, b, ob, n):
    a, b = Vec(a.et, a.n, atom(cx, a.arr)), Vec(b.et, b.n, atom(cx, b.arr)); j = z3.Int('j!sb'); d = z3.simplify(ob - oa); return z3.ForAll([j], z3.Implies(z3.And(j >= oa, j < oa + cx.ix(n)), z3.Select(a.arr, j) == z3.Select(b.arr, j + d)), patterns=[z3.Select(a.arr, j)])
DEPTH = {'f64': 6, 'f32': 5, 'i32': 4, 'u8': 0}
def depth_of(cx, t): return DEPTH[cx.prog.tname(cx.T(t)['a'][0]['t'])]

class MatList(Obj):
    """list of matrices: length, and rows, columns and bytes of element i"""
    def __init__(s, t, et, n, R, C, B): s.t, s.et, s.n, s.R, s.C, s.B = t, et, n, R, C, B
    def copy(s): return MatList(s.t, s.et, s.n, s.R, s.C, s.B)
    def el(s, cx, i):
        i = cx.ix(i); esz = cx.sizeof(cx.T(s.et)['a'][0]['t']); r, c = s.R(i), s.C(i); n = prod(cx, esz, r, c); return ByteMat(s.et, r, c, esz, Vec(chart(cx), n, s.B(i)))
    def get_path(s, cx, p):
        if p[0] != 'i': raise Unsupported('path into a list of matrices')
        return s.el(cx, p[1])
    def set_path(s, cx, path, val):
        i = cx.ix(path[0][1]); m = val if len(path) == 1 else s.el(cx, i).set_path(cx, path[1:], val); n = s.copy(); b = chars(cx, m.b).arr; old = s.copy()
        r0, c0 = static_dims(cx, s.et); n.R = (lambda k: z3.If(k == i, cx.ix(m.r), old.R(k))) if r0 is None else old.R; n.C = (lambda k: z3.If(k == i, cx.ix(m.c), old.C(k))) if c0 is None else old.C; n.B = lambda k: z3.If(k == i, b, old.B(k)); return n
    def havoc(s, cx, base): return fresh_list(cx, s.t, s.et, base)
def fresh_list(cx, t, et, base):
    cx.fresh_n += 1; k = cx.fresh_n; r, c = static_dims(cx, et); f = lambda nm, so: z3.Function('%s.%s!%d' % (base, nm, k), Z, so); i, j = z3.Ints('i!fl j!fl'); n = cx.fresh(base + '.n', Z); cx.assume(z3.And(n >= 0, n < 2**40))
    def dim(nm, v):
        if v is not None: return lambda i: z3.IntVal(v)
        g = f(nm, Z); cx.assume(z3.ForAll([i], z3.And(g(i) >= 0, g(i) < 2**32), patterns=[g(i)])); return g
    B = f('bytes', AZ); cx.assume(z3.ForAll([i, j], z3.And(z3.Select(B(i), j) >= -128, z3.Select(B(i), j) < 128), patterns=[z3.Select(B(i), j)]))
    return MatList(t, et, n, dim('rows', r), dim('cols', c), B)
def list_setup(cx):
    def at(cx, c):
        v = cx.read(c.obj); i = rd(cx, c.args[0]); cx.oblige('memory access in bounds', AND(le(cx, 0, i), lt(cx, i, v.n)), 'list index'); return Ref(c.obj.cell, c.obj.path + (('i', i),))
    def rs(cx, c):
        v = cx.read(c.obj).copy(); n = rd(cx, c.args[0]); f = fresh_list(cx, v.t, v.et, 'resized'); r0, c0 = static_dims(cx, v.et); f.n = n
        o = v; m = cx.ix(o.n)
        if r0 is None: R = f.R; f.R = lambda k: z3.If(k < m, o.R(k), R(k))
        if c0 is None: C = f.C; f.C = lambda k: z3.If(k < m, o.C(k), C(k))
        Bf = f.B; f.B = lambda k: z3.If(k < m, o.B(k), Bf(k)); cx.write(c.obj, f)
    cx.contracts['std::vector::size'] = lambda cx, c: cx.read(c.obj).n
    cx.contracts['std::vector::operator[]'] = at; cx.contracts['std::vector::resize'] = rs
def ghost_off(cx, step):
    """OFF(0) = 8, OFF(i + 1) = OFF(i) + 16 + step(OFF, i)"""
    cx.fresh_n += 1; F = z3.Function('offset!%d' % cx.fresh_n, Z, Z); cx.assume(F(0) == 8); return F, lambda i: F(i + 1) == F(i) + 16 + step(F, i)
