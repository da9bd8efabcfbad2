"""R01: conversion of remap tables."""
from util import *
import core, models, algos
from models import *
REPLAY_LIBS = ['-lopencv_imgproc', '-lopencv_core', '-lglog', '-lgflags', '-pthread']; REPLAY_SRC = ['REPO/aslam_cv_pipeline/src/test/convert-maps-legacy.cc']; REPLAY_SECS = (15, 150)
UNITS = {'maps': r'^(aslam::|vu::)'}
Z, R = z3.IntSort(), z3.RealSort()
S2, F1, F2, U1, S1 = 11, 5, 13, 2, 3                      # 16SC2, 32FC1, 32FC2, 16UC1, 16SC1
NM = {S2: '16SC2', F1: '32FC1', F2: '32FC2', U1: '16UC1', S1: '16SC1', None: 'none', -1: 'default', 0: 'default0', 7: 'other', 4: '32SC1', 6: '64FC1'}
ET = {2: 'u16', 3: 'i16', 5: 'f32', 4: 'i32', 6: 'f64', 7: 'f16', 0: 'u8', 1: 'i8'}; CH = lambda t: t // 8 + 1
RINT = z3.Function('round to nearest even', R, Z)
def rint(cx, v):
    """cvRound: the nearest integer, ties to the even one"""
    v = z3.simplify(v) if isz(v) else z3.RealVal(v); i = RINT(v)
    if not cx.ghost.setdefault('rint', {}).get(v.sexpr()):
        cx.ghost['rint'][v.sexpr()] = True; d = v - z3.ToReal(i); cx.assume(z3.And(d <= z3.RealVal('1/2'), -d <= z3.RealVal('1/2'), z3.Implies(z3.Or(d == z3.RealVal('1/2'), -d == z3.RealVal('1/2')), i % 2 == 0)))
    return i
def clamp(i, lo, hi): return z3.If(i < lo, z3.IntVal(lo), z3.If(i > hi, z3.IntVal(hi), i))
def sort(ty): return R if ty % 8 in (5, 6, 7) else Z
class Buf(Obj):
    """the elements of a matrix by row and column; type: element type of its columns"""
    def __init__(s, ty, arr, rows, n): s.ty, s.arr, s.rows, s.n = ty, arr, rows, n
    def copy(s): return Buf(s.ty, s.arr, s.rows, s.n)
    def get_path(s, cx, p):
        if p[0] != 'i': raise Unsupported('path %s into a matrix' % (p,))
        return RowOf(s, p[1])
    def set_path(s, cx, path, val):
        if len(path) != 3 or path[1][0] != 'f': raise Unsupported('store into a matrix')
        r, e = cx.ix(path[0][1]), cx.ix(path[2][1]); check(cx, s, r, path[1][1], e); n = s.copy(); n.arr = z3.Store(s.arr, r, z3.Store(z3.Select(s.arr, r), e, pack(cx, val, s.ty))); return n
    def havoc(s, cx, base): n = s.copy(); n.arr = fresh_arr(cx, base, s.ty); return n
class RowOf(Obj):
    def __init__(s, b, r): s.b, s.r = b, r
    def get_path(s, cx, p):
        if p[0] != 'f': raise Unsupported('path %s into a row' % (p,))
        return Elems(s.b, s.r, p[1])
class Elems(Obj):
    def __init__(s, b, r, ty): s.b, s.r, s.ty = b, r, ty
    def get_path(s, cx, p):
        if p[0] != 'i': raise Unsupported('path %s into a row' % (p,))
        r, e = cx.ix(s.r), cx.ix(p[1]); check(cx, s.b, r, s.ty, e); v = z3.Select(z3.Select(s.b.arr, r), e)
        if sort(s.b.ty) == Z: lo, hi = {2: (0, 2**16), 3: (-2**15, 2**15)}[s.b.ty % 8]; cx.assume(z3.And(v >= lo, v < hi))
        if s.ty != ET[s.b.ty % 8]: v = {('i16', 'u16'): lambda: z3.If(v < 0, v + 65536, v), ('u16', 'i16'): lambda: z3.If(v >= 32768, v - 65536, v)}[ET[s.b.ty % 8], s.ty]()
        return v
def check(cx, b, r, ty, e):
    k = ET[b.ty % 8]
    if ty != k and {ty, k} != {'u16', 'i16'}: cx.oblige('elements are accessed with the type of the matrix', False); raise PathEnd()
    cx.oblige('the row exists', z3.And(r >= 0, r < b.rows)); cx.oblige('the column exists', z3.And(e >= 0, e < b.n))
def pack(cx, v, ty):
    v = v if isz(v) else (z3.RealVal(str(v)) if sort(ty) == R else z3.IntVal(v)); return z3.ToReal(v) if sort(ty) == R and v.sort() == Z else v
def fresh_arr(cx, base, ty): return cx.fresh(base, z3.ArraySort(Z, z3.ArraySort(Z, sort(ty))))
class Mt(Obj):
    """a cv::Mat: type, size and shared elements (cell: None when empty)"""
    def __init__(s, ty, w, h, cell, step, cont): s.ty, s.w, s.h, s.cell, s.step, s.cont = ty, w, h, cell, step, cont
    def copy(s): return Mt(s.ty, s.w, s.h, s.cell, s.step, s.cont)
    def get_path(s, cx, p):
        if p == ('f', 'data'): return Ptr(Ref(s.cell, (('i', 0),))) if s.cell else Ptr(None)
        if p == ('f', 'rows'): return s.h
        if p == ('f', 'cols'): return s.w
        if p == ('f', 'size') or p == ('f', 'step'): return s
        raise Unsupported('path %s into a matrix' % (p,))
    def havoc(s, cx, base): raise Unsupported('havoc of a matrix')
EMPTY = lambda: Mt(0, 0, 0, None, 0, True)
class Handle(Obj):
    """an OutputArray made from a matrix"""
    def __init__(s, ref): s.ref = ref
def mat(cx, name, ty):
    W, H = cx.ghost['size']; flat = cx.ghost['flat']
    if ty is None: return EMPTY()
    st = cx.fresh('step of ' + name, Z); cx.assume(st > 0); n = CH(ty) * (W * H if flat else W); c = True if flat else cx.ghost['cont'].get(name, True)
    cell = cx.new_cell(name, Buf(ty, fresh_arr(cx, name, ty), z3.IntVal(1) if flat else H, n)).cell; cx.ghost['mats'].append((name, c)); return Mt(ty, W, H, cell, st, c)
def at(cx, m, ch, cells=None):
    """channel ch of the ghost pixel"""
    r, c = cx.ghost['pixel']; b = (cells or cx.store)[m.cell]; return z3.Select(z3.Select(b.arr, r), CH(b.ty) * c + ch)
def put_px(cx, m, vals):
    """a library routine fills the matrix: its elements become arbitrary but for the ghost pixel"""
    b = cx.store[m.cell].copy(); b.arr = fresh_arr(cx, 'filled', b.ty); cx.note_write(Ref(m.cell)); cx.store[m.cell] = b
    for i, v in enumerate(vals):
        if sort(b.ty) == Z: lo, hi = {2: (0, 65535), 3: (-32768, 32767)}[b.ty % 8]; v = clamp(rint(cx, v) if v.sort() == R else v, lo, hi)
        cx.assume(at(cx, m, i) == pack(cx, v, b.ty))
def saturate(cx, c):
    v = rd(cx, c.args[0]); t = cx.prog.tname(c.f['ret']); v = v if isz(v) else (z3.RealVal(str(v)) if cx.T(c.f['pt'][0])['k'] == 'fp' else z3.IntVal(v)); i = rint(cx, v) if v.sort() == R else v
    if t == 'i32':
        if v.sort() == R: cx.assume(z3.And(v < 2**31 - 1, v > -2**31 + 1)) if cx.ghost.get('in range') else None
        return i
    lo, hi = {'i16': (-2**15, 2**15 - 1), 'u16': (0, 2**16 - 1), 'u8': (0, 255), 'i8': (-128, 127)}[t]; return clamp(i, lo, hi)
def install(cx, m1, m2, out):
    C = cx.contracts; W, H = cx.ghost['size']; core.TYPE_DEFAULT['cv::Mat'] = lambda cx, t: EMPTY()
    def ctor(cx, c):
        if not c.args: return EMPTY()
        v = rd(cx, c.args[0])
        if len(c.args) == 1 and isinstance(v, Mt): return v.copy()
        raise Unsupported('matrix constructor')
    C['cv::Mat::Mat'] = ctor; C['cv::Mat::type'] = lambda cx, c: cx.read(c.obj).ty; C['cv::Mat::isContinuous'] = lambda cx, c: cx.read(c.obj).cont; C['cv::Mat::empty'] = lambda cx, c: cx.read(c.obj).cell is None
    def asg(cx, c): cx.write(c.obj, rd(cx, c.args[0]).copy()); return c.obj
    C['cv::Mat::operator='] = asg
    def size(cx, c):
        m = cx.read(c.obj); t = c.node['t']; t = strip_ref(cx, t); return Rec(t, {'width': m.w, 'height': m.h})
    C['cv::MatSize::operator()'] = size; C['cv::Mat::size'] = size; C['cv::MatStep::operator unsigned long'] = lambda cx, c: cx.read(c.obj).step
    C['cv::Size_::Size_'] = lambda cx, c: vcopy(rd(cx, c.args[0])) if len(c.args) == 1 else Rec(c.node['t'], {'width': rd(cx, c.args[0]), 'height': rd(cx, c.args[1])})
    C['cv::_InputArray::getMat'] = lambda cx, c: (out[c.obj.cell] if c.obj.cell in out else {'m1': m1, 'm2': m2}[c.obj.cell.split('#')[0]]).copy()
    C['cv::_OutputArray::_OutputArray'] = lambda cx, c: Handle(c.args[0])
    def create(cx, c):
        s, ty = rd(cx, c.args[0]), cx.conc(rd(cx, c.args[1])); cx.oblige('the result has the size of the map', AND(eqi(cx, s.f['width'], W), eqi(cx, s.f['height'], H))); cx.oblige('the type of the result is decided', ty is not None); out[c.obj.cell] = mat(cx, 'result ' + c.obj.cell.split('#')[0], ty); cx.ghost['log'] = out
    C['cv::_OutputArray::create'] = create
    def release(cx, c): out[c.obj.cell] = EMPTY()
    C['cv::_OutputArray::release'] = release
    def target(cx, h, ty):
        """the matrix a library routine writes: the given one if it has the wanted type, else a new one the caller of the conversion never sees"""
        v = rd(cx, h); ref = v.ref if isinstance(v, Handle) else h; d = cx.read(ref)
        if d.cell is None or d.ty != ty: d = mat(cx, 'private', ty); cx.ghost['mats'].pop(); cx.write(ref, d)
        return d
    def convert(cx, c):
        s = cx.read(c.obj); ty = cx.conc(rd(cx, c.args[1])); ty = s.ty if ty < 0 else ty % 8 + s.ty // 8 * 8; vals = [at(cx, s, i) for i in range(CH(s.ty))] if s.cell else []
        cx.oblige('a matrix without elements is not converted', s.cell is not None); cx.oblige('scale and shift are the identity', len(c.args) < 3 or AND(eqi(cx, rd(cx, c.args[2]), 1), eqi(cx, rd(cx, c.args[3]), 0))); d = target(cx, c.args[0], ty); put_px(cx, d, vals)
    C['cv::Mat::convertTo'] = convert
    def copy(cx, c):
        s = cx.read(c.obj)
        if s.cell is None: d = EMPTY(); h = rd(cx, c.args[0]); cx.write(h.ref, d); return
        vals = [at(cx, s, i) for i in range(CH(s.ty))]; put_px(cx, target(cx, c.args[0], s.ty), vals)
    C['cv::Mat::copyTo'] = copy
    def elems(cx, p, n):
        p = rd(cx, p); return [cx.ptr_add(p, i).ref for i in range(n)]
    def merge(cx, c):
        n = cx.conc(rd(cx, c.args[1])); ms = [cx.read(r) for r in elems(cx, c.args[0], n)]; cx.oblige('all channels have elements of one type', all(m.cell is not None and m.ty == ms[0].ty for m in ms)); ty = ms[0].ty % 8 + 8 * (sum(CH(m.ty) for m in ms) - 1)
        vals = [at(cx, m, i) for m in ms for i in range(CH(m.ty))]; put_px(cx, target(cx, c.args[2], ty), vals)
    C['cv::merge'] = merge
    def split(cx, c):
        s = rd(cx, c.args[0]); vals = [at(cx, s, i) for i in range(CH(s.ty))]; rs = elems(cx, c.args[1], CH(s.ty))
        for r, v in zip(rs, vals): put_px(cx, target(cx, r, s.ty % 8), [v])
    C['cv::split'] = split; C['cv::saturate_cast'] = saturate
    def error(cx, c): raise Throw('cv::Exception', cx.cur_line)
    C['cv::error'] = error
    def bitcast(cx, e, v):
        if not isinstance(v, Ptr) or v.ref is None: return None
        b = cx.store.get(v.ref.cell)
        if not isinstance(b, Buf): return None
        t = cx.prog.tname(strip_const(cx, cx.T(e['t'])['e'])); p = v.ref.path
        if len(p) == 1: return Ptr(Ref(v.ref.cell, (('i', row_of(cx, v.ref.cell, p[0][1])), ('f', t), ('i', 0))))
        if len(p) == 3 and cx.conc(p[2][1]) == 0: return Ptr(Ref(v.ref.cell, (p[0], ('f', t), p[2])))
        raise Unsupported('reinterpretation inside a row')
    cx.hooks['bitcast'] = bitcast
    def row_of(cx, cell, off):
        if cx.conc(off) == 0: return 0
        st = [m.step for m in [m1, m2] + list(out.values()) if m.cell == cell][0]; off = z3.simplify(cx.ix(off))
        if z3.is_mul(off):
            fs = off.children()
            if any(f.eq(st) for f in fs):
                fs.remove(next(f for f in fs if f.eq(st))); y = fs[0] if len(fs) == 1 else z3.simplify(z3.Product(*fs)) if fs else 1; return y
        if off.eq(st): return 1
        raise Unsupported('address of a row')
def strip_const(cx, t): return t
def strip_ref(cx, t):
    T = cx.T(t); return T['e'] if T['k'] in ('ref',) else t
def ctx(env): return env.ctx('maps', 'int', opts=dict(fdiv=False))
def source(cx, m1t, m2t, m1, m2, st):
    """the coordinates the maps designate at the ghost pixel, the integer and fractional parts of a fixed-point map"""
    A = lambda m, i: at(cx, m, i, st)
    if m1t == F1: return 'float', (A(m1, 0), A(m2, 0)), None
    if m1t == F2: return 'float', (A(m1, 0), A(m1, 1)), None
    p, f = (m1, m2) if m1t == S2 else (m2, m1); fr = A(f, 0) if f.cell else z3.IntVal(0); i = (A(p, 0), A(p, 1)); fx = fr % 1024
    return 'fixed', tuple(z3.ToReal(i[k]) + z3.ToReal(g) / 32 for k, g in enumerate((fx % 32, fx / 32))), (i, fr)
SRC = [(S2, None, True), (S2, U1, False), (S2, S1, False), (U1, S2, False), (S1, S2, False), (F1, F1, False), (F2, None, False)]
def one(env, flat, dst):
    cx = ctx(env); p = cx.prog; f = fn_id(p, 'vu::convert')
    for m1t, m2t, only_nn in SRC:
        for nn in (False, True):
            if only_nn and not nn: continue
            def run(cx, m1t=m1t, m2t=m2t, nn=nn):
                W, H = [cx.input(n, cx.fresh(n, Z)) for n in ('width', 'height')]; cx.assume(z3.And(W > 0, H > 0, W < 2**20, H < 2**20, W * H > 0, W * H < 2**28)); r, c = cx.fresh('row', Z), cx.fresh('column', Z); cx.ghost.update(size=(W, H), flat=flat, pixel=(r, c), mats=[], rint={})
                D = dst if dst > 0 else (F2 if S2 in (m1t, m2t) else S2); two = D == F1 or D == S2 and not nn; k = {n: cx.fresh(n + ' is continuous', z3.BoolSort()) for n, h in (('m1', 1), ('m2', m2t), ('result d1', 1), ('result d2', two)) if h}; cx.ghost['cont'] = k
                if not flat: cx.assume(z3.Not(z3.And(*k.values())))
                cx.assume(z3.And(r >= 0, c >= 0, r < (1 if flat else H), c < (W * H if flat else W))); m1, m2 = mat(cx, 'm1', m1t), mat(cx, 'm2', m2t); out = {}; install(cx, m1, m2, out); st0 = dict(cx.store)
                kind, xy, ints = source(cx, m1t, m2t, m1, m2, st0)
                for v in xy: cx.assume(z3.And(v < 2**25, v > -2**25))
                if ints:
                    for g in ints[0]: cx.assume(z3.And(g >= -2**15, g < 2**15))
                    cx.assume(z3.And(ints[1] >= 0, ints[1] < (65536 if U1 in (m1t, m2t) else 1024)))
                refs = [cx.new_cell(n, Handle(None)) for n in ('m1', 'm2', 'd1', 'd2')]
                def px(cx, cells=None):
                    """what the ghost pixel of the results must hold"""
                    d1, d2 = out.get(refs[2].cell), out.get(refs[3].cell); o = lambda m, i: at(cx, m, i, cells)
                    if d1 is None or d1.cell is None or d1.ty != D: return z3.BoolVal(False)
                    if D == F2 or D == F1:
                        if D == F1 and (d2 is None or d2.cell is None or d2.ty != F1): return z3.BoolVal(False)
                        g = (o(d1, 0), o(d1, 1)) if D == F2 else (o(d1, 0), o(d2, 0)); e = [z3.And(g[0] == xy[0], g[1] == xy[1])]
                        if nn and ints: e.append(z3.And(g[0] == z3.ToReal(ints[0][0]), g[1] == z3.ToReal(ints[0][1])))
                        return z3.Or(*e)
                    if ints: e = [o(d1, i) == ints[0][i] for i in (0, 1)]
                    elif nn: e = [o(d1, i) == clamp(rint(cx, xy[i]), -2**15, 2**15 - 1) for i in (0, 1)]
                    else: q = [rint(cx, v * 32) for v in xy]; e = [o(d1, i) == clamp(q[i] / 32, -2**15, 2**15 - 1) for i in (0, 1)]
                    if not nn:
                        if d2 is None or d2.cell is None or d2.ty != U1: return z3.BoolVal(False)
                        e.append(o(d2, 0) == (ints[1] if ints else q[1] % 32 * 32 + q[0] % 32))
                    return z3.And(*e)
                def bound(L, n, hi): i = cx.ix(L[n]); return ('%s in range' % n, z3.And(i >= 0, i <= hi)), i
                def outer(cx, L): b, y = bound(L, 'y', H); return [b, ('finished rows are converted', z3.Implies(r < y, px(cx)))]
                def inner(cx, L):
                    b, x = bound(L, 'x', W * H if flat else W)
                    if flat: return [b, ('finished pixels are converted', z3.Implies(c < x, px(cx)))]
                    y = cx.ix(L['y']); return [b, ('finished pixels are converted', z3.Implies(z3.Or(r < y, z3.And(r == y, c < x)), px(cx)))]
                cx.loopspecs = [LoopSpec(inner, name='pixels')] if flat else [LoopSpec(outer, name='rows', depth=0), LoopSpec(inner, name='pixels', depth=1)]
                s, v = attempt(cx, lambda: call(cx, f, None, *refs, dst, nn)); cx.oblige('supported maps are converted', s == 'ok')
                if s != 'ok': return
                d1, d2 = out.get(refs[2].cell), out.get(refs[3].cell)
                cx.oblige('the first result has the documented type', d1 is not None and d1.cell is not None and d1.ty == D); cx.oblige('the second result exists exactly when it is needed', d2 is not None and (d2.cell is not None) == two and (not two or d2.ty == (F1 if D == F1 else U1)))
                cx.oblige('every pixel is converted', px(cx)); cx.oblige('the maps are not changed', all(cx.store[m.cell].arr.eq(st0[m.cell].arr) for m in (m1, m2) if m.cell)); cx.cover('end')
            cx.explore('%s+%s to %s%s' % (NM[m1t], NM[m2t], NM[dst], ' nearest' if nn else ''), run)
    return cx
def t_refused(env):
    cx = ctx(env); p = cx.prog; f = fn_id(p, 'vu::convert')
    for m1t in (0, 4, 6, 7, F1, F2, S2, U1, S1):
        for m2t in (None, F1, F2, S2, U1, S1, 4):
            def run(cx, m1t=m1t, m2t=m2t):
                W, H = [cx.input(n, cx.fresh(n, Z)) for n in ('width', 'height')]; cx.assume(z3.And(W > 0, H > 0, W < 2**20, H < 2**20)); cx.ghost.update(size=(W, H), flat=False, pixel=(z3.IntVal(0), z3.IntVal(0)), mats=[], rint={}, cont={}); m1, m2 = mat(cx, 'm1', m1t), mat(cx, 'm2', m2t); out = {}; install(cx, m1, m2, out)
                refs = [cx.new_cell(n, Handle(None)) for n in ('m1', 'm2', 'd1', 'd2')]; s, v = attempt(cx, lambda: call(cx, f, None, *refs, 0, False)); cx.oblige('maps of unsupported types are refused', s == 'throw'); cx.oblige('nothing is created for refused maps', not out); cx.cover('end')
            if (m1t, m2t) not in [(a, b) for a, b, g in SRC if not g]: cx.explore('%s+%s' % (NM.get(m1t, m1t), NM.get(m2t, m2t)), run)
    return cx
ASSUMPTIONS = ['library routines (creation, conversion, copy, merging and splitting of matrices, rounding casts) obey their documentation; a continuous matrix holds its rows one after the other', 'both maps have the same size, less than 2^20 by 2^20 and 2^28 pixels; the results are other matrices than the maps', 'coordinates are less than 2^25 in magnitude; tables of fractions of signed type hold indices from 0 to 1023', 'float arithmetic on coordinates is exact (multiplication by 32 and sums of short integers with multiples of 1/32 are)']
TECHNIQUE = "contract-based deductive verification (extracted C++, symbolic execution, loop invariants at an arbitrary pixel, z3; OpenCV by assumed contracts)"
LEVEL_NOTE = "every supported combination of map and result types, with and without nearest-neighbour tables, continuous or not, proved for all sizes, coordinates and pixels; unsupported combinations shown to be refused"
def tasks(env): return [Task('%s to %s' % ('continuous' if fl else 'rows', NM[d]), lambda env, fl=fl, d=d: one(env, fl, d)) for fl in (True, False) for d in (0, S2, F1, F2)] + [Task('refused', t_refused)]
