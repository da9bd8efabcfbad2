"""Assumed contracts of library code (glog, libstdc++, protobuf, Eigen storage ...).  Each function registered
here is a dependency that is NOT verified; every use is recorded in the evidence (trusted base) and the ones
with non-trivial content are exercised against the real library by the replay drivers."""
import z3
from fractions import Fraction
from core import *
import core

# ------------------------------------------------------------------ helpers
def rd(cx, v):
    return cx.read(v) if isinstance(v, Ref) else v
def upd(cx, r, fn):
    v = vcopy(cx.read(r)); x = fn(v)
    cx.write(r, v if x is None else x)
def lt(cx, a, b):
    ca, cb = cx.conc(a), cx.conc(b)
    if ca is not None and cb is not None: return ca < cb
    return cx.ix(a) < cx.ix(b) if cx.mode == 'int' else z3.ULT(cx.ix(a), cx.ix(b))
def le(cx, a, b):
    ca, cb = cx.conc(a), cx.conc(b)
    if ca is not None and cb is not None: return ca <= cb
    return cx.ix(a) <= cx.ix(b) if cx.mode == 'int' else z3.ULE(cx.ix(a), cx.ix(b))
def eqi(cx, a, b):
    ca, cb = cx.conc(a), cx.conc(b)
    if ca is not None and cb is not None: return ca == cb
    return cx.ix(a) == cx.ix(b)
def add(cx, a, b):
    ca, cb = cx.conc(a), cx.conc(b)
    if ca is not None and cb is not None: return ca + cb
    return z3.simplify(cx.ix(a) + cx.ix(b))
def sub(cx, a, b):
    ca, cb = cx.conc(a), cx.conc(b)
    if ca is not None and cb is not None: return ca - cb
    return z3.simplify(cx.ix(a) - cx.ix(b))
def AND(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a): return False
    return True if not a else (a[0] if len(a) == 1 else z3.And(*a))
def OR(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a): return True
    return False if not a else (a[0] if len(a) == 1 else z3.Or(*a))
def NOT(a): return (not a) if isinstance(a, bool) else z3.Not(a)
def veq(cx, a, b, t):
    """equality formula of two values of type t"""
    if isinstance(a, Ptr) or isinstance(b, Ptr): return cx.ptr_cmp('==', a, b)
    if isinstance(a, Undef) or isinstance(b, Undef): return False
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)): return a == b
    if isinstance(a, Arr): return AND(*[veq(cx, x, y, a.et) for x, y in zip(a.items, b.items)])
    if isinstance(a, Vec): return seq_eq(cx, a, b)
    if isinstance(a, Rec):
        if cx.T(t)['q'] == 'std::pair':
            A = cx.T(t)['a']; return AND(veq(cx, a.f['first'], b.f['first'], A[0]['t']), veq(cx, a.f['second'], b.f['second'], A[1]['t']))
        return AND(*[veq(cx, a.f[n], b.f[n], ft) for n, ft in cx.fields(t)])
    if isinstance(a, Union_): return AND(*[veq_b(x, y) for x, y in zip(a.bytes, b.bytes)])
    return cx.pack(a, t) == cx.pack(b, t)
def veq_b(x, y):
    if isinstance(x, Undef) or isinstance(y, Undef): return False
    if isinstance(x, int) and isinstance(y, int): return x == y
    return (z3.BitVecVal(x, 8) if isinstance(x, int) else x) == (z3.BitVecVal(y, 8) if isinstance(y, int) else y)
def seq_eq(cx, a, b):
    """extensional equality of two sequences"""
    na, nb = cx.conc(a.n), cx.conc(b.n)
    if na is not None and nb is not None and max(na, nb) <= 64:
        if na != nb: return False
        return AND(*[veq(cx, cx.vec_get(a, i), cx.vec_get(b, i), a.et) for i in range(na)])
    A, B = cx.vec_arr(a), cx.vec_arr(b)
    k = cx.fresh('k', cx.isort())
    return AND(eqi(cx, a.n, b.n), z3.ForAll([k], z3.Implies(z3.And(le(cx, 0, k), lt(cx, k, a.n)), z3.Select(A, k) == z3.Select(B, k))))
def sel(cx, v, i):
    """z3 element term of a sequence at index i"""
    return z3.Select(cx.vec_arr(v), cx.ix(i))
def in_rng(cx, k, n): return z3.And(cx.ix(k) >= 0, cx.ix(k) < cx.ix(n)) if cx.mode == 'int' else z3.ULT(cx.ix(k), cx.ix(n))
def uchar(cx, v):
    return v

# ------------------------------------------------------------------ glog
@model('google::LogMessageFatal::LogMessageFatal')
def _(cx, c): raise Abort(cx.cur_line, 'CHECK/FATAL')
@model_re(r'^google::(LogMessage|ErrnoLogMessage)::LogMessage')
def _(cx, c): return Rec(c.node['t'], {'stream': 'log'})
@model_re(r'^google::(LogMessage|ErrnoLogMessage|LogMessageFatal)::stream$')
def _(cx, c): return cx.new_cell('logstream', 'log')
@model('google::LogMessageVoidify::LogMessageVoidify')
def _(cx, c): return Rec(c.node['t'], {})
@model('google::LogMessageVoidify::operator&')
def _(cx, c): return None
@model('google::CheckOpString::CheckOpString')
def _(cx, c): return Rec(c.node['t'], {})
@model('google::GetReferenceableValue')
def _(cx, c): return c.args[0]
@model('google::CheckNotNull', 'google::CheckNotNullCommon')
def _(cx, c):
    p = rd(cx, c.args[-1])
    if isinstance(p, Undef): cx.undef_use(p); raise PathEnd()
    if isinstance(p, Ptr) and p.ref is None: raise Abort(cx.cur_line, 'CHECK_NOTNULL')
    return c.args[-1]
for _op, _nm in (('==', 'EQ'), ('!=', 'NE'), ('<', 'LT'), ('<=', 'LE'), ('>', 'GT'), ('>=', 'GE')):
    def _mk(op):
        def m(cx, c):
            pt = c.f['pt']
            a, b = rd(cx, c.args[0]), rd(cx, c.args[1])
            def bt(t):
                T = cx.T(t); return T['e'] if T['k'] == 'ref' else t
            ok = cmp_values(cx, op, a, b, bt(pt[0]), bt(pt[1]), c)
            if cx.branch(ok): return NULL
            return Ptr(cx.new_cell('checkmsg', 'msg'))
        return m
    MODELS['google::Check_%sImpl' % _nm] = _mk(_op)
def cmp_values(cx, op, a, b, ta, tb, c=None):
    if isinstance(a, Ptr) or isinstance(b, Ptr): return cx.ptr_cmp(op, a, b)
    TA, TB = cx.T(ta), cx.T(tb)
    if TA['k'] in ('int', 'fp', 'bool', 'enum') and TB['k'] in ('int', 'fp', 'bool', 'enum'):
        # usual arithmetic conversions: only values matter in int mode except signed/unsigned mixing
        if cx.mode == 'int' and TA['k'] in ('int', 'bool', 'enum') and TB['k'] in ('int', 'bool', 'enum'):
            wt = max([T for T in (TA, TB) if T['k'] != 'bool'] or [{'w': 32, 's': 1}], key=lambda T: (T['w'], not T['s']))
            if wt['w'] < 32: wt = {'w': 32, 's': 1}
            CT = dict(k='int', w=wt['w'], s=wt['s'])
            def cv(v):
                if isinstance(v, bool): return int(v)
                if isz(v) and z3.is_bool(v): return z3.If(v, 1, 0)
                return v
            a, b = cx.wrap(cv(a), CT, 'cast'), cx.wrap(cv(b), CT, 'cast')
            if isinstance(a, int) and isinstance(b, int): return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
            return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()
        t = ta
        if TA['k'] == 'fp' or TB['k'] == 'fp':
            t = ta if TA['k'] == 'fp' else tb
            a = cx.cast_num(a, ta, t); b = cx.cast_num(b, tb, t)
        elif TA['k'] in ('int', 'enum') and TB['k'] in ('int', 'enum'):
            if TA['w'] < TB['w'] or (TA['w'] == TB['w'] and TA['s'] and not TB['s']): t = tb
            a = cx.cast_num(a, ta, t); b = cx.cast_num(b, tb, t)
        return cx.compare(op, a, b, t)
    if isinstance(a, (Vec, Rec, Arr)) and op in ('==', '!='):
        r = value_equal(cx, a, b, ta, c)
        return r if op == '==' else NOT(r)
    if isz(a) and isz(b) and op in ('==', '!='): return a == b if op == '==' else a != b
    raise Unsupported('comparison of %s' % cx.prog.tname(ta))
def value_equal(cx, a, b, ta, c=None):
    """operator== of class type: the extracted operator if there is one, else structural"""
    if isinstance(a, Rec) and cx.T(ta)['q'] != 'std::pair':
        q = cx.T(ta)['q'] + '::operator=='
        for t in [ta] + list((cx.record(ta) or {}).get('bases', [])):
            for fid in cx.prog.byname.get(cx.T(t)['q'] + '::operator==', []):
                if fid in cx.prog.bodies and cx.prog.tname(cx.prog.funcs[fid]['rec']) == cx.prog.tname(t):
                    return cx.b(cx.call_body(fid, cx.new_cell('cmp', a), [cx.new_cell('cmp', b)]))
    return veq(cx, a, b, ta)

# ------------------------------------------------------------------ streams (formatting is out of scope except
# for setfill/setw/unsigned into a stringstream, used by generateIdFromInt)
@model_re(r'^std::(basic_ostream|basic_stringstream|basic_ostringstream|basic_istream|basic_istringstream)::(operator<<|write|flush|put|precision|setf|width|fill)$')
def _(cx, c):
    if c.obj is not None:
        v = cx.read(c.obj)
        if isinstance(v, Stream): cx.write(c.obj, v.put(cx, rd(cx, c.args[0]), c.f['pt'][0] if c.f['pt'] else None))
        return c.obj
    return c.args[0]
@model('std::operator<<')
def _(cx, c):
    v = rd(cx, c.args[0])
    if isinstance(v, Stream): cx.write(c.args[0], v.put(cx, rd(cx, c.args[1]), c.f['pt'][1]))
    return c.args[0]
@model('std::endl')
def _(cx, c): return c.args[0]
class Stream(Obj):
    """stringstream contents as a list of items (kept symbolic: ('txt', value) pieces)"""
    def __init__(s, items=()): s.items = tuple(items)
    def put(s, cx, v, t): return Stream(s.items + ((v, t),))
@model_re(r'^std::basic_(o|i|)stringstream::basic_(o|i|)stringstream$')
def _(cx, c): return Stream()
@model('std::setfill')
def _(cx, c): return ('setfill', rd(cx, c.args[0]))
@model('std::setw')
def _(cx, c): return ('setw', rd(cx, c.args[0]))
@model('std::setprecision')
def _(cx, c): return ('setprecision', rd(cx, c.args[0]))
@model_re(r'^std::basic_(o|i|)stringstream::str$')
def _(cx, c):
    v = cx.read(c.obj)
    h = cx.hooks.get('stream_str')
    if h: return h(cx, v, c)
    raise Unsupported('stringstream::str')

# ------------------------------------------------------------------ memory
def byte_span(cx, p, n):
    """(setter, getter) for n bytes at pointer p; whole objects only"""
    raise Unsupported('byte span')
def obj_type(cx, e):
    """static pointee type below casts to void*"""
    while e['k'] == 'cast' and e['ck'] in ('BitCast', 'NoOp', 'ArrayToPointerDecay', 'LValueToRValue'):
        inner = e['e']
        T = cx.T(inner['t'])
        e = inner
        if T['k'] == 'ptr' and cx.T(T['e'])['k'] != 'void': return T['e']
        if T['k'] == 'arr': return inner['t']
    T = cx.T(e['t'])
    return T['e'] if T['k'] == 'ptr' else e['t']
def get_bytes(cx, p, n, t):
    """n bytes starting at p, where p points at objects of type t"""
    r = cx.deref(p)
    v = cx.read(r) if not (r.path and r.path[-1][0] == 'i') else None
    if v is not None and isinstance(v, (Rec, Union_, Arr)) :
        tt = v.t if isinstance(v, (Rec, Union_)) else None
        b = cx.to_bytes(v, tt) if tt is not None else sum([cx.to_bytes(x, v.et) for x in v.items], [])
        if len(b) < n: cx.oblige('memory access in bounds', False, 'memcpy source'); raise PathEnd()
        return b[:n]
    w = cx.sizeof(t); out = []
    k = 0
    while len(out) < n:
        q = cx.ptr_add(p, k); rr = q.ref
        cx.check_ref(rr)
        out += cx.to_bytes(cx.read(rr), t); k += 1
    return out[:n]
def put_bytes(cx, p, b, t):
    r = cx.deref(p)
    v = cx.read(r) if not (r.path and r.path[-1][0] == 'i') else None
    if v is not None and isinstance(v, (Rec, Union_, Arr)):
        tt = v.t if isinstance(v, (Rec, Union_)) else None
        if tt is not None:
            full = cx.to_bytes(v, tt)
            if len(full) < len(b): cx.oblige('memory access in bounds', False, 'memcpy destination'); raise PathEnd()
            cx.write(r, cx.from_bytes(list(b) + full[len(b):], tt)); return
        w = cx.sizeof(v.et)
        full = sum([cx.to_bytes(x, v.et) for x in v.items], [])
        if len(full) < len(b): cx.oblige('memory access in bounds', False, 'memcpy destination'); raise PathEnd()
        nb = list(b) + full[len(b):]
        cx.write(r, Arr(v.et, [cx.from_bytes(nb[i * w:(i + 1) * w], v.et) for i in range(len(v.items))])); return
    w = cx.sizeof(t); k = 0
    while k * w < len(b):
        q = cx.ptr_add(p, k); cx.check_ref(q.ref)
        chunk = list(b[k * w:(k + 1) * w])
        if len(chunk) < w: chunk = chunk + cx.to_bytes(cx.read(q.ref), t)[len(chunk):]
        cx.write(q.ref, cx.from_bytes(chunk, t)); k += 1
@model('memcpy', 'std::memcpy', 'memmove')
def _(cx, c):
    d, sr, n = rd(cx, c.args[0]), rd(cx, c.args[1]), rd(cx, c.args[2])
    h = cx.hooks.get('memcpy')
    if h:
        r = h(cx, c, d, sr, n)
        if r is not None: return r
    if isinstance(sr, Ptr) and sr.ref is None or isinstance(d, Ptr) and d.ref is None:
        cx.oblige('memory access in bounds', eqi(cx, n, 0), 'copy from or to null'); return d
    k = cx.conc(n)
    ae = c.node['args']
    td, ts = obj_type(cx, ae[0]), obj_type(cx, ae[1])
    if k is not None and k <= 256:
        if isinstance(d, Undef) or isinstance(sr, Undef): cx.undef_use(d); raise PathEnd()
        put_bytes(cx, d, get_bytes(cx, sr, k, ts), td); return d
    # symbolic length: byte sequences only
    if k == 0: return d
    for w in {cx.sizeof(td), cx.sizeof(ts)}:
        if w <= 256 and cx.hint(lambda: cx.valid(eqi(cx, n, w))): put_bytes(cx, d, get_bytes(cx, sr, w, ts), td); return d
    for q in (d, sr):
        r = cx.deref(q)
        if not (r.path and r.path[-1][0] == 'i') and not isinstance(cx.read(r), (Vec, Arr)): cx.oblige('memory access in bounds', le(cx, n, cx.sizeof(td if q is d else ts)), 'memcpy of an object'); raise Unsupported('memcpy of part of an object')
    return seq_copy(cx, d, sr, n, td, ts)
def seq_copy(cx, d, sr, n, td, ts):
    """element-wise copy of n bytes between sequences with one-byte elements"""
    if cx.sizeof(td) != 1 or cx.sizeof(ts) != 1: raise Unsupported('memcpy of non-byte sequence with symbolic length')
    rdst, rsrc = cx.deref(d), cx.deref(sr)
    def split(r):
        if r.path and r.path[-1][0] == 'i': return Ref(r.cell, r.path[:-1]), r.path[-1][1]
        return r, 0
    (bd, od), (bs, os) = split(rdst), split(rsrc)
    vd, vs = cx.read(bd), cx.read(bs)
    cx.oblige('memory access in bounds', z3.Or(eqi(cx, n, 0) if not isinstance(eqi(cx, n, 0), bool) else z3.BoolVal(eqi(cx, n, 0)), z3.And(cx.zb(le(cx, 0, od)), cx.zb(le(cx, add(cx, od, n), vlen(vd))))), 'memcpy destination')
    cx.oblige('memory access in bounds', z3.Or(cx.zb(eqi(cx, n, 0)), z3.And(cx.zb(le(cx, 0, os)), cx.zb(le(cx, add(cx, os, n), vlen(vs))))), 'memcpy source')
    na = blit(cx, vd, od, vs, os, n)
    cx.write(bd, na)
    return d
def vlen(v): return len(v.items) if isinstance(v, Arr) else v.n
def blit(cx, vd, od, vs, os, n):
    """sequence vd with vd[od..od+n) := vs[os..os+n)"""
    k = cx.conc(n)
    if k is not None and k <= 64:
        out = vcopy(vd); items = [cx.vec_get(vs, add(cx, os, i)) for i in range(k)]
        for i in range(k): cx.vec_set(out, add(cx, od, i), items[i])
        return out
    A, B = cx.vec_arr(vd), cx.vec_arr(vs)
    R = cx.fresh('blit', A.sort()); j = z3.Const('j!b', cx.isort())
    lo, hi = cx.ix(od), cx.ix(add(cx, od, n))
    cond = z3.And(cx.zb(le(cx, lo, j)), cx.zb(lt(cx, j, hi)))
    cx.assume(z3.ForAll([j], z3.Select(R, j) == z3.If(cond, z3.Select(B, j - lo + cx.ix(os)), z3.Select(A, j)), patterns=[z3.Select(R, j)]))
    return Vec(vd.et, vd.n if isinstance(vd, Vec) else len(vd.items), R)
@model('memset', 'std::memset')
def _(cx, c):
    d, val, n = rd(cx, c.args[0]), rd(cx, c.args[1]), rd(cx, c.args[2])
    h = cx.hooks.get('memset')
    if h:
        r = h(cx, c, d, val, n)
        if r is not None: return r
    k = cx.conc(n); td = obj_type(cx, c.node['args'][0])
    if k is None or k > 256:
        if cx.sizeof(td) != 1: raise Unsupported('memset with symbolic length')
        r = cx.deref(d)
        base, off = (Ref(r.cell, r.path[:-1]), r.path[-1][1]) if r.path and r.path[-1][0] == 'i' else (r, 0)
        v = cx.read(base)
        cx.oblige('memory access in bounds', z3.Or(cx.zb(eqi(cx, n, 0)), z3.And(cx.zb(le(cx, 0, off)), cx.zb(le(cx, add(cx, off, n), vlen(v))))), 'memset')
        b = val & 255 if isinstance(val, int) else z3.Extract(7, 0, val)
        A = cx.vec_arr(v); R = cx.fresh('mset', A.sort()); j = z3.Const('j!b', cx.isort())
        cond = z3.And(cx.zb(le(cx, off, j)), cx.zb(lt(cx, j, add(cx, off, n))))
        cx.assume(z3.ForAll([j], z3.Select(R, j) == z3.If(cond, cx.pack(b, v.et), z3.Select(A, j)), patterns=[z3.Select(R, j)]))
        cx.write(base, Vec(v.et, vlen(v), R)); return d
    b = val & 255 if isinstance(val, int) else (z3.Extract(7, 0, val) if cx.mode == 'bv' else val)
    put_bytes(cx, d, [b] * k, td); return d
@model('memcmp', 'std::memcmp')
def _(cx, c):
    a, b, n = rd(cx, c.args[0]), rd(cx, c.args[1]), rd(cx, c.args[2])
    k = cx.conc(n); ta, tb = obj_type(cx, c.node['args'][0]), obj_type(cx, c.node['args'][1])
    r = cx.sym('memcmp', c.f['ret'])
    if k is not None and k <= 256:
        x, y = get_bytes(cx, a, k, ta), get_bytes(cx, b, k, tb)
        cx.assume((r == 0) == cx.zb(AND(*[veq_b(p, q) for p, q in zip(x, y)]))); return r
    def split(p):
        q = cx.deref(p)
        return (Ref(q.cell, q.path[:-1]), q.path[-1][1]) if q.path and q.path[-1][0] == 'i' else (q, 0)
    (ra, oa), (rb, ob) = split(a), split(b)
    va, vb = cx.read(ra), cx.read(rb)
    for v, o, w in ((va, oa, 'memcmp lhs'), (vb, ob, 'memcmp rhs')):
        cx.oblige('memory access in bounds', z3.Or(cx.zb(eqi(cx, n, 0)), z3.And(cx.zb(le(cx, 0, o)), cx.zb(le(cx, add(cx, o, n), vlen(v))))), w)
    j = z3.Const('j!c', cx.isort())
    A, B = cx.vec_arr(va), cx.vec_arr(vb)
    cx.assume((r == 0) == z3.ForAll([j], z3.Implies(in_rng(cx, j, n), z3.Select(A, j + cx.ix(oa)) == z3.Select(B, j + cx.ix(ob)))))
    return r

# ------------------------------------------------------------------ std::string
@model('std::allocator::allocator')
def _(cx, c): return Rec(c.node['t'], {})
def str_from_cptr(cx, p, et):
    r = cx.deref(p); items = []
    for k in range(4096):
        q = cx.ptr_add(p, k).ref
        cx.check_ref(q)
        ch = cx.read(q)
        if isinstance(ch, Undef): cx.undef_use(ch); raise PathEnd()
        if cx.branch(cx.compare('==', ch, 0, et)): break
        items.append(ch)
    return Vec(et, items=items)
def char_t(cx, t): return cx.T(t)['a'][0]['t']
def is_str(v): return isinstance(v, Vec)
def substr(cx, v, pos, n, throw=True):
    if throw and not cx.branch(le(cx, pos, v.n)): raise Throw('std::out_of_range', cx.cur_line)
    rest = sub(cx, v.n, pos)
    if n is None: cnt = rest
    else: cnt = n if cx.branch(le(cx, n, rest)) else rest
    return slice_vec(cx, v, pos, cnt)
def slice_vec(cx, v, pos, cnt):
    cp, cc = cx.conc(pos), cx.conc(cnt)
    if cc is not None and cc <= 64 :
        return Vec(v.et, items=[vcopy(cx.vec_get(v, add(cx, pos, i))) for i in range(cc)])
    A = cx.vec_arr(v); R = cx.fresh('slice', A.sort()); j = z3.Const('j!s', cx.isort())
    cx.assume(z3.ForAll([j], z3.Implies(in_rng(cx, j, cnt), z3.Select(R, j) == z3.Select(A, j + cx.ix(pos))), patterns=[z3.Select(R, j)]))
    return Vec(v.et, cnt, R)
def concat(cx, a, b):
    if a.items is not None and b.items is not None: return Vec(a.et, items=[vcopy(x) for x in a.items + b.items])
    ca, cb = cx.conc(a.n), cx.conc(b.n)
    if cb is not None and cb <= 64:
        out = vcopy(a); cx.vec_sym(out)
        for i in range(cb):
            out.arr = z3.Store(out.arr, cx.ix(add(cx, a.n, i)), cx.pack(cx.vec_get(b, i), a.et))
        out.n = add(cx, a.n, b.n); return out
    A, B = cx.vec_arr(a), cx.vec_arr(b); R = cx.fresh('cat', A.sort()); j = z3.Const('j!t', cx.isort())
    n = add(cx, a.n, b.n)
    cx.assume(z3.ForAll([j], z3.Implies(in_rng(cx, j, n), z3.Select(R, j) == z3.If(lt(cx, j, a.n), z3.Select(A, j), z3.Select(B, j - cx.ix(a.n)))), patterns=[z3.Select(R, j)]))
    return Vec(a.et, n, R)
@model('std::basic_string::basic_string')
def _(cx, c):
    t = c.node['t']; et = char_t(cx, t); a = c.args; pt = c.f['pt']
    if not a or (len(a) == 1 and cx.prog.tname(pt[0]).startswith('std::allocator')): return Vec(et, items=[])
    v = rd(cx, a[0])
    if isinstance(v, Vec):
        pos = rd(cx, a[1]) if len(a) > 1 and cx.T(pt[1])['k'] == 'int' else None
        if pos is None: return vcopy(v)
        n = rd(cx, a[2]) if len(a) > 2 and cx.T(pt[2])['k'] == 'int' else None
        return substr(cx, v, pos, n)
    if isinstance(v, Ptr):
        if len(a) > 1 and cx.T(pt[1])['k'] == 'int':
            n = rd(cx, a[1]); r = cx.deref(v)
            base, off = (Ref(r.cell, r.path[:-1]), r.path[-1][1]) if r.path and r.path[-1][0] == 'i' else (r, 0)
            bv = cx.read(base)
            cx.oblige('memory access in bounds', cx.zb(le(cx, add(cx, off, n), vlen(bv))), 'string(ptr, n)')
            return slice_vec(cx, bv, off, n)
        if len(a) > 1 and isinstance(rd(cx, a[1]), Ptr): return range_vec(cx, v, rd(cx, a[1]), et)
        return str_from_cptr(cx, v, et)
    if len(a) >= 2 and cx.T(pt[0])['k'] == 'int':
        k = cx.conc(v); ch = rd(cx, a[1])
        if k is not None and k <= 64: return Vec(et, items=[ch] * k)
        return Vec(et, v, z3.K(cx.isort(), cx.pack(ch, et)))
    raise Unsupported('string constructor')
@model('std::basic_string::substr')
def _(cx, c):
    v = cx.read(c.obj); pos = rd(cx, c.args[0])
    n = rd(cx, c.args[1]) if len(c.args) > 1 else None
    if isinstance(n, int) and n == (1 << 64) - 1: n = None
    return substr(cx, v, pos, n)
@model('std::operator+')
def _(cx, c):
    p0, p1 = rd(cx, c.args[0]), rd(cx, c.args[1])
    if 'iterator' in cx.prog.tname(c.f['ret']): return cx.ptr_add(p0, p1) if isinstance(p0, Ptr) else cx.ptr_add(p1, p0)
    a, b = rd(cx, c.args[0]), rd(cx, c.args[1]); et = char_t(cx, c.f['ret'])
    def s(v, t):
        if isinstance(v, Vec): return v
        if isinstance(v, Ptr): return str_from_cptr(cx, v, et)
        return Vec(et, items=[v])
    if not is_strt(cx, c.f['ret']): raise Unsupported('operator+')
    return concat(cx, s(a, 0), s(b, 1))
def is_strt(cx, t): return cx.T(t).get('q') == 'std::basic_string'
@model('std::basic_string::operator+=', 'std::basic_string::append', 'std::basic_string::push_back')
def _(cx, c):
    v = cx.read(c.obj); a = rd(cx, c.args[0]); et = v.et
    if len(c.args) == 2 and isinstance(a, Ptr): # append(ptr, n)
        n = rd(cx, c.args[1])
        if isinstance(n, Ptr): raise Unsupported('append(it,it)')
        r = cx.deref(a); base, off = (Ref(r.cell, r.path[:-1]), r.path[-1][1]) if r.path and r.path[-1][0] == 'i' else (r, 0)
        bv = cx.read(base); cx.oblige('memory access in bounds', cx.zb(le(cx, add(cx, off, n), vlen(bv))), 'append'); b = slice_vec(cx, bv, off, n)
    elif isinstance(a, Vec): b = a
    elif isinstance(a, Ptr): b = str_from_cptr(cx, a, et)
    else: b = Vec(et, items=[a])
    cx.write(c.obj, concat(cx, v, b)); return c.obj
@model('std::basic_string::compare')
def _(cx, c):
    v = cx.read(c.obj); a = rd(cx, c.args[0])
    b = a if isinstance(a, Vec) else str_from_cptr(cx, a, v.et)
    r = cx.sym('cmp', c.f['ret']); cx.assume((r == 0) == cx.zb(seq_eq(cx, v, b))); return r
@model('std::basic_string::c_str')
def _(cx, c):
    v = cx.read(c.obj)
    w = concat(cx, v, Vec(v.et, items=[0]))
    return Ptr(cx.new_cell('cstr', w).at(0))
def ishex(cx, ch):
    """ch: char term"""
    C = cx.zi(ch, {'w': 8})
    return z3.Or(z3.And(C >= 48, C <= 57), z3.And(C >= 97, C <= 102), z3.And(C >= 65, C <= 70))
def hexval(cx, ch, w):
    C = cx.zi(ch, {'w': 8})
    if cx.mode == 'bv': C = z3.ZeroExt(w - 8, C)
    return z3.If(C <= 57, C - 48, z3.If(C >= 97, C - 87, C - 55))
@model('std::stoul', 'std::stoull')
def _(cx, c):
    """contract: a non-empty string of hex digits (base 16) yields its value; any other string may throw or yield any value"""
    s_, base = rd(cx, c.args[0]), rd(cx, c.args[2])
    n = cx.conc(s_.n)
    if base == 16 and n is not None and 1 <= n <= 16:
        chars = [cx.vec_get(s_, i) for i in range(n)]
        if cx.branch(cx.zb(AND(*[ishex(cx, ch) for ch in chars]))):
            r = 0
            for ch in chars:
                h = hexval(cx, ch, 64)
                r = h if isinstance(r, int) else r * 16 + h
            return z3.simplify(r) if isz(r) else r
    h = cx.hooks.get('stoul')
    if h:
        r = h(cx, c, s_, base)
        if r is not None: return r
    if cx.choose(2): raise Throw('std::invalid_argument/out_of_range', cx.cur_line)
    return cx.sym('stoul', c.f['ret'])
@model('std::to_string')
def _(cx, c):
    h = cx.hooks.get('to_string')
    if h: return h(cx, c, rd(cx, c.args[0]))
    # some text that is a function of the value
    v = rd(cx, c.args[0])
    et = char_t(cx, c.f['ret'])
    n = cx.fresh('tostr.len', cx.isort()); cx.assume_len(n)
    return Vec(et, n, cx.fresh('tostr', z3.ArraySort(cx.isort(), cx.sort(et))))

# ------------------------------------------------------------------ sequences
SEQ = r'^std::(vector|deque|list|basic_string|__cxx11::list|_Vector_base|array)::'
def m_seq(names):
    def d(f):
        for n in names.split():
            for t in ('vector', 'deque', 'basic_string', 'list', 'initializer_list', 'array'):
                MODELS['std::%s::%s' % (t, n)] = f
        return f
    return d
@m_seq('size length')
def _(cx, c):
    v = cx.read(c.obj); return vlen(v)
@m_seq('empty')
def _(cx, c): return eqi(cx, vlen(cx.read(c.obj)), 0)
@m_seq('operator[]')
def _(cx, c):
    i = rd(cx, c.args[0]); v = cx.read(c.obj)
    cx.in_bounds(i, vlen(v), 'operator[]'); return c.obj.at(i)
@m_seq('at')
def _(cx, c):
    i = rd(cx, c.args[0]); v = cx.read(c.obj)
    if not cx.branch(cx.zb(lt(cx, i, vlen(v)))): raise Throw('std::out_of_range', cx.cur_line)
    return c.obj.at(i)
@m_seq('front')
def _(cx, c): cx.in_bounds(0, vlen(cx.read(c.obj)), 'front'); return c.obj.at(0)
@m_seq('back')
def _(cx, c):
    n = vlen(cx.read(c.obj)); cx.oblige('memory access in bounds', NOT(eqi(cx, n, 0)), 'back'); return c.obj.at(sub(cx, n, 1))
@m_seq('begin cbegin data')
def _(cx, c): return Ptr(c.obj.at(0))
@m_seq('end cend')
def _(cx, c): return Ptr(c.obj.at(vlen(cx.read(c.obj))))
@m_seq('reserve shrink_to_fit')
def _(cx, c): return None
@m_seq('capacity max_size')
def _(cx, c): return cx.sym('cap', c.f['ret'])
@m_seq('clear')
def _(cx, c): cx.write(c.obj, Vec(cx.read(c.obj).et, items=[])); return None
def push(cx, r, val):
    v = vcopy(cx.read(r))
    if v.items is not None and len(v.items) < 64: v.items.append(vcopy(val)); v.n = len(v.items)
    else:
        cx.vec_sym(v); v.arr = z3.Store(v.arr, cx.ix(v.n), cx.pack(val, v.et)); v.n = add(cx, v.n, 1)
    cx.write(r, v)
ELEMENT_CTORS = {}
def construct(cx, et, args, node=None):
    """T(args...) as emplace does"""
    EC = ELEMENT_CTORS.get(cx.T(et).get('q'))
    if EC: return EC(cx, args)
    if len(args) == 1:
        v = rd(cx, args[0])
        return v
    T = cx.T(et)
    if T.get('q') == 'std::pair':
        return Rec(et, {'first': vcopy(rd(cx, args[0])), 'second': vcopy(rd(cx, args[1]))})
    if not args: return cx.default(et, True)
    tn = cx.prog.tname(et)
    for i, f in enumerate(cx.prog.funcs):
        if f.get('ctor') and 'rec' in f and cx.prog.tname(f['rec']) == tn and i in cx.prog.bodies and len(f['pt']) == len(args) and not (f.get('copy') or f.get('move')):
            obj = cx.new_cell('element', cx.default(et)); cx.call_body(i, obj, list(args)); return cx.read(obj)
    raise Unsupported('emplace construction of %s' % cx.prog.tname(et))
@m_seq('push_back emplace_back')
def _(cx, c):
    v = cx.read(c.obj)
    x = construct(cx, v.et, c.args)
    if c.f['s'] == 'emplace_back':
        h = cx.hooks.get('emplace')
        if h:
            y = h(cx, c, v.et)
            if y is not None: x = y
        # arithmetic conversions happen in the element constructor
        T = cx.T(v.et)
        if T['k'] in ('int', 'fp', 'bool') and c.f['pt']:
            pt = c.f['pt'][0]; P = cx.T(pt); pt = P['e'] if P['k'] == 'ref' else pt
            if cx.T(pt)['k'] in ('int', 'fp', 'bool'): x = cx.cast_num(x, pt, v.et)
    if isinstance(x, Rec) and x.t != v.et and cx.T(v.et).get('q') == 'std::pair': x = Rec(v.et, x.f)
    push(cx, c.obj, x); return None
@m_seq('pop_back')
def _(cx, c):
    v = vcopy(cx.read(c.obj)); cx.oblige('memory access in bounds', NOT(eqi(cx, v.n, 0)), 'pop_back')
    if v.items is not None: v.items.pop(); v.n = len(v.items)
    else: v.n = sub(cx, v.n, 1)
    cx.write(c.obj, v)
@m_seq('pop_front')
def _(cx, c):
    v = cx.read(c.obj); cx.oblige('memory access in bounds', NOT(eqi(cx, v.n, 0)), 'pop_front')
    cx.write(c.obj, slice_vec(cx, v, 1, sub(cx, v.n, 1)))
@m_seq('resize')
def _(cx, c):
    n = rd(cx, c.args[0]); v = vcopy(cx.read(c.obj)); k = cx.conc(n)
    fill = (lambda: vcopy(rd(cx, c.args[1]))) if len(c.args) > 1 else (lambda: cx.default(v.et, True))
    if v.items is not None and k is not None and k <= 256:
        cx.write(c.obj, Vec(v.et, items=(v.items + [fill() for _ in range(max(0, k - len(v.items)))])[:k])); return
    if cx.hint(lambda: cx.valid(cx.zb(le(cx, n, v.n)))): cx.write(c.obj, trunc(cx, v, n)); return
    A = cx.vec_arr(v); R = cx.fresh('rsz', A.sort()); j = z3.Const('j!r', cx.isort())
    f = cx.pack(fill(), v.et)
    cx.assume(z3.ForAll([j], z3.Select(R, j) == z3.If(cx.zb(lt(cx, j, v.n)), z3.Select(A, j), f), patterns=[z3.Select(R, j)]))
    cx.write(c.obj, Vec(v.et, n, R))
@m_seq('swap')
def _(cx, c):
    o = c.args[0]; a, b = cx.read(c.obj), cx.read(o); cx.write(c.obj, b); cx.write(o, a)
@m_seq('operator= assign')
def _(cx, c):
    if c.f['s'] == 'assign':
        cx.write(c.obj, seq_ctor(cx, cx.read(c.obj).et, c.args, c.f['pt'])); return c.obj
    v = rd(cx, c.args[0])
    if isinstance(v, Ptr): v = str_from_cptr(cx, v, cx.read(c.obj).et)
    if isinstance(v, Arr): v = Vec(v.et, items=list(v.items))
    if not isinstance(v, Vec): v = Vec(cx.read(c.obj).et, items=[v])
    cx.write(c.obj, vcopy(v)); return c.obj
def range_vec(cx, b, e, et):
    """the sequence [b, e) of iterators into one container"""
    n = cx.ptr_diff(e, b)
    r = b.ref; base, off = Ref(r.cell, r.path[:-1]), r.path[-1][1]
    bv = cx.read(base)
    cx.oblige('memory access in bounds', AND(le(cx, 0, off), le(cx, off, add(cx, off, n)), le(cx, add(cx, off, n), vlen(bv))), 'iterator range')
    v = slice_vec(cx, bv, off, n)
    return v
def seq_ctor(cx, et, a, pt):
    a = [x for x, t in zip(a, pt) if not cx.prog.tname(t).startswith('std::allocator') and 'aligned_allocator' not in cx.prog.tname(t).split('<')[0]]
    if not a: return Vec(et, items=[])
    v = rd(cx, a[0])
    if isinstance(v, Vec): return vcopy(v)
    if isinstance(v, Arr): return Vec(et, items=[vcopy(x) for x in v.items])
    if isinstance(v, Ptr) and len(a) > 1: 
        r = range_vec(cx, v, rd(cx, a[1]), et); r.et = et; return r
    n = v; k = cx.conc(n)
    fill = rd(cx, a[1]) if len(a) > 1 else None
    mk = (lambda: vcopy(fill)) if len(a) > 1 else (lambda: cx.default(et, True))
    if k is not None and k <= 256: return Vec(et, items=[mk() for _ in range(k)])
    return Vec(et, n, z3.K(cx.isort(), cx.pack(mk(), et)))
@m_seq('vector deque list')
def _(cx, c):
    return seq_ctor(cx, cx.elem(c.node['t']), c.args, c.f['pt'])
@m_seq('insert')
def _(cx, c):
    v = cx.read(c.obj); p = rd(cx, c.args[0]); pos = p.ref.path[-1][1]
    if len(c.args) == 3 and isinstance(rd(cx, c.args[1]), Ptr) and isinstance(v, Vec) and cx.conc(v.n) is None and cx.zb(eqi(cx, pos, v.n)) is not None and (pos is v.n or cx.valid(cx.zb(eqi(cx, pos, v.n)))):
        import algos
        base, off, n = algos.span(cx, rd(cx, c.args[1]), rd(cx, c.args[2])); w = cx.read(base)
        if isinstance(w, Vec): algos.append_range(cx, c.obj, vcopy(w), off, n); return Ptr(c.obj.at(pos))
    if len(c.args) == 3 and isinstance(rd(cx, c.args[1]), Ptr): mid = range_vec(cx, rd(cx, c.args[1]), rd(cx, c.args[2]), v.et)
    elif len(c.args) == 2: mid = Vec(v.et, items=[vcopy(rd(cx, c.args[1]))])
    else: raise Unsupported('insert')
    cx.oblige('memory access in bounds', AND(le(cx, 0, pos), le(cx, pos, v.n)), 'insert position')
    out = concat(cx, concat(cx, slice_vec(cx, v, 0, pos), mid), slice_vec(cx, v, pos, sub(cx, v.n, pos)))
    cx.write(c.obj, out); return Ptr(c.obj.at(pos))
@m_seq('erase')
def _(cx, c):
    v = cx.read(c.obj); p = rd(cx, c.args[0])
    if not isinstance(p, Ptr): raise Unsupported('string::erase(pos)')
    pos = p.ref.path[-1][1]
    if len(c.args) > 1: end = rd(cx, c.args[1]).ref.path[-1][1]
    else: end = add(cx, pos, 1)
    cx.oblige('memory access in bounds', AND(le(cx, 0, pos), le(cx, pos, end), le(cx, end, v.n)), 'erase range')
    if cx.conc(sub(cx, end, v.n)) == 0 or cx.valid(cx.zb(eqi(cx, end, v.n))): cx.write(c.obj, trunc(cx, v, pos)); return Ptr(c.obj.at(pos))
    out = vcopy(v)
    cp, ce = cx.conc(pos), cx.conc(end)
    if out.items is not None and cp is not None and ce is not None: out = Vec(v.et, items=out.items[:cp] + out.items[ce:])
    else:
        A = cx.vec_arr(out); R = cx.fresh('erase', A.sort()); j = z3.Const('j!e', cx.isort())
        d = sub(cx, end, pos)
        cx.assume(z3.ForAll([j], z3.Select(R, j) == z3.If(cx.zb(lt(cx, j, pos)), z3.Select(A, j), z3.Select(A, j + cx.ix(d))), patterns=[z3.Select(R, j)]))
        out = Vec(v.et, sub(cx, v.n, d), R)
    cx.write(c.obj, out); return Ptr(c.obj.at(pos))
def trunc(cx, v, n):
    k = cx.conc(n)
    if v.items is not None and k is not None: return Vec(v.et, items=v.items[:k])
    w = vcopy(v); cx.vec_sym(w); w.n = n; return w
@model_re(r'^std::operator(==|!=)$')
def _(cx, c):
    a, b = rd(cx, c.args[0]), rd(cx, c.args[1]); ne = c.f['s'] == 'operator!='
    if isinstance(a, Vec) and isinstance(b, Ptr): b = str_from_cptr(cx, b, a.et)
    if isinstance(b, Vec) and isinstance(a, Ptr): a = str_from_cptr(cx, a, b.et)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Rec) or isinstance(b, Rec): raise Unsupported('operator==')
        return cx.ptr_cmp('!=' if ne else '==', a if isinstance(a, Ptr) else NULL, b if isinstance(b, Ptr) else NULL)
    if isinstance(a, Vec): r = elemwise_eq(cx, a, b)
    else:
        P = cx.T(c.f['pt'][0]); t = P['e'] if P['k'] == 'ref' else c.f['pt'][0]
        if isinstance(a, Rec) and cx.T(a.t).get('q') == 'std::pair':
            A = cx.T(a.t)['a']; r = AND(value_equal(cx, a.f['first'], b.f['first'], A[0]['t']), value_equal(cx, a.f['second'], b.f['second'], A[1]['t']))
        elif isinstance(a, Rec) and '__it' in a.f: r = veq(cx, a.f['__it'], b.f['__it'], a.t)
        else: r = veq(cx, a, b, t)
    return NOT(r) if ne else r
def elemwise_eq(cx, a, b): return seq_eq(cx, a, b)
@model_re(r'^std::operator(<|>|<=|>=)$')
def _(cx, c):
    a, b = rd(cx, c.args[0]), rd(cx, c.args[1])
    raise Unsupported('relational operator on library type')

# iterators -----------------------------------------------------------------
IT = r'^(__gnu_cxx::__normal_iterator|std::_Deque_iterator|std::reverse_iterator|std::_List_iterator|std::_List_const_iterator|std::_Rb_tree_iterator|std::_Rb_tree_const_iterator|std::__detail::_Node_(const_)?iterator|std::__detail::_Node_iterator_base|std::unique_ptr|std::shared_ptr|std::__shared_ptr|std::__shared_ptr_access)::'
@model_re(IT + r'operator(\*|->)$')
def _(cx, c):
    p = rd(cx, c.obj)
    if c.f['s'] == 'operator->': return p if isinstance(p, Ptr) else Ptr(cx.deref(p))
    h = getattr(p, 'deref', None)
    if h: return h(cx)
    return cx.elem_ref(p)
@model_re(IT + r'(get)$')
def _(cx, c): return rd(cx, c.obj)
@model_re(IT + r'operator bool$')
def _(cx, c): return rd(cx, c.obj).ref is not None
@model_re(IT + r'operator(\+\+|--)$')
def _(cx, c):
    p = rd(cx, c.obj); k = 1 if c.f['s'] == 'operator++' else -1
    if hasattr(p, 'step'): q = p.step(cx, k)
    else: q = cx.ptr_add(p, k)
    cx.write(c.obj, q)
    return p if c.f['pt'] else c.obj
@model_re(IT + r'operator(\+|-)$')
def _(cx, c):
    p, n = rd(cx, c.obj), rd(cx, c.args[0])
    if isinstance(n, Ptr): return cx.ptr_diff(p, n)
    return cx.ptr_add(p, n if c.f['s'] == 'operator+' else (-n))
@model_re(IT + r'operator(\+=|-=)$')
def _(cx, c):
    p, n = rd(cx, c.obj), rd(cx, c.args[0])
    cx.write(c.obj, cx.ptr_add(p, n if c.f['s'] == 'operator+=' else -n)); return c.obj
@model_re(IT + r'operator\[\]$')
def _(cx, c):
    return cx.elem_ref(cx.ptr_add(rd(cx, c.obj), rd(cx, c.args[0])))
@model_re(r'^(__gnu_cxx|std|std::__detail)::operator-$')
def _(cx, c): return cx.ptr_diff(rd(cx, c.args[0]), rd(cx, c.args[1]))
@model_re(r'^(__gnu_cxx|std::__detail)::operator(==|!=|<|>|<=|>=)$')
def _(cx, c): return it_cmp(cx, c.f['s'][8:], rd(cx, c.args[0]), rd(cx, c.args[1]))
@model_re(IT + r'operator(==|!=|<|>|<=|>=)$')
def _(cx, c): return it_cmp(cx, c.f['s'][8:], rd(cx, c.obj), rd(cx, c.args[0]))
def it_cmp(cx, op, a, b):
    if hasattr(a, 'cmp'): return a.cmp(cx, op, b)
    return cx.ptr_cmp(op, a, b)
@model_re(r'^__gnu_cxx::__normal_iterator::__normal_iterator$')
def _(cx, c): return rd(cx, c.args[0]) if c.args else NULL
@model_re(r'^(std::_Deque_iterator::_Deque_iterator|std::_Rb_tree_(const_)?iterator::_Rb_tree_(const_)?iterator|std::__detail::_Node_(const_)?iterator::_Node_(const_)?iterator)$')
def _(cx, c): return rd(cx, c.args[0]) if c.args else NULL
@model_re(r'^(__gnu_cxx::__normal_iterator|std::_Deque_iterator|std::_Rb_tree_(const_)?iterator|std::__detail::_Node_(const_)?iterator)::operator=$')
def _(cx, c): cx.write(c.obj, rd(cx, c.args[0])); return c.obj
@model('std::begin', 'std::cbegin')
def _(cx, c): return Ptr(c.args[0].at(0))
@model('std::end', 'std::cend')
def _(cx, c): return Ptr(c.args[0].at(vlen(cx.read(c.args[0]))))
@model('std::distance')
def _(cx, c): return cx.ptr_diff(rd(cx, c.args[1]), rd(cx, c.args[0]))
@model('std::next')
def _(cx, c): return cx.ptr_add(rd(cx, c.args[0]), rd(cx, c.args[1]) if len(c.args) > 1 else 1)
@model('std::prev')
def _(cx, c): return cx.ptr_add(rd(cx, c.args[0]), -(rd(cx, c.args[1]) if len(c.args) > 1 else 1))
@model('std::advance')
def _(cx, c): cx.write(c.args[0], cx.ptr_add(rd(cx, c.args[0]), rd(cx, c.args[1]))); return None

# utilities -----------------------------------------------------------------
@model('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const', 'std::addressof', 'std::__addressof')
def _(cx, c):
    if len(c.args) == 3 and c.f['q'] == 'std::move': raise Unsupported('std::move algorithm')
    return Ptr(c.args[0]) if 'address' in c.f['q'] else c.args[0]
@model('std::make_pair')
def _(cx, c): return Rec(c.node['t'], {'first': vcopy(rd(cx, c.args[0])), 'second': vcopy(rd(cx, c.args[1]))})
@model('std::pair::pair')
def _(cx, c):
    t = c.node['t'] if c.node and 't' in c.node else cx.read(c.obj).t
    A = cx.T(t)['a']
    if not c.args: return Rec(t, {'first': cx.default(A[0]['t'], True), 'second': cx.default(A[1]['t'], True)})
    if len(c.args) == 1:
        v = rd(cx, c.args[0]); r = Rec(t, {k: vcopy(x) for k, x in v.f.items()}) if isinstance(v, Rec) else v
        return r
    def conv(v, want, pt):
        P = cx.T(pt); pt = P['e'] if P['k'] == 'ref' else pt
        if cx.T(want)['k'] in ('int', 'fp', 'bool') and cx.T(pt)['k'] in ('int', 'fp', 'bool'): return cx.cast_num(v, pt, want)
        return vcopy(v)
    return Rec(t, {'first': conv(rd(cx, c.args[0]), A[0]['t'], c.f['pt'][0]), 'second': conv(rd(cx, c.args[1]), A[1]['t'], c.f['pt'][1])})
@model('std::pair::operator=')
def _(cx, c): 
    v = rd(cx, c.args[0]); o = cx.read(c.obj)
    cx.write(c.obj, Rec(o.t, {k: vcopy(x) for k, x in v.f.items()})); return c.obj
@model('std::max', 'std::min')
def _(cx, c):
    if len(c.args) != 2: raise Unsupported('max/min overload')
    P = cx.T(c.f['pt'][0]); t = P['e'] if P['k'] == 'ref' else c.f['pt'][0]
    a, b = rd(cx, c.args[0]), rd(cx, c.args[1])
    less = cx.compare('<', a, b, t) if c.f['q'] == 'std::max' else cx.compare('<', b, a, t)
    less = cx.b(less)
    if isinstance(less, bool): return c.args[1] if less else c.args[0]
    if z3.is_int(less.children()[0]) if less.num_args() else False:
        if cx.valid(z3.Not(less)): return c.args[0]
        if cx.valid(less): return c.args[1]
    return cx.new_cell('minmax', cx.norm(z3.If(less, cx.pack(b, t), cx.pack(a, t))))
@model('std::swap')
def _(cx, c):
    a, b = cx.read(c.args[0]), cx.read(c.args[1]); cx.write(c.args[0], vcopy(b)); cx.write(c.args[1], vcopy(a))
@model('std::abs', 'abs', 'fabs', 'std::fabs', 'labs')
def _(cx, c):
    v = rd(cx, c.args[0])
    if isinstance(v, (int, Fraction)): return abs(v)
    return z3.If(v < 0, -v, v)
@model('std::isnan', 'std::isinf', '__builtin_isnan')
def _(cx, c): cx.res.assumed.add('floating point values are finite reals'); return False
@model('std::isfinite')
def _(cx, c): cx.res.assumed.add('floating point values are finite reals'); return True
@model('floor', 'std::floor', 'floorf', 'ceil', 'std::ceil', 'ceilf')
def _(cx, c):
    v = rd(cx, c.args[0]); up = 'ceil' in c.f['s']; h = cx.hooks.get('ceil' if up else 'floor')
    if isinstance(v, (int, Fraction)): import math; return Fraction(math.ceil(v) if up else math.floor(v))
    if h:
        r = h(cx, v)
        if r is not None: return r
    V = cx.zr(v); k = cx.fresh('ceil' if up else 'floor', z3.IntSort()); K = z3.ToReal(k)
    cx.assume(z3.And(K >= V, K < V + 1) if up else z3.And(K <= V, K > V - 1)); return K
@model('sqrt', 'std::sqrt')
def _(cx, c):
    return real_sqrt(cx, rd(cx, c.args[0]))
def real_sqrt(cx, v):
    h = cx.hooks.get('sqrt')
    if h:
        r = h(cx, v)
        if r is not None: return r
    V = cx.zr(v)
    cx.oblige('square root of a non-negative number', V >= 0)
    f = cx.uf('sqrt', z3.RealSort(), z3.RealSort()); r = f(V)
    cx.assume(z3.And(r >= 0, r * r == V)); return r
@model('tan', 'std::tan', 'atan', 'std::atan', 'sin', 'std::sin', 'cos', 'std::cos', 'exp', 'std::exp', 'log', 'std::log')
def _(cx, c):
    """elementary functions of the reals, uninterpreted unless the specification gives facts about them"""
    n = c.f['s'] if c.f['s'] in ('tan', 'atan', 'sin', 'cos', 'exp', 'log') else c.f['s'].split('::')[-1]; v = cx.zr(rd(cx, c.args[0])); h = cx.hooks.get(n)
    if h:
        r = h(cx, v)
        if r is not None: return r
    cx.res.assumed.add('elementary functions are those of the reals'); return cx.uf(n, z3.RealSort(), z3.RealSort())(v)
@model('pow', 'std::pow')
def _(cx, c):
    b, e = rd(cx, c.args[0]), rd(cx, c.args[1])
    if not isinstance(e, (int, Fraction)) or Fraction(e).denominator not in (1, 2) or abs(e) > 40: raise Unsupported('power with that exponent')
    B = cx.zr(b); k = Fraction(abs(e)); n = int(k); r = z3.RealVal(1)
    for _ in range(n): r = B if z3.is_rational_value(r) else r * B
    if k != n: q = cx.zr(real_sqrt(cx, b)); r = q if n == 0 else r * q
    if e < 0: cx.oblige('no division by zero (real)', r != 0); r = 1 / r
    return r
@model('hypot', 'std::hypot')
def _(cx, c): a, b = [cx.zr(rd(cx, x)) for x in c.args]; return real_sqrt(cx, a * a + b * b)
@model('__builtin_expect', '__builtin_expect_with_probability')
def _(cx, c): return rd(cx, c.args[0])
@model('std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::lowest')
def _(cx, c):
    T = cx.T(c.f['ret'])
    if T['k'] == 'int':
        lo, hi = cx.rng(T); return hi if c.f['s'] == 'max' else lo
    if T['k'] == 'fp':
        big = Fraction(2) ** 1024 - Fraction(2) ** 971 if T['w'] == 64 else (Fraction(2) ** 128 - Fraction(2) ** 104)
        tiny = Fraction(1, 2 ** 1022) if T['w'] == 64 else Fraction(1, 2 ** 126)
        return big if c.f['s'] == 'max' else (-big if c.f['s'] == 'lowest' else tiny)
    raise Unsupported('numeric_limits')
@model('std::numeric_limits::infinity', 'std::numeric_limits::quiet_NaN', 'std::numeric_limits::epsilon')
def _(cx, c):
    if c.f['s'] == 'epsilon': return Fraction(1, 2 ** 52)
    h = cx.hooks.get('infinity')
    if h: return h(cx, c)
    raise Unsupported('infinity/NaN')
@model_re(r'^std::hash::hash$')
def _(cx, c): return Rec(c.node['t'], {})
@model('std::hash::operator()')
def _(cx, c):
    """hash functions of the library are functions of the value (equal values, equal hashes); the one of an
    integer type is the identity in libstdc++"""
    v = rd(cx, c.args[0]); P = cx.T(c.f['pt'][0]); t = P['e'] if P['k'] == 'ref' else c.f['pt'][0]
    if cx.T(t)['k'] == 'int': return cx.cast_num(v, t, c.f['ret'])
    f = cx.uf('hash', cx.sort(t), cx.sort(c.f['ret'])); return f(cx.pack(v, t))

# maps ----------------------------------------------------------------------
def m_map(names):
    def d(f):
        for n in names.split():
            for t in ('map', 'unordered_map', 'set', 'unordered_set'):
                MODELS['std::%s::%s' % (t, n)] = f
        return f
    return d
class MapIt(Ptr):
    """iterator into a map: key term, or end"""
    __slots__ = ('rng', 'key', 'kt', 'vt', 'pt', 'isend', 'isset')
    def __init__(s, rng, key, m, pt, isend, isset=False):
        s.rng, s.key, s.kt, s.vt, s.pt, s.isend, s.isset = rng, key, m.kt, m.vt, pt, isend, isset
        s.ref, s.meta = Ref('mapit', ()), None
    def resolve(s, cx):
        if s.isend is None:      # begin() of a map whose emptiness has not mattered so far
            m = cx.read(s.rng); map_card(cx, m)
            if cx.branch(cx.zb(eqi(cx, m.n, 0))): s.isend = True
            else:
                s.isend = False; s.key = cx.fresh('first', cx.sort(m.kt)); cx.assume(z3.Select(m.dom, s.key))
        return s
    def deref(s, cx):
        s.resolve(cx)
        if s.isend: cx.oblige('no dereference of end iterator', False); raise PathEnd()
        if s.isset: return cx.new_cell('setelem', cx.unpack(s.key, s.kt))
        return cx.new_cell('pair', MapPair(s.rng, s.key, s.kt, s.vt, s.pt))
    def cmp(s, cx, op, o):
        if not isinstance(o, MapIt): raise Unsupported('iterator comparison')
        s.resolve(cx); o.resolve(cx)
        if s.isend or o.isend: eq = s.isend and o.isend
        else: eq = s.key == o.key
        return eq if op == '==' else NOT(eq)
    def copy(s): return s
    def __repr__(s): return 'MapIt(%s)' % ('end' if s.isend else s.key)
# dereferencing MapIt goes through elem_ref/deref
_old_deref = Ctx.deref
def _deref(s, p, what='pointer dereference'):
    if isinstance(p, MapIt): return p.deref(s)
    return _old_deref(s, p, what)
Ctx.deref = _deref
_old_pcmp = Ctx.ptr_cmp
def _pcmp(s, op, a, b):
    if isinstance(a, MapIt): return a.cmp(s, op, b)
    return _old_pcmp(s, op, a, b)
Ctx.ptr_cmp = _pcmp
def map_pt(cx, rec_t): return rec_t
def is_set(cx, c): return c.f['q'].split('::')[1] in ('set', 'unordered_set')
def mkey(cx, m, v): return cx.pack(v, m.kt)
def num_conv(cx, c, i, v, dt):
    """the arithmetic conversion a forwarding constructor applies to argument i"""
    if i >= len(c.f['pt']): return v
    pt = c.f['pt'][i]; P = cx.T(pt); pt = P['e'] if P['k'] == 'ref' else pt
    return cx.cast_num(v, pt, dt) if cx.T(pt)['k'] in ('int', 'fp', 'bool') and cx.T(dt)['k'] in ('int', 'fp', 'bool') else v
def mhas(cx, m, k): return z3.simplify(z3.Select(m.dom, k))
@m_map('map unordered_map set unordered_set')
def _(cx, c):
    if c.args and isinstance(rd(cx, c.args[0]), MapV): return vcopy(rd(cx, c.args[0]))
    if c.args and isinstance(rd(cx, c.args[0]), Arr): raise Unsupported('map from initializer list')
    return cx.default(c.node['t'])
@m_map('operator=')
def _(cx, c): cx.write(c.obj, vcopy(rd(cx, c.args[0]))); return c.obj
@m_map('size')
def _(cx, c): return cx.read(c.obj).n
@m_map('empty')
def _(cx, c):
    m = cx.read(c.obj); map_card(cx, m); return eqi(cx, m.n, 0)
def map_card(cx, m):
    """cardinality facts: n == 0 iff no key"""
    k = z3.Const('k!card', cx.sort(m.kt))
    if cx.conc(m.n) is None: cx.assume((cx.ix(m.n) == 0) == z3.ForAll([k], z3.Not(z3.Select(m.dom, k))))
def map_has_card(cx, m, k):
    if cx.conc(m.n) is None: cx.assume(z3.Implies(z3.Select(m.dom, k), cx.ix(m.n) > 0))
@m_map('count')
def _(cx, c):
    m = cx.read(c.obj); k = mkey(cx, m, rd(cx, c.args[0])); T = cx.T(c.f['ret'])
    h = cx.norm(mhas(cx, m, k))
    if isinstance(h, bool): return int(h)
    return z3.If(h, cx.zi(1, T), cx.zi(0, T))
@m_map('find')
def _(cx, c):
    m = cx.read(c.obj); k = mkey(cx, m, rd(cx, c.args[0]))
    if cx.branch(mhas(cx, m, k)): map_has_card(cx, m, k); return MapIt(c.obj, k, m, pair_type(cx, c), False, is_set(cx, c))
    return MapIt(c.obj, None, m, None, True, is_set(cx, c))
def pair_type(cx, c): return None
@m_map('end cend')
def _(cx, c): return MapIt(c.obj, None, cx.read(c.obj), None, True, is_set(cx, c))
@m_map('begin cbegin')
def _(cx, c):
    return MapIt(c.obj, None, cx.read(c.obj), None, None, is_set(cx, c))
def map_put(cx, r, k, val, m=None):
    m = vcopy(cx.read(r))
    had = z3.Select(m.dom, k)
    m.val = z3.Store(cx.map_val(m), k, cx.pack(val, m.vt)); 
    m.n = cx.norm(z3.If(had, cx.ix(m.n), cx.ix(m.n) + 1)); m.dom = z3.Store(m.dom, k, z3.BoolVal(True))
    cx.write(r, m)
@m_map('operator[]')
def _(cx, c):
    m = cx.read(c.obj); k = mkey(cx, m, rd(cx, c.args[0]))
    if not cx.branch(mhas(cx, m, k)): map_put(cx, c.obj, k, cx.default(m.vt, True))
    return Ref(c.obj.cell, c.obj.path + (('k', k),))
@m_map('at')
def _(cx, c):
    m = cx.read(c.obj); k = mkey(cx, m, rd(cx, c.args[0]))
    if not cx.branch(mhas(cx, m, k)): raise Throw('std::out_of_range', cx.cur_line)
    return Ref(c.obj.cell, c.obj.path + (('k', k),))
@m_map('emplace insert try_emplace emplace_hint')
def _(cx, c):
    m = cx.read(c.obj); args = list(c.args)
    if len(args) == 2 and c.f['s'] == 'insert' and isinstance(rd(cx, args[0]), Ptr): raise Unsupported('map::insert(range)')
    if is_set(cx, c):
        k = mkey(cx, m, rd(cx, args[0])); val = True
    elif len(args) == 1:
        v = rd(cx, args[0]); k = mkey(cx, m, v.f['first']); val = v.f['second']
    else: k = mkey(cx, m, num_conv(cx, c, 0, rd(cx, args[0]), m.kt)); val = num_conv(cx, c, 1, vcopy(rd(cx, args[1])), m.vt) if len(args) > 1 else cx.default(m.vt, True)
    ins = not cx.branch(mhas(cx, m, k))
    if ins: map_put(cx, c.obj, k, val)
    it = MapIt(c.obj, k, m, None, False, is_set(cx, c))
    R = cx.T(c.f['ret'])
    if R.get('q') == 'std::pair': return Rec(c.f['ret'], {'first': it, 'second': ins})
    return it
@m_map('erase')
def _(cx, c):
    m = vcopy(cx.read(c.obj)); a = rd(cx, c.args[0])
    if isinstance(a, MapIt):
        a.resolve(cx)
        if a.isend: cx.oblige('no erase of end iterator', False); raise PathEnd()
        k = a.key; cx.oblige('erase of a valid iterator', z3.Select(m.dom, k))
    else: k = mkey(cx, m, a)
    had = z3.Select(m.dom, k)
    n0 = m.n
    map_has_card(cx, m, k)
    m.n = cx.norm(z3.If(had, cx.ix(m.n) - 1, cx.ix(m.n))); m.dom = z3.Store(m.dom, k, z3.BoolVal(False))
    cx.write(c.obj, m)
    if isinstance(a, MapIt): return MapIt(c.obj, None, m, None, True, is_set(cx, c))
    T = cx.T(c.f['ret']); return cx.norm(z3.If(had, cx.zi(1, T), cx.zi(0, T)))
@m_map('clear')
def _(cx, c):
    m = cx.read(c.obj); cx.write(c.obj, MapV(m.kt, m.vt, z3.K(cx.sort(m.kt), z3.BoolVal(False)), m.val, 0))
@m_map('swap')
def _(cx, c):
    o = c.args[0]; a, b = cx.read(c.obj), cx.read(o); cx.write(c.obj, b); cx.write(o, a)
@m_map('reserve rehash')
def _(cx, c): return None

# smart pointers --------------------------------------------------------------
@model('std::make_shared', 'std::make_unique')
def _(cx, c):
    T = cx.T(c.f['ret']); et = T['a'][0]['t']
    h = cx.hooks.get('make_shared')
    if h:
        r = h(cx, c, et)
        if r is not None: return r
    # find the constructor with as many parameters
    if not c.args: v = cx.default(et, True)
    else: v = None
    for fid, f in enumerate(cx.prog.funcs):
        if f.get('ctor') and fid in cx.prog.bodies and cx.prog.tname(f['rec']) == cx.prog.tname(et) and len(f['pt']) == len(c.args):
            r = cx.new_cell('heap', cx.default(et)); cx.call_body(fid, r, c.args); cx.ghost.setdefault('heap', {})[r.cell] = 'object'
            return Ptr(r)
    if v is None:
        if len(c.args) == 1: v = vcopy(rd(cx, c.args[0]))
        else: raise Unsupported('make_shared')
    r = cx.new_cell('heap', v); cx.ghost.setdefault('heap', {})[r.cell] = 'object'
    return Ptr(r)
@model_re(r'^std::(shared_ptr|unique_ptr|__shared_ptr)::(shared_ptr|unique_ptr|__shared_ptr)$')
def _(cx, c):
    if not c.args: return NULL
    v = rd(cx, c.args[0])
    if c.f.get('move') and isinstance(c.args[0], Ref) : cx.write(c.args[0], NULL)
    return v if isinstance(v, Ptr) else NULL
@model_re(r'^std::(shared_ptr|unique_ptr|__shared_ptr)::operator=$')
def _(cx, c):
    v = rd(cx, c.args[0]); cx.write(c.obj, v if isinstance(v, Ptr) else NULL); return c.obj
@model_re(r'^std::(shared_ptr|unique_ptr|__shared_ptr)::(reset|swap)$')
def _(cx, c):
    if c.f['s'] == 'reset': cx.write(c.obj, rd(cx, c.args[0]) if c.args else NULL); return None
    a, b = cx.read(c.obj), cx.read(c.args[0]); cx.write(c.obj, b); cx.write(c.args[0], a)
@model('std::dynamic_pointer_cast', 'std::static_pointer_cast', 'std::const_pointer_cast')
def _(cx, c):
    p = rd(cx, c.args[0])
    if c.f['q'].endswith('dynamic_pointer_cast'):
        h = cx.hooks.get('dynamic_pointer_cast')
        if h: return h(cx, c, p)
        raise Unsupported('dynamic_pointer_cast')
    return p

# protobuf Id message (generated accessors): a repeated uint64 field
@default_of('aslam::proto::Id')
def _(cx, t): return Rec(t, {'uint': None})
@model('aslam::proto::Id::uint', 'aslam::proto::Id::_internal_uint')
def _(cx, c):
    if c.args: i = rd(cx, c.args[0]); cx.in_bounds(i, cx.read(c.obj.fld('uint')).n, 'uint(i)'); return cx.read(c.obj.fld('uint').at(i))
    return c.obj.fld('uint')
@model('aslam::proto::Id::mutable_uint')
def _(cx, c): return Ptr(c.obj.fld('uint'))
@model('aslam::proto::Id::uint_size')
def _(cx, c):
    n = cx.read(c.obj.fld('uint')).n
    return n if cx.mode == 'int' or isinstance(n, int) else z3.Extract(31, 0, n)
@model('aslam::proto::Id::clear_uint', 'aslam::proto::Id::Clear')
def _(cx, c): cx.write(c.obj.fld('uint'), Vec(cx.read(c.obj.fld('uint')).et, items=[]))
@model('aslam::proto::Id::add_uint')
def _(cx, c): push(cx, c.obj.fld('uint'), rd(cx, c.args[0]))
@model('aslam::proto::Id::set_uint')
def _(cx, c):
    i = rd(cx, c.args[0]); cx.in_bounds(i, cx.read(c.obj.fld('uint')).n, 'set_uint'); cx.write(c.obj.fld('uint').at(i), rd(cx, c.args[1]))
RF = 'google::protobuf::RepeatedField::'
@model(RF + 'Add')
def _(cx, c):
    if c.args: push(cx, c.obj, rd(cx, c.args[0])); return None
    v = cx.read(c.obj); push(cx, c.obj, Undef(v.et) if v.items is not None else cx.sym('added', v.et))
    return Ptr(c.obj.at(sub(cx, cx.read(c.obj).n, 1)))
@model(RF + 'data', RF + 'mutable_data', RF + 'begin')
def _(cx, c): return Ptr(c.obj.at(0))
@model(RF + 'size')
def _(cx, c):
    n = cx.read(c.obj).n
    return n if cx.mode == 'int' or isinstance(n, int) else z3.Extract(31, 0, n)
@model(RF + 'Get')
def _(cx, c): i = rd(cx, c.args[0]); cx.in_bounds(i, cx.read(c.obj).n); return c.obj.at(i)
@model(RF + 'Set')
def _(cx, c): i = rd(cx, c.args[0]); cx.in_bounds(i, cx.read(c.obj).n); cx.write(c.obj.at(i), rd(cx, c.args[1]))
@model(RF + 'Clear')
def _(cx, c): cx.write(c.obj, Vec(cx.read(c.obj).et, items=[]))
@model(RF + 'Resize', RF + 'Reserve')
def _(cx, c):
    if c.f['s'] == 'Reserve': return None
    n = cx.conc(rd(cx, c.args[0])); v = cx.read(c.obj)
    if n is None: raise Unsupported('Resize')
    items = [cx.vec_get(v, i) for i in range(min(n, cx.conc(v.n) if cx.conc(v.n) is not None else 0))]
    if cx.conc(v.n) is None: raise Unsupported('Resize of symbolic field')
    while len(items) < n: items.append(rd(cx, c.args[1]))
    cx.write(c.obj, Vec(v.et, items=items))

# atomics: every operation is one indivisible step on the value
AT = r'^std::(atomic|__atomic_base)::'
@default_of('std::atomic', 'std::__atomic_base')
def _(cx, t): return Rec(t, {'v': 0})
def at_cell(cx, c):
    r = c.obj
    v = cx.read(r)
    if isinstance(v, Rec): r = r.fld('v')
    return r
@model_re(AT + r'(atomic|__atomic_base)$')
def _(cx, c):
    t = c.node['t']
    return Rec(t, {'v': rd(cx, c.args[0]) if c.args else 0})
@model_re(AT + r'(operator\+\+|operator--|operator\+=|operator-=|fetch_add|fetch_sub|operator\^=|fetch_xor|operator\|=|fetch_or|operator&=|fetch_and|exchange|store|operator=)$')
def _(cx, c):
    n = c.f['s']
    h = cx.hooks.get('atomic')
    if h:
        r = h(cx, c)
        if r is not None: return r[0]
    r = at_cell(cx, c); old = cx.read(r); T = cx.T(c.f['ret'])
    t = c.f['ret'] if T['k'] == 'int' else (c.f['pt'][0])
    a = rd(cx, c.args[0]) if c.args else 1
    if n in ('operator++', 'operator--'): a = 1
    if n in ('operator++', 'operator+=', 'fetch_add'): new = cx.arith('+', old, a, t)
    elif n in ('operator--', 'operator-=', 'fetch_sub'): new = cx.arith('-', old, a, t)
    elif n in ('operator^=', 'fetch_xor'): new = cx.arith('^', old, a, t)
    elif n in ('operator|=', 'fetch_or'): new = cx.arith('|', old, a, t)
    elif n in ('operator&=', 'fetch_and'): new = cx.arith('&', old, a, t)
    else: new = a
    cx.write(r, new)
    if n.startswith('fetch') or n == 'exchange' or (n in ('operator++', 'operator--') and c.f['pt']): return old
    return new
@model_re(AT + r'(load|operator .*)$')
def _(cx, c):
    h = cx.hooks.get('atomic')
    if h:
        r = h(cx, c)
        if r is not None: return r[0]
    return cx.read(at_cell(cx, c))

# time: the clock is an arbitrary value
@model('std::chrono::system_clock::now', 'std::chrono::_V2::system_clock::now', 'std::chrono::_V2::steady_clock::now', 'std::chrono::steady_clock::now')
def _(cx, c): return ('clock', cx.fresh('clock', z3.IntSort() if cx.mode == 'int' else z3.BitVecSort(64)))
@model('std::chrono::time_point::time_since_epoch', 'std::chrono::duration_cast', 'std::chrono::time_point_cast')
def _(cx, c): return rd(cx, c.obj) if c.obj is not None else rd(cx, c.args[0])
@model('std::chrono::duration::count')
def _(cx, c):
    v = rd(cx, c.obj)
    if isinstance(v, tuple): return v[1]
    raise Unsupported('duration::count')
core.SYM_TYPES['aslam::proto::Id'] = lambda s, base, t: Rec(t, {'uint': Vec(u64_t(s), s_len(s, base), s.fresh(base + '.arr', z3.ArraySort(s.isort(), s.sort(u64_t(s)))))})
def u64_t(cx): return cx.type_named('u64')
def s_len(cx, base):
    n = cx.fresh(base + '.len', cx.isort()); cx.assume_len(n)
    if cx.mode == 'int': cx.assume(n < (1 << 31))
    else: cx.assume(z3.ULT(n, 1 << 31))
    return n
@model('std::__str_hash_base::operator()')
def _(cx, c):
    v = rd(cx, c.args[0]); n = cx.conc(v.n)
    if n is None: raise Unsupported('string hash of symbolic length')
    so = cx.sort(v.et); f = cx.uf('strhash%d' % n, *([so] * n + [cx.sort(c.f['ret'])]))
    a = [cx.pack(cx.vec_get(v, i), v.et) for i in range(n)]
    return f(*a) if n else z3.Const('strhash0', cx.sort(c.f['ret']))

def ty_name(cx, v): v = cx.read(v) if isinstance(v, Ref) else v; return v[1] if isinstance(v, tuple) else v
@model('std::type_info::operator==')
def m_ti_eq(cx, c): return ty_name(cx, c.obj) == ty_name(cx, c.args[0])
@model('std::type_info::operator!=')
def m_ti_ne(cx, c): return ty_name(cx, c.obj) != ty_name(cx, c.args[0])
@model('std::type_info::name', 'std::exception::what', 'std::runtime_error::what', 'std::logic_error::what')
def m_text(cx, c):
    """some text"""
    return Ptr(cx.new_cell('text', Vec(cx.T(c.f['ret'])['e'], items=[0])).at(0))
