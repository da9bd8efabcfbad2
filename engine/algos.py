"""Contracts of std algorithms, insert iterators and random engines."""
import z3
from core import *
from models import *
import models, core
# insert iterators -------------------------------------------------------------
class InsIt(Obj):
    def __init__(s, ref, et): s.ref, s.et = ref, et
    def havoc(s, cx, base): return s
@model('std::back_inserter')
def _(cx, c): return InsIt(c.args[0], cx.read(c.args[0]).et)
@model('std::inserter')
def _(cx, c):
    it = rd(cx, c.args[1]); v = cx.read(c.args[0])
    if not isinstance(v, Vec) or not cx.valid(cx.zb(eqi(cx, it.ref.path[-1][1], v.n))): raise Unsupported('inserter not at the end')
    return InsIt(c.args[0], v.et)
@model('std::back_insert_iterator::back_insert_iterator', 'std::insert_iterator::insert_iterator')
def _(cx, c): return rd(cx, c.args[0])
@model_re(r'^std::(back_)?insert_iterator::operator(\*|\+\+)$')
def _(cx, c): return c.obj
@model_re(r'^std::(back_)?insert_iterator::operator=$')
def _(cx, c):
    it = rd(cx, c.obj); v = rd(cx, c.args[0])
    if isinstance(v, InsIt): cx.write(c.obj, v); return c.obj
    push(cx, it.ref, v.as_elem(cx, it.et) if hasattr(v, 'as_elem') else v); return c.obj
# ranges -----------------------------------------------------------------------
def span(cx, b, e):
    """(container ref, first index, length) of the iterator range [b, e)"""
    if not (isinstance(b, Ptr) and isinstance(e, Ptr)) or b.ref is None: raise Unsupported('iterator range')
    base, off = Ref(b.ref.cell, b.ref.path[:-1]), b.ref.path[-1][1]
    n = cx.ptr_diff(e, b); v = cx.read(base)
    if not isinstance(v, (Vec, Arr)): raise Unsupported('range of %r' % type(v))
    ln = len(v.items) if isinstance(v, Arr) else v.n
    cx.oblige('memory access in bounds', AND(le(cx, 0, off), le(cx, 0, n), le(cx, add(cx, off, n), ln)), 'iterator range')
    return base, off, n
def append_range(cx, ref, v, off, n):
    """append v[off, off+n) to the vector at ref"""
    d = vcopy(cx.read(ref)); k = cx.conc(n)
    if k is not None and k <= 8:
        for i in range(k): push(cx, ref, vcopy(cx.vec_get(v, add(cx, off, i))))
        return
    cx.vec_sym(d); S = cx.vec_arr(v); R = cx.fresh('app', d.arr.sort()); j = z3.Const('j!app', cx.isort()); n0 = cx.ix(d.n)
    cx.assume(z3.ForAll([j], z3.Select(R, j) == z3.If(z3.And(j >= n0, j < n0 + cx.ix(n)), z3.Select(S, cx.ix(off) + j - n0), z3.Select(d.arr, j)), patterns=[z3.Select(R, j)]))
    cx.write(ref, Vec(d.et, cx.norm(n0 + cx.ix(n)), R))
@model('std::copy')
def _(cx, c):
    b, e, o = rd(cx, c.args[0]), rd(cx, c.args[1]), rd(cx, c.args[2])
    base, off, n = span(cx, b, e); v = cx.read(base)
    if isinstance(o, InsIt): append_range(cx, o.ref, vcopy(v), off, n); return o
    db, do = Ref(o.ref.cell, o.ref.path[:-1]), o.ref.path[-1][1]; d = vcopy(cx.read(db)); k = cx.conc(n)
    ln = len(d.items) if isinstance(d, Arr) else d.n
    cx.oblige('memory access in bounds', le(cx, add(cx, do, n), ln), 'copy target')
    if k is not None and k <= 64:
        xs = [vcopy(cx.vec_get(v, add(cx, off, i))) for i in range(k)]
        for i, x in enumerate(xs): cx.write(db.at(add(cx, do, i)), x)
    else:
        if isinstance(d, Arr): raise Unsupported('copy into an array')
        cx.vec_sym(d); S = cx.vec_arr(v); R = cx.fresh('cpy', d.arr.sort()); j = z3.Const('j!cpy', cx.isort()); z = cx.ix(do)
        cx.assume(z3.ForAll([j], z3.Select(R, j) == z3.If(z3.And(j >= z, j < z + cx.ix(n)), z3.Select(S, cx.ix(off) + j - z), z3.Select(d.arr, j)), patterns=[z3.Select(R, j)]))
        d.arr = R; cx.write(db, d)
    return cx.ptr_add(o, n)
@model('std::fill')
def _(cx, c):
    base, off, n = span(cx, rd(cx, c.args[0]), rd(cx, c.args[1])); x = rd(cx, c.args[2]); k = cx.conc(n); d = vcopy(cx.read(base))
    if k is not None and k <= 64:
        for i in range(k): cx.write(base.at(add(cx, off, i)), vcopy(x))
        return
    cx.vec_sym(d); R = cx.fresh('fill', d.arr.sort()); j = z3.Const('j!fill', cx.isort()); X = cx.pack(x, d.et)
    cx.assume(z3.ForAll([j], z3.Select(R, j) == z3.If(z3.And(j >= cx.ix(off), j < cx.ix(off) + cx.ix(n)), X, z3.Select(d.arr, j)), patterns=[z3.Select(R, j)])); d.arr = R; cx.write(base, d)
# comparisons as formulas --------------------------------------------------------
def elem_op(cx, op, a, b, et):
    """a op b as the element type defines it"""
    if cx.T(et)['k'] != 'rec': return cx.compare(op, a, b, et)
    for i, f in enumerate(cx.prog.funcs):
        if f['s'] == 'operator' + op and len(f['pt']) == 1 and 'rec' in f and cx.prog.tname(f['rec']) == cx.prog.tname(et) and i in cx.prog.bodies:
            return rd(cx, cx.call_body(i, cx.new_cell('cmpa', a), [cx.new_cell('cmpb', b)]))
    raise Unsupported('operator%s of %s' % (op, cx.prog.tname(et)))
@model_re(r'^std::(greater|less)::(greater|less)$')
def _(cx, c): return Rec(c.node['t'], {})
def less_fn(cx, cmp, et):
    """(x, y) -> formula 'x before y' over element terms"""
    so = cx.sort(et); x, y = cx.fresh('x', so), cx.fresh('y', so); n0 = len(cx.dec)
    a, b = cx.unpack(x, et), cx.unpack(y, et)
    cv = rd(cx, cmp) if cmp is not None else None
    if isinstance(cv, Rec) and cx.T(cv.t)['q'] in ('std::greater', 'std::less'): f = elem_op(cx, '>' if cx.T(cv.t)['q'] == 'std::greater' else '<', a, b, et)
    elif cmp is None: f = elem_op(cx, '<', a, b, et)
    else: f = rd(cx, cx.call_functor(cmp, [cx.new_cell('cmpa', a), cx.new_cell('cmpb', b)]))
    if any(d[1] for d in cx.dec[n0:]): raise Unsupported('branching comparison in an algorithm')
    f = cx.zb(f)
    return lambda p, q: z3.substitute(f, (x, p), (y, q))
class Perm:
    """R is a rearrangement of A on [off, off+n): R[j] = A[pi(j)], rho inverse of pi"""
    def __init__(s, A, R, off, n, pi, rho, kind, k=None): s.A, s.R, s.off, s.n, s.pi, s.rho, s.kind, s.k = A, R, off, n, pi, rho, kind, k
    def at(s, cx, j):
        """the instance for j of what permute assumes"""
        q = lambda t: z3.And(t >= s.off, t < s.off + s.n)
        cx.assume(z3.Implies(q(j), z3.And(q(s.pi(j)), z3.Select(s.R, j) == z3.Select(s.A, s.pi(j)), s.rho(s.pi(j)) == j)))
def arr_atom(cx, t):
    """a name for an array term that could not be used in a quantifier pattern"""
    if 'if' not in {x.decl().name() for x in walk(t)}: return t
    a = cx.fresh('arr', t.sort()); cx.assume(a == t); return a
def walk(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen or not z3.is_app(t): return
    seen.add(t.get_id()); yield t
    for c in t.children(): yield from walk(c, seen)
def permute(cx, base, off, n, kind):
    d = vcopy(cx.read(base))
    if isinstance(d, Arr): raise Unsupported('%s on an array' % kind)
    cx.vec_sym(d); A = arr_atom(cx, d.arr); R = cx.fresh('perm', A.sort()); I = cx.isort()
    cx.fresh_n += 1; pi, rho = z3.Function('pi!%d' % cx.fresh_n, I, I), z3.Function('rho!%d' % cx.fresh_n, I, I)
    j = z3.Const('j!perm', I); o, m = cx.ix(off), cx.ix(off) + cx.ix(n); inr = lambda t: z3.And(t >= o, t < m)
    cx.assume(z3.ForAll([j], z3.Implies(inr(j), z3.And(inr(pi(j)), z3.Select(R, j) == z3.Select(A, pi(j)), rho(pi(j)) == j)), patterns=[z3.Select(R, j)]))
    cx.assume(z3.ForAll([j], z3.Implies(inr(j), z3.And(inr(rho(j)), z3.Select(R, rho(j)) == z3.Select(A, j), pi(rho(j)) == j)), patterns=[rho(j)]))
    cx.assume(z3.ForAll([j], z3.Implies(z3.Not(inr(j)), z3.Select(R, j) == z3.Select(A, j)), patterns=[z3.Select(R, j)]))
    cx.write(base, Vec(d.et, d.n, R)); P = Perm(A, R, o, cx.ix(n), pi, rho, kind); cx.ghost.setdefault('perms', []).append(P)
    return P, d.et
def trivial(cx, n): k = cx.conc(n); return k is not None and k <= 1
@model('std::sort', 'std::stable_sort')
def _(cx, c):
    base, off, n = span(cx, rd(cx, c.args[0]), rd(cx, c.args[1]))
    if trivial(cx, n): return
    P, et = permute(cx, base, off, n, 'sort'); lt_ = less_fn(cx, c.args[2] if len(c.args) > 2 else None, et)
    i, j = z3.Const('i!so', cx.isort()), z3.Const('j!so', cx.isort())
    cx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= P.off, i < j, j < P.off + P.n), z3.Not(lt_(z3.Select(P.R, j), z3.Select(P.R, i)))), patterns=[z3.MultiPattern(z3.Select(P.R, i), z3.Select(P.R, j))]))
    if cx.hooks.get('sort'): cx.hooks['sort'](cx, P, len(c.args) > 2, P.n)
@model('std::partial_sort')
def _(cx, c):
    b, m, e = [rd(cx, a) for a in c.args[:3]]
    base, off, n = span(cx, b, e); k = cx.ptr_diff(m, b); cx.oblige('memory access in bounds', AND(le(cx, 0, k), le(cx, k, n)), 'partial_sort')
    P, et = permute(cx, base, off, n, 'partial_sort'); lt_ = less_fn(cx, c.args[3] if len(c.args) > 3 else None, et); P.k = cx.ix(k)
    i, j = z3.Const('i!so', cx.isort()), z3.Const('j!so', cx.isort())
    cx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= P.off, i < j, i < P.off + P.k, j < P.off + P.n), z3.Not(lt_(z3.Select(P.R, j), z3.Select(P.R, i)))), patterns=[z3.MultiPattern(z3.Select(P.R, i), z3.Select(P.R, j))]))
    if cx.hooks.get('sort'): cx.hooks['sort'](cx, P, len(c.args) > 3, P.k)
@model('std::nth_element')
def _(cx, c):
    b, m, e = [rd(cx, a) for a in c.args[:3]]
    base, off, n = span(cx, b, e); k = cx.ptr_diff(m, b); cx.oblige('memory access in bounds', AND(le(cx, 0, k), le(cx, k, n)), 'nth_element')
    P, et = permute(cx, base, off, n, 'nth_element'); lt_ = less_fn(cx, c.args[3] if len(c.args) > 3 else None, et); P.k = cx.ix(k); K = P.off + P.k
    j = z3.Const('j!so', cx.isort()); x = z3.Select(P.R, K)
    cx.assume(z3.Implies(P.k < P.n, z3.ForAll([j], z3.Implies(z3.And(j >= P.off, j < P.off + P.n), z3.And(z3.Implies(j < K, z3.Not(lt_(x, z3.Select(P.R, j)))), z3.Implies(j > K, z3.Not(lt_(z3.Select(P.R, j), x))))), patterns=[z3.Select(P.R, j)])))
    h = cx.hooks.get('nth_element')
    if h: h(cx, P, len(c.args) > 3)
@model('std::min_element', 'std::max_element')
def _(cx, c):
    b = rd(cx, c.args[0]); base, off, n = span(cx, b, rd(cx, c.args[1])); v = vcopy(cx.read(base)); k = cx.conc(n)
    if k == 0: return b
    mx = c.f['q'] == 'std::max_element'
    if isinstance(v, Arr): v = Vec(v.et, items=list(v.items))
    cx.vec_sym(v); lt_ = less_fn(cx, c.args[2] if len(c.args) > 2 else None, v.et); arr = arr_atom(cx, v.arr); at = lambda i: z3.Select(arr, i)
    p = cx.fresh('ext', cx.isort()); j = z3.Const('j!ext', cx.isort()); o, m = cx.ix(off), cx.ix(off) + cx.ix(n)
    some = z3.And(p >= o, p < m); bt = (lambda x, y: lt_(y, x)) if mx else lt_      # bt: x strictly better than y
    first = z3.ForAll([j], z3.Implies(z3.And(j >= o, j < m), z3.And(z3.Not(bt(at(j), at(p))), z3.Implies(j < p, bt(at(p), at(j))))), patterns=[at(j)])
    cx.assume(z3.If(cx.ix(n) > 0, z3.And(some, first), p == o))
    if cx.hooks.get('extremum'): cx.hooks['extremum'](cx, arr, o, cx.ix(n), at(p), mx, len(c.args) > 2)
    return Ptr(base.at(cx.norm(p)))
@model('std::accumulate')
def _(cx, c):
    b = rd(cx, c.args[0]); base, off, n = span(cx, b, rd(cx, c.args[1])); v = vcopy(cx.read(base)); init = rd(cx, c.args[2])
    if isinstance(v, Arr): v = Vec(v.et, items=list(v.items))
    acc_t = c.f['ret']; real = cx.T(acc_t)['k'] == 'fp'
    if not real or cx.T(v.et)['k'] != 'fp': raise Unsupported('std::accumulate of integers')
    def op(a, x):
        if len(c.args) < 4: return a + x
        return cx.zr(rd(cx, cx.call_functor(c.args[3], [cx.new_cell('acc', a), cx.new_cell('x', x)])))
    k = cx.conc(n)
    if k is not None and k <= 64:
        for i in range(k): init = op(cx.zr(init), cx.zr(cx.read(base.at(add(cx, off, i)))))
        return init
    cx.vec_sym(v); h = cx.hooks.get('accumulate'); r = h(cx, v.arr, cx.ix(off), cx.ix(n), init, op) if h else None
    if r is None: raise Unsupported('std::accumulate without a ghost sum')
    return r
@model('std::find')
def _(cx, c):
    b = rd(cx, c.args[0]); base, off, n = span(cx, b, rd(cx, c.args[1])); v = vcopy(cx.read(base)); x = rd(cx, c.args[2])
    if isinstance(v, Arr): v = Vec(v.et, items=list(v.items))
    cx.vec_sym(v); X = cx.pack(x, v.et); p = cx.fresh('found', cx.isort()); j = z3.Const('j!fi', cx.isort()); o, m = cx.ix(off), cx.ix(off) + cx.ix(n)
    cx.assume(z3.And(p >= o, p <= m, z3.Implies(p < m, z3.Select(v.arr, p) == X), z3.ForAll([j], z3.Implies(z3.And(j >= o, j < p), z3.Select(v.arr, j) != X), patterns=[z3.Select(v.arr, j)])))
    return Ptr(base.at(cx.norm(p)))
# random numbers -------------------------------------------------------------------
class Dist(Obj):
    def __init__(s, lo, hi): s.lo, s.hi = lo, hi
@model_re(r'^std::(linear_congruential_engine|mersenne_twister_engine)::')
def _(cx, c):
    if c.f['s'].startswith('operator()'): return cx.fresh('random', cx.sort(c.f['ret']))
    return Rec(c.node['t'] if c.node and 't' in c.node else None, {'engine': 0})
@model('std::random_device::random_device')
def _(cx, c): return Rec(c.node['t'], {'device': 0})
@model('std::random_device::operator()')
def _(cx, c):
    v = cx.fresh('device', cx.isort()); cx.assume(z3.And(v >= 0, v < 2**32)); return v
@model('std::uniform_int_distribution::uniform_int_distribution')
def _(cx, c):
    if len(c.args) == 1: return rd(cx, c.args[0])
    lo = rd(cx, c.args[0]) if c.args else 0; hi = rd(cx, c.args[1]) if len(c.args) > 1 else 2**31 - 1
    cx.oblige('a distribution needs a non-empty range', le(cx, lo, hi)); return Dist(lo, hi)
@model('std::uniform_int_distribution::operator()')
def _(cx, c):
    d = rd(cx, c.obj); v = cx.fresh('drawn', cx.isort()); cx.assume(z3.And(v >= cx.ix(d.lo), v <= cx.ix(d.hi))); return v
@model('std::generate_n')
def _(cx, c):
    """out = generate_n(out, count, gen): a loop over the generator, exact for a concrete count, else by invariant"""
    out = cx.new_cell('out', rd(cx, c.args[0])); n = rd(cx, c.args[1]); gen = c.args[2]; k = cx.conc(n)
    def one():
        v = rd(cx, cx.call_functor(gen, [])); o = cx.read(out)
        if isinstance(o, InsIt): push(cx, o.ref, v)
        else: cx.check_ref(o.ref); cx.write(o.ref, v); cx.write(out, cx.ptr_add(o, 1))
    if k is not None and k <= 64:
        for _ in range(k): one()
        return cx.read(out)
    i = cx.new_cell('idx', 0 if cx.mode == 'int' else z3.BitVecVal(0, 64)); tbl = cx.__dict__.setdefault('_gen_nodes', {}); node = tbl.setdefault(id(c.node), {'k': 'for', 'l': cx.cur_line, 'c': {'k': 'gen'}})
    g = cx.read(gen) if isinstance(gen, Ref) else gen
    spec = cx.loop_spec(node, True)
    if spec is None: raise Unsupported('generate_n needs an invariant')
    def inc(): cx.write(i, add(cx, cx.read(i), 1))
    cx.loop(node, lambda: lt(cx, cx.read(i), n), {'k': 'pybody', 'l': cx.cur_line, 'f': one, 's': {'k': 'nop', 'l': cx.cur_line}}, inc, spec=spec, idx=i, view_extra={'functor': g})
    return cx.read(out)
@model('std::random_shuffle', 'std::shuffle')
def _(cx, c):
    base, off, n = span(cx, rd(cx, c.args[0]), rd(cx, c.args[1]))
    if not trivial(cx, n): permute(cx, base, off, n, 'shuffle')
