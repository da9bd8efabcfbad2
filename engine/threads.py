"""Contracts of std::function, bind, packaged_task, future, thread and quantified algorithms."""
import z3
from core import *
from models import *
import models, core
FN = z3.DeclareSort('Function')
FNULL = z3.Const('function.null', FN)
EXTRA_SORTS['std::function'] = lambda cx, t: FN
EXTRA_UNPACK['std::function'] = lambda cx, z, t: z
SYM_TYPES['std::function'] = lambda cx, base, t: cx.fresh(base, FN)
@default_of('std::function')
def _(cx, t): return FNULL
def to_fn(cx, v):
    """the std::function term holding callable v"""
    if isz(v) and v.sort() == FN: return v
    if isinstance(v, Ptr) and v.ref is None: return FNULL
    tbl = cx.ghost.setdefault('callables', {})
    for k, (t, c) in tbl.items():
        if c is v: return t
    t = cx.fresh('callable', FN); cx.assume(t != FNULL)
    tbl[t.sexpr()] = (t, v); return t
Closure.pack = lambda s, cx, t: to_fn(cx, s)
@model('std::function::function')
def _(cx, c):
    if not c.args: return FNULL
    return to_fn(cx, rd(cx, c.args[0]))
@model('std::function::operator=')
def _(cx, c): cx.write(c.obj, to_fn(cx, rd(cx, c.args[0]))); return c.obj
@model('std::function::operator bool')
def _(cx, c): return to_fn(cx, rd(cx, c.obj)) != FNULL
@model('std::function::swap')
def _(cx, c): a, b = rd(cx, c.obj), rd(cx, c.args[0]); cx.write(c.obj, b); cx.write(c.args[0], a)
@model('std::function::operator()')
def _(cx, c):
    f = to_fn(cx, rd(cx, c.obj))
    cx.oblige('no call of an empty function', f != FNULL)
    h = cx.hooks.get('function_call')
    if h: return h(cx, f, c)
    e = cx.ghost.get('callables', {}).get(z3.simplify(f).sexpr())
    if not e: raise Unsupported('call of an unknown function')
    return cx.call_functor(e[1], c.args)
class Bind(Obj):
    def __init__(s, fn, args): s.fn, s.args = fn, args
    def pack(s, cx, t): return to_fn(cx, s)
    def call(s, cx, args, node):
        h = cx.hooks.get('bind_call')
        if h: return h(cx, s, args)
        raise Unsupported('call of a bind expression')
@model('std::bind')
def _(cx, c): return Bind(rd(cx, c.args[0]), [rd(cx, a) for a in c.args[1:]])
class Task_(Obj):
    """packaged task: what it calls, how often it was run, whether its future was taken"""
    def __init__(s, fn): s.fn, s.runs, s.futures = fn, 0, 0
@model('std::packaged_task::packaged_task')
def _(cx, c):
    if not c.args: return Task_(None)
    v = rd(cx, c.args[0]); return v if isinstance(v, Task_) else Task_(v)
def as_task(cx, r):
    v = cx.read(r)
    if not isinstance(v, Task_): v = Task_(v); cx.store[r.cell] = cx._upd(cx.store[r.cell], r.path, v) if r.path else v
    return v
class Future(Obj):
    def __init__(s, task): s.task = task
@model('std::packaged_task::get_future')
def _(cx, c):
    t = as_task(cx, c.obj); t.futures += 1
    cx.oblige('the future of a task is taken once', t.futures == 1); return Future(t)
@model('std::packaged_task::operator()')
def _(cx, c):
    t = as_task(cx, c.obj); t.runs += 1
    cx.oblige('a packaged task is run at most once', t.runs == 1)
    if t.fn is not None: return cx.call_functor(t.fn, c.args)
@model('std::future::future')
def _(cx, c): return rd(cx, c.args[0]) if c.args else Future(None)
@model('std::future::operator=')
def _(cx, c): cx.write(c.obj, rd(cx, c.args[0])); return c.obj
@model('std::future::valid')
def _(cx, c): return rd(cx, c.obj).task is not None
# threads: True = started and not yet joined
EXTRA_SORTS['std::thread'] = lambda cx, t: z3.BoolSort()
EXTRA_UNPACK['std::thread'] = lambda cx, z, t: cx.norm(z)
SYM_TYPES['std::thread'] = lambda cx, base, t: cx.fresh(base, z3.BoolSort())
@default_of('std::thread')
def _(cx, t): return False
def start(cx, v):
    h = cx.hooks.get('thread_start')
    if not h: raise Unsupported('thread start')
    h(cx, v); return True
def make_thread(cx, args):
    if not args: return False
    v = rd(cx, args[0])
    if isinstance(v, bool) or isz(v): return v
    if len(args) > 1: v = Bind(v, [rd(cx, a) for a in args[1:]])
    return start(cx, v)
@model('std::thread::thread')
def _(cx, c): return make_thread(cx, c.args)
models.ELEMENT_CTORS['std::thread'] = make_thread
@model('std::thread::joinable')
def _(cx, c): return rd(cx, c.obj)
@model('std::thread::join', 'std::thread::detach')
def _(cx, c):
    cx.oblige('only a running thread is joined', cx.zb(rd(cx, c.obj)))
    h = cx.hooks.get('thread_join')
    if h: h(cx, c)
    cx.write(c.obj, False)
# quantified algorithms -------------------------------------------------------
def quantified(cx, b, e, pred):
    """(bound variable, in-range formula, predicate formula) of pred over [b, e)"""
    n0 = len(cx.dec)
    if isinstance(b, MapIt):
        m = cx.read(b.rng)
        k = cx.fresh('elem', cx.sort(m.kt)); dom = z3.Select(m.dom, k)
        pair = Rec(None, {'first': cx.unpack(k, m.kt), 'second': cx.unpack(z3.Select(cx.map_val(m), k), m.vt)})
        el = cx.new_cell('elem', cx.unpack(k, m.kt) if b.isset else pair)
        if isinstance(e, MapIt) and not e.isend: raise Unsupported('partial map range')
    else:
        off = b.ref.path[-1][1]; base = Ref(b.ref.cell, b.ref.path[:-1]); v = cx.read(base); n = cx.ptr_diff(e, b)
        k = cx.fresh('elem', cx.isort()); dom = z3.And(in_rng(cx, k, n))
        vv = vcopy(v); 
        if isinstance(vv, Vec): cx.vec_sym(vv); arr = vv.arr
        else: raise Unsupported('quantifier over array')
        el = cx.new_cell('elem', cx.unpack(z3.Select(arr, cx.ix(off) + k), v.et))
    r = cx.b(rd(cx, cx.call_functor(pred, [el])))
    if any(d[1] for d in cx.dec[n0:]): raise Unsupported('branching predicate in an algorithm')
    return k, dom, (z3.BoolVal(r) if isinstance(r, bool) else r)
@model('std::all_of', 'std::any_of', 'std::none_of')
def _(cx, c):
    b, e = rd(cx, c.args[0]), rd(cx, c.args[1])
    k, dom, p = quantified(cx, b, e, c.args[2])
    r = cx.fresh_bool('alg')
    kind = c.f['s']
    body = z3.Implies(dom, p if kind == 'all_of' else z3.Not(p))
    fa = z3.ForAll([k], body)
    cx.assume((r if kind != 'any_of' else z3.Not(r)) == fa)
    return r
