from util import *
from monitor import *
import threads
from threads import *
UNITS = {'pool': r'^(aslam::|vu::)'}
POOL = 'aslam::ThreadPool'
NONEX = 2**64 - 1
Q, G, NE, ACT, STOP = 'groupid_tasks_', 'groupid_exclusivity_guards_', 'num_queued_nonexclusive_tasks', 'active_threads_', 'stop_'
FIELDS = [Q, G, NE, ACT, STOP]
CV = 'tasks_queue_change_'
REPLAY_SRC = ['REPO/aslam_cv_common/src/thread-pool.cc']
REPLAY_FLAGS = []
class PoolView:
    """terms over one state of the pool"""
    def __init__(s, cx, F):
        s.cx = cx; v = F[Q]; s.n = cx.ix(v.n); s.et = v.et; s.so = cx.sort(v.et); vv = vcopy(v); cx.vec_sym(vv); s.arr = vv.arr
        m = F[G]; s.dom, s.val = m.dom, cx.map_val(m)
        s.ne, s.act, s.stop = F[NE], F[ACT], cx.zb(F[STOP])
    def el(s, i): return z3.Select(s.arr, i)
    def gid(s, i): return s.so.first(s.el(i))
    def fn(s, i): return s.so.second(s.el(i))
    def isne(s, i): return s.gid(i) == NONEX
    def busy(s, g): return z3.And(z3.Select(s.dom, g), z3.Select(s.val, g))
    def runnable(s, i): return z3.Or(s.isne(i), z3.Not(s.busy(s.gid(i))))
    def none_runnable(s, upto=None, tag=''):
        j = z3.Int('j!run' + tag); return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < (s.n if upto is None else upto)), z3.Not(s.runnable(j))), patterns=[s.el(j)])
    def count(s): return count_fn(s.cx, s.so)(s.arr, s.n)
def count_fn(cx, so): return z3.Function('count_ungrouped', z3.ArraySort(z3.IntSort(), so), z3.IntSort(), z3.IntSort())
def lemma_forms(C, so, A, B, n, m, k, tag):
    """facts about the number of ungrouped tasks in B[0..m) versus A[0..n); proved by induction in the task 'lemmas'"""
    j = z3.Int('j!lem' + tag); one = lambda x: z3.If(so.first(x) == NONEX, 1, 0)
    pre = lambda u: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < u), z3.Select(B, j) == z3.Select(A, j)))
    return [('append', z3.Implies(z3.And(n >= 0, m == n + 1, pre(n)), C(B, m) == C(A, n) + one(z3.Select(B, n)))),
            ('same', z3.Implies(z3.And(n >= 0, m == n, pre(n)), C(B, m) == C(A, n))),
            ('erase', z3.Implies(z3.And(k >= 0, k < n, m == n - 1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.Select(B, j) == z3.Select(A, z3.If(j < k, j, j + 1))))), C(B, m) == C(A, n) - one(z3.Select(A, k)))),
            ('bound', z3.And(z3.Implies(n >= 0, C(A, n) >= 0), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, so.first(z3.Select(A, j)) == NONEX), C(A, n) >= 1), patterns=[z3.Select(A, j)])))]
def lemmas(env):
    cx = env.ctx('pool', 'int'); p = cx.prog
    def run(cx):
        F = {f: cx.sym(f, t) for f, t in cx.fields(rectype(p, POOL)) if f in FIELDS}
        V = PoolView(cx, F); so = V.so; C = count_fn(cx, so); AS = z3.ArraySort(z3.IntSort(), so)
        a = z3.Const('a!d', AS); i = z3.Int('i!d'); one = lambda x: z3.If(so.first(x) == NONEX, 1, 0)
        cx.assume(z3.ForAll([a], C(a, 0) == 0))     # definition of the count
        A, B, n, k = z3.Const('A', AS), z3.Const('B', AS), z3.Int('n'), z3.Int('k')
        d = lambda X, u: C(X, u + 1) == C(X, u) + one(z3.Select(X, u))
        cx.assume(n >= 0)
        for X in (A, B): cx.assume(d(X, n)); cx.assume(z3.Implies(n >= 1, d(X, n - 1)))
        u = z3.Int('u!any')
        # frame: equal prefixes, equal counts (induction on n)
        j = z3.Int('j!f'); pre = lambda u: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < u), z3.Select(B, j) == z3.Select(A, j)))
        fr = lambda u: z3.Implies(pre(u), C(B, u) == C(A, u))
        cx.oblige('lemma frame, base', fr(z3.IntVal(0)))
        cx.oblige('lemma frame, step', z3.Implies(fr(n), fr(n + 1)))
        cx.assume(fr(n))
        for nm, f in lemma_forms(C, so, A, B, n, n + 1, k, 'p'):
            if nm == 'append': cx.oblige('lemma append', f)
        for nm, f in lemma_forms(C, so, A, B, n, n, k, 's'):
            if nm == 'same': cx.oblige('lemma same', f)
        er = lambda u: [f for nm, f in lemma_forms(C, so, A, B, u, u - 1, k, 'e') if nm == 'erase'][0]
        bd = lambda u: [f for nm, f in lemma_forms(C, so, A, B, u, u, k, 'b') if nm == 'bound'][0]
        cx.oblige('lemma bound, base', bd(z3.IntVal(0))); cx.oblige('lemma bound, step', z3.Implies(bd(n), bd(n + 1)))
        cx.oblige('lemma erase, base', er(z3.IntVal(0))); cx.oblige('lemma erase, step', z3.Implies(er(n), er(n + 1)))
        cx.cover('end')
    cx.explore('counting lemmas', run); return cx
def new_pool(cx): return cx.new_cell('pool', cx.sym('pool', rectype(cx.prog, POOL)))
class PoolMonitor(Monitor):
    def __init__(s, cx, obj, tags):
        waits = [(CV, 'worker', lambda: s.worker_sleeps(), None), (CV, 'waiter for an empty queue', lambda: s.waiter_sleeps(), None)]
        Monitor.__init__(s, cx, obj, 'tasks_mutex_', FIELDS, ['A'], s.inv, tags=tags, rely=s.rel, guarantee=s.guar, waits=waits, others_inv=lambda g: g['A'] < (1 << 31))
        s.mygroup = None; s.taken = None; s.started = None; s.k = None; s.rely_always = True; s.may_start = None
    def worker_sleeps(s):
        V = PoolView(s.cx, s.state()); return z3.And(V.none_runnable(tag='w'), z3.Not(z3.And(V.stop, V.n == 0)))
    def waiter_sleeps(s):
        V = PoolView(s.cx, s.state()); return z3.Or(s.cx.zint(V.act) > 0, V.n > 0)
    def inv(s, cx, F, g):
        V = PoolView(cx, F); j = z3.Int('j!J')
        if s.snap is not None and F is not s.snap and s.using_lemmas:
            S = PoolView(cx, s.snap)
            if s.k is None: s.k = cx.fresh('removed', z3.IntSort())
            for nm, f in lemma_forms(count_fn(cx, V.so), V.so, S.arr, V.arr, S.n, V.n, s.k, 'u'): cx.assume(f)
        out = [('active counter equals the number of running tasks', cx.zint(V.act) == g['A']),
               ('counter of queued ungrouped tasks is exact', cx.zint(V.ne) == V.count()),
               ('queued tasks are callable', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < V.n), V.fn(j) != FNULL), patterns=[V.el(j)])),
               ('every queued grouped task has a guard', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < V.n, z3.Not(V.isne(j))), z3.Select(V.dom, V.gid(j))), patterns=[V.el(j)])),
               ('the running group is marked busy', z3.BoolVal(True) if s.mygroup is None else z3.Implies(s.mygroup != NONEX, V.busy(s.mygroup)))]
        return out
    using_lemmas = False
    def check_J(s, F, mine):
        s.using_lemmas = True
        try: Monitor.check_J(s, F, mine)
        finally: s.using_lemmas = False
    def acquire(s, relying=None):
        cx = s.cx
        Monitor.acquire(s, relying)
        S = PoolView(cx, s.snap)
        for nm, f in lemma_forms(count_fn(cx, S.so), S.so, S.arr, S.arr, S.n, S.n, z3.IntVal(0), 'a'):
            if nm == 'bound': cx.assume(f)
        # k: the first task that may start now, or the length of the queue when there is none
        s.k = cx.fresh('first_runnable', z3.IntSort())
        cx.assume(z3.And(s.k >= 0, s.k <= S.n, S.none_runnable(s.k, 'k'), z3.Implies(s.k < S.n, S.runnable(s.k))))
        cx.assume(z3.Implies(s.stopped, S.stop) if s.stopped is not None else z3.BoolVal(True)); s.stopped = S.stop
        s.mygroup0 = s.mygroup
    stopped = None
    def rel(s, cx, a, b, mine, others):
        if s.mygroup is None: return z3.BoolVal(True)
        V = PoolView(cx, b); return z3.Implies(s.mygroup != NONEX, V.busy(s.mygroup))
    def guar(s, cx, a, b, others):
        A, B = PoolView(cx, a), PoolView(cx, b); g = z3.Int('g!G'); mg = s.mygroup0
        rg = z3.And(g >= 0, g < NONEX)
        # the group this section hands back or takes: see 'pick' and 'finish'
        took = s.picked(A, B)
        keep = z3.ForAll([g], z3.Implies(z3.And(rg, A.busy(g), *([g != mg] if mg is not None else [])), B.busy(g)))
        fresh = z3.ForAll([g], z3.Implies(z3.And(rg, B.busy(g), z3.Not(A.busy(g))), z3.And(took, g == A.gid(s.k))))
        back = z3.BoolVal(True) if mg is None else z3.Implies(mg != NONEX, z3.Not(B.busy(mg)))
        return [('a stopped pool stays stopped', z3.Implies(A.stop, B.stop)), ('a stopped pool accepts nothing', z3.Implies(A.stop, B.n <= A.n)), ('a group marked busy by another thread stays busy', keep), ('only the group of the task being started becomes busy', fresh), ('a finished task gives its group back', back)]
    def picked(s, A, B): return z3.And(s.k < A.n, B.n == A.n - 1)
class Runner:
    pass
def same_queue(A, B, tag='q'):
    j = z3.Int('j!' + tag); return z3.And(A.n == B.n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < A.n), A.el(j) == B.el(j))))
def erased(A, B, k):
    j = z3.Int('j!er'); return z3.And(B.n == A.n - 1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < B.n), B.el(j) == A.el(z3.If(j < k, j, j + 1)))))
def pool_ctx(env, **o):
    cx = env.ctx('pool', 'int', opts=dict(dict(feas_ms=200, max_s=430), **o))
    cx.zint = lambda x: z3.IntVal(int(x)) if isinstance(x, (int, bool)) else x
    return cx
def bounded_queue(n):
    def f(cx):
        t = dict(cx.fields(rectype(cx.prog, POOL)))[Q]; et = cx.elem(t)
        return Vec(et, items=[cx.sym('task%d' % i, et) for i in range(cx.choose(n + 1))])
    return {Q: f}
def t_run(env, tags, bound=None):
    cx = pool_ctx(env, **(dict(fork_loops=True, unroll=8) if bound else {})); p = cx.prog; fid = fn_id(p, POOL + '::run')
    mon = {}
    def outer(cx, L):
        m = mon['m']
        if m.sections:
            m.ob('run', 'a worker runs the task it took before looking for the next', m.taken is None)
            m.mygroup = None; m.finish({}); m.visited = {}; m.sections = 0; m.last = None; m.phase = {}; m.snap = None; m.stopped = None
        return []
    def guards(cx, L, m, V, S, vis):
        """a loop over the guards, asking whether all groups are busy"""
        g = z3.Int('g!vis'); pat = [z3.Select(vis.dom, g)]; seen = lambda ok: z3.ForAll([g], z3.Implies(z3.Select(vis.dom, g), ok(z3.Select(V.val, g))), patterns=pat)
        flags = [b for b in (cx.read(r) for v, r in L.frame.vars.items() if cx.T(cx.prog.vars[v]['t']).get('n') == 'bool' and cx.prog.vars[v]['n'] not in ('guard_active', 'is_exclusive_task')) if isinstance(b, bool) or isz(b) and z3.is_bool(b)]
        every = z3.And(seen(lambda b: b), z3.ForAll([g], z3.Implies(z3.Select(vis.dom, g), z3.Select(V.dom, g)), patterns=pat))
        return [('queue unchanged while asking', z3.And(same_queue(S, V, 'sg'), V.arr == S.arr)), ('guards unchanged while asking', z3.And(V.dom == S.dom, V.val == S.val)), ('ungrouped counter unchanged while asking', cx.zint(V.ne) == cx.zint(S.ne)),
                ('all guards seen are busy', z3.Or(every, *[z3.Not(cx.zb(b)) for b in flags])), ] + [('the flag is exact %d' % k, z3.Implies(cx.zb(b), every)) for k, b in enumerate(flags)]
    def scan(cx, L):
        m = mon['m']; V = PoolView(cx, m.state()); S = PoolView(cx, m.snap); at = cx.read(L.idx)
        if isinstance(at, MapV): return guards(cx, L, m, V, S, at)
        if isinstance(at, Ptr): at = at.ref.path[-1][1]      # an iterator into the queue
        i = cx.ix(at)
        out = [('position', z3.And(i >= 0, i <= V.n)), ('queue unchanged while searching', z3.And(same_queue(S, V, 'sc'), V.arr == S.arr)), ('guards unchanged while searching', z3.And(V.dom == S.dom, V.val == S.val)),
               ('ungrouped counter unchanged while searching', cx.zint(V.ne) == cx.zint(S.ne)), ('all before are held back', V.none_runnable(i, 'inv'))]
        if L.has('index'): out.append(('index follows', cx.ix(L['index']) == i))
        if L.has('task'): out.append(('no task chosen yet', L['task'] == FNULL))
        return out
    cx.loopspecs = [LoopSpec(outer, infinite=True, name='worker loop')] + ([] if bound else [LoopSpec(scan, name='task search'), LoopSpec(scan, name='second search')])
    def run(cx):
        obj = new_pool(cx); m = mon['m'] = PoolMonitor(cx, obj, tags)
        if bound: m.havoc_fn = bounded_queue(bound)
        m.phase = {}; m.wait_phase = lambda mm: {}
        def at_wait():
            V = PoolView(cx, m.state())
            m.ob('run', 'a worker sleeps only when no queued task may start', V.none_runnable(tag='sl'))
            m.ob('run', 'a worker does not sleep once the pool is stopped and empty', z3.Not(z3.And(V.stop, V.n == 0)))
        m.wait0 = m.wait
        def wait(cv, site, phase): at_wait(); return Monitor.wait(m, cv, site, phase)
        m.wait = wait
        def fcall(cx_, f, c):
            m.ob('run', 'tasks run without holding the mutex', not m.held)
            if m.last is None: raise Unsupported('task call outside the protocol')
            F = m.last[0]; S, V = PoolView(cx, m.snap), PoolView(cx, F); k = m.k
            m.ob('run', 'the first task that may start is the one taken', z3.And(k < S.n, f == S.fn(k)))
            m.ob('run', 'exactly the started task leaves the queue, the others keep their order', erased(S, V, k))
            m.ob('run', 'a task is started only while its group is not busy', z3.Or(S.isne(k), z3.Not(S.busy(S.gid(k)))))
            m.ob('run', 'one task per section', m.taken is None)
            m.taken = f; m.mygroup = S.gid(k); m.phase = {'A': 1}
            m.running = True
            m.taken = None; m.ran = getattr(m, 'ran', 0) + 1
            return None
        cx.hooks['function_call'] = fcall
        st, v = attempt(cx, lambda: call(cx, fid, obj))
        m.ob('run', 'the worker does not refuse', st == 'ok')
        F = m.last[0] if m.last else m.state(); V = PoolView(cx, F)
        m.ob('run', 'a worker ends only when the pool is stopped and no task is queued', z3.And(V.stop, V.n == 0))
        m.finish({}); cx.access = None; cx.cover('worker ends')
    cx.explore('run', run); return cx

def unchanged(cx, A, B):
    return AND(same_queue(A, B), A.dom == B.dom, A.val == B.val, cx.zint(A.ne) == cx.zint(B.ne), cx.zint(A.act) == cx.zint(B.act))
def t_enqueue(env, tags, which, bound=None):
    cx = pool_ctx(env); p = cx.prog; fid = fn_id(p, 'vu::' + which)
    def run(cx):
        obj = new_pool(cx); m = PoolMonitor(cx, obj, tags); m.phase = {}; m.wait_phase = lambda mm: {}
        if bound: m.havoc_fn = bounded_queue(bound)
        ut = p.funcs[fid]['pt']
        gid = cx.input('group', cx.fresh('group', z3.IntSort())); cx.assume(z3.And(gid >= 0, gid <= NONEX))
        a = cx.input('argument', cx.fresh('arg', z3.IntSort()))
        f = ('fun', 'user'); calls = []
        cx.hooks['bind_call'] = lambda cx_, b, args: calls.append((b.fn, list(b.args)))
        st, v = attempt(cx, lambda: call(cx, fid, None, obj, *(([gid] if which == 'enq_ordered' else []) + [f, a])))
        if which == 'enq': gid = z3.IntVal(NONEX)
        m.ob('enq', 'enqueuing does not refuse', st == 'ok')
        fut = v if isinstance(v, Future) else (cx.read(v) if isinstance(v, Ref) else v)
        m.ob('enq', 'one critical section decides', m.sections == 1)
        if m.sections != 1: raise PathEnd()
        S = PoolView(cx, m.snap); V = PoolView(cx, m.last[0] if m.last else m.state())
        if cx.branch(S.stop):
            m.ob('enq', 'enqueuing on a stopped pool changes nothing', AND(unchanged(cx, S, V), V.stop))
            m.finish({})
            m.ob('enq', 'enqueuing on a stopped pool returns an invalid future', isinstance(fut, Future) and fut.task is None)
            m.ob('enq', 'enqueuing on a stopped pool runs nothing', not calls)
        else:
            j = z3.Int('j!enq'); g = z3.Int('g!enq')
            m.ob('enq', 'the task is appended, the others keep their places', AND(V.n == S.n + 1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < S.n), V.el(j) == S.el(j))), V.gid(S.n) == gid))
            m.ob('enq', 'no busy mark changes', z3.ForAll([g], V.busy(g) == S.busy(g)))
            m.ob('enq', 'guards of other groups are kept', z3.ForAll([g], z3.Implies(z3.Select(S.dom, g), z3.Select(V.dom, g))))
            m.ob('enq', 'the number of running tasks does not change', cx.zint(V.act) == cx.zint(S.act))
            m.finish({}); cx.access = None
            got = None
            for k, (t, c) in cx.ghost.get('callables', {}).items():
                if cx.valid(V.fn(S.n) == t): got = c
            m.ob('enq', 'the queued callable runs the given task', got is not None)
            m.ob('enq', 'nothing runs while enqueuing', not calls)
            if got is not None:
                attempt(cx, lambda: cx.call_functor(got, []))
                ok = len(calls) == 1 and calls[0][0] == f and len(calls[0][1]) == 1
                m.ob('enq', 'running it calls the function once with its arguments', AND(ok, eqi(cx, calls[0][1][0], a)) if ok else False)
                m.ob('enq', 'its result goes to the returned future', isinstance(fut, Future) and fut.task is not None and fut.task.runs == 1)
        cx.access = None; cx.cover('end')
    cx.explore(which, run); return cx
def t_wait(env, tags):
    cx = pool_ctx(env, fork_loops=True, unroll=12); p = cx.prog; fid = fn_id(p, POOL + '::waitForEmptyQueue')
    def run(cx):
        obj = new_pool(cx); m = PoolMonitor(cx, obj, tags); m.phase = {}; m.wait_phase = lambda mm: {}
        def wait(cv, site, phase):
            V = PoolView(cx, m.state()); m.ob('wait', 'a waiter sleeps only while a task is queued or running', z3.Or(cx.zint(V.act) > 0, V.n > 0))
            m.ob('wait', 'waiting changes nothing', unchanged(cx, PoolView(cx, m.snap), V)); return Monitor.wait(m, cv, site, phase)
        m.wait = wait
        st, v = attempt(cx, lambda: call(cx, fid, obj))
        m.ob('wait', 'waiting does not refuse', st == 'ok')
        F = m.last[0] if m.last else m.state(); V = PoolView(cx, F)
        m.ob('wait', 'waiting returns only when no task is queued and none is running', AND(m.sections >= 1, V.n == 0, m.others['A'] == 0) if m.sections else False)
        m.finish({}); cx.access = None; cx.cover('end')
    cx.explore('waitForEmptyQueue', run); return cx
def t_active(env, tags):
    cx = pool_ctx(env); p = cx.prog; fid = fn_id(p, POOL + '::numActiveThreads')
    def run(cx):
        obj = new_pool(cx); m = PoolMonitor(cx, obj, tags); m.phase = {}; m.wait_phase = lambda mm: {}
        st, v = attempt(cx, lambda: call(cx, fid, obj))
        m.ob('wait', 'the active count is the number of running tasks', cx.zint(v) == m.others['A'] if m.sections == 1 else False)
        m.finish({}); cx.access = None; cx.cover('end')
    cx.explore('numActiveThreads', run); return cx
def t_stop(env, tags):
    cx = pool_ctx(env); p = cx.prog; fid = fn_id(p, POOL + '::stop')
    def run(cx):
        obj = new_pool(cx); m = PoolMonitor(cx, obj, tags); m.phase = {}; m.wait_phase = lambda mm: {}
        m.waits = []      # stopping wakes nobody by design: see the destructor
        st, v = attempt(cx, lambda: call(cx, fid, obj))
        m.ob('end', 'stopping returns', st == 'ok')
        F = m.last[0] if m.last else m.state()
        m.ob('end', 'the pool is stopped, nothing accepted is thrown away', AND(cx.zb(F[STOP]), unchanged(cx, PoolView(cx, m.snap), PoolView(cx, F))) if m.snap else False)
        m.finish({}); cx.access = None; cx.cover('end')
    cx.explore('stop', run); return cx
def t_ctor(env, tags):
    cx = pool_ctx(env); p = cx.prog
    fid = [i for i in p.find(POOL + '::ThreadPool') if not p.funcs[i].get('copy') and not p.funcs[i].get('move')][0]
    W = 'workers_'
    def inv(cx, L):
        v = vcopy(cx.read(cx.ghost['pool'].fld(W))); n = cx.ix(v.n); cx.vec_sym(v); j = z3.Int('j!c')
        out = [('all started', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(v.arr, j)))), ('in range', z3.And(n >= 0, n <= cx.ghost['n']))]
        if L.has('i'): out.append(('count', cx.ix(L['i']) == n))
        return out
    cx.loopspecs = [LoopSpec(inv, name='thread start')]
    def run(cx):
        obj = cx.new_cell('pool', cx.default(rectype(p, POOL))); cx.ghost['pool'] = obj
        n = cx.input('number of threads', cx.fresh('n', z3.IntSort())); cx.assume(z3.And(n >= 0, n < 1 << 20)); cx.ghost['n'] = n
        run_id = p.find(POOL + '::run')[0]
        def start(cx_, b):
            F = {f: cx.read(obj.fld(f)) for f in FIELDS}
            ok = not any(isinstance(v, Undef) for v in F.values())
            cx.oblige('the pool is initialised before a worker starts', ok)
            if ok: cx.oblige('workers start on an empty running pool', AND(eqi(cx, F[Q].n, 0), eqi(cx, F[NE], 0), eqi(cx, F[ACT], 0), NOT(cx.b(F[STOP])), z3.ForAll([z3.Int('g!c')], z3.Not(z3.Select(F[G].dom, z3.Int('g!c'))))))
            good = isinstance(b, (Bind,)) and isinstance(b.fn, tuple) and b.fn[1] == run_id and len(b.args) == 1 and isinstance(b.args[0], Ptr) and repr(b.args[0].ref) == repr(obj)
            if isinstance(b, Closure):      # a lambda that only calls run()
                log = []; cx.contracts[run_id] = lambda cx2, c: log.append(repr(c.obj)); attempt(cx, lambda: cx.call_functor(b, [])); good = log == [repr(obj)]
            cx.oblige('every thread runs the worker loop of this pool', good)
        cx.hooks['thread_start'] = start
        st, v = attempt(cx, lambda: call(cx, fid, obj, n))
        cx.oblige('construction returns', st == 'ok')
        w = cx.read(obj.fld(W)); cx.oblige('as many workers as asked for', eqi(cx, w.n, n)); cx.cover('end')
    cx.explore('constructor', run); return cx
def t_dtor(env, tags):
    cx = pool_ctx(env); p = cx.prog; fid = fn_id(p, POOL + '::~ThreadPool'); W = 'workers_'
    def inv(cx, L):
        v = vcopy(cx.read(cx.ghost['pool'].fld(W))); n = cx.ix(v.n); cx.vec_sym(v); j = z3.Int('j!d')
        i = cx.ix(L['i']) if L.has('i') else cx.ix(cx.read(L.idx))
        return [('joined so far', z3.And(i >= 0, i <= n, n == cx.ghost['n'], z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(v.arr, j) == (j >= i)))))]
    cx.loopspecs = [LoopSpec(inv, name='join')]
    def run(cx):
        obj = new_pool(cx); cx.ghost['pool'] = obj; m = PoolMonitor(cx, obj, tags); m.phase = {}; m.wait_phase = lambda mm: {}
        v = vcopy(cx.read(obj.fld(W))); cx.vec_sym(v); j = z3.Int('j!w'); cx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < cx.ix(v.n)), z3.Select(v.arr, j)))); cx.ghost['n'] = cx.ix(v.n)
        # stop() may have been called before without waking anybody: workers may sleep although the pool is stopped
        flip = []
        def pred():
            flip.append(1); V = PoolView(cx, m.state())
            return V.none_runnable(tag='dt') if len(flip) % 2 == 1 else z3.And(V.none_runnable(tag='dt'), z3.Not(z3.And(V.stop, V.n == 0)))
        m.waits = [(CV, 'worker', pred, None)]
        def join(cx_, c):
            m.ob('end', 'the mutex is not held while joining', not m.held)
            m.ob('end', 'the pool is stopped before joining', m.last is not None and cx.zb(m.last[0][STOP]))
            m.ob('end', 'nothing accepted is thrown away', same_queue(PoolView(cx, m.snap), PoolView(cx, m.last[0])) if m.last is not None else False)
            m.settle('join')
        cx.hooks['thread_join'] = join
        st, r = attempt(cx, lambda: call(cx, fid, obj))
        m.ob('end', 'destruction does not refuse', st == 'ok')
        w = vcopy(cx.read(obj.fld(W))); cx.vec_sym(w)
        m.ob('end', 'every worker is joined', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < cx.ix(w.n)), z3.Not(z3.Select(w.arr, j)))))
        m.finish({}); cx.access = None; cx.cover('end')
    cx.explore('destructor', run); return cx
def pool_tasks(tags):
    out = [Task('run', lambda env: t_run(env, tags)), Task('lemmas', lemmas)]
    for w in ('enq_ordered', 'enq'): out.append(Task(w, lambda env, w=w: t_enqueue(env, tags, w)))
    out += [Task('waitForEmptyQueue', lambda env: t_wait(env, tags)), Task('stop', lambda env: t_stop(env, tags)), Task('numActiveThreads', lambda env: t_active(env, tags)), Task('constructor', lambda env: t_ctor(env, tags)), Task('destructor', lambda env: t_dtor(env, tags))]
    return out
