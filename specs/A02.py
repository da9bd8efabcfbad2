"""A02: timers and statistics book each sample to its tag once."""
from util import *
UNITS = {'timers': r'^(statistics::|timing::|vu::)'}
ASSUMPTIONS = ['durations and sums are exact real numbers', 'handles passed to queries were handed out by GetHandle', 'the clock is an arbitrary value at every call', 'strings are compared as values', 'accumulators obey their contract (property A01)', 'Print and WriteToYamlFile are not covered']
LEVEL_NOTE = "every lookup, query, booking and timer operation of Timing and Statistics proved for all tag tables and all interleavings at the mutex"
REPLAY_SRC = ['REPO/aslam_cv_common/src/timer.cc', 'REPO/aslam_cv_common/src/statistics.cc']
REPLAY_SECS = (10, 120)
REPLAY_LIBS = ['-lglog', '-pthread']
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
COLL = 'statistics::StatisticsMapValue'
KINDS = {'Timing': dict(ns='timing::Timing::', list='timers_', add='AddTime', q={'GetTotalSeconds': 'Sum', 'GetMeanSeconds': 'Mean', 'GetNumSamples': 'TotalSamples', 'GetVarianceSeconds': 'LazyVariance', 'GetMinSeconds': 'Min', 'GetMaxSeconds': 'Max', 'GetHz': None}),
         'Statistics': dict(ns='statistics::Statistics::', list='stats_collectors_', add='AddSample', q={'GetLastValue': 'GetLastValue', 'GetTotal': 'Sum', 'GetMean': 'Mean', 'GetNumSamples': 'TotalSamples', 'GetVariance': 'LazyVariance', 'GetMin': 'Min', 'GetMax': 'Max', 'GetHz': 'MeanCallsPerSec', 'GetMeanDeltaTime': 'MeanDeltaTime', 'GetMaxDeltaTime': 'MaxDeltaTime', 'GetMinDeltaTime': 'MinDeltaTime', 'GetLastDeltaTime': 'GetLastDeltaTime', 'GetVarianceDeltaTime': 'LazyVarianceDeltaTime'})}
# time points are counts of nanoseconds
for q in ('std::chrono::time_point', 'std::chrono::duration'): core.SYM_TYPES[q] = lambda cx, base, t: ('clock', cx.fresh(base, I))
core.TYPE_DEFAULT['std::chrono::time_point'] = lambda cx, t: ('clock', 0)
@model('std::chrono::time_point::time_point')
def _(cx, c): return rd(cx, c.args[0]) if c.args else ('clock', 0)
@model('std::chrono::time_point::operator=')
def _(cx, c): cx.write(c.obj, rd(cx, c.args[0])); return c.obj
@model('std::chrono::system_clock::from_time_t', 'std::chrono::_V2::system_clock::from_time_t')
def _(cx, c): return ('clock', cx.norm(cx.ix(rd(cx, c.args[0])) * 10**9))
@model('std::chrono::operator-')
def _(cx, c): a, b = [rd(cx, x)[1] for x in c.args]; return ('clock', cx.norm(cx.ix(a) - cx.ix(b)))
@model('std::chrono::operator!=')
def _(cx, c): a, b = [rd(cx, x)[1] for x in c.args]; return cx.norm(cx.ix(a) != cx.ix(b))
@model('std::chrono::operator==')
def _(cx, c): a, b = [rd(cx, x)[1] for x in c.args]; return cx.norm(cx.ix(a) == cx.ix(b))
def rec_of(p, q):
    for i, T in enumerate(p.types):
        if T['k'] == 'rec' and T['q'] == q and i in p.records: return i
    raise Unsupported(q)
class Tab:
    """the table of tags: d(k) tag k is known, h(k) its handle, c(i) collector i of n"""
    def __init__(s, cx, rec, K):
        m = rec.f['tag_map_']; s.dom, s.val, s.mn = m.dom, cx.map_val(m), cx.ix(m.n); v = vcopy(rec.f[K['list']]); cx.vec_sym(v); s.n, s.arr = cx.ix(v.n), v.arr; s.ks = s.dom.sort().domain()
    def d(s, k): return z3.Select(s.dom, k)
    def h(s, k): return z3.Select(s.val, k)
    def c(s, i): return z3.Select(s.arr, i)
    def inv(s):
        k, l = z3.Const('k!tab', s.ks), z3.Const('l!tab', s.ks)
        return [('handles refer to collectors', z3.ForAll([k], z3.Implies(s.d(k), z3.And(s.h(k) >= 0, s.h(k) < s.n)), patterns=[s.h(k)])), ('different tags have different handles', z3.ForAll([k, l], z3.Implies(z3.And(s.d(k), s.d(l), k != l), s.h(k) != s.h(l)), patterns=[z3.MultiPattern(s.h(k), s.h(l))]))]
    def rely(s, o):
        """what other threads may do: register tags and book samples"""
        k = z3.Const('k!rel', s.ks); return z3.And(s.n >= o.n, z3.ForAll([k], z3.Implies(o.d(k), z3.And(s.d(k), s.h(k) == o.h(k))), patterns=[o.h(k)]))
class Mon:
    """the table's mutex: its content is arbitrary (invariant, rely) at every acquire, unknown outside"""
    mutex = 'mutex_'
    def __init__(s, cx, K, t): s.cx, s.K, s.t = cx, K, t; s.held, s.snaps, s.ends = False, [], []; s.obj = cx.new_cell('table', cx.sym('unlocked', t)); cx.births[s.obj.cell] = 0
    def acquire(s):
        cx = s.cx; cx.oblige('the mutex is not taken twice', not s.held); s.held = True; cx.write(s.obj, cx.sym('table', s.t)); g = Tab(cx, cx.read(s.obj), s.K)
        for n, f in g.inv(): cx.assume(f)
        if s.ends: cx.assume(g.rely(s.ends[-1]))
        s.snaps.append(g)
    def release(s):
        cx = s.cx; s.held = False; g = Tab(cx, cx.read(s.obj), s.K); s.ends.append(g); s.rec = cx.read(s.obj)
        for n, f in g.inv(): cx.oblige('the table stays consistent: ' + n, f)
        cx.write(s.obj, cx.sym('unlocked', s.t))
def setup(cx, K):
    cx.opaques = {COLL}; m = Mon(cx, K, rec_of(cx.prog, K['ns'][:-2])); cx.monitor = m; cx.hooks['static'] = lambda cx, d: m.obj
    so = cx.sort(rec_of(cx.prog, COLL)); new = cx.uf('new ' + COLL, I, so)(0); add = cx.uf('with', so, R, so)
    def ctor(cx, c): return rd(cx, c.args[0]) if c.args else new
    cx.contracts[COLL + '::StatisticsMapValue'] = ctor
    def addv(cx, c): cx.oblige('collectors are changed with the mutex held', m.held); cx.write(c.obj, add(cx.read(c.obj), cx.zr(rd(cx, c.args[0]))))
    cx.contracts[COLL + '::AddValue'] = addv
    def q(n): 
        def con(cx, c):
            cx.oblige('collectors are read with the mutex held', m.held); r = cx.uf('q:' + n, so, I if n == 'TotalSamples' else R)(cx.read(c.obj))
            if n == 'TotalSamples': cx.assume(z3.And(r >= 0, r < 2**31))
            return r
        cx.contracts[COLL + '::' + n] = con
    for n in set(x for k in KINDS.values() for x in k['q'].values() if x) | {'RollingMean', 'RollingMeanDeltaTime'}: q(n)
    return m, so, new, add
def same_rest(a, b, i=None):
    j = z3.Int('j!rest'); return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < b.n, True if i is None else j != i), a.c(j) == b.c(j)))
def same_tags(a, b, but=None):
    k = z3.Const('k!st', a.ks); g = k != but if but is not None else True; return z3.ForAll([k], z3.Implies(g, z3.And(a.d(k) == b.d(k), z3.Implies(a.d(k), a.h(k) == b.h(k)))))
def tag(cx, f):
    t = ptype(cx.prog, f, 0); v = cx.sym('tag', t); return cx.new_cell('tag', v), cx.pack(v, t)
def registered(cx, g0, g1, z, new, r):
    """GetHandle's effect between two states of the table"""
    cx.oblige('the tag is known with the handle returned', z3.And(g1.d(z), g1.h(z) == r)); cx.oblige('other tags are unchanged', same_tags(g1, g0, z)); cx.oblige('existing collectors are unchanged', same_rest(g1, g0))
    cx.oblige('a known tag keeps its handle and nothing is added', z3.Implies(g0.d(z), z3.And(r == g0.h(z), g1.n == g0.n))); cx.oblige('an unknown tag gets an empty collector of its own', z3.Implies(z3.Not(g0.d(z)), z3.And(g1.n == g0.n + 1, r == g0.n, g1.c(r) == new)))
def one(cx, m, what):
    cx.oblige('the mutex is released', not m.held)
    if len(m.snaps) != 1: cx.oblige(what + ' happens in one critical section', False); return False
    return True
def t_handles(kind):
    def t(env):
        K = KINDS[kind]; cx = env.ctx('timers', 'int'); p = cx.prog; F = lambda n, pt=None: [i for i in p.find(K['ns'] + n) if pt is None or pt in p.tname(p.funcs[i]['pt'][0])][0]
        def run(cx):
            m, so, new, add = setup(cx, K); f = F('GetHandle'); tc, z = tag(cx, f); s, r = attempt(cx, lambda: call(cx, f, None, tc)); cx.oblige('looking up a tag returns', s == 'ok')
            if s != 'ok' or not one(cx, m, 'looking up a tag'): return
            registered(cx, m.snaps[0], m.ends[0], z, new, cx.ix(rd(cx, r))); cx.cover('end')
        cx.explore('handle of a tag', run)
        if kind == 'Statistics':
            def run(cx):
                m, so, new, add = setup(cx, K); f = F('HasHandle'); tc, z = tag(cx, f); s, r = attempt(cx, lambda: call(cx, f, None, tc)); cx.oblige('testing for a tag returns', s == 'ok')
                if s != 'ok' or not one(cx, m, 'testing for a tag'): return
                a, b = m.snaps[0], m.ends[0]; cx.oblige('a tag is reported exactly when it is known', cx.zb(r) == a.d(z)); cx.oblige('testing for a tag changes nothing', z3.And(same_tags(b, a), same_rest(b, a), a.n == b.n)); cx.cover('end')
            cx.explore('known tag', run)
        st = {}
        def inv(cx, L):
            k = z3.Const('k!gt', st['g']().ks); v = cx.read(L.idx); return [('tags seen have other handles', z3.ForAll([k], z3.Implies(z3.And(z3.Select(v.dom, k), st['g']().d(k)), st['g']().h(k) != st['h']), patterns=[st['g']().h(k)]))]
        cx.loopspecs = [LoopSpec(inv, name='search')]
        def run(cx):
            m, so, new, add = setup(cx, K); f = F('GetTag'); h = cx.input('handle', cx.fresh_int('handle', 0, 2**64 - 1)); st['h'] = h; st['g'] = lambda: m.snaps[-1]
            s, r = attempt(cx, lambda: call(cx, f, None, h)); cx.oblige('looking up a handle returns', s == 'ok')
            if s != 'ok' or not one(cx, m, 'looking up a handle'): return
            r = r if isinstance(r, Vec) else rd(cx, r); a, b = m.snaps[0], m.ends[0]; rz = cx.pack(r, p.funcs[f]['ret']); k = z3.Const('k!pt', a.ks); known = z3.Exists([k], z3.And(a.d(k), a.h(k) == h))
            cx.oblige('the tag of a handle is the one registered with it', z3.Implies(z3.And(z3.Not(cx.ix(r.n) == 0)), z3.And(a.d(rz), a.h(rz) == h))); cx.oblige('a registered handle has its tag', z3.Implies(known, z3.And(a.d(rz), a.h(rz) == h))); cx.oblige('an unknown handle has an empty tag', z3.Implies(z3.Not(known), cx.ix(r.n) == 0)); cx.oblige('looking up a handle changes nothing', z3.And(same_tags(b, a), same_rest(b, a), a.n == b.n)); cx.cover('end')
        cx.explore('tag of a handle', run)
        def run(cx):
            m, so, new, add = setup(cx, K); f = F('Reset'); s, r = attempt(cx, lambda: call(cx, f, None)); cx.oblige('reset returns', s == 'ok')
            if s != 'ok' or not one(cx, m, 'reset'): return
            k = z3.Const('k!rs', m.ends[0].ks); cx.oblige('after reset no tag is known', z3.ForAll([k], z3.Not(m.ends[0].d(k)))); cx.cover('end')
        cx.explore('reset', run)
        def run(cx):
            m, so, new, add = setup(cx, K); f = F(K['add']); h = cx.input('handle', cx.fresh_int('handle', 0, 2**64 - 1)); x = cx.input('sample', cx.fresh('sample', R)); o = m.acquire
            def acq(): o(); cx.assume(h < m.snaps[-1].n)
            m.acquire = acq; s, r = attempt(cx, lambda: call(cx, f, m.obj, h, x)); cx.oblige('booking a sample returns', s == 'ok')
            if s != 'ok' or not one(cx, m, 'booking a sample'): return
            a, b = m.snaps[0], m.ends[0]; cx.oblige('the sample is booked once to its handle', b.c(h) == add(a.c(h), x)); cx.oblige('nothing else changes', z3.And(same_rest(b, a, h), b.n == a.n, same_tags(b, a))); cx.cover('end')
        cx.explore('booking', run); return cx
    return t
def t_queries(kind):
    def t(env):
        K = KINDS[kind]; cx = env.ctx('timers', 'int'); p = cx.prog
        for nm, q in K['q'].items():
            for f in p.find(K['ns'] + nm):
                by_tag = 'string' in p.tname(p.funcs[f]['pt'][0])
                def run(cx, f=f, q=q, by_tag=by_tag):
                    m, so, new, add = setup(cx, K); Q = (lambda c: cx.uf('q:' + q, so, I if q == 'TotalSamples' else R)(c)) if q else (lambda c: 1 / cx.uf('q:RollingMean', so, R)(c))
                    if by_tag: tc, z = tag(cx, f); arg = tc
                    else:
                        arg = h = cx.input('handle', cx.fresh_int('handle', 0, 2**64 - 1)); o = m.acquire
                        def acq(): o(); cx.assume(h < m.snaps[-1].n)
                        m.acquire = acq
                    if q is None:       # rate: seconds per sample are positive
                        o2 = m.acquire
                        def acq2():
                            o2(); g = m.snaps[-1]; i = z3.Int('i!rm'); cx.assume(z3.ForAll([i], cx.uf('q:RollingMean', so, R)(g.c(i)) > 0, patterns=[g.c(i)]))
                        m.acquire = acq2
                    s, r = attempt(cx, lambda: call(cx, f, None, arg)); cx.oblige('the query returns', s == 'ok')
                    if s != 'ok': return
                    cx.oblige('the mutex is released', not m.held)
                    if not m.snaps: cx.oblige('the query happens in a critical section', False); return
                    g, e = m.snaps[-1], m.ends[-1]; r = cx.ix(rd(cx, r)) if q == 'TotalSamples' else cx.zr(rd(cx, r))
                    if not by_tag: i = h; cx.oblige('queries change nothing', z3.And(same_tags(e, g), same_rest(e, g), e.n == g.n))
                    else: cx.oblige('the tag is known', e.d(z)); i = e.h(z)
                    cx.oblige('the figure asked for is read from the collector of the tag', r == Q(e.c(i))); cx.oblige('no sample is booked by a query', same_rest(e, g)); cx.cover('end')
                cx.explore(nm + (' by tag' if by_tag else ' by handle'), run)
        return cx
    return t
def t_timer(env):
    cx = env.ctx('timers', 'int'); p = cx.prog; T = rec_of(p, 'timing::TimerImpl'); N = 'timing::TimerImpl::'
    def calls(cx):
        log = []; cx.opaques = {COLL}; m = cx.new_cell('table', None); cx.births[m.cell] = 0
        def add(cx, c): log.append((cx.ix(rd(cx, c.args[0])), cx.zr(rd(cx, c.args[1]))))
        cx.contracts['timing::Timing::AddTime'] = add; cx.contracts['timing::Timing::Instance'] = lambda cx, c: m
        def gh(cx, c): t = c.f['pt'][0]; st_t = p.types[t]['e'] if p.types[t]['k'] == 'ref' else t; z = cx.pack(rd(cx, c.args[0]), st_t); h = cx.uf('handleOf', z.sort(), I)(z); cx.assume(z3.And(h >= 0, h < 2**64)); return h
        cx.contracts['timing::Timing::GetHandle'] = gh; clk = []; cx.ghost['clock'] = clk
        def now(cx, c): v = ('clock', cx.fresh('now', I)); clk.append(v[1]); return v
        for q in ('std::chrono::system_clock::now', 'std::chrono::_V2::system_clock::now'): cx.contracts[q] = now
        return log, clk
    def timer(cx): v = cx.sym('timer', T); return cx.new_cell('timer', v), v
    def fields(cx, r): v = cx.read(r); return cx.zb(v.f['is_timing_']), cx.ix(v.f['handle_']), cx.ix(v.f['time_'][1])
    def run(cx):
        log, clk = calls(cx); r, v = timer(cx); t0, h0, s0 = fields(cx, r); s, x = attempt(cx, lambda: call(cx, fn_id(p, N + 'Start'), r)); t1, h1, s1 = fields(cx, r); cx.oblige('start returns', s == 'ok'); cx.oblige('a started timer runs from now on', z3.And(t1, s1 == clk[-1]) if clk else False); cx.oblige('starting books nothing', not log); cx.oblige('the timer keeps its handle', h1 == h0); cx.cover('end')
    cx.explore('start', run)
    def stopped(cx, log, clk, t0, h0, s0, r1=None, what='stopping'):
        if cx.branch(t0):
            cx.oblige(what + ' a running timer books exactly one sample', len(log) == 1)
            if len(log) != 1 or not clk: return
            dt = z3.ToReal(clk[-1] - s0) * z3.Q(1, 10**9); cx.oblige('the time since the start is booked to the tag of the timer', z3.And(log[0][0] == h0, log[0][1] == dt))
            if r1 is not None: cx.oblige('the time since the start is returned', cx.zr(r1) == dt)
        else:
            cx.oblige(what + ' a timer that does not run books nothing', not log)
            if r1 is not None: cx.oblige('a timer that does not run reports no time', cx.zr(r1) == 0)
    def run(cx):
        log, clk = calls(cx); r, v = timer(cx); t0, h0, s0 = fields(cx, r); s, x = attempt(cx, lambda: call(cx, fn_id(p, N + 'Stop'), r)); cx.oblige('stop returns', s == 'ok')
        if s != 'ok': return
        t1, h1, s1 = fields(cx, r); cx.oblige('a stopped timer does not run', z3.Not(t1)); cx.oblige('the timer keeps its handle', h1 == h0); stopped(cx, log, clk, t0, h0, s0, rd(cx, x)); cx.cover('end')
    cx.explore('stop', run)
    def run(cx):
        log, clk = calls(cx); r, v = timer(cx); t0, h0, s0 = fields(cx, r); s, x = attempt(cx, lambda: call(cx, fn_id(p, N + 'Discard'), r)); t1, h1, s1 = fields(cx, r); cx.oblige('discard returns', s == 'ok'); cx.oblige('a discarded timer does not run', z3.Not(t1)); cx.oblige('discarding books nothing', not log); cx.oblige('the timer keeps its handle', h1 == h0); cx.cover('end')
    cx.explore('discard', run)
    def run(cx):
        log, clk = calls(cx); r, v = timer(cx); t0, h0, s0 = fields(cx, r); s, x = attempt(cx, lambda: call(cx, fn_id(p, N + '~TimerImpl'), r)); cx.oblige('destruction returns', s == 'ok')
        if s == 'ok': stopped(cx, log, clk, t0, h0, s0, None, 'destroying'); cx.cover('end')
    cx.explore('destruction', run)
    def run(cx):
        log, clk = calls(cx); f = fn_id(p, N + 'TimerImpl', lambda p, f: len(f['pt']) == 2); tc, z = tag(cx, f); stp = cx.input('construct stopped', cx.fresh_bool('stopped')); r = cx.new_cell('timer', cx.default(T)); s, x = attempt(cx, lambda: call(cx, f, r, tc, stp)); cx.oblige('construction returns', s == 'ok')
        if s != 'ok': return
        v = cx.read(r); cx.oblige('a timer runs from its construction unless constructed stopped', cx.zb(v.f['is_timing_']) == z3.Not(cx.zb(stp))); cx.oblige('the timer carries the handle of its tag', cx.ix(v.f['handle_']) == cx.uf('handleOf', z.sort(), I)(z)); cx.oblige('construction books nothing', not log)
        if not cx.branch(stp): cx.oblige('the start is the time of construction', z3.And(cx.ix(v.f['time_'][1]) == clk[-1]) if clk else False)
        cx.cover('end')
    cx.explore('construction', run)
    def run(cx):
        log, clk = calls(cx); r, v = timer(cx); t0, h0, s0 = fields(cx, r); cx.oblige('a timer reports whether it runs', cx.zb(call(cx, fn_id(p, N + 'IsTiming'), r)) == t0); cx.oblige('a timer reports its handle', cx.ix(call(cx, fn_id(p, N + 'GetHandle'), r)) == h0); cx.cover('end')
    cx.explore('queries', run); return cx
def t_stats(env):
    cx = env.ctx('timers', 'int'); p = cx.prog; S = rec_of(p, 'statistics::StatsCollectorImpl'); N = 'statistics::StatsCollectorImpl::'
    def calls(cx):
        log = []; cx.opaques = {COLL}; m = cx.new_cell('table', None); cx.births[m.cell] = 0
        def add(cx, c): log.append((cx.ix(rd(cx, c.args[0])), cx.zr(rd(cx, c.args[1]))))
        cx.contracts['statistics::Statistics::AddSample'] = add; cx.contracts['statistics::Statistics::Instance'] = lambda cx, c: m
        def gh(cx, c): t = c.f['pt'][0]; st_t = p.types[t]['e'] if p.types[t]['k'] == 'ref' else t; z = cx.pack(rd(cx, c.args[0]), st_t); return cx.uf('handleOf', z.sort(), I)(z)
        cx.contracts['statistics::Statistics::GetHandle'] = gh; return log
    for nm in ('AddSample', 'IncrementOne'):
        def run(cx, nm=nm):
            log = calls(cx); v = cx.sym('collector', S); r = cx.new_cell('collector', v); x = cx.input('sample', cx.fresh('x', R)); s, _ = attempt(cx, lambda: call(cx, fn_id(p, N + nm), r, *([x] if nm == 'AddSample' else []))); cx.oblige('booking returns', s == 'ok'); cx.oblige('exactly one sample is booked', len(log) == 1)
            if s != 'ok' or len(log) != 1: return
            cx.oblige('the sample is booked to the tag of the collector', z3.And(log[0][0] == cx.ix(v.f['handle_']), log[0][1] == (x if nm == 'AddSample' else 1))); cx.cover('end')
        cx.explore(nm, run)
    def run(cx):
        log = calls(cx); f = fn_id(p, N + 'StatsCollectorImpl', lambda p, f: 'string' in p.tname(f['pt'][0])); tc, z = tag(cx, f); r = cx.new_cell('collector', cx.default(S)); s, _ = attempt(cx, lambda: call(cx, f, r, tc)); cx.oblige('construction returns', s == 'ok'); cx.oblige('a collector carries the handle of its tag', cx.ix(cx.read(r).f['handle_']) == cx.uf('handleOf', z.sort(), I)(z)); cx.oblige('the handle is reported', cx.ix(call(cx, fn_id(p, N + 'GetHandle'), r)) == cx.ix(cx.read(r).f['handle_'])); cx.cover('end')
    cx.explore('construction from a tag', run)
    def run(cx):
        log = calls(cx); f = fn_id(p, N + 'StatsCollectorImpl', lambda p, f: p.tname(f['pt'][0]) == 'u64'); h = cx.input('handle', cx.fresh_int('h', 0, 2**64 - 1)); r = cx.new_cell('collector', cx.default(S)); s, _ = attempt(cx, lambda: call(cx, f, r, h)); cx.oblige('construction returns', s == 'ok'); cx.oblige('a collector carries its handle', cx.ix(cx.read(r).f['handle_']) == h); cx.cover('end')
    cx.explore('construction from a handle', run); return cx
def t_value(env):
    """one collector against the contract of its accumulators"""
    cx = env.ctx('timers', 'int'); p = cx.prog; T = rec_of(p, COLL); A = 'statistics::Accumulator'
    def setup(cx):
        cx.opaques = {A}; at = dict(cx.fields(T))['values_']; so = cx.sort(at); add = cx.uf('accWith', so, R, so); num = cx.uf('accCount', so, I)
        def addc(cx, c): cx.write(c.obj, add(cx.read(c.obj), cx.zr(rd(cx, c.args[0]))))
        cx.contracts[A + '::Add'] = addc; cx.contracts[A + '::total_samples'] = lambda cx, c: num(cx.read(c.obj))
        for n in ('sum', 'Mean', 'RollingMean', 'GetMostRecent', 'max', 'min', 'LazyVariance'): cx.contracts[A + '::' + n] = lambda cx, c, n=n: cx.uf('acc:' + n, so, R)(cx.read(c.obj))
        clk = []
        def now(cx, c): v = ('clock', cx.fresh('now', I)); clk.append(v[1]); return v
        for q in ('std::chrono::system_clock::now', 'std::chrono::_V2::system_clock::now'): cx.contracts[q] = now
        v = cx.sym('collector', T); cx.assume(cx.ix(v.f['epoch_clock_'][1]) == 0); a, d = v.f['values_'], v.f['time_deltas_']; cx.assume(z3.And(num(a) >= 0, num(d) >= 0, num(a) < 2**31, num(d) < 2**31)); return v, cx.new_cell('collector', v), so, add, num, clk
    def run(cx):
        v, r, so, add, num, clk = setup(cx); x = cx.input('sample', cx.fresh('x', R)); a, d, t = v.f['values_'], v.f['time_deltas_'], cx.ix(v.f['time_last_called_'][1]); s, _ = attempt(cx, lambda: call(cx, fn_id(p, COLL + '::AddValue'), r, x)); cx.oblige('adding returns', s == 'ok')
        if s != 'ok': return
        w = cx.read(r); cx.oblige('the sample is added exactly once', w.f['values_'] == add(a, x)); cx.oblige('the time is taken', bool(clk))
        if not clk: return
        n = clk[-1]; cx.oblige('the time between samples is added from the second sample on', w.f['time_deltas_'] == z3.If(t != 0, add(d, z3.ToReal(n - t) * z3.Q(1, 10**9)), d)); cx.oblige('the time of the sample is remembered', cx.ix(w.f['time_last_called_'][1]) == n); cx.cover('end')
    cx.explore('adding', run)
    for nm, (fld, q) in dict(Sum=('values_', 'sum'), TotalSamples=('values_', None), Mean=('values_', 'Mean'), RollingMean=('values_', 'RollingMean'), Max=('values_', 'max'), Min=('values_', 'min'), LazyVariance=('values_', 'LazyVariance'), GetLastValue=('values_', 'GetMostRecent'), GetLastDeltaTime=('time_deltas_', 'GetMostRecent'),
                             MeanDeltaTime=('time_deltas_', 'Mean'), RollingMeanDeltaTime=('time_deltas_', 'RollingMean'), MaxDeltaTime=('time_deltas_', 'max'), MinDeltaTime=('time_deltas_', 'min'), LazyVarianceDeltaTime=('time_deltas_', 'LazyVariance'), MeanCallsPerSec=('time_deltas_', 'rate')).items():
        fs = p.find(COLL + '::' + nm)
        if not fs: continue
        def run(cx, nm=nm, fld=fld, q=q, f=fs[0]):
            v, r, so, add, num, clk = setup(cx); s, x = attempt(cx, lambda: call(cx, f, r)); cx.oblige('the query returns', s == 'ok')
            if s != 'ok': return
            a = v.f[fld]; F = lambda n: cx.uf('acc:' + n, so, R)(a)
            if q is None: cx.oblige('the number of samples is reported', cx.ix(x) == num(a)); cx.cover('end'); return
            x = cx.zr(rd(cx, x))
            if q == 'rate': m = F('Mean'); cx.oblige('the rate is the inverse of the mean time between samples', z3.If(m != 0, x == 1 / m, x == -1))
            elif q == 'GetMostRecent': cx.oblige('the last figure is reported, zero without samples', x == z3.If(num(a) == 0, 0, F(q)))
            else: cx.oblige('the figure asked for is reported', x == F(q))
            cx.cover('end')
        cx.explore(nm, run)
    return cx
def tasks(env):
    ts = [Task('timer', t_timer), Task('collector handle', t_stats), Task('collector', t_value)]
    for k in KINDS: ts += [Task(k + ': tags', t_handles(k)), Task(k + ': queries', t_queries(k))]
    return ts
