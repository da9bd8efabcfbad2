"""M01: track ids along matches."""
from util import *
import core, models, eigen, monitor
from models import *
from eigen import Mat, mval
UNITS = {'tracks': r'^(aslam::(VisualFrame|SimpleTrackManager|TrackManager|ThreadSafeIdProvider|FrameToFrame|addToSets)|vu::)'}
REPLAY_SRC = ['REPO/aslam_cv_common/src/%s.cc' % n for n in ('sensor', 'hash-id', 'internal/unique-id', 'channel', 'channel-serialization')] + ['REPO/aslam_cv_cameras/src/%s.cc' % n for n in ('camera', 'distortion', 'distortion-radtan', 'distortion-equidistant', 'distortion-fisheye')]
REPLAY_LIBS = ['-lyaml-cpp', '-lglog', '-lgflags', '-lprotobuf', '-lopencv_core', '-pthread']; REPLAY_SECS = (10, 120)
I = z3.IntSort(); LIM = 2**31
class Locks:
    """the mutex of the id provider"""
    def __init__(s, cx): s.cx, s.held, s.sections = cx, 0, 0
    def for_mutex(s, r): return s
    def acquire(s):
        s.cx.oblige('the mutex is not taken twice', s.held == 0); s.held = 1; s.sections += 1; s.on()
    def release(s): s.held = 0
    def on(s): pass
    def ob(s, kind, what, f): s.cx.oblige(what, f)
def install(cx, W):
    """channel accessors by their contracts (H03), one track id list and one keypoint matrix per frame"""
    C = cx.contracts; K = 'aslam::channels::%s'
    fr = lambda cx, a: W[(rd(cx, a).ref if isinstance(rd(cx, a), Ptr) else a).cell] if isinstance(a, Ref) and a.cell not in W else W[a.cell]
    C[K % 'has_TRACK_IDS_Channel'] = lambda cx, c: cx.read(fr(cx, c.args[0])['has'])
    def get(cx, c):
        w = fr(cx, c.args[0])
        if not cx.branch(cx.zb(cx.read(w['has']))): raise Abort(0)
        return w['ids']
    def add(cx, c):
        p = rd(cx, c.args[0]); w = W[p.ref.cell]
        if cx.branch(cx.zb(cx.read(w['has']))): raise Abort(0)
        cx.write(w['has'], z3.BoolVal(True)); m = mval(cx, w['ids']); cx.write(w['ids'], Mat(m.t, m.et, 0, 1, at=m.at)); return w['ids']
    C[K % 'get_TRACK_IDS_Data'], C[K % 'add_TRACK_IDS_Channel'] = get, add
    C[K % 'get_VISUAL_KEYPOINT_MEASUREMENTS_Data'] = lambda cx, c: fr(cx, c.args[0])['points']; C[K % 'has_VISUAL_KEYPOINT_MEASUREMENTS_Channel'] = lambda cx, c: True
def frame(cx, p, name, W, has=None):
    f = fn_id(p, 'vu::channel'); T = ptype(p, f, 0); r = cx.new_cell(name, Rec(T, {'channels_': 0}))
    it = p.types[p.funcs[f]['ret']]['e']; ids = cx.sym('ids of ' + name, it); n = cx.input('keypoints of ' + name, cx.ix(ids.r)); cx.assume(n < LIM); j = z3.Int('j!rng'); e = ids.term(cx, j, 0); cx.assume(z3.ForAll([j], z3.And(e >= -LIM, e < LIM), patterns=[e]))
    h = z3.Bool('has ids ' + name) if has is None else z3.BoolVal(has)
    W[r.cell] = dict(ids=cx.new_cell('ids of ' + name, ids), has=cx.new_cell('has ' + name, h), points=cx.new_cell('points of ' + name, Mat(None, ids.et, 2, n, at=lambda a, b: z3.IntVal(0)))); return r, W[r.cell], ids, n, h
def view(ids, h):
    """what a frame says about keypoint x before: its id, or none"""
    return lambda cx, x: ids.term(cx, x, 0) if z3.is_true(h) else z3.IntVal(-1) if z3.is_false(h) else z3.If(h, ids.term(cx, x, 0), z3.IntVal(-1))
def t_channel(env):
    cx = env.ctx('tracks', 'int'); p = cx.prog
    def run(cx):
        W = {}; install(cx, W); r, w, ids, n, h = frame(cx, p, 'frame', W); s, v = attempt(cx, lambda: call(cx, fn_id(p, 'vu::channel'), None, Ptr(r))); cx.oblige('every frame has a list of track ids', s == 'ok')
        if s != 'ok': return
        cx.oblige('the list of the frame itself is returned', v.ref is not None and v.ref.cell == w['ids'].cell); m = mval(cx, w['ids']); j = z3.Int('j!ch')
        cx.oblige('one id per keypoint', cx.ix(m.r) == n); cx.oblige('ids that were there are kept, others are none', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), m.term(cx, j, 0) == view(ids, h)(cx, j)))); cx.oblige('the frame has ids afterwards', cx.zb(cx.read(w['has']))); cx.cover('end')
    cx.explore('id list of a frame', run)
    def run(cx): s, v = attempt(cx, lambda: call(cx, fn_id(p, 'vu::channel'), None, Ptr(None))); cx.oblige('no frame is refused', s != 'ok')
    cx.explore('no frame', run); return cx
def t_provider(env):
    cx = env.ctx('tracks', 'int'); p = cx.prog
    for nm in ('fresh', 'restart'):
        def run(cx, nm=nm):
            f = fn_id(p, 'vu::' + nm); cx.monitor = L = Locks(cx); o = cx.sym('provider', ptype(p, f, 0)); r = cx.new_cell('provider', o); g0 = cx.fresh('next id', I); init = cx.ix(o.f['initial_id_']); seen = {}
            cx.assume(z3.And(init >= 0, init < LIM))
            def on():         # other threads may have drawn ids up to now
                v = cx.fresh('next id now', I); cx.assume(z3.And(v >= g0, v < LIM, v >= 0)); q = cx.read(r); q.f['id_'] = v; cx.write(r, q); seen['at'] = v
            L.on = on
            s, v = attempt(cx, lambda: call(cx, f, None, r)); cx.oblige('%s returns' % nm, s == 'ok')
            if s != 'ok': return
            cx.oblige('the counter is used in one critical section', AND(L.sections == 1, L.held == 0))
            if L.sections != 1: return
            q = cx.read(r); nxt = cx.ix(q.f['id_'])
            if nm == 'fresh': cx.oblige('the id handed out was never handed out before', cx.ix(v) >= seen['at']); cx.oblige('it will not be handed out again', nxt > cx.ix(v))
            else: cx.oblige('the counter starts over', nxt == init)
            cx.oblige('the first id stays', cx.ix(q.f['initial_id_']) == init); cx.cover('end')
        cx.explore({'fresh': 'a new id', 'restart': 'starting over'}[nm], run)
    return cx
def fall(vs, body, pats):
    good = []
    def clean(q): return z3.is_const(q) or q.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR) and all(clean(a) for a in q.children()) or q.num_args() == 0 or q.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) and all(clean(a) for a in q.children())
    def has(q): return any(q.eq(v) for v in vs) or any(has(a) for a in q.children())
    for q in pats:
        if not isinstance(q, z3.PatternRef) and not (clean(q) and has(q)): continue
        if isinstance(q, z3.PatternRef): continue
        try: z3.ForAll(vs, body, patterns=[q]); good.append(q)
        except z3.Z3Exception: pass
    return z3.ForAll(vs, body, patterns=good) if good else z3.ForAll(vs, body)
def t_apply(valid, has):
    def go(env):
        cx = env.ctx('tracks', 'int', opts=dict(feas_ms=250)); p = cx.prog; f = fn_id(p, 'vu::apply'); st = {}
        def at(i, which): e = cx.vec_get(st['m'], i); return cx.ix(holder(e, which).f[which])
        def inv(cx, L):
            i = cx.ix(cx.read(L.idx)); ids = [mval(cx, st['w'][q]['ids']) for q in (0, 1)]; sets = [L['consumed_As'], L['consumed_Bs']]; nxt = cx.ix(cx.read(st['next'])); k, l, x = z3.Ints('k!m l!m x!m')
            yield 'range', z3.And(i >= 0, i <= st['n']); yield 'fresh ids only grow', z3.And(nxt >= st['N0'], nxt < LIM)
            m = [lambda k, q=q: at(k, ('first', 'second')[q]) for q in (0, 1)]
            for q in (0, 1):
                N, pos, was, now = st['num'][q], st['pos'][q], st['was'][q], lambda x, q=q: ids[q].term(cx, x, 0)
                yield 'shape %d' % q, z3.And(cx.ix(ids[q].r) == N, cx.zb(cx.read(st['w'][q]['has'])))
                yield 'matches used once %d' % q, fall([k], z3.Implies(z3.And(k >= 0, k < i), z3.And(m[q](k) >= 0, m[q](k) < N, pos(m[q](k)) == k)), [m[q](k)])
                yield 'used keypoints %d' % q, fall([x], z3.Select(sets[q].dom, x) == (pos(x) < i), [z3.Select(sets[q].dom, x), pos(x)])
                yield 'unmatched keypoints keep their id %d' % q, fall([x], z3.Implies(z3.And(x >= 0, x < N, pos(x) >= i), now(x) == was(cx, x)), [now(x), pos(x)])
                yield 'existing ids are kept %d' % q, fall([x], z3.Implies(z3.And(x >= 0, x < N, was(cx, x) >= 0), now(x) == was(cx, x)), [now(x), pos(x)])
                yield 'ids are ids %d' % q, fall([x], z3.Implies(z3.And(x >= 0, x < N), z3.And(now(x) >= -LIM, now(x) < LIM, z3.Implies(now(x) >= 0, now(x) < nxt))), [now(x), pos(x)])
            a, b = [lambda k, q=q: ids[q].term(cx, m[q](k), 0) for q in (0, 1)]; was = [lambda k, q=q: st['was'][q](cx, m[q](k)) for q in (0, 1)]; new = lambda k: z3.And(was[0](k) < 0, was[1](k) < 0); pat = [m[0](k)]
            yield 'matched keypoints have one id', fall([k], z3.Implies(z3.And(k >= 0, k < i), z3.And(a(k) == b(k), a(k) >= 0, z3.Implies(new(k), a(k) >= st['N0']))), pat)
            yield 'new tracks differ', fall([k, l], z3.Implies(z3.And(k >= 0, k < l, l < i, new(k), new(l)), a(k) != a(l)), [z3.MultiPattern(m[0](k), m[0](l))])
        cx.loopspecs = [LoopSpec(inv, name='matches')]; cx.hooks['global'] = lambda cx, v, V: st['provider'] if V['n'].endswith('track_id_provider_') else None
        def run(cx):
            W = {}; install(cx, W); fa, wa, ia, na, ha = frame(cx, p, 'A', W, has[0]); fb, wb, ib, nb, hb = frame(cx, p, 'B', W, has[1]); lt = ptype(p, f, 1); M = cx.sym('matches', lt); n = cx.input('number of matches', cx.ix(M.n)); cx.assume(n < LIM)
            nxt = cx.fresh('next id', I); cx.assume(z3.And(nxt >= 0, nxt < LIM)); nc = cx.new_cell('next id', nxt); st.update(provider=cx.new_cell('provider', cx.sym('provider', ptype(p, fn_id(p, 'vu::fresh'), 0))), m=M, n=n, w=(wa, wb), N0=nxt, next=nc, num=(na, nb), was=(view(ia, ha), view(ib, hb)), pos=[])
            def fresh(cx, c):
                cur = cx.ix(cx.read(nc)); v = cx.fresh('new id', I); cx.assume(z3.And(v >= cur, v < LIM - 1)); cx.write(nc, v + 1); return v
            cx.contracts['aslam::ThreadSafeIdProvider::getNewId'] = fresh
            k, x, y = z3.Ints('k!p x!p y!p')
            for q, w in ((0, 'first'), (1, 'second')):      # pos: the first match of a keypoint (a definition)
                e = at(k, w); pos = z3.Function('first match of %s' % 'AB'[q], I, I); st['pos'].append(pos); cx.assume(fall([k], z3.And(e >= -LIM, e < LIM), [e])); cx.assume(fall([k], z3.Implies(z3.And(k >= 0, k < n), pos(e) <= k), [e])); cx.assume(fall([x], z3.And(pos(x) >= 0, pos(x) <= n, z3.Implies(pos(x) < n, at(pos(x), w) == x)), [pos(x)]))
                was, N = st['was'][q], st['num'][q]; cx.assume(fall([x], z3.Implies(z3.And(x >= 0, x < N), was(cx, x) < nxt), [(ia, ib)[q].term(cx, x, 0), pos(x)]))
                cx.assume(z3.Implies((ha, hb)[q], cx.ix((ia, ib)[q].r) == N))
            if valid:
                for q, w in ((0, 'first'), (1, 'second')): e = at(k, w); cx.assume(fall([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(e >= 0, e < st['num'][q], st['pos'][q](e) == k)), [e]))
                a, b = st['was'][0](cx, at(k, 'first')), st['was'][1](cx, at(k, 'second')); cx.assume(fall([k], z3.Implies(z3.And(k >= 0, k < n), z3.Or(a < 0, b < 0, a == b)), [at(k, 'first'), at(k, 'second')]))
            mgr = cx.new_cell('manager', Rec(ptype(p, f, 0), {})); mc = cx.new_cell('matches', M)
            s, v = attempt(cx, lambda: call(cx, f, None, mgr, mc, Ptr(fa), Ptr(fb)))
            if valid: cx.oblige('matches that use each keypoint once and join no two tracks are accepted', s == 'ok')
            if s != 'ok': return
            ids = [mval(cx, w['ids']) for w in st['w']]; now = [lambda x, q=q: ids[q].term(cx, x, 0) for q in (0, 1)]; was = [lambda x, q=q: st['was'][q](cx, x) for q in (0, 1)]
            g = cx.fresh('g', I); cx.assume(z3.And(g >= 0, g < n)); ga, gb = at(g, 'first'), at(g, 'second'); A0, B0, A1, B1 = was[0](ga), was[1](gb), now[0](ga), now[1](gb)
            cx.oblige('matches outside the frames are refused', z3.And(ga >= 0, ga < na, gb >= 0, gb < nb))
            g2 = cx.fresh('g2', I); cx.assume(z3.And(g2 > g, g2 < n)); ga2, gb2 = at(g2, 'first'), at(g2, 'second'); cx.oblige('matches that use a keypoint twice are refused', z3.And(ga != ga2, gb != gb2))
            cx.oblige('the join of two tracks is refused', z3.Or(A0 < 0, B0 < 0, A0 == B0))
            cx.oblige('matched keypoints end on the same track', z3.And(A1 == B1, A1 >= 0)); cx.oblige('an existing track is continued', z3.And(z3.Implies(A0 >= 0, B1 == A0), z3.Implies(B0 >= 0, A1 == B0)))
            cx.oblige('a match without a track starts one never used before', z3.Implies(z3.And(A0 < 0, B0 < 0), z3.And(A1 >= nxt, A1 < cx.ix(cx.read(nc)))))
            for q in (0, 1):
                N, T = st['num'][q], 'AB'[q]; xx, yy = cx.fresh('x', I), cx.fresh('y', I); cx.assume(z3.And(xx >= 0, xx < N, yy >= 0, yy < N, xx != yy)); o = 1 - q; pos = st['pos'][q]
                cx.oblige('existing ids are never changed', z3.Implies(was[q](xx) >= 0, now[q](xx) == was[q](xx))); cx.oblige('keypoints without match keep what they had', z3.Implies(pos(xx) >= n, now[q](xx) == was[q](xx))); cx.oblige('every keypoint keeps its place', z3.And(cx.ix(ids[q].r) == N))
                # two keypoints of one frame: neither frame had a track twice, and no track continued into the frame was already on another keypoint of it
                pre = [fall([x, y], z3.Implies(z3.And(x >= 0, y >= 0, x < st['num'][r], y < st['num'][r], x != y, was[r](x) >= 0), was[r](x) != was[r](y)), [z3.MultiPattern(st['pos'][r](x), st['pos'][r](y))]) for r in (0, 1)]
                oth = lambda k: was[o](at(k, ('second', 'first')[q])); own_ = lambda k: at(k, ('first', 'second')[q]); own = lambda k: was[q](at(k, ('first', 'second')[q]))
                pre.append(fall([k, x], z3.Implies(z3.And(k >= 0, k < n, own(k) < 0, oth(k) >= 0, x >= 0, x < N), was[q](x) != oth(k)), [z3.MultiPattern(own_(k), pos(x))]))
                cx.oblige('no two keypoints of one frame get one track', z3.Implies(z3.And(*pre), z3.Or(now[q](xx) != now[q](yy), now[q](xx) < 0)))
            cx.cover('end')
        cx.explore('valid matches' if valid else 'any matches', run); return cx
    return go
def holder(e, n):
    if n in e.f: return e
    for v in e.f.values():
        if isinstance(v, Rec):
            h = holder(v, n)
            if h is not None: return h
def tasks(env): return [Task('id list', t_channel), Task('provider', t_provider), *[Task('%s matches %d%d' % (n, *h), t_apply(v, h)) for n, v in (('any', False), ('valid', True)) for h in ((1, 1), (1, 0), (0, 1), (0, 0))]]
ASSUMPTIONS = ['the two frames are different objects and every list of track ids present has one entry per keypoint', 'fewer than 2^31 track ids are handed out, and none of the ids present is one still to be handed out (the provider is not restarted in between)', 'two keypoints of one frame: neither frame held a track twice before, and a track continued into a frame was not already on another keypoint of that frame', 'channel accessors obey their contracts (H03)', 'the minkindr dependency is replaced by a stand-in header (stubs/)']
TECHNIQUE = "contract-based deductive verification (extracted C++, symbolic execution, loop invariant over the match list with ghost first-use positions; id counter as a monitor; z3)"
LEVEL_NOTE = "assignment of ids, refusals and the id counter proved for all match lists, frames and existing ids"
