"""B02: target observations return the right corner for every id."""
REPLAY_SRC = ['REPO/aslam_cv_calibration/src/target-base.cc']; REPLAY_SECS = (10, 120)
from calibutil import *
UNITS = UNIT
ASSUMPTIONS = ['a target has fewer than 2^31 points and an observation fewer than 2^31 corners', 'std::unordered_map behaves as specified (engine/models.py)']
LEVEL_NOTE = "contracts of the constructor and of every query proved for all targets, id lists (partial, repeated, unordered) and corner positions"
def idat(cx, ids, i): return pk(cx, ids.el(cx, i, 0), ids.et)
def same_obs(cx, a, b): return AND(same_mat(cx, a.f['corner_ids_'], b.f['corner_ids_']), same_mat(cx, a.f['image_corners_'], b.f['image_corners_']))
def t_make(env):
    cx = env.ctx('calib', 'int'); p = cx.prog; f = fn_id(p, 'vu::observe'); st = {}
    def inv(cx, L):
        o = cx.read(L.frame.this)
        i = cx.ix(L['index']); M = o.f['cornerid_to_index_map_']
        return [('range', z3.And(i >= 0, i <= cx.ix(o.f['corner_ids_'].r)))] + obs_inv(cx, o.f['corner_ids_'], M, i)
    cx.loopspecs = [LoopSpec(inv, name='build index')]
    for null in (False, True):
        def run(cx, null=null):
            T = target(cx, rec='aslam::calibration::TargetBase'); tc = cx.new_cell('target', T); h, w = cx.fresh_int('h', 0, 2**32 - 1), cx.fresh_int('w', 0, 2**32 - 1)
            ids, C = cx.sym('ids', ptype(p, f, 3)), cx.sym('corners', ptype(p, f, 4)); cx.assume(z3.And(cx.ix(ids.r) < 2**31, cx.ix(C.c) < 2**31)); j = z3.Int('j!id'); e = idat(cx, ids, j); cx.assume(z3.ForAll([j], z3.And(e >= -2**31, e < 2**31), patterns=[e]))
            ic, cc = cx.new_cell('ids', ids), cx.new_cell('corners', C); tp = cx.new_cell('ptr', NULL if null else Ptr(tc))
            s, v = attempt(cx, lambda: call(cx, f, None, tp, h, w, ic, cc)); ok = AND(not null, eqi(cx, ids.r, C.c))
            if s != 'ok': cx.oblige('as many ids as corners of a target are accepted', NOT(ok)); return
            cx.oblige('a missing target or unequal counts are refused', ok)
            if null: return
            o = cx.read(v.ref)
            cx.oblige('the observation stores what it is given', AND(o.f['target_'].ref is not None and o.f['target_'].ref.cell == tc.cell, eqi(cx, o.f['image_height'], h), eqi(cx, o.f['image_width'], w), same_mat(cx, o.f['corner_ids_'], ids), same_mat(cx, o.f['image_corners_'], C)))
            for k, g in obs_inv(cx, ids, o.f['cornerid_to_index_map_'], cx.ix(ids.r)): cx.oblige(k, g)
            cx.cover('end')
        cx.explore('construction%s' % (' null' if null else ''), run)
    return cx
def t_lookup(env):
    cx = env.ctx('calib', 'int'); p = cx.prog; st = {}
    def inv(cx, L):
        i = cx.ix(L['i']); ids = st['ids']; j = z3.Int('j!lk'); e = idat(cx, ids, j)
        return [('range', z3.And(i >= 0, i <= cx.ix(ids.r))), ('not found so far', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), e != st['id']), patterns=[e]))]
    cx.loopspecs = [LoopSpec(inv, name='lookup')]
    def run(cx):
        o, T, tc = observation(cx); oc = cx.new_cell('observation', o); f = fn_id(p, 'vu::by_id'); out = cx.new_cell('corner', cx.sym('corner', ptype(p, f, 2))); id_ = cx.input('id', cx.fresh_int('id', -2**31, 2**31 - 1)); o0 = vcopy(o)
        ids = o.f['corner_ids_']; st.update(id=id_, ids=ids); n = cx.ix(ids.r); R, C = fld(T, 'rows_'), fld(T, 'cols_'); inside = z3.And(id_ >= 0, id_ < R * C); A = z3.Int('j!pr')
        s, v = attempt(cx, lambda: call(cx, f, None, oc, id_, Ptr(out)))
        if s != 'ok': cx.oblige('an id of the target is accepted', z3.Not(inside)); return
        cx.oblige('an id outside the target is refused', inside)
        if not cx.branch(inside): return
        e = idat(cx, ids, A); M = o.f['cornerid_to_index_map_']
        if cx.branch(cx.zb(v)):
            q = mval(cx, out); K = z3.Int('k!pr'); I_ = o.f['image_corners_']; hit = lambda K: z3.And(K >= 0, K < n, idat(cx, ids, K) == id_, *[pk(cx, q.el(cx, r, 0), q.et) == pk(cx, I_.el(cx, r, K), I_.et) for r in range(2)])
            cx.oblige('the image point stored with that id is returned', z3.Exists([K], hit(K)))
        else: cx.oblige('only an unobserved id is reported absent', z3.ForAll([A], z3.Implies(z3.And(A >= 0, A < n), e != id_)))
        cx.oblige('queries change nothing', same_obs(cx, cx.read(oc), o0)); cx.cover('end')
    cx.explore('lookup by id', run)
    def run(cx):
        o, T, tc = observation(cx); oc = cx.new_cell('observation', o); f = fn_id(p, 'vu::observed'); id_ = cx.input('id', cx.fresh_int('id', 0, 2**64 - 1)); ids = o.f['corner_ids_']; n = cx.ix(ids.r); inside = id_ < fld(T, 'rows_') * fld(T, 'cols_'); o0 = vcopy(o)
        s, v = attempt(cx, lambda: call(cx, f, None, Ptr(oc), id_))
        if s != 'ok': cx.oblige('an id of the target is accepted', z3.Not(inside)); return
        cx.oblige('an id outside the target is refused', inside); K = z3.Int('k!pr'); e = idat(cx, ids, K); M = o.f['cornerid_to_index_map_']
        if not cx.branch(inside): return
        if cx.branch(cx.zb(v)): w = z3.Select(M.val, id_); cx.oblige('only an observed id is reported present', z3.And(w >= 0, w < n, idat(cx, ids, w) == id_))
        else: cx.oblige('only an unobserved id is reported absent', z3.ForAll([K], z3.Implies(z3.And(K >= 0, K < n), e != id_)))
        cx.oblige('queries change nothing', same_obs(cx, cx.read(oc), o0)); cx.cover('end')
    cx.explore('presence', run); return cx
def t_lists(env):
    cx = env.ctx('calib', 'int'); p = cx.prog; st = {}
    def inv(cx, L):
        i = cx.ix(L['obs_idx']); ids, P = st['ids'], st['P']; M = L['corners_target_frame']; j = z3.Int('j!tp'); e = idat(cx, ids, j); g = z3.And(j >= 0, j < i); R = st['size']
        return [('range', z3.And(i >= 0, i <= cx.ix(ids.r))), ('shape', AND(eqi(cx, M.r, 3), eqi(cx, M.c, ids.r))), ('ids in range', z3.ForAll([j], z3.Implies(g, z3.And(e >= 0, e < R)), patterns=[e]))] + [
                ('paired so far %d' % r, z3.ForAll([j], z3.Implies(g, pk(cx, M.el(cx, r, j), M.et) == pk(cx, P.el(cx, r, e), P.et)), patterns=[e])) for r in range(3)]
    cx.loopspecs = [LoopSpec(inv, name='pairing')]
    def run(cx):
        o, T, tc = observation(cx); oc = cx.new_cell('observation', o); o0 = vcopy(o); ids = o.f['corner_ids_']; n = cx.ix(ids.r); R = fld(T, 'rows_') * fld(T, 'cols_'); P = fld(T, 'points_target_frame_'); st.update(ids=ids, P=P, size=R)
        bad = cx.fresh('bad', I); s, v = attempt(cx, lambda: call(cx, fn_id(p, 'vu::target_points'), None, oc)); j = z3.Int('j!pt'); e = idat(cx, ids, j)
        inr = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(e >= 0, e < R)), patterns=[e])
        if s != 'ok': cx.oblige('ids of the target are accepted', z3.Not(inr)); return
        cx.oblige('an id outside the target is refused', inr); m = mval(cx, v); cx.oblige('one target point per observed corner', AND(eqi(cx, m.r, 3), eqi(cx, m.c, n)))
        for r in range(3): cx.oblige('each id is paired with its target position, in order', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), pk(cx, m.el(cx, r, j), m.et) == pk(cx, P.el(cx, r, e), P.et)), patterns=[e]))
        cx.oblige('queries change nothing', same_obs(cx, cx.read(oc), o0)); cx.cover('end')
    cx.explore('target points', run)
    def run(cx):
        o, T, tc = observation(cx); oc = cx.new_cell('observation', o); o0 = vcopy(o); ids, C = o.f['corner_ids_'], o.f['image_corners_']; n = cx.ix(ids.r); C_ = lambda nm, *a: call(cx, fn_id(p, 'vu::' + nm), None, *a)
        cx.oblige('the number of observed corners is reported', eqi(cx, C_('count', oc), n)); cx.oblige('completeness is reported', cx.zb(C_('all', oc)) == (n == fld(T, 'rows_') * fld(T, 'cols_')))
        cx.oblige('ids and corners are returned as stored', AND(same_mat(cx, mval(cx, C_('ids', oc)), ids), same_mat(cx, mval(cx, C_('corners', oc)), C)))
        cx.oblige('the image size is returned', AND(eqi(cx, C_('im_width', Ptr(oc)), o.f['image_width']), eqi(cx, C_('im_height', Ptr(oc)), o.f['image_height'])))
        for nm, a in (('target', Ptr(oc)), ('target_c', oc)): v = C_(nm, a); v = v if isinstance(v, Ptr) else cx.read(v); cx.oblige('the target is returned', v.ref is not None and v.ref.cell == tc.cell)
        k = cx.input('position', cx.fresh_int('k', 0, 2**31 - 1)); s, v = attempt(cx, lambda: C_('corner', oc, k))
        if s == 'ok':
            q = mval(cx, v); cx.oblige('a position beyond the observation is refused', k < n)
            if cx.branch(k < n): cx.oblige('the corner at that position is returned', z3.And(*[pk(cx, q.el(cx, r, 0), q.et) == pk(cx, C.el(cx, r, k), C.et) for r in range(2)]))
        else: cx.oblige('a position of the observation is accepted', k >= n)
        s, v = attempt(cx, lambda: C_('id_at', oc, k)); e = idat(cx, ids, k)
        if s == 'ok': cx.oblige('a position beyond the observation is refused', k < n); cx.oblige('the id at that position is returned', cx.ix(v) == z3.If(e >= 0, e, e + 2**64))
        else: cx.oblige('a position of the observation is accepted', k >= n)
        cx.oblige('queries change nothing', same_obs(cx, cx.read(oc), o0)); cx.cover('end')
    cx.explore('accessors', run); return cx
def tasks(env): return [Task('construction', t_make), Task('lookup', t_lookup), Task('lists', t_lists)]
