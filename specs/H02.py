"""H02: malformed serialized channel data is refused, never read past."""
from chanutil import *
REPLAY_SRC, REPLAY_LIBS, REPLAY_FLAGS = SRC, LIBS, FLAGS
REPLAY_SECS = (20, 200)
ASSUMPTIONS = ['buffers and matrices occupy fewer than 2^62 bytes', 'Eigen resize throws when the matrix does not fit the address space, cv::Mat::create throws for negative or unrepresentable sizes and keeps only the low 12 bits of the type', 'a refusal is an abort (CHECK) or an exception']
LEVEL_NOTE = "for every buffer of every length and content: accepted data agrees with its header, its size and the target, refused data does not, and every access stays inside buffer and target (list count and offsets by loop invariant)"
MATS = ['dxx', 'bxx', 'd2x', 'ix3', 'fx1', 'd32']
def input_buf(cx):
    n = cx.input('size', cx.fresh('size', Z)); cx.assume(z3.And(n >= 0, n < 2**62)); b = mkb(cx, 'input', n); byte_rng(cx, b.arr); return b, cx.new_cell('input', vcopy(b))
def ctx(env): cx = env.ctx('chan', 'int', opts=dict(signed_overflow=True)); setup(cx, exact=True); return cx
def fits(cx, t, h):
    r, c = static_dims(cx, t); return [h[0] == r if r is not None else True, h[1] == c if c is not None else True, h[2] == depth_of(cx, t), h[3] == 1]
def mat_task(nm):
    def fn(env):
        cx = ctx(env); p = cx.prog; fb = fn_id(p, 'vu::%s_from_buffer' % nm); t = ptype(p, fb, 2); esz = cx.sizeof(cx.T(t)['a'][0]['t'])
        def run(cx):
            b, c = input_buf(cx); h = hdr(cx, b, z3.IntVal(0)); R, C = cx.fresh('R', Z), cx.fresh('C', Z); cx.assume(z3.And(R == h[0], C == h[1])); T0 = cx.new_cell('target', fresh_bm(cx, t, 'target')); T1 = cx.read(T0).copy()
            for nme, v in zip(('rows', 'cols', 'depth', 'channels'), h): cx.input('header.' + nme, v)
            s, v = attempt(cx, lambda: call(cx, fb, None, Ptr(c.at(0)), b.n, Ptr(T0))); wf = z3.And(b.n >= 16, *[cx.zb(x) for x in fits(cx, t, [R, C, h[2], h[3]])], b.n == 16 + cx.ix(prod(cx, esz, R if static_dims(cx, t)[0] is None else static_dims(cx, t)[0], C if static_dims(cx, t)[1] is None else static_dims(cx, t)[1])))
            ok = s == 'ok' and cx.branch(cx.zb(v)); cx.oblige('the buffer is unchanged', chars(cx, cx.read(c)).arr == b.arr)
            if not ok: cx.oblige('well-formed data is accepted', z3.Not(wf)); cx.cover('refused'); return
            m = cx.read(T0); cx.oblige('accepted data agrees with the size of the buffer and the target', wf); cx.oblige('the dimensions are those of the header', z3.And(cx.ix(m.r) == R, cx.ix(m.c) == C)); cx.oblige('the contents are the payload', same_bytes(cx, chars(cx, m.b), z3.IntVal(0), b, z3.IntVal(16), m.b.n)); cx.cover('accepted')
        cx.explore('matrix %s' % nm, run); return cx
    return Task('matrix %s' % nm, fn)
def img_task(env):
    cx = ctx(env); p = cx.prog; fb = fn_id(p, 'vu::img_from_buffer')
    def run(cx):
        b, c = input_buf(cx); h = hdr(cx, b, z3.IntVal(0)); H = [cx.fresh('H', Z) for _ in h]; [cx.assume(z3.And(x == y, x >= 0, x < 2**32)) for x, y in zip(H, h)]; T0 = cx.new_cell('target', mk_img(cx, 'image'))
        for nme, v in zip(('rows', 'cols', 'depth', 'channels'), H): cx.input('header.' + nme, v)
        s, v = attempt(cx, lambda: call(cx, fb, None, Ptr(c.at(0)), b.n, Ptr(T0))); wf = z3.And(b.n >= 16, H[0] < 2**31, H[1] < 2**31, H[2] < 7, H[3] >= 1, H[3] <= 512, b.n == 16 + cx.ix(prod(cx, esz_of(cx, H[2]), H[0], H[1], H[3])))
        ok = s == 'ok' and cx.branch(cx.zb(v)); cx.oblige('the buffer is unchanged', chars(cx, cx.read(c)).arr == b.arr)
        if not ok: cx.oblige('well-formed data is accepted', z3.Not(wf)); cx.cover('refused'); return
        m = cx.read(T0); D = m.d; cx.oblige('accepted data agrees with the size of the buffer', wf); cx.oblige('size and type are those of the header', z3.And(*[cx.ix(D[k]) == x for k, x in zip(('rows', 'cols', 'depth', 'channels'), H)])); cx.oblige('the contents are the payload', same_bytes(cx, chars(cx, cx.read(Ref(D['data'].ref.cell))), z3.IntVal(0), b, z3.IntVal(16), b.n - 16)); cx.cover('accepted')
    cx.explore('image', run); return cx
def list_task(nm):
    def fn(env):
        cx = ctx(env); list_setup(cx); p = cx.prog; fb = fn_id(p, 'vu::%s_from_buffer' % nm); lt = ptype(p, fb, 2); et = cx.T(lt)['a'][0]['t']; esz = cx.sizeof(cx.T(et)['a'][0]['t']); st = {}
        R, C, LN = z3.Function('header_rows', Z, Z), z3.Function('header_cols', Z, Z), z3.Function('payload', Z, Z)
        def defn(cx, i):
            """rows, columns and payload size that the header of matrix i states"""
            h = hdr(cx, st['b'], st['F'](i)); cx.assume(z3.And(R(i) == h[0], C(i) == h[1], R(i) >= 0, R(i) < 2**32, C(i) >= 0, C(i) < 2**32)); r, c = static_dims(cx, et); cx.assume(z3.And(LN(i) == cx.ix(prod(cx, esz, R(i) if r is None else r, C(i) if c is None else c)), LN(i) >= 0)); return [R(i), C(i), h[2], h[3]]
        def inv(cx, L):
            i = cx.ix(L['i']); F, n, b, K = st['F'], st['n'], st['b'], st['K']; cx.assume(z3.Implies(i >= 0, st['step'](i))); h = defn(cx, i); cx.assume(st['step'](K)); hk = defn(cx, K); t = cx.read(st['t']); st['i'] = i
            return [('range', z3.And(i >= 0, i <= n)), ('offset', z3.And(cx.ix(L['offset']) == F(i), F(i) >= 8 + 16 * i, F(i) <= b.n)), ('length of the list', cx.ix(t.n) == n), ('headers fit the target', z3.Implies(z3.And(K >= 0, K < i), z3.And(F(K + 1) <= F(i), *[cx.zb(x) for x in fits(cx, et, hk)]))), ('matrices have the size of their header', z3.Implies(z3.And(K >= 0, K < i), z3.And(t.R(K) == R(K), t.C(K) == C(K)))), ('matrices carry the payload', z3.Implies(z3.And(K >= 0, K < i), same_bytes(cx, Vec(chart(cx), 0, t.B(K)), z3.IntVal(0), b, F(K) + 16, LN(K))))]
        cx.loopspecs = [LoopSpec(inv, name='read loop')]
        def run(cx):
            st.clear(); b, c = input_buf(cx); n = cx.fresh('count', Z); cx.assume(n == le64(cx, b, z3.IntVal(0))); cx.input('count', n); F, step = ghost_off(cx, lambda F, i: LN(i)); K = cx.fresh('any', Z); t = cx.new_cell('target', fresh_list(cx, lt, et, 'target')); st.update(b=b, n=n, F=F, step=step, K=K, t=t)
            s, v = attempt(cx, lambda: call(cx, fb, None, Ptr(c.at(0)), b.n, Ptr(t)))
            # well-formed: every header fits, every offset stays inside, the last one is the end
            k = z3.Int('k!wf'); i = st.get('i', z3.IntVal(0)); defn(cx, i); cx.assume(z3.Implies(i >= 0, step(i)))
            def good(k): h = hdr(cx, b, F(k)); r, q = static_dims(cx, et); return z3.And(*[cx.zb(x) for x in fits(cx, et, h)], F(k + 1) <= b.n)
            ok = s == 'ok' and cx.branch(cx.zb(v)); cx.oblige('the buffer is unchanged', chars(cx, cx.read(c)).arr == b.arr)
            if not ok:
                # lemma (induction over the recursive definition of the offsets): an offset is at least 8 + 16 per header before it
                cx.oblige('well-formed data is accepted', z3.Not(z3.And(b.n >= 8, n <= (b.n - 8) / 16, F(n) >= 8 + 16 * n, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), good(k)), patterns=[F(k)]), F(n) == b.n))); cx.cover('refused'); return
            x = cx.read(t); hk = defn(cx, K); cx.oblige('accepted data ends at the end of the buffer', z3.And(b.n >= 8, F(n) == b.n)); cx.oblige('the list has the stated length', cx.ix(x.n) == n)
            cx.oblige('every accepted header agrees with the target and lies inside the buffer', z3.Implies(z3.And(K >= 0, K < n), z3.And(F(K + 1) <= b.n, *[cx.zb(y) for y in fits(cx, et, hk)]))); cx.oblige('every matrix has the size and payload of its header', z3.Implies(z3.And(K >= 0, K < n), z3.And(x.R(K) == R(K), x.C(K) == C(K), same_bytes(cx, Vec(chart(cx), 0, x.B(K)), z3.IntVal(0), b, F(K) + 16, LN(K))))); cx.cover('accepted')
        cx.explore('list %s' % nm, run); return cx
    return Task('list %s' % nm, fn)
def scalars(env):
    cx = env.ctx('chan', 'int'); p = cx.prog
    for nm in ('s64', 's8', 'si', 'sd'):
        fb = fn_id(p, 'vu::%s_from_buffer' % nm); t = ptype(p, fb, 2); w = cx.sizeof(t)
        def run(cx, fb=fb, t=t, w=w):
            n = cx.input('size', cx.fresh('size', Z)); cx.assume(z3.And(n >= 0, n < 2**62)); wrong = cx.branch(n != w) if nm == 'sd' else None
            if nm == 'sd' and not wrong: return
            b = mkb(cx, 'input', n); byte_rng(cx, b.arr); c = cx.new_cell('input', b); o = cx.new_cell('target', cx.sym('target', t))
            s, v = attempt(cx, lambda: call(cx, fb, None, Ptr(c.at(0)), n, Ptr(o)))
            if s != 'ok': cx.oblige('a buffer of the right size is accepted', n != w); cx.cover('refused'); return
            cx.oblige('a buffer of another size is refused', n == w)
        cx.explore('scalar %s' % nm, run)
    return cx
def tasks(env): return [mat_task(m) for m in MATS] + [Task('image', img_task), list_task('ld2x'), list_task('ldxx'), Task('scalars', scalars)]
