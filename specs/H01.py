"""H01: channel data serialization round-trips bit for bit."""
from chanutil import *
REPLAY_SRC, REPLAY_LIBS, REPLAY_FLAGS = SRC, LIBS, FLAGS
REPLAY_SECS = (20, 200)
ASSUMPTIONS = ['matrices and images occupy fewer than 2^62 bytes, image sizes fit int', 'Eigen matrices and cv::Mat are seen as their sizes and a contiguous run of bytes (data, rows, cols, resize, create, isContinuous, depth, channels as documented)', 'floating-point scalars (as opposed to matrices) are covered by the driver only']
LEVEL_NOTE = "single matrices of six shapes and element types, lists of matrices by loop invariants, images of all seven depths and integer scalars: header, size, payload and round trip proved for all sizes and contents"
MATS = ['dxx', 'bxx', 'd2x', 'ix3', 'fx1', 'd32']
def out_cells(cx):
    b = cx.new_cell('buffer', NULL); n = cx.new_cell('size', 0); return b, n
def mat_task(nm):
    def fn(env):
        cx = env.ctx('chan', 'int', opts=dict(signed_overflow=True)); p = cx.prog; setup(cx)
        tob, tos, fb, fs = (fn_id(p, 'vu::%s_%s' % (nm, w)) for w in ('to_buffer', 'to_string', 'from_buffer', 'from_string')); t = ptype(p, tob, 0)
        def written(cx, m0, b, o, size):
            n = cx.ix(m0.b.n); h = hdr(cx, b, o)
            cx.oblige('the buffer is header plus payload', z3.And(cx.ix(size) == 16 + n, cx.ix(b.n) == 16 + n, cx.ix(o) == 0))
            cx.oblige('the header carries the dimensions, element type and channel count', z3.And(h[0] == cx.ix(m0.r), h[1] == cx.ix(m0.c), h[2] == depth_of(cx, t), h[3] == 1))
            cx.oblige('the payload carries the bytes of the matrix', same_bytes(cx, b, z3.IntVal(16), chars(cx, m0.b), z3.IntVal(0), n))
        def same(cx, ref, m0):
            m = cx.read(ref); cx.oblige('dimensions and bytes come back', z3.And(cx.ix(m.r) == cx.ix(m0.r), cx.ix(m.c) == cx.ix(m0.c), same_bytes(cx, chars(cx, m.b), z3.IntVal(0), chars(cx, m0.b), z3.IntVal(0), m0.b.n)))
        def run(cx):
            m0 = fresh_bm(cx, t, 'matrix'); [cx.input(n, v) for n, v in (('rows', m0.r), ('cols', m0.c)) if isz(v)]; m = cx.new_cell('matrix', m0.copy()); b, n = out_cells(cx)
            s, v = attempt(cx, lambda: call(cx, tob, None, m, Ptr(b), Ptr(n))); cx.oblige('serialization succeeds', s == 'ok' and cx.zb(v))
            if s != 'ok': return
            base, o, bs = buf_of(cx, cx.read(b)); written(cx, m0, bs, o, cx.read(n)); same(cx, m, m0)
            t0 = cx.new_cell('target', fresh_bm(cx, t, 'target'))
            s, v = attempt(cx, lambda: call(cx, fb, None, cx.read(b), cx.read(n), Ptr(t0))); cx.oblige('deserialization succeeds', s == 'ok' and cx.zb(v))
            if s != 'ok': return
            same(cx, t0, m0); cx.oblige('the buffer is unchanged', same_bytes(cx, buf_of(cx, cx.read(b))[2], z3.IntVal(0), bs, z3.IntVal(0), bs.n)); cx.cover('end')
        cx.explore('%s buffer' % nm, run)
        st = ptype(p, tos, 1)
        def runs(cx):
            m0 = fresh_bm(cx, t, 'matrix'); m = cx.new_cell('matrix', m0.copy()); sc = cx.new_cell('string', cx.sym('string', st))
            s, v = attempt(cx, lambda: call(cx, tos, None, m, Ptr(sc))); cx.oblige('serialization succeeds', s == 'ok' and cx.zb(v))
            if s != 'ok': return
            bs = chars(cx, cx.read(sc)); written(cx, m0, bs, z3.IntVal(0), bs.n); same(cx, m, m0); t0 = cx.new_cell('target', fresh_bm(cx, t, 'target'))
            s, v = attempt(cx, lambda: call(cx, fs, None, sc, Ptr(t0))); cx.oblige('deserialization succeeds', s == 'ok' and cx.zb(v))
            if s != 'ok': return
            same(cx, t0, m0); cx.cover('end')
        cx.explore('%s string' % nm, runs); return cx
    return Task('matrix %s' % nm, fn)
def img_task(env, d, form):
    cx = env.ctx('chan', 'int', opts=dict(signed_overflow=True)); p = cx.prog; setup(cx)
    tob, tos, fb, fs = (fn_id(p, 'vu::img_%s' % w) for w in ('to_buffer', 'to_string', 'from_buffer', 'from_string'))
    def data(cx, m): return chars(cx, cx.read(Ref(m.d['data'].ref.cell)))
    def written(cx, m0, d0, b, o, size):
        n = cx.ix(d0.n); h = hdr(cx, b, o); D = m0.d
        cx.oblige('the buffer is header plus payload', z3.And(cx.ix(size) == 16 + n, cx.ix(b.n) == 16 + n, cx.ix(o) == 0)); cx.oblige('the header carries the dimensions, element type and channel count', z3.And(h[0] == D['rows'], h[1] == D['cols'], h[2] == D['depth'], h[3] == D['channels'])); cx.oblige('the payload carries the bytes of the image', same_bytes(cx, b, z3.IntVal(16), d0, z3.IntVal(0), n))
    def same(cx, ref, m0, d0):
        m = cx.read(ref); E = [cx.ix(m.d[k]) == cx.ix(m0.d[k]) for k in ('rows', 'cols', 'depth', 'channels')]; cx.oblige('dimensions, element type, channels and bytes come back', z3.And(*E, same_bytes(cx, data(cx, m), z3.IntVal(0), d0, z3.IntVal(0), d0.n)))
    def run(cx):
        cont = cx.fresh_bool(); m0 = mk_img(cx, 'image', depth=d); m0.d['cont'] = cont; cx.assume(m0.d['rows'] * m0.d['cols'] < 2**31); m = cx.new_cell('image', m0.copy()); d0 = data(cx, m0)
        if form == 'buffer':
            b, n = out_cells(cx); s, v = attempt(cx, lambda: call(cx, tob, None, m, Ptr(b), Ptr(n)))
        else: sc = cx.new_cell('string', cx.sym('string', ptype(p, tos, 1))); s, v = attempt(cx, lambda: call(cx, tos, None, m, Ptr(sc)))
        if s != 'ok': cx.oblige('a contiguous image is serialized', z3.Not(cont)); return
        cx.oblige('serialization succeeds', cx.zb(v)); cx.oblige('an image that is not contiguous is refused', cont)
        if form == 'buffer': _, o, bs = buf_of(cx, cx.read(b)); written(cx, m0, d0, bs, o, cx.read(n))
        else: bs = chars(cx, cx.read(sc)); written(cx, m0, d0, bs, z3.IntVal(0), bs.n)
        same(cx, m, m0, d0); t0 = cx.new_cell('target', mk_img(cx, 'image2')); cx.cover('written')
        s, v = attempt(cx, lambda: call(cx, fb, None, cx.read(b), cx.read(n), Ptr(t0)) if form == 'buffer' else call(cx, fs, None, sc, Ptr(t0))); cx.oblige('deserialization succeeds', s == 'ok' and cx.zb(v))
        if s != 'ok': return
        same(cx, t0, m0, d0); cx.cover('end')
    cx.explore('image depth %d %s' % (d, form), run)
    return cx
def scalars(env):
    cx = env.ctx('chan', 'bv'); p = cx.prog
    for nm in ('s64', 's8', 'si'):
        tob, fb = fn_id(p, 'vu::%s_to_buffer' % nm), fn_id(p, 'vu::%s_from_buffer' % nm); t = ptype(p, tob, 0); w = cx.sizeof(t)
        def run(cx, tob=tob, fb=fb, t=t, w=w):
            x = cx.sym('value', t); c = cx.new_cell('value', x); b, n = out_cells(cx); cx.input('value', x)
            s, v = attempt(cx, lambda: call(cx, tob, None, c, Ptr(b), Ptr(n))); cx.oblige('serialization succeeds', s == 'ok' and cx.zb(v))
            if s != 'ok': return
            q = cx.read(b); base = Ref(q.ref.cell, q.ref.path[:-1]); bs = cx.read(base); cx.oblige('the buffer has the size of the value', AND(eqi(cx, cx.read(n), w), eqi(cx, bs.n, w), eqi(cx, q.ref.path[-1][1], 0)))
            for k in range(w): cx.oblige('the buffer carries the bytes of the value', cx.vec_get(bs, k) == z3.Extract(8 * k + 7, 8 * k, x))
            o = cx.new_cell('target', cx.sym('target', t)); s, v = attempt(cx, lambda: call(cx, fb, None, q, cx.read(n), Ptr(o))); cx.oblige('deserialization succeeds', s == 'ok' and cx.zb(v)); cx.oblige('the value comes back', cx.read(o) == x); cx.cover('end')
        cx.explore('scalar %s' % nm, run)
    return cx
def list_task(nm):
    def fn(env):
        cx = env.ctx('chan', 'int', opts=dict(signed_overflow=True)); p = cx.prog; setup(cx); list_setup(cx); st = {}
        tob, tos, fb, fs = (fn_id(p, 'vu::%s_%s' % (nm, w)) for w in ('to_buffer', 'to_string', 'from_buffer', 'from_string')); lt = ptype(p, tob, 0); et = cx.T(lt)['a'][0]['t']; esz = cx.sizeof(cx.T(et)['a'][0]['t']); dep = depth_of(cx, et)
        LN = z3.Function('payload', Z, Z); ln = lambda m, i: LN(i)
        def defn(cx, i): cx.assume(LN(i) == cx.ix(prod(cx, esz, st['m'].R(i), st['m'].C(i))))      # payload(i) is the number of bytes of matrix i
        def mono(cx, i): k = z3.Int('k!mo'); F = st['F']; return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= i), z3.And(F(k) <= F(i), F(k) >= 8)), patterns=[F(k)])
        def tot(cx, L):
            i = cx.ix(L['i']); cx.assume(st['step'](i)); defn(cx, i); cx.assume(ln(st['m'], i) >= 0)
            return [('range', z3.And(i >= 0, i <= st['n'])), ('size so far', z3.And(cx.ix(st['size'](cx, L)) == st['F'](i))), ('offsets grow', mono(cx, i))]
        def whead(cx, b, k): h = hdr(cx, b, st['F'](k)); m = st['m']; return z3.And(h[0] == m.R(k), h[1] == m.C(k), h[2] == dep, h[3] == 1)
        def wbytes(cx, b, k): m = st['m']; return same_bytes(cx, b, st['F'](k) + 16, Vec(chart(cx), 0, m.B(k)), z3.IntVal(0), ln(m, k))
        def wr(cx, L):
            i = cx.ix(L['i']); F, K, n = st['F'], st['K'], st['n']; cx.assume(st['step'](i)); defn(cx, i); cx.assume(st['step'](K)); b, size = st['buf'](cx); x = le64(cx, b, 0)
            return [('range', z3.And(i >= 0, i <= n)), ('offset', cx.ix(L['offset']) == F(i)), ('buffer size', z3.And(cx.ix(b.n) == F(n), cx.ix(size) == F(n))), ('the count is written', x == n), ('the matrix written lies before the next', z3.Implies(z3.And(K >= 0, K < i), F(K + 1) <= F(i))), ('the header is written', z3.Implies(z3.And(K >= 0, K < i), whead(cx, b, K))), ('the bytes of earlier matrices stay', z3.Implies(z3.And(K >= 0, K < i - 1), wbytes(cx, b, K))), ('the bytes of the matrix are written', z3.Implies(z3.And(K >= 0, K == i - 1), wbytes(cx, b, K)))]
        def start(cx):
            m = fresh_list(cx, lt, et, 'matrices'); n = m.n; cx.input('matrices', n); F, step = ghost_off(cx, lambda F, i: ln(m, i)); i = z3.Int('i!nn'); cx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(m.R(i) < 2**31, m.C(i) < 2**31, m.R(i) * m.C(i) >= 0, LN(i) >= 0, LN(i) < 2**53)), patterns=[F(i + 1)])); cx.assume(F(n) < 2**62); K = cx.fresh('any', Z); st.update(m=m, n=n, F=F, step=step, K=K); cx.assume(z3.And(K >= 0, K < n)) if False else None; return m
        def fin(cx, b, size, o):
            n, F, K = st['n'], st['F'], st['K']; cx.oblige('the buffer has exactly the size of the count and all matrices', z3.And(cx.ix(size) == F(n), cx.ix(b.n) == F(n), o == 0)); cx.oblige('the count is written', le64(cx, b, 0) == n); cx.oblige('every matrix is written', z3.Implies(z3.And(K >= 0, K < n), z3.And(whead(cx, b, K), wbytes(cx, b, K)))); cx.cover('end')
        def rund(form):
            def run(cx):
                m = start(cx); c = cx.new_cell('matrices', m.copy())
                if form == 'buffer':
                    b, n = out_cells(cx); st['size'] = lambda cx, L: cx.read(n); st['buf'] = lambda cx: (buf_of(cx, cx.read(b))[2], cx.read(n)); s, v = attempt(cx, lambda: call(cx, tob, None, c, Ptr(b), Ptr(n)))
                else:
                    sc = cx.new_cell('string', cx.sym('string', ptype(p, tos, 1))); st['size'] = lambda cx, L: L['size']; st['buf'] = lambda cx: (chars(cx, cx.read(sc)), cx.read(sc).n); s, v = attempt(cx, lambda: call(cx, tos, None, c, Ptr(sc)))
                cx.oblige('serialization succeeds', s == 'ok' and cx.zb(v))
                if s != 'ok': return
                bb, size = st['buf'](cx); fin(cx, bb, size, buf_of(cx, cx.read(b))[1] if form == 'buffer' else z3.IntVal(0)); k = cx.read(c); K = st['K']; cx.oblige('the list is unchanged', z3.And(cx.ix(k.n) == st['n'], k.R(K) == m.R(K), k.C(K) == m.C(K), k.B(K) == m.B(K)))
            return run
        cx.loopspecs = [LoopSpec(tot, name='size loop'), LoopSpec(wr, name='write loop')]
        for form in ('buffer', 'string'): cx.explore('%s %s' % (nm, form), rund(form))
        # reading back a buffer so written
        def rd_inv(cx, L):
            i = cx.ix(L['i']); F, K, n, m = st['F'], st['K'], st['n'], st['m']; cx.assume(st['step'](i)); defn(cx, i); cx.assume(st['step'](K)); t = cx.read(st['t'])
            return [('range', z3.And(i >= 0, i <= n)), ('offset', cx.ix(L['offset']) == F(i)), ('length of the list', cx.ix(t.n) == n), ('the matrix is read', z3.Implies(z3.And(K >= 0, K < i), z3.And(t.R(K) == m.R(K), t.C(K) == m.C(K), same_bytes(cx, Vec(chart(cx), 0, t.B(K)), z3.IntVal(0), Vec(chart(cx), 0, m.B(K)), z3.IntVal(0), ln(m, K)))))]
        def back(cx):
            m = start(cx); n, F, K = st['n'], st['F'], st['K']; k, j = z3.Ints('k!wf j!wf'); b = mkb(cx, 'input', F(n)); byte_rng(cx, b.arr); cx.assume(mono(cx, n)); cx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), F(k + 1) <= F(n)), patterns=[F(k + 1)])); cx.assume(le64(cx, b, 0) == n); cx.assume(F(n) >= 8 + 16 * n)
            h = hdr(cx, b, F(k)); cx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(h[0] == m.R(k), h[1] == m.C(k), h[2] == dep, h[3] == 1)), patterns=[F(k)])); cx.assume(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < n, j >= 0, j < ln(m, k)), z3.Select(b.arr, j + (F(k) + 16)) == z3.Select(m.B(k), j)), patterns=[z3.Select(m.B(k), j)]))
            c = cx.new_cell('input', b); t = st['t'] = cx.new_cell('target', fresh_list(cx, lt, et, 'target')); s, v = attempt(cx, lambda: call(cx, fb, None, Ptr(c.at(0)), b.n, Ptr(t))); cx.oblige('deserialization succeeds', s == 'ok' and cx.zb(v))
            if s != 'ok': return
            x = cx.read(t); cx.oblige('the number of matrices comes back', cx.ix(x.n) == n); cx.oblige('every matrix comes back', z3.Implies(z3.And(K >= 0, K < n), z3.And(x.R(K) == m.R(K), x.C(K) == m.C(K), same_bytes(cx, Vec(chart(cx), 0, x.B(K)), z3.IntVal(0), Vec(chart(cx), 0, m.B(K)), z3.IntVal(0), ln(m, K))))); cx.oblige('the buffer is unchanged', chars(cx, cx.read(c)).arr == b.arr); cx.cover('end')
        cx.loopspecs = [LoopSpec(rd_inv, name='read loop')]; cx.explore('%s read back' % nm, back); return cx
    return Task('list %s' % nm, fn)
def tasks(env): return [Task('scalars', scalars)] + [mat_task(m) for m in MATS] + [Task('image depth %d %s' % (d, f), lambda env, d=d, f=f: img_task(env, d, f)) for d in range(7) for f in ('buffer', 'string')] + [list_task('ld2x'), list_task('ldxx')]
