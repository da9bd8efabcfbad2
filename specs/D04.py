"""D04: descriptor references own, copy and compare memory correctly."""
from descutil import *
UNITS = {'desc': r'^(aslam::common::|vu::)'}
ASSUMPTIONS = ['the class invariant (an owning reference holds a heap array of exactly its size; an empty one has size 0) is assumed for the arguments and proved for the results', 'a reference assigned from does not alias the buffer the target owns, unless it is the target itself',
  'new[] and delete[] behave as specified (heap ghost state: live arrays, freed arrays)', 'std::mt19937 and std::uniform_int_distribution yield values within the given bounds']
LEVEL_NOTE = "ownership, content and heap-state contracts of construction, copy, assignment, allocation, release and comparison proved for all sizes and contents"
REPLAY_SECS = (15, 200)
KINDS = ('null', 'own', 'alias')
def is_(v, w): return v is w or (isz(v) and z3.is_true(z3.simplify(v)) == w and not (not w and not z3.is_false(z3.simplify(v))))
def inv(cx, who, r):
    """class invariant of a writable reference"""
    o, sz, cell, off, a = view(cx, r); cx.oblige(who + ': ownership flag is defined', isinstance(o, bool) or isz(o), str(o))
    if isinstance(o, Undef): raise PathEnd()
    own = cx.b(o)
    if own:
        h = cx.ghost.get('heap', {})
        cx.oblige(who + ': an owning reference holds live heap memory', cell is not None and h.get(cell) == 'array', str(h))
        if cell is None: raise PathEnd()
        cx.oblige(who + ': owned buffer has exactly the stated size', z3.And(veclen(cx, cell) == z64(sz), off == 0))
    elif cell is not None: cx.oblige(who + ': the referenced memory is not released', cx.ghost.get('heap', {}).get(cell) != 'freed')
    return own, sz, cell, off, a
def heap_is(cx, before, freed=(), new=()):
    """exactly `freed` was released and exactly `new` allocated"""
    h = live(cx)
    cx.oblige('every other allocation is untouched', all(h.get(c) == s for c, s in before.items() if c not in freed))
    cx.oblige('owned memory is released exactly when replaced', all(h.get(c) == 'freed' for c in freed))
    cx.oblige('no allocation is lost', all(c in before or c in new or s != 'array' for c, s in h.items()), str(h))
def untouched(cx, what, ref, v0, store0):
    """object and the bytes it refers to are as before"""
    v = cx.read(ref); o = v0
    ok = repr(v.f['data_']) == repr(o.f['data_']) and AND(veq_b(v.f['size_bytes_'], o.f['size_bytes_']), veq_b(v.f['owned_'], o.f['owned_']) if 'owned_' in o.f else True)
    cx.oblige(what + ' is not modified', ok)
    d = o.f['data_']
    if isinstance(d, Ptr) and d.ref is not None and cx.ghost.get('heap', {}).get(d.ref.cell) != 'freed':
        a, b = vcopy(store0[d.ref.cell]), vcopy(cx.read(Ref(d.ref.cell))); cx.vec_sym(a); cx.vec_sym(b)
        cx.oblige(what + ' keeps its bytes', a.arr == b.arr)
def snap(cx): return {k: vcopy(v) for k, v in cx.store.items()}
def ret_ref(cx, v): return cx.deref(v)
def drop_obj(before, cx): return before
def t_make(env):
    cx = env.ctx('desc', 'bv'); p = cx.prog
    f = fn_id(p, 'vu::make_empty')
    def run(cx):
        s, v = attempt(cx, lambda: call(cx, f, None)); cx.oblige('construction succeeds', s == 'ok'); own, sz, cell, _, _ = inv(cx, 'result', ret_ref(cx, v))
        cx.oblige('a default reference is empty and owns nothing', z3.And(sz == 0) if cell is None and not own else False); cx.cover('end')
    cx.explore('default construction', run)
    f2 = fn_id(p, 'vu::make_size')
    def run(cx):
        n = cx.input('size', cx.fresh('n', z3.BitVecSort(32))); s, v = attempt(cx, lambda: call(cx, f2, None, n)); cx.oblige('construction succeeds', s == 'ok'); own, sz, cell, _, _ = inv(cx, 'result', ret_ref(cx, v))
        cx.oblige('a sized reference owns a buffer of that size', z3.And(sz == n) if own else False); cx.cover('end')
    cx.explore('sized construction', run)
    f3 = fn_id(p, 'vu::make_wrap'); t = rtype(p, f3)
    def run(cx):
        n = cx.fresh('n', z3.BitVecSort(32)); o = cx.choose(2) == 1; b, a = buf(cx, 'memory', byte_t(cx), z64(n))
        if o: cx.ghost.setdefault('heap', {})[b.cell] = 'array'
        s, v = attempt(cx, lambda: call(cx, f3, None, Ptr(b.at(z3.BitVecVal(0, 64))), z64(n), o)); own, sz, cell, off, arr = inv(cx, 'result', ret_ref(cx, v))
        cx.oblige('a wrapping reference refers to the given memory', z3.And(sz == n, off == 0) if cell == b.cell and own == o else False); cx.cover('end')
    cx.explore('wrapping construction', run); return cx
def copied(cx, dst, src0, own_expected, before, src, store0, extra_freed=()):
    own, sz, cell, off, a = inv(cx, 'result', dst)
    d = src0.f['data_']; ssz = src0.f['size_bytes_']
    cx.oblige('the copy owns its memory exactly when the contract says', own == own_expected, str(own))
    cx.oblige('the copy has the same size', sz == ssz)
    if d.ref is None:
        if own_expected: return
        cx.oblige('a copy of an empty reference is empty', cell is None); return
    if cell is None: cx.oblige('the copy refers to memory', False); return
    if own_expected:
        cx.oblige('an owning copy has a buffer of its own', cell != d.ref.cell)
        sv = vcopy(store0[d.ref.cell]); cx.vec_sym(sv)
        cx.oblige('an owning copy has the same content', same_bytes(cx, a, off, sv.arr, cx.ix(d.ref.path[-1][1]), sz))
    else: cx.oblige('a non-owning copy refers to the same memory', z3.And(off == cx.ix(d.ref.path[-1][1])) if cell == d.ref.cell else False)
def t_copy(env):
    cx = env.ctx('desc', 'bv'); p = cx.prog; f = fn_id(p, 'vu::make_copy'); t = rtype(p, f)
    for k in KINDS:
        def run(cx, k=k):
            o = mk(cx, 'source', t, k); o0 = vcopy(cx.read(o)); before = live(cx); st0 = snap(cx)
            s, v = attempt(cx, lambda: call(cx, f, None, o)); cx.oblige('copy construction succeeds', s == 'ok')
            if s != 'ok': return
            r = ret_ref(cx, v); copied(cx, r, o0, k == 'own', before, o, st0); untouched(cx, 'the source', o, o0, st0)
            own, _, cell, _, _ = view(cx, r); heap_is(cx, before, (), (cell, r.cell)); cx.cover('end')
        cx.explore('copy construction from %s' % k, run)
    return cx
def t_assign(env):
    cx = env.ctx('desc', 'bv'); p = cx.prog; f = fn_id(p, 'vu::assign'); t = rtype(p, f, 0)
    for ka in KINDS:
        for kb in KINDS:
            def run(cx, ka=ka, kb=kb):
                a, b = mk(cx, 'target', t, ka), mk(cx, 'source', t, kb); a0, b0 = vcopy(cx.read(a)), vcopy(cx.read(b)); before = live(cx); st0 = snap(cx)
                s, v = attempt(cx, lambda: call(cx, f, None, Ptr(a), b)); cx.oblige('assignment succeeds', s == 'ok')
                if s != 'ok': return
                ex = ka == 'own' or kb == 'own'; copied(cx, a, b0, ex, before, b, st0); untouched(cx, 'the source', b, b0, st0)
                own, _, cell, _, _ = view(cx, a); old = a0.f['data_'].ref.cell if ka == 'own' else None
                heap_is(cx, before, (old,) if old and cell != old else (), (cell,))
                if ka == 'alias':
                    v0, v1 = vcopy(st0[a0.f['data_'].ref.cell]), vcopy(cx.read(Ref(a0.f['data_'].ref.cell))); cx.vec_sym(v0); cx.vec_sym(v1)
                    cx.oblige('memory the target only referred to is not written', v0.arr == v1.arr)
                cx.cover('end')
            cx.explore('assign %s to %s' % (kb, ka), run)
    for k in KINDS:
        def run(cx, k=k):
            a = mk(cx, 'target', t, k); a0 = vcopy(cx.read(a)); before = live(cx); st0 = snap(cx)
            s, v = attempt(cx, lambda: call(cx, f, None, Ptr(a), a)); cx.oblige('assignment succeeds', s == 'ok'); untouched(cx, 'a self-assigned reference', a, a0, st0); heap_is(cx, before); cx.cover('end')
        cx.explore('self-assignment %s' % k, run)
    def run(cx):      # two aliases of one memory area
        a = mk(cx, 'target', t, 'alias'); b = mk(cx, 'source', t, 'alias'); d = cx.read(a).f['data_']; cx.write(b, Rec(t, dict(cx.read(b).f, data_=d))); cx.assume(z3.ULE(cx.read(b).f['size_bytes_'], cx.read(a).f['size_bytes_']))
        b0 = vcopy(cx.read(b)); st0 = snap(cx); s, v = attempt(cx, lambda: call(cx, f, None, Ptr(a), b)); cx.oblige('assignment succeeds', s == 'ok'); copied(cx, a, b0, False, {}, b, st0); untouched(cx, 'the source', b, b0, st0); cx.cover('end')
    cx.explore('assign between aliases', run); return cx
def t_release(env):
    cx = env.ctx('desc', 'bv'); p = cx.prog
    for nm in ('destroy', 'release'):
        f = fn_id(p, 'vu::' + nm); t = rtype(p, f, 0)
        for k in KINDS:
            def run(cx, k=k, f=f, nm=nm, t=t):
                a = mk(cx, 'reference', t, k); a0 = vcopy(cx.read(a)); before = live(cx); st0 = snap(cx)
                s, v = attempt(cx, lambda: call(cx, f, None, Ptr(a))); cx.oblige(nm + ' succeeds', s == 'ok')
                heap_is(cx, before, (a0.f['data_'].ref.cell,) if k == 'own' else ())
                if nm == 'release':
                    o, sz, cell, _, _ = inv(cx, 'released reference', a)
                    if k == 'own': cx.oblige('a released reference holds no memory', cell is None and not o)
                    s2, _ = attempt(cx, lambda: call(cx, f, None, Ptr(a))); cx.oblige('a second release is harmless', s2 == 'ok'); heap_is(cx, before, (a0.f['data_'].ref.cell,) if k == 'own' else ())
                if k == 'alias': untouched(cx, 'an alias', a, a0, st0)
                cx.cover('end')
            cx.explore('%s %s' % (nm, k), run)
    f = fn_id(p, 'vu::allocate'); t = rtype(p, f, 0)
    for k in KINDS:
        def run(cx, k=k):
            a = mk(cx, 'reference', t, k); a0 = vcopy(cx.read(a)); before = live(cx); n = cx.input('size', cx.fresh('n', U64)); cx.assume(z3.ULT(n, 2**32))
            s, v = attempt(cx, lambda: call(cx, f, None, Ptr(a), n)); cx.oblige('allocation succeeds', s == 'ok')
            own, sz, cell, off, arr = inv(cx, 'allocated reference', a); cx.oblige('an allocated reference owns a buffer of the requested size', z64(sz) == n if own else False)
            old = a0.f['data_'].ref.cell if k == 'own' else None
            if k == 'alias': cx.oblige('allocation does not adopt memory of others', cell != a0.f['data_'].ref.cell)
            heap_is(cx, before, (old,) if old and cell != old else (), (cell,)); cx.cover('end')
        cx.explore('allocate %s' % k, run)
    return cx
def t_eq(env):
    cx = env.ctx('desc', 'bv'); p = cx.prog
    for nm in ('equal', 'equal_c'):
        f = fn_id(p, 'vu::' + nm); t = rtype(p, f, 0)
        ks = KINDS if nm == 'equal' else ('null', 'alias')
        for ka in ks:
            for kb in ks:
                def run(cx, f=f, ka=ka, kb=kb, t=t):
                    a, b = mk(cx, 'a', t, ka), mk(cx, 'b', t, kb); a0, b0 = vcopy(cx.read(a)), vcopy(cx.read(b)); st0 = snap(cx)
                    s, v = attempt(cx, lambda: call(cx, f, None, a, b)); cx.oblige('comparison succeeds', s == 'ok')
                    (_, sa, ca, oa, aa), (_, sb, cb, ob, ab) = view(cx, a), view(cx, b)
                    if ca is None or cb is None: want = z3.And(sa == sb) if ca is None and cb is None else z3.BoolVal(False)
                    else: want = z3.And(sa == sb, same_bytes(cx, aa, oa, ab, ob, sa))
                    cx.oblige('equal exactly when sizes and contents agree', cx.zb(v) == want)
                    untouched(cx, 'an operand', a, a0, st0); untouched(cx, 'an operand', b, b0, st0); cx.cover('end')
                cx.explore('%s %s %s' % (nm, ka, kb), run)
    return cx
def t_access(env):
    cx = env.ctx('desc', 'bv'); p = cx.prog
    for nm in ('elem', 'elem_c', 'elem_cc'):
        f = fn_id(p, 'vu::' + nm); t = rtype(p, f, 0)
        for k in ('own', 'alias') if nm != 'elem_cc' else ('alias',):
            def run(cx, f=f, k=k, t=t):
                a = mk(cx, 'reference', t, k); a0 = vcopy(cx.read(a)); st0 = snap(cx); i = cx.input('index', cx.fresh('i', U64)); _, sz, cell, off, arr = view(cx, a)
                s, v = attempt(cx, lambda: call(cx, f, None, a, i))
                if s != 'ok': cx.oblige('an index below the size is accepted', z3.UGE(i, z64(sz)))
                else:
                    cx.oblige('an index beyond the size is refused', z3.ULT(i, z64(sz)))
                    cx.oblige('element access addresses the indexed byte', cx.ix(v.path[-1][1]) == off + i if isinstance(v, Ref) and v.cell == cell else False)
                untouched(cx, 'the reference', a, a0, st0); cx.cover('end')
            cx.explore('%s %s' % (nm, k), run)
    f = fn_id(p, 'vu::zero'); t = rtype(p, f, 0)
    for k in KINDS:
        def run(cx, k=k):
            a = mk(cx, 'reference', t, k); a0 = vcopy(cx.read(a)); st0 = snap(cx); before = live(cx); _, sz, cell, off, arr0 = view(cx, a)
            s, v = attempt(cx, lambda: call(cx, f, None, Ptr(a))); cx.oblige('zeroing succeeds', s == 'ok'); heap_is(cx, before)
            _, sz1, c1, o1, arr = view(cx, a); cx.oblige('zeroing keeps the memory', AND(c1 == cell, sz1 == sz))
            if cell is not None:
                j = z3.Const('j!z', U64); inr = z3.And(z3.UGE(j, off), z3.ULT(j, off + z64(sz)))
                cx.oblige('zeroing clears exactly the bytes of the descriptor', z3.ForAll([j], z3.Select(arr, j) == z3.If(inr, 0, z3.Select(arr0, j)), patterns=[z3.Select(arr, j)]))
            cx.cover('end')
        cx.explore('zero %s' % k, run)
    return cx
def t_random(env):
    cx = env.ctx('desc', 'bv'); p = cx.prog; f = fn_id(p, 'vu::random'); t = rtype(p, f, 0); st = {}
    def linv(cx, L):
        _, sz, cell, off, arr = view(cx, st['a']); j = z3.Const('j!r', U64); i = cx.ix(L['i']); o0 = st['off']
        return [('range', z3.ULE(i, z64(sz))), ('same memory', AND(cell == st['cell'], veclen(cx, cell) == st['len'])), ('outside unchanged', z3.ForAll([j], z3.Implies(z3.Or(z3.ULT(j, o0), z3.UGE(j, o0 + z64(sz))), z3.Select(arr, j) == z3.Select(st['arr'], j)), patterns=[z3.Select(arr, j)]))]
    cx.loopspecs = [LoopSpec(linv, name='fill')]
    for k in KINDS:
        def run(cx, k=k):
            a = mk(cx, 'reference', t, k); before = live(cx); _, sz, cell, off, arr0 = view(cx, a); st.update(a=a, arr=arr0, off=off, cell=cell, len=veclen(cx, cell) if cell else None)
            s, v = attempt(cx, lambda: call(cx, f, None, Ptr(a), cx.fresh('seed', z3.BitVecSort(32)))); cx.oblige('filling succeeds', s == 'ok'); heap_is(cx, before)
            _, sz1, c1, o1, arr = view(cx, a); cx.oblige('filling keeps the memory', AND(c1 == cell, sz1 == sz))
            if cell is not None:
                j = z3.Const('j!p', U64); cx.oblige('filling writes no byte outside the descriptor', z3.ForAll([j], z3.Implies(z3.Or(z3.ULT(j, off), z3.UGE(j, off + z64(sz))), z3.Select(arr, j) == z3.Select(arr0, j))))
            cx.cover('end')
        cx.explore('random %s' % k, run)
    return cx
def t_const(env):
    cx = env.ctx('desc', 'bv'); p = cx.prog
    for nm in ('to_const', 'copy_c', 'assign_c'):
        f = fn_id(p, 'vu::' + nm); src = 1 if nm == 'assign_c' else 0; ts, td = rtype(p, f, src), rtype(p, f, 1 - src)
        for k in (KINDS if nm == 'to_const' else ('null', 'alias')):
            def run(cx, f=f, k=k, ts=ts, td=td, src=src):
                a = mk(cx, 'source', ts, k); a0 = vcopy(cx.read(a)); st0 = snap(cx); before = live(cx); o = mk(cx, 'target', td, 'alias')
                s, v = attempt(cx, lambda: call(cx, f, None, *([a, Ptr(o)] if src == 0 else [Ptr(o), a]))); cx.oblige('read-only copy succeeds', s == 'ok')
                (_, s0, c0, o0, _), (_, s1, c1, o1, _) = view(cx, a), view(cx, o)
                cx.oblige('a read-only copy refers to the same bytes', AND(c0 == c1, s0 == s1, True if c0 is None else o0 == o1)); untouched(cx, 'the source', a, a0, st0); heap_is(cx, before); cx.cover('end')
            cx.explore('%s %s' % (nm, k), run)
    return cx
def tasks(env): return [Task('construct', t_make), Task('copy', t_copy), Task('assign', t_assign), Task('release', t_release), Task('equality', t_eq), Task('access', t_access), Task('random', t_random), Task('read-only', t_const)]
