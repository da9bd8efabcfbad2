"""D02: descriptor bit access touches exactly the addressed bit."""
from descutil import *
import algos, eigen
from eigen import sym_mat, mval
UNITS = {'desc': r'^(aslam::common::|vu::)'}
ASSUMPTIONS = ['descriptors have at least one byte and fewer than 2^28', 'std::random_shuffle yields a permutation']
LEVEL_NOTE = "bit access contracts proved for every size, content and bit index; the random flip by loop invariant over the shuffled bit list"
REPLAY_SECS = (12, 150)
one8 = z3.BitVecVal(1, 8)
def bit(arr, t, off=0): return z3.LShR(z3.Select(arr, z3.LShR(t, z3.BitVecVal(3, 64)) + off), z3.Extract(7, 0, t) & 7) & 1
OPS = {'vu::set_bit': lambda b, m: b | m, 'vu::flip_bit': lambda b, m: b ^ m}
def t_refs(env):
    cx = env.ctx('desc', 'bv'); p = cx.prog
    for nm, op in OPS.items():
        f = fn_id(p, nm); t = rtype(p, f, 1)
        for k in ('own', 'alias'):
            def run(cx, f=f, k=k, t=t, op=op):
                d = mk(cx, 'descriptor', t, k); _, sz, cell, off, A = view(cx, d); b = cx.input('bit', cx.fresh('bit', U64)); r0 = vcopy(cx.read(d))
                s, v = attempt(cx, lambda: call(cx, f, None, b, Ptr(d))); byte = z3.LShR(b, z3.BitVecVal(3, 64)); _, s1, c1, o1, R = view(cx, d)
                cx.oblige('the reference still refers to the same memory', AND(c1 == cell, s1 == sz, o1 == off))
                if s != 'ok': cx.oblige('an index within the descriptor is accepted', z3.UGE(byte, z64(sz))); cx.oblige('a refused access changes nothing', R == A); return
                cx.oblige('an index beyond the descriptor is refused', z3.ULT(byte, z64(sz)))
                cx.oblige('exactly the addressed bit is changed', R == z3.Store(A, off + byte, op(z3.Select(A, off + byte), one8 << (z3.Extract(7, 0, b) & 7)))); cx.cover('end')
            cx.explore('%s %s' % (nm[4:], k), run)
    f = fn_id(p, 'vu::get_bit'); t = rtype(p, f, 1)
    def run(cx):
        d = mk(cx, 'descriptor', t, 'alias'); _, sz, cell, off, A = view(cx, d); b = cx.input('bit', cx.fresh('bit', U64))
        s, v = attempt(cx, lambda: call(cx, f, None, b, d)); byte = z3.LShR(b, z3.BitVecVal(3, 64)); R = view(cx, d)[4]
        if s != 'ok': cx.oblige('an index within the descriptor is accepted', z3.UGE(byte, z64(sz))); return
        cx.oblige('an index beyond the descriptor is refused', z3.ULT(byte, z64(sz))); cx.oblige('the addressed bit is read', cx.zb(v) == (bit(A, b, off) == 1)); cx.oblige('reading changes nothing', R == A); cx.cover('end')
    cx.explore('get_bit', run); return cx
def t_mats(env):
    cx = env.ctx('desc', 'bv'); p = cx.prog
    for nm in ('vu::set_bit_m', 'vu::get_bit_m'):
        f = fn_id(p, nm); t = rtype(p, f, 1)
        def run(cx, f=f, t=t, nm=nm):
            M = sym_mat(cx, 'descriptor', t); M0 = M.copy(); m = cx.new_cell('descriptor', M); n = cx.ix(M.r); cx.assume(z3.ULT(n, 2**28)); b = cx.input('bit', cx.fresh('bit', z3.BitVecSort(32)))
            s, v = attempt(cx, lambda: call(cx, f, None, b, Ptr(m) if 'set' in nm else m)); B = z3.LShR(z64(b), z3.BitVecVal(3, 64)); R = mval(cx, m); z = z3.BitVecVal(0, 64); j = z3.Const('j!m', U64)
            if s != 'ok': cx.oblige('an index within the descriptor is accepted', z3.UGE(B, n)); return
            cx.oblige('an index beyond the descriptor is refused', z3.ULT(B, n)); sh = z3.Extract(7, 0, b) & 7
            if 'set' in nm: cx.oblige('exactly the addressed bit is changed', z3.And(cx.ix(R.r) == n, z3.ForAll([j], z3.Implies(z3.ULT(j, n), R.term(cx, j, z) == z3.If(j == B, M0.term(cx, j, z) | one8 << sh, M0.term(cx, j, z))))))
            else:
                cx.oblige('the addressed bit is read', cx.zb(v) == (z3.LShR(M0.term(cx, B, z), sh) & 1 == 1))
                cx.oblige('reading changes nothing', z3.ForAll([j], R.term(cx, j, z) == M0.term(cx, j, z)))
            cx.cover('end')
        cx.explore(nm[4:], run)
    return cx
def t_flipn(env):
    cx = env.ctx('desc', 'bv'); p = cx.prog; f = fn_id(p, 'vu::flip_n'); t = rtype(p, f, 1); st = {}
    x32 = lambda j: z3.Extract(31, 0, j)
    def gen(cx, L):
        i = cx.ix(cx.read(L.idx)); v = vcopy(L['bits_to_flip']); cx.vec_sym(v); j = z3.Const('j!g', U64); cap = [cx.read(r) for r in L.extra['functor'].env.values()]
        return [('range', z3.ULE(i, st['bits'])), ('length', cx.ix(v.n) == i), ('counter', z3.And(*[(c if isz(c) else z3.BitVecVal(c, 32)) == x32(i) for c in cap])), ('counts up', z3.ForAll([j], z3.Implies(z3.ULT(j, i), z3.Select(v.arr, j) == x32(j)), patterns=[z3.Select(v.arr, j)]))]
    def flip(cx, L):
        P = cx.ghost['perms'][-1]; i = cx.ix(L['i']); _, sz, cell, off, A = view(cx, st['d']); q = z3.Const('q!f', U64); j = z3.Const('j!f', U64); o = st['off']; inr = z3.And(z3.UGE(j, o), z3.ULT(j, o + z64(st['sz'])))
        return [('range', z3.ULE(i, st['n'])), ('same memory', z3.And(sz == st['sz'], off == st['off'], veclen(cx, cell) == st['len']) if cell == st['cell'] else False),
                ('outside unchanged', z3.ForAll([j], z3.Implies(z3.Not(inr), z3.Select(A, j) == z3.Select(st['A'], j)), patterns=[z3.Select(A, j)])),
                ('flipped so far', z3.ForAll([q], z3.Implies(z3.ULT(q, st['bits']), bit(A, q, o) == bit(st['A'], q, o) ^ z3.If(z3.ULT(P.rho(q), i), one8, z3.BitVecVal(0, 8))), patterns=[P.rho(q)]))]
    cx.loopspecs = [LoopSpec(gen, name='generate'), LoopSpec(flip, name='flip')]
    for k in ('own', 'alias'):
        def run(cx, k=k):
            cx.ghost['perms'] = []; d = mk(cx, 'descriptor', t, k); _, sz, cell, off, A = view(cx, d); cx.assume(z3.And(z3.UGE(sz, 1), z3.ULT(sz, 2**28))); n = cx.input('bits to flip', cx.fresh('n', U64)); bits = z64(sz) * 8
            st.update(d=d, A=A, off=off, sz=sz, n=n, bits=bits, cell=cell, len=veclen(cx, cell))
            s, v = attempt(cx, lambda: call(cx, f, None, n, Ptr(d)))
            if s != 'ok': cx.oblige('fewer bits than the descriptor has are accepted', z3.UGE(n, bits)); return
            cx.oblige('more bits than the descriptor has are refused', z3.ULE(n, bits))
            P = cx.ghost['perms'][-1] if cx.ghost['perms'] else None
            if P is None: cx.oblige('lemma: the bits are drawn from a shuffled list', False); return
            R = view(cx, d)[4]; q, r = z3.Const('q!p', U64), z3.Const('r!p', U64); inb = lambda q: z3.ULT(q, bits)
            cx.oblige('a bit differs exactly when the shuffle places it among the first N', z3.ForAll([q], z3.Implies(inb(q), (bit(R, q, off) != bit(A, q, off)) == z3.ULT(P.rho(q), n))))
            cx.oblige('the places are a bijection, so exactly N bits differ', z3.ForAll([q], z3.Implies(inb(q), z3.And(inb(P.rho(q)), P.pi(P.rho(q)) == q, inb(P.pi(q)), P.rho(P.pi(q)) == q)))); cx.cover('end')
        cx.explore('flip_n %s' % k, run)
    return cx
def tasks(env): return [Task('references', t_refs), Task('matrices', t_mats), Task('random flips', t_flipn)]
