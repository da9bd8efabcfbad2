"""I01: hexString / shortHex / fromHexString against the byte-wise text definition."""
from idutil import *
def digit(n): # n: BV8 0..15
    return z3.If(z3.ULE(n, 9), n + 48, n + 87)
same_bytes = same
def t_hex(env):
    cx = env.ctx('ids', 'bv'); f = fn_id(cx.prog, 'aslam::HashId::hexString')
    def run(cx):
        r = new_id(cx); b0 = bytes_of(cx, r)
        st, v = attempt(cx, lambda: call(cx, f, r))
        cx.oblige('hexString returns', st == 'ok')
        cx.oblige('text has 32 characters', eqi(cx, v.n, 32))
        for i in range(16):
            cx.oblige('each byte is two lowercase hex digits, high nibble first', AND(bv(cx.vec_get(v, 2 * i), 8) == digit(z3.LShR(b0[i], 4)), bv(cx.vec_get(v, 2 * i + 1), 8) == digit(b0[i] & 15)), i)
        cx.oblige('identifier unchanged', same_bytes(bytes_of(cx, r), b0)); cx.cover('end')
    cx.explore('hexString', run); return cx
def t_short(env):
    cx = env.ctx('ids', 'bv'); f = fn_id(cx.prog, 'aslam::HashId::shortHex')
    def run(cx):
        r = new_id(cx); b0 = bytes_of(cx, r)
        st, v = attempt(cx, lambda: call(cx, f, r))
        cx.oblige('shortHex returns', st == 'ok')
        cx.oblige('short text has 4 characters', eqi(cx, v.n, 4))
        for i in range(2):
            cx.oblige('short text is the first four digits', AND(bv(cx.vec_get(v, 2 * i), 8) == digit(z3.LShR(b0[i], 4)), bv(cx.vec_get(v, 2 * i + 1), 8) == digit(b0[i] & 15)), i)
        cx.cover('end')
    cx.explore('shortHex', run); return cx
def t_parse(env):
    cx = env.ctx('ids', 'bv'); f = fn_id(cx.prog, 'aslam::HashId::fromHexString')
    et = None
    def run(cx):
        st_t = ptype(cx.prog, f, 0); ct = cx.T(st_t)['a'][0]['t']
        chars = [cx.input('char%d' % i, cx.fresh('ch%d' % i, z3.BitVecSort(8))) for i in range(32)]
        for c in chars: cx.assume(ishex(cx, c))
        s = cx.new_cell('text', Vec(ct, items=list(chars)))
        r = new_id(cx)
        st, v = attempt(cx, lambda: call(cx, f, r, s))
        cx.oblige('parsing 32 hex digits does not throw or abort', st == 'ok')
        cx.oblige('parsing 32 hex digits succeeds', v)
        b = bytes_of(cx, r)
        for i in range(16):
            want = hexval(cx, chars[2 * i], 8) * 16 + hexval(cx, chars[2 * i + 1], 8)
            cx.oblige('parsed byte is the value of its two digits', False if isinstance(b[i], Undef) else b[i] == want, i)
        cx.oblige('text argument unchanged', seq_eq(cx, cx.read(s), Vec(ct, items=list(chars))))
        cx.cover('end')
    cx.explore('fromHexString', run); return cx
def t_parse_other(env):
    cx = env.ctx('ids', 'bv'); f = fn_id(cx.prog, 'aslam::HashId::fromHexString')
    def run(cx):
        st_t = ptype(cx.prog, f, 0)
        s = cx.new_cell('text', cx.sym('text', st_t)); n = cx.read(s).n
        cx.input('length', n); cx.assume(n != 32)
        r = new_id(cx); b0 = bytes_of(cx, r)
        st, v = attempt(cx, lambda: call(cx, f, r, s))
        cx.oblige('other lengths return', st == 'ok')
        cx.oblige('other lengths report failure', NOT(cx.b(v)))
        cx.oblige('other lengths leave the identifier unchanged', same_bytes(bytes_of(cx, r), b0)); cx.cover('end')
    cx.explore('fromHexString(other length)', run); return cx
def t_round(env):
    """round trip through both contracts"""
    cx = env.ctx('ids', 'bv')
    def run(cx):
        b = cx.fresh('b', z3.BitVecSort(8)); hi, lo = digit(z3.LShR(b, 4)), digit(b & 15)
        cx.oblige('lemma: parsing the text of a byte yields the byte', AND(ishex(cx, hi), ishex(cx, lo), hexval(cx, hi, 8) * 16 + hexval(cx, lo, 8) == b))
        c, d = cx.fresh('c', z3.BitVecSort(8)), cx.fresh('d', z3.BitVecSort(8))
        cx.assume(z3.And(ishex(cx, c), ishex(cx, d)))
        v = hexval(cx, c, 8) * 16 + hexval(cx, d, 8)
        low = lambda x: z3.If(z3.And(x >= 65, x <= 70), x + 32, x)
        cx.oblige('lemma: text of a parsed digit pair is the pair in lowercase', AND(digit(z3.LShR(v, 4)) == low(c), digit(v & 15) == low(d)))
    cx.explore('round trip', run); return cx
def tasks(env):
    return [Task('hexString', t_hex), Task('shortHex', t_short), Task('fromHexString', t_parse), Task('fromHexString-other', t_parse_other), Task('roundtrip', t_round)]
