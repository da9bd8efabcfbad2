"""descriptor references as values of the verifier: kinds 'null', 'own', 'alias'"""
from util import *
import algos
W, C = 'aslam::common::FeatureDescriptorRefBase<unsigned char, 1>', 'aslam::common::FeatureDescriptorRefBase<const unsigned char, 0>'
U64 = z3.BitVecSort(64)
def rtype(p, fid, i=None):
    t = p.funcs[fid]['ret'] if i is None else p.funcs[fid]['pt'][i]
    T = p.types[t]; return T['e'] if T['k'] in ('ptr', 'ref') else t
def z64(x): return z3.ZeroExt(32, x) if isz(x) and x.size() == 32 else (z3.BitVecVal(x, 64) if isinstance(x, int) else x)
def buf(cx, name, et, n):
    """n bytes of arbitrary content in a fresh cell"""
    a = cx.fresh(name, z3.ArraySort(U64, z3.BitVecSort(8))); return cx.new_cell(name, Vec(et, n, a)), a
def byte_t(cx): return cx.type_named('u8')
def mk(cx, name, t, kind, n=None):
    """a reference satisfying the class invariant; returns its cell"""
    fs = dict(cx.fields(t)); et = cx.T(fs['data_'])['e']; owns = 'owned_' in fs
    sz = cx.fresh(name + '.size', z3.BitVecSort(32)) if n is None else n
    r = Rec(t, {}); f = r.f
    if kind == 'null': f['data_'], f['size_bytes_'] = NULL, z3.BitVecVal(0, 32)
    elif kind == 'own':
        c, _ = buf(cx, name + '.data', et, z64(sz)); cx.ghost.setdefault('heap', {})[c.cell] = 'array'
        f['data_'], f['size_bytes_'] = Ptr(c.at(z3.BitVecVal(0, 64))), sz
    else:
        n_ = cx.fresh(name + '.room', U64); off = cx.fresh(name + '.offset', U64); cx.assume(z3.And(z3.ULT(n_, 2**40), z3.ULE(off, n_), z3.ULE(z64(sz), n_ - off)))
        c, _ = buf(cx, name + '.data', et, n_); f['data_'], f['size_bytes_'] = Ptr(c.at(off)), sz
    if owns: f['owned_'] = kind == 'own'
    cx.input(name + '.size', sz) if n is None and kind != 'null' else None
    r.f = {k: f[k] for k in fs}
    return cx.new_cell(name, r)
def view(cx, ref):
    """(owned, size term, data cell or None, offset, array) of a reference"""
    v = cx.read(ref); d = v.f['data_']; sz = v.f['size_bytes_']
    if isinstance(sz, int): sz = z3.BitVecVal(sz, 32)
    if isinstance(d, Undef) or isinstance(sz, Undef): cx.undef_use(d); raise PathEnd()
    if d.ref is None: return (v.f.get('owned_'), sz, None, None, None)
    b = Ref(d.ref.cell, d.ref.path[:-1]); off = cx.ix(d.ref.path[-1][1]); vec = vcopy(cx.read(b)); cx.vec_sym(vec)
    return (v.f.get('owned_'), sz, d.ref.cell, off, vec.arr)
def same_bytes(cx, a, oa, b, ob, n):
    j = z3.Const('j!sb', U64); return z3.ForAll([j], z3.Implies(z3.ULT(j, z64(n)), z3.Select(a, j + oa) == z3.Select(b, j + ob)), patterns=[z3.Select(a, j + oa)])
def live(cx): return {c: s for c, s in cx.ghost.get('heap', {}).items()}
def veclen(cx, cell): v = cx.read(Ref(cell)); return cx.ix(vlen(v))
