from util import *
UNITS = {'ids': r'^(aslam|std::hash|std::operator|printId)'}
REPLAY_SRC = ['REPO/aslam_cv_common/src/hash-id.cc', 'REPO/aslam_cv_common/src/internal/unique-id.cc', 'PROTO/aslam/common/id.pb.cc']
def bv(x, w): return z3.BitVecVal(x, w) if isinstance(x, int) else x
def new_id(cx, name='id', t='aslam::HashId'):
    v = cx.sym(name, rectype(cx.prog, t))
    for i, b in enumerate(v.f['val_'].bytes): cx.input('%s.byte%d' % (name, i), b)
    return cx.new_cell(name, v)
def bytes_of(cx, r): return [bv(b, 8) if not isinstance(b, Undef) else b for b in cx.read(r.fld('val_')).bytes]
def same(a, b): return AND(*[False if isinstance(x, Undef) or isinstance(y, Undef) else x == y for x, y in zip(a, b)])
def words(cx, name):
    """a uint64_t[2] with symbolic content"""
    t = cx.type_named('u64'); a = Arr(t, [cx.input('%s[%d]' % (name, i), cx.fresh('%s%d' % (name, i), z3.BitVecSort(64))) for i in range(2)])
    return cx.new_cell(name, a)
def word_bytes(cx, r):
    out = []
    for w in cx.read(r).items:
        if isinstance(w, Undef): out += [w] * 8; continue
        w = bv(w, 64); out += [z3.Extract(8 * i + 7, 8 * i, w) for i in range(8)]
    return out
