"""I03: uniqueness of generated identifiers, serialization, identifiers from integers."""
from idutil import *

def t_unique(env):
    cx = env.ctx('ids', 'bv'); p = cx.prog
    f = fn_id(p, 'aslam::internal::generateUnique128BitHash')
    def gen(cx, tag):
        w = words(cx, 'out' + tag)
        ops = []
        def static(cx_, d):
            # process-wide state: whatever other threads left there
            r = cx_.new_cell('static:' + d['n'], cx_.default(d['t'])); cx_.births[r.cell] = 0
            cx_.ghost.setdefault('static_names', {})[r.cell] = d['n']; return r
        def atomic(cx_, c):
            r = c.obj
            n = c.f['s']
            T = cx_.T(c.f['ret'])
            ty = c.f['ret'] if T['k'] == 'int' else (c.f['pt'][0] if c.f['pt'] else None)
            if n in ('operator++', 'fetch_add', 'operator+=') :
                old = cx_.input('shared value before the atomic step' + tag, cx_.fresh('old', z3.BitVecSort(64)))
                a = rd(cx_, c.args[0]) if n != 'operator++' and c.args else 1
                new = old + bv(a, 64)
                ops.append((r.cell, 'rmw', old, new, a))
                return (old if n == 'fetch_add' or (n == 'operator++' and c.f['pt']) else new,)
            if n == 'load' or n.startswith('operator '):
                v = cx_.fresh('load', z3.BitVecSort(64)); ops.append((r.cell, 'load', v, None, None)); return (v,)
            ops.append((r.cell, 'other', None, None, None))
            return (cx_.fresh('at', z3.BitVecSort(64)),)
        cx.hooks['static'], cx.hooks['atomic'] = static, atomic
        call(cx, f, None, Ptr(w.at(0)))
        return w, ops
    def run(cx):
        w1, o1 = gen(cx, ' (first call)')
        statics1 = dict(cx.statics)
        w2, o2 = gen(cx, ' (second call)')
        r1 = [o for o in o1 if o[1] == 'rmw']; r2 = [o for o in o2 if o[1] == 'rmw']
        cx.oblige('each call takes exactly one atomic step on the counter', len(r1) == 1 and len(r2) == 1 and r1[0][0] == r2[0][0])
        cx.oblige('nothing else is written to the shared counter', not any(o[1] == 'other' for o in o1 + o2))
        cx.oblige('the atomic step increases the counter by one', AND(bv(r1[0][4], 64) == 1, bv(r2[0][4], 64) == 1))
        # rely: the counter starts at 0 and is only ever increased by one atomically, fewer than 2^64 times
        cx.assume(z3.And(r1[0][2] != r2[0][2], r1[0][3] != 0, r2[0][3] != 0))
        cx.res.assumed.add('fewer than 2^64 identifiers are generated in one process')
        a, b = [bv(x, 64) for x in cx.read(w1).items], [bv(x, 64) for x in cx.read(w2).items]
        cx.oblige('two generated identifiers are never equal', z3.Or(a[0] != b[0], a[1] != b[1]))
        cx.oblige('a generated identifier is valid', z3.Or(a[0] != 0, a[1] != 0)); cx.cover('end')
    cx.explore('generateUnique128BitHash', run); return cx
def t_generate(env):
    cx = env.ctx('ids', 'bv'); p = cx.prog
    for q in ('aslam::generateId', 'aslam::createRandomId'):
        for f in p.find(q):
            def run(cx, f=f, q=q):
                vals = [cx.fresh('g%d' % i, z3.BitVecSort(64)) for i in range(2)]; cx.assume(z3.Or(vals[0] != 0, vals[1] != 0))
                n = []
                def ct(cx_, c):
                    d = rd(cx_, c.args[0])
                    for i in range(2): q2 = cx_.ptr_add(d, i).ref; cx_.check_ref(q2); cx_.write(q2, vals[i])
                    n.append(1)
                cx.contracts = {'aslam::internal::generateUnique128BitHash': ct}
                if q.endswith('generateId'):
                    r = new_id(cx, 'id', 'aslam::FrameId'); st, v = attempt(cx, lambda: call(cx, f, None, Ptr(r)))
                else:
                    st, v = attempt(cx, lambda: call(cx, f, None)); r = cx.new_cell('res', v)
                cx.oblige('identifier generation returns', st == 'ok')
                W = [z3.Extract(8 * i + 7, 8 * i, x) for x in vals for i in range(8)]
                cx.oblige('the identifier is exactly one freshly generated 128-bit value', AND(len(n) == 1, same(bytes_of(cx, r), W))); cx.cover('end')
            cx.explore(p.funcs[f]['n'], run)
    return cx
def t_serialize(env):
    cx = env.ctx('ids', 'bv'); p = cx.prog
    se, de = fn_id(p, 'aslam::Id::serialize'), fn_id(p, 'aslam::Id::deserialize')
    mt = ptype(p, se, 0)
    def run(cx):
        a = new_id(cx, 'id', 'aslam::Id'); A = bytes_of(cx, a)
        m = cx.new_cell('msg', cx.sym('msg', mt)); cx.input('message length before', cx.read(m).f['uint'].n)
        st, _ = attempt(cx, lambda: call(cx, se, a, Ptr(m)))
        cx.oblige('serialize returns', st == 'ok')
        v = cx.read(m).f['uint']
        cx.oblige('message has two words', eqi(cx, v.n, 2))
        cx.oblige('identifier unchanged', same(bytes_of(cx, a), A))
        b = new_id(cx, 'other', 'aslam::Id')
        st, _ = attempt(cx, lambda: call(cx, de, b, m))
        cx.oblige('deserialize of a serialized identifier returns', st == 'ok')
        cx.oblige('serialize then deserialize yields the same identifier', same(bytes_of(cx, b), A)); cx.cover('end')
    cx.explore('serialize/deserialize', run)
    for ct in [i for i in p.find('aslam::Id::Id') if p.funcs[i]['pt'] and 'proto' in p.tname(p.funcs[i]['pt'][0])]:
        def run(cx, ct=ct):
            a = new_id(cx, 'id', 'aslam::Id'); A = bytes_of(cx, a)
            m = cx.new_cell('msg', cx.sym('msg', mt)); call(cx, se, a, Ptr(m))
            r = cx.new_cell('o', cx.default(rectype(p, 'aslam::Id')))
            st, _ = attempt(cx, lambda: call(cx, ct, r, m))
            cx.oblige('construction from a serialized identifier yields it', AND(st == 'ok', same(bytes_of(cx, r), A))); cx.cover('end')
        cx.explore('Id(proto)', run)
    return cx
def t_fromint(env):
    cx = env.ctx('ids', 'bv'); p = cx.prog
    f = p.find('aslam::generateIdFromInt')[0]
    def text(cx, v, c):
        """contract of ostream formatting of an unsigned number with setfill/setw (and hex)"""
        fill, width, base, out = 32, 0, 10, []
        et = char_t(cx, c.f['ret'])
        for it, t in v.items:
            if isinstance(it, tuple) and it[0] == 'setfill': fill = it[1]
            elif isinstance(it, tuple) and it[0] == 'setw': width = cx.conc(it[1])
            elif isinstance(it, tuple) and it[0] == 'fun' and p.funcs[it[1]]['q'] in ('std::hex', 'std::dec'): base = 16 if p.funcs[it[1]]['s'] == 'hex' else 10
            elif isz(it) and z3.is_bv(it) and it.size() in (32, 64):
                N = 10 if base == 10 and it.size() == 32 else (20 if base == 10 else it.size() // 4)
                if width is None or width < N: raise Unsupported('number text of variable length')
                X32 = it
                ds = [cx.fresh('d%d' % i, z3.BitVecSort(8)) for i in range(N)]
                for d in ds: cx.assume(z3.ULT(d, base))
                # the value is a function of its digits (exact for any base); a digit position is printed iff some digit at or above it is not zero
                cx.assume(X32 == cx.uf('digits%d_%d_%d' % (base, N, it.size()), *([z3.BitVecSort(8)] * N + [it.sort()]))(*ds))
                ch = []
                for i in range(N - 1, -1, -1):
                    dc = z3.If(z3.ULE(ds[i], 9), ds[i] + 48, ds[i] + 87)
                    ch.append(dc if i == 0 else z3.If(z3.Or(*[ds[j] != 0 for j in range(i, N)]), dc, bv(fill, 8)))
                out += [fill] * (width - N) + [z3.simplify(x) for x in ch]; width = 0
            else: raise Unsupported('stream item')
        return Vec(et, items=out)
    cx.hooks['stream_str'] = text
    def run(cx):
        i1, i2 = [cx.input(n, cx.fresh(n, z3.BitVecSort(32))) for n in ('first integer', 'second integer')]
        cx.assume(i1 != i2)
        a, b = new_id(cx, 'a', 'aslam::FrameId'), new_id(cx, 'b', 'aslam::FrameId')
        # the two target identifiers may hold the same value before
        cx.assume(cx.zb(same(bytes_of(cx, a), bytes_of(cx, b))))
        s1, _ = attempt(cx, lambda: call(cx, f, None, i1, Ptr(a)))
        cx.oblige('identifier from an integer is produced', s1 == 'ok')
        s2, _ = attempt(cx, lambda: call(cx, f, None, i2, Ptr(b)))
        cx.oblige('identifier from an integer is produced', s2 == 'ok')
        cx.oblige('identifiers from different integers differ', NOT(cx.b(same(bytes_of(cx, a), bytes_of(cx, b))))); cx.cover('end')
    cx.explore('generateIdFromInt', run); return cx
def tasks(env):
    return [Task('unique', t_unique), Task('generateId', t_generate), Task('serialize', t_serialize), Task('fromInt', t_fromint)]
