"""H03: channel groups behave as a map from names to values."""
from util import *
import eigen
import monitor
UNITS = {'channels': r'^(aslam::channels::|vu::|aslam::Cloneable)'}
REPLAY_SRC, REPLAY_LIBS = ['REPO/aslam_cv_common/src/channel.cc', 'REPO/aslam_cv_common/src/channel-serialization.cc'], ['-lglog', '-lopencv_core', '-pthread']
REPLAY_FLAGS = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=nonnull-attribute']
REPLAY_SECS = (10, 120)
ASSUMPTIONS = ['names are compared as values; the names of two declared channels differ', 'no group holds a null channel (shown to be kept by adding, cloning, copying and assigning)', 'virtual clone and compare obey the contracts proved for Channel<T>; dynamic casts succeed exactly for the dynamic type; value types are arbitrary types with copy, assignment and ==, images obey the documented cv::Mat operators', 'a finite set with as many elements as a superset equals it', 'an image channel shares its pixels with its clone, as the code documents']
LEVEL_NOTE = "accessors, clone, copy and comparison proved for all groups, names and value types; images for all sizes and types"
I, B = z3.IntSort(), z3.BoolSort()
QA, QB = 'vu::OpaqueA', 'vu::OpaqueB'
CH = 'aslam::channels::Channel<%s>'
core.MODELS['std::integral_constant::integral_constant'] = lambda cx, c: Rec(c.node['t'], {})
class Locks:
    """mutexes of the groups: each taken at most once at a time, all released at the end"""
    def __init__(s, cx): s.cx, s.held = cx, set()
    def for_mutex(s, r):
        k = repr(r)
        class M:
            def acquire(m): s.cx.oblige('a mutex is not taken twice', k not in s.held); s.held.add(k)
            def release(m): s.held.discard(k)
            def ob(m, kind, what, f): s.cx.oblige(what, f)
        return M()
class World:
    """channel objects: handle -> type tag, value; objects of the program's own making are cells"""
    def __init__(s, cx):
        s.cx = cx; s.tag = cx.uf('type of', I, I); s.ids = {}; s.cells = {}; s.used = []; s.val = cx.uf('value of', I, cx.uf_sort('Value')) if False else None
        s.next = 1000000
    def tid(s, name): return s.ids.setdefault(name, len(s.ids) + 1)
def name_of(cx, t): return cx.prog.tname(t).replace('const ', '')
def chan_rec(cx, T): return rectype(cx.prog, CH % T)
def setup(cx):
    cx.opaques = {QA, QB}; cx.monitor = Locks(cx); W = World(cx)
    def hp(cx, z, t):
        if cx.branch(z == 0): return NULL
        return Ptr(Ref('chan'), z)
    cx.hooks['handle_ptr'] = hp
    cx.store['chan'] = None
    def as_type(cx, p, q):
        """p seen as a pointer to q: null unless that is its dynamic type"""
        if p.ref is None: return NULL
        if p.ref.cell == 'chan':
            if not cx.branch(W.tag(p.meta) == W.tid(q)): return NULL
            k = (p.meta.sexpr(), q)
            if k not in W.cells: W.cells[k] = cx.new_cell('channel', cx.sym('channel', rectype(cx.prog, q))); cx.births[W.cells[k].cell] = 0; W.used.append(p.meta)
            return Ptr(W.cells[k], p.meta)
        v = cx.read(p.ref)
        if not isinstance(v, Rec): raise Unsupported('cast of %r' % (v,))
        if '__tag' in v.f:
            return p if cx.branch(v.f['__tag'] == W.tid(q)) else NULL
        return p if name_of(cx, v.t) == q else NULL
    cx.hooks['dynamic_pointer_cast'] = lambda cx, c, p: as_type(cx, p, name_of(cx, cx.T(c.f['ret'])['a'][0]['t']))
    cx.hooks['dynamic_cast'] = lambda cx, e, v: as_type(cx, v if isinstance(v, Ptr) else Ptr(v), name_of(cx, cx.T(e['t'])['e']))
    for q in (QA, QB):
        so = cx.sort(rectype(cx.prog, q)); s = q.split('::')[1]
        cx.contracts['%s::%s' % (q, s)] = (lambda q, so: lambda cx, c: rd(cx, c.args[0]) if c.args else cx.uf('default ' + q, I, so)(0))(q, so)
        def asg(cx, c): cx.write(c.obj, rd(cx, c.args[0])); return c.obj
        cx.contracts[q + '::operator='] = asg
        cx.contracts[q + '::operator=='] = (lambda q, so: lambda cx, c: cx.uf('equal ' + q, so, so, B)(cx.read(c.obj), rd(cx, c.args[0])))(q, so)
    so = cx.sort(rectype(cx.prog, QB)); cx.contracts[QB + '::clone'] = lambda cx, c: cx.uf('clone ' + QB, so, so)(cx.read(c.obj))
    return W
def group_t(cx): return rectype(cx.prog, 'aslam::channels::ChannelGroup')
class Grp:
    def __init__(s, cx, rec): m = rec.f['channels_']; s.dom, s.val, s.n, s.ks = m.dom, cx.map_val(m), cx.ix(m.n), m.dom.sort().domain()
    def d(s, k): return z3.Select(s.dom, k)
    def h(s, k): return z3.Select(s.val, k)
def same(a, b, but=None):
    k = z3.Const('k!sg', a.ks); g = k != but if but is not None else True
    return z3.ForAll([k], z3.Implies(g, z3.And(a.d(k) == b.d(k), z3.Implies(a.d(k), a.h(k) == b.h(k)))))
def new_group(cx, name='group', nonnull=True):
    r = cx.new_cell(name, cx.sym(name, group_t(cx))); g = Grp(cx, cx.read(r)); k = z3.Const('k!nn', g.ks)
    if nonnull: cx.assume(z3.ForAll([k], z3.Implies(g.d(k), g.h(k) != 0), patterns=[g.h(k)]))
    return r, g
def names(cx, p):
    """a declared channel's name: an arbitrary one, distinct for distinct channels"""
    tab = {}
    def hook(cx, v, V):
        n = V['n'].split('::')[-1]
        if not n.endswith('_CHANNEL'): return None
        val = cx.sym('name', V['t']); r = cx.new_cell('name', val); cx.births[r.cell] = 0; z = cx.pack(val, V['t'])
        for o in tab.values(): cx.assume(o != z)
        tab[n[:-8]] = z; return r
    cx.hooks['global'] = hook; return tab
def own_name(cx, tab, w, nm, f):
    """name the accessor uses: given as argument, or the one it was declared with"""
    return tab.get(nm)
def accessors():
    """(label, key of declared name or None, value type, function names)"""
    return [('declared FIRST', 'FIRST', QA, dict(get='aslam::channels::get_FIRST_Data', add='aslam::channels::add_FIRST_Channel', has='aslam::channels::has_FIRST_Channel', rem='aslam::channels::remove_FIRST_Channel', ser='aslam::channels::serialize_FIRST_Channel', des='aslam::channels::deserialize_FIRST_Channel')),
            ('declared SECOND', 'SECOND', QB, dict(get='aslam::channels::get_SECOND_Data', add='aslam::channels::add_SECOND_Channel', has='aslam::channels::has_SECOND_Channel', rem='aslam::channels::remove_SECOND_Channel', ser='aslam::channels::serialize_SECOND_Channel', des='aslam::channels::deserialize_SECOND_Channel')),
            ('named OpaqueA', None, QA, dict(get='vu::get_a', add='vu::add_a', has='vu::has')), ('named OpaqueB', None, QB, dict(get='vu::get_b', add='vu::add_b', has='vu::has'))]
def acc_task(label, key, vt, fs):
    def t(env):
        cx = env.ctx('channels', 'int'); p = cx.prog
        def start(cx, f):
            W = setup(cx); tab = names(cx, p); r, g = new_group(cx); fid = fn_id(p, f); args = []
            if key is None:
                st = ptype(p, fid, 0); v = cx.sym('name', st); z = cx.pack(v, st); args = [cx.new_cell('name', v)]
            else:
                for i, V in enumerate(p.vars):
                    if V['n'].split('::')[-1] == key + '_CHANNEL': cx.statics.pop(i, None); rr = cx.hooks['global'](cx, i, V); cx.statics[i] = rr; break
                else: raise Unsupported('name of the channel')
                z = tab[key]
            T = cx.T(p.funcs[fid]['pt'][len(args)]); args.append(r if T['k'] == 'ref' else Ptr(r)); return W, r, g, fid, args, z
        def finish(cx, W, r, g, unchanged=True):
            cx.oblige('the mutex is released', not cx.monitor.held); g1 = Grp(cx, cx.read(r))
            if unchanged: cx.oblige('the group is unchanged', z3.And(same(g1, g), g1.n == g.n))
            return g1
        def is_type(W, h): return W.tag(h) == W.tid(CH % vt)
        def get(cx):
            W, r, g, f, a, z = start(cx, fs['get']); s, v = attempt(cx, lambda: call(cx, f, None, *a)); ok = z3.And(g.d(z), is_type(W, g.h(z)))
            if s != 'ok': finish(cx, W, r, g) if s != 'abort' else None; cx.oblige('a present channel of the right type is read', z3.Not(ok)); cx.cover('refused'); return
            cx.oblige('a missing channel or one of another type is refused', ok); finish(cx, W, r, g); want = W.cells.get((g.h(z).sexpr(), CH % vt)); want = want or next((c for (k, q), c in W.cells.items() if q == CH % vt), None)
            cx.oblige('the value read is the one of the stored channel', isinstance(v, Ref) and want is not None and repr(v) == repr(want.fld('value_'))); cx.oblige('the channel read is the one stored under the name', z3.And(len(W.used) == 1, *[g.h(z) == zz for zz in W.used])); cx.cover('read')
        cx.explore('get', get)
        def has(cx):
            W, r, g, f, a, z = start(cx, fs['has']); s, v = attempt(cx, lambda: call(cx, f, None, *a)); cx.oblige('asking for a channel returns', s == 'ok')
            if s != 'ok': return
            finish(cx, W, r, g); cx.oblige('a channel is reported exactly when it is present', cx.zb(v) == g.d(z)); cx.cover('end')
        cx.explore('has', has)
        def add(cx):
            W, r, g, f, a, z = start(cx, fs['add']); s, v = attempt(cx, lambda: call(cx, f, None, *a))
            if s != 'ok': cx.oblige('a new channel is accepted', g.d(z)); cx.cover('refused'); return
            cx.oblige('adding a channel twice is refused', z3.Not(g.d(z))); g1 = finish(cx, W, r, g, False); cx.oblige('the channel is present', g1.d(z)); cx.oblige('other channels are unchanged', same(g1, g, z)); cx.oblige('one channel more', g1.n == g.n + 1)
            q = cx.handle_ptr(z3.simplify(g1.h(z)), None); ok = isinstance(q, Ptr) and q.ref is not None and q.ref.cell != 'chan'; cx.oblige('the channel stored is a new one', ok)
            if not ok: return
            rec = cx.read(q.ref); cx.oblige('the channel has the declared type', isinstance(rec, Rec) and name_of(cx, rec.t) == CH % vt); cx.oblige('the value returned is the one of the channel stored', isinstance(v, Ref) and repr(v) == repr(q.ref.fld('value_'))); cx.oblige('the channel lives on', cx.ghost.get('heap', {}).get(q.ref.cell) == 'object'); cx.cover('added')
        cx.explore('add', add)
        def addnull(cx):
            W, r, g, f, a, z = start(cx, fs['add']); a[-1] = NULL; s, v = attempt(cx, lambda: call(cx, f, None, *a)); cx.oblige('a null group is refused', s != 'ok'); cx.cover('end')
        cx.explore('add to no group', addnull)
        if 'rem' in fs:
            def rem(cx):
                W, r, g, f, a, z = start(cx, fs['rem']); s, v = attempt(cx, lambda: call(cx, f, None, *a))
                if s != 'ok': cx.oblige('a present channel is removed', z3.Not(g.d(z))); cx.cover('refused'); return
                cx.oblige('removing a missing channel is refused', g.d(z)); g1 = finish(cx, W, r, g, False); cx.oblige('the channel is gone', z3.Not(g1.d(z))); cx.oblige('other channels are unchanged', same(g1, g, z)); cx.oblige('one channel less', g1.n == g.n - 1); cx.cover('removed')
            cx.explore('remove', rem)
        for nm in ('ser', 'des'):
            if nm not in fs: continue
            def conv(cx, nm=nm):
                W, r, g, f, a, z = start(cx, fs[nm]); calls = []; b = cx.new_cell('text', cx.sym('text', rectype_str(cx)))
                def con(cx, c):
                    calls.append((c.args[0], c.args[1])); return cx.fresh_bool('converted')
                cx.contracts['aslam::internal::serializeToString'] = cx.contracts['aslam::internal::deSerializeFromString'] = con
                T = cx.T(p.funcs[f]['pt'][1]); a.append(b if T['k'] == 'ref' else Ptr(b)); s, v = attempt(cx, lambda: call(cx, f, None, *a)); ok = z3.And(g.d(z), is_type(W, g.h(z)))
                if s != 'ok': cx.oblige('a present channel of the right type is converted', z3.Not(ok)); cx.cover('refused'); return
                cx.oblige('a missing channel or one of another type is refused', ok); finish(cx, W, r, g); cx.oblige('converted once', len(calls) == 1)
                if len(calls) != 1: return
                ref = lambda x: x.ref if isinstance(x, Ptr) else x
                val, txt = (calls[0][0], calls[0][1]) if nm == 'ser' else (calls[0][1], calls[0][0]); c = next(iter(W.cells.values()), None)
                cx.oblige('the channel converted is the one stored under the name', z3.And(len(W.used) == 1, *[g.h(z) == zz for zz in W.used])); cx.oblige('the value of the channel is converted', c is not None and repr(ref(val)) == repr(c.fld('value_'))); cx.oblige('the given text is used', repr(ref(txt)) == repr(b)); cx.cover('converted')
            cx.explore({'ser': 'serialize', 'des': 'deserialize'}[nm], conv)
        return cx
    return Task('accessors: ' + label, t)
def rectype_str(cx):
    for i, T in enumerate(cx.prog.types):
        if T['k'] == 'rec' and T['q'] == 'std::basic_string' and 'char' in cx.prog.tname(i): return i
def t_clone(env):
    cx = env.ctx('channels', 'int'); p = cx.prog; f = fn_id(p, 'aslam::channels::cloneChannelGroup'); st = {}
    def out(L):
        """the group under construction"""
        for c, v in reversed(list(cx.store.items())):
            if isinstance(v, Rec) and 'channels_' in v.f and c != st['r'].cell: return Grp(cx, v)
        raise Unsupported('group under construction')
    def link(cx, o, k):
        g, W = st['g'], st['W']; return z3.And(o.h(k) >= st['base'], o.h(k) < st['top'](), W.src(o.h(k)) == g.h(k), g.h(k) != 0)
    def inv(cx, L):
        o, g = out(L), st['g']; v = cx.read(L.idx); k, l = z3.Const('k!cl', g.ks), z3.Const('l!cl', g.ks)
        return [('cloned names', z3.ForAll([k], o.d(k) == z3.Select(v.dom, k))), ('clones of the channels', z3.ForAll([k], z3.Implies(o.d(k), link(cx, o, k)), patterns=[o.h(k)])), ('separate channels', z3.ForAll([k, l], z3.Implies(z3.And(o.d(k), o.d(l), k != l), o.h(k) != o.h(l)), patterns=[z3.MultiPattern(o.h(k), o.h(l))])), ('count', o.n == cx.ix(v.n)), ('visited names are present', z3.ForAll([k], z3.Implies(z3.Select(v.dom, k), g.d(k)))), ('clones counted', st['top']() >= st['base'])]
    cx.loopspecs = [LoopSpec(inv, name='channels')]
    def run(cx):
        st.clear(); W = setup(cx); W.src = cx.uf('cloned from', I, I); r, g = new_group(cx, nonnull=False); base = cx.fresh('first free handle', I); k = z3.Const('k!b', g.ks); cx.assume(z3.And(base > 1000, z3.ForAll([k], z3.Implies(g.d(k), z3.And(g.h(k) >= 0, g.h(k) < base)), patterns=[g.h(k)])))
        top = cx.new_cell('top', base); cx.births[top.cell] = 0; st.update(W=W, r=r, g=g, base=base, top=lambda: cx.ix(cx.read(top)))
        def clone(cx, c):
            """contract of Channel<T>::clone, proved below: a new channel of the same type with an equal value"""
            h = c.obj.meta if hasattr(c.obj, 'meta') else st['last']; z = cx.ix(cx.read(top)); cx.write(top, z + 1); cx.assume(W.src(z) == h); return Ptr(Ref('chan'), z)
        cx.contracts['aslam::channels::ChannelBase::clone'] = clone
        st['deref'] = True; o0 = cx.hooks['handle_ptr']
        def hp(cx, z, t):
            q = o0(cx, z, t)
            if q.ref is not None: st['last'] = q.meta
            return q
        cx.hooks['handle_ptr'] = hp
        s, v = attempt(cx, lambda: call(cx, f, None, r))
        if s != 'ok': cx.oblige('a group without null channels is cloned', z3.Exists([k], z3.And(g.d(k), g.h(k) == 0))); cx.cover('refused'); return
        v = v if isinstance(v, Rec) else cx.read(v); o = Grp(cx, v); cx.oblige('the mutex is released', not cx.monitor.held); cx.oblige('the clone has the same names', z3.ForAll([k], o.d(k) == g.d(k))); cx.oblige('and as many channels', o.n == g.n)
        cx.oblige('every channel is a separate clone of the one with its name', z3.ForAll([k], z3.Implies(g.d(k), link(cx, o, k)))); l = z3.Const('l!c2', g.ks); cx.oblige('no two names share a clone', z3.ForAll([k, l], z3.Implies(z3.And(g.d(k), g.d(l), k != l), o.h(k) != o.h(l)))); cx.oblige('the original is unchanged', same(Grp(cx, cx.read(r)), g)); cx.cover('cloned')
    cx.explore('clone of a group', run)
    def cp(cx):
        W = setup(cx); r, g = new_group(cx); fa = fn_id(p, 'aslam::channels::ChannelGroup::operator='); o, _ = new_group(cx, 'other'); s, v = attempt(cx, lambda: call(cx, fa, o, r)); cx.oblige('assignment returns', s == 'ok')
        if s != 'ok': return
        a = Grp(cx, cx.read(o)); cx.oblige('an assigned group has the channels of the source', z3.And(same(a, g), a.n == g.n)); cx.oblige('the source is unchanged', same(Grp(cx, cx.read(r)), g)); cx.cover('end')
    cx.explore('assignment', cp)
    return cx
def t_equal(env):
    cx = env.ctx('channels', 'int'); p = cx.prog; f = fn_id(p, 'aslam::channels::isChannelGroupEqual'); st = {}
    def inv(cx, L):
        a, b, W = st['a'], st['b'], st['W']; v = cx.read(L.idx); k = z3.Const('k!eq', a.ks)
        return [('visited channels are equal', z3.ForAll([k], z3.Implies(z3.Select(v.dom, k), z3.And(a.d(k), b.d(k), W.tag(a.h(k)) == W.tag(b.h(k)), W.eq(b.h(k), a.h(k)))), patterns=[z3.Select(v.dom, k)]))]
    cx.loopspecs = [LoopSpec(inv, name='channels')]
    def mk(cx, same_obj):
        st.clear(); W = setup(cx); W.eq = cx.uf('values equal', I, I, B); ra, a = new_group(cx, 'left'); rb, b = (ra, a) if same_obj else new_group(cx, 'right'); st.update(W=W, a=a, b=b); log = []
        o0 = cx.hooks['handle_ptr']
        def hp(cx, z, t):
            q = o0(cx, z, t)
            if q.ref is None: return q
            r = cx.new_cell('chan', Rec(rectype(cx.prog, 'aslam::channels::ChannelBase'), {'__h': q.meta})); return Ptr(r, q.meta)
        cx.hooks['handle_ptr'] = hp
        def compare(cx, c):
            """contract of Channel<T>::compare, proved below: refused for another type, else whether the values are equal"""
            x, y = [(lambda v: v.meta if isinstance(v, Ptr) else v.f['__h'])(r if isinstance(r, Ptr) else cx.read(r)) for r in (c.obj, c.args[0])]
            if not cx.branch(W.tag(x) == W.tag(y)): raise Abort(cx.cur_line)
            k = z3.Const('k!sy', I); cx.assume(W.eq(x, y) == W.eq(y, x)); return W.eq(x, y)
        cx.contracts['aslam::channels::ChannelBase::compare'] = compare; return W, ra, a, rb, b
    def run(cx):
        W, ra, a, rb, b = mk(cx, False); k = z3.Const('k!q', a.ks); u, w = z3.Ints('u!s w!s')
        s, v = attempt(cx, lambda: call(cx, f, None, ra, rb)); both = lambda k: z3.And(a.d(k), b.d(k))
        # finite sets: equal sets have as many elements, a subset with as many elements is everything
        sub = z3.ForAll([k], z3.Implies(a.d(k), b.d(k))); sup = z3.ForAll([k], z3.Implies(b.d(k), a.d(k))); cx.assume(z3.Implies(z3.And(sub, sup), a.n == b.n)); cx.assume(z3.Implies(z3.And(sub, a.n == b.n), sup))
        cx.assume(z3.ForAll([u, w], W.eq(u, w) == W.eq(w, u), patterns=[W.eq(u, w)]))
        eq = z3.And(sub, sup, z3.ForAll([k], z3.Implies(a.d(k), z3.And(W.tag(a.h(k)) == W.tag(b.h(k)), W.eq(a.h(k), b.h(k))))))
        if s != 'ok': cx.oblige('only groups with a channel of different types are refused', z3.Exists([k], z3.And(both(k), W.tag(a.h(k)) != W.tag(b.h(k))))); cx.cover('refused'); return
        cx.oblige('the mutexes are released', not cx.monitor.held); cx.oblige('groups are equal exactly when names and values are', cx.zb(v) == eq); cx.oblige('the groups are unchanged', z3.And(same(Grp(cx, cx.read(ra)), a), same(Grp(cx, cx.read(rb)), b))); cx.cover('equal' if cx.branch(cx.zb(v)) else 'different')
    cx.explore('equality of groups', run)
    def one(cx):
        W, ra, a, rb, b = mk(cx, True); s, v = attempt(cx, lambda: call(cx, f, None, ra, ra)); cx.oblige('a group can be compared with itself', s == 'ok')
        if s == 'ok': cx.oblige('a group equals itself', cx.zb(v)); cx.cover('end')
    cx.explore('equality with itself', one); return cx
def t_channel(nm, vt):
    def t(env):
        cx = env.ctx('channels', 'int'); p = cx.prog; rt = lambda: chan_rec(cx, vt); so = lambda: cx.sort(rectype(p, vt))
        def eqv(a, b): return cx.uf('equal ' + vt, so(), so(), B)(a, b)
        def cmp(cx):
            W = setup(cx); f = fn_id(p, 'vu::compare_' + nm); a = cx.new_cell('left', cx.sym('left', rt())); other = cx.fresh('other type', I); rb = cx.sym('right', rt()); rb.f['__tag'] = other; b = cx.new_cell('right', rb); va, vb = cx.read(a).f['value_'], rb.f['value_']
            s, v = attempt(cx, lambda: call(cx, f, None, Ptr(a), Ptr(b))); same_t = other == W.tid(CH % vt)
            if s != 'ok': cx.oblige('channels of the same type are compared', z3.Not(same_t)); cx.cover('refused'); return
            cx.oblige('comparing with another type is refused', same_t); cx.oblige('channels are equal exactly when their values are', cx.zb(v) == eqv(va, vb)); cx.oblige('comparing changes nothing', z3.And(cx.read(a).f['value_'] == va, cx.read(b).f['value_'] == vb)); cx.cover('compared')
        cx.explore('comparison', cmp)
        def cl(cx):
            W = setup(cx); f = fn_id(p, 'vu::clone_' + nm); a = cx.new_cell('original', cx.sym('original', rt())); va = cx.read(a).f['value_']; s, v = attempt(cx, lambda: call(cx, f, None, Ptr(a))); cx.oblige('cloning returns', s == 'ok')
            if s != 'ok': return
            ok = isinstance(v, Ptr) and v.ref is not None and repr(v.ref) != repr(a) and cx.ghost.get('heap', {}).get(v.ref.cell) == 'object'; cx.oblige('a clone is a new channel', ok)
            if not ok: return
            r = cx.read(v.ref); cx.oblige('a clone has the same type', name_of(cx, r.t) == CH % vt); cx.oblige('a clone holds a copy of the value', r.f['value_'] == (cx.uf('clone ' + vt, so(), so())(va) if vt == QB else va)); cx.oblige('the original is unchanged', cx.read(a).f['value_'] == va); cx.cover('end')
        cx.explore('clone', cl)
        return cx
    return Task('channel of ' + vt, t)
# images: size, type and whether all elements compare equal, as the documented cv::Mat operators see them
IMG = z3.DeclareSort('Image'); SZ, TY = z3.Function('size of image', IMG, I), z3.Function('type of image', IMG, I); EMPTY = z3.Function('empty size', I, B); ALLEQ = z3.Function('elements equal', IMG, IMG, B)
class ImgV(Obj):
    def __init__(s, z): s.z = z
    def copy(s): return ImgV(s.z)
    def get_path(s, cx, p):
        if p[1] == 'size': return ImgSize(s.z)
        raise Unsupported('image field %s' % (p,))
    def set_path(s, cx, path, val): raise Unsupported('write into an image')
    def havoc(s, cx, base): return ImgV(cx.fresh(base, IMG))
class ImgSize(Obj):
    def __init__(s, z): s.z = z
    def copy(s): return s
    def get_path(s, cx, p): raise Unsupported('image size field')
class Mask(Obj):
    """result of an elementwise comparison: its channels and whether some element is set"""
    def __init__(s, cn, some): s.cn, s.some = cn, some
    def copy(s): return Mask(s.cn, s.some)
    def get_path(s, cx, p): raise Unsupported('field of a mask')
    def set_path(s, cx, path, val): raise Unsupported('write into a mask')
def channels_of(t): return (t / 8) % 512 + 1
def img_setup(cx):
    M = cx.contracts
    for i, T in enumerate(cx.prog.types): pass
    core.SYM_TYPES['cv::Mat'] = lambda cx, base, t: (lambda z: (cx.assume(z3.And(TY(z) >= 0, TY(z) < 4096)), ImgV(z))[1])(cx.fresh(base, IMG)); core.TYPE_DEFAULT['cv::Mat'] = lambda cx, t: ImgV(cx.fresh('no image', IMG))
    def ctor(cx, c):
        if not c.args: return ImgV(cx.fresh('no image', IMG))
        v = rd(cx, c.args[0]); return v.copy() if isinstance(v, (ImgV, Mask)) else unsup('image constructor')
    def asg(cx, c): cx.write(c.obj, rd(cx, c.args[0]).copy()); return c.obj
    def unsup(m): raise Unsupported(m)
    M['cv::Mat::Mat'] = ctor; M['cv::Mat::operator='] = asg
    M['cv::Mat::type'] = lambda cx, c: TY(cx.read(c.obj).z); M['cv::Mat::channels'] = lambda cx, c: channels_of(TY(cx.read(c.obj).z)); M['cv::Mat::depth'] = lambda cx, c: TY(cx.read(c.obj).z) % 8
    M['cv::Mat::empty'] = lambda cx, c: EMPTY(SZ(cx.read(c.obj).z))
    sz = lambda cx, c: [(rd(cx, x) if not isinstance(x, Ref) else cx.read(x)) for x in ([c.obj] if c.obj is not None else []) + list(c.args)]
    def szeq(cx, c): a, b = sz(cx, c); return SZ(a.z) == SZ(b.z)
    M['cv::MatSize::operator=='] = szeq; M['cv::MatSize::operator!='] = lambda cx, c: z3.Not(szeq(cx, c))
    def cmp(eq):
        def f(cx, c):
            a, b = [rd(cx, x) for x in c.args]
            if not (isinstance(a, ImgV) and isinstance(b, ImgV)): raise Unsupported('comparison of masks')
            if cx.branch(z3.Or(EMPTY(SZ(a.z)), EMPTY(SZ(b.z)))): raise Throw('cv::Exception', cx.cur_line)
            if not cx.branch(z3.And(SZ(a.z) == SZ(b.z), TY(a.z) == TY(b.z))): raise Throw('cv::Exception', cx.cur_line)
            some = cx.fresh_bool('some equal') if eq else z3.Not(ALLEQ(a.z, b.z)); return Mask(channels_of(TY(a.z)), some)
        return f
    M['cv::operator!='] = cmp(False); M['cv::operator=='] = cmp(True)
    ident = lambda cx, c: cx.read(c.obj); M['cv::MatExpr::operator Mat'] = ident; M['cv::MatExpr::MatExpr'] = lambda cx, c: rd(cx, c.args[0]); M['cv::_InputArray::_InputArray'] = lambda cx, c: rd(cx, c.args[0])
    def reshape(cx, c):
        m, n = cx.read(c.obj), rd(cx, c.args[0]); r = rd(cx, c.args[1]) if len(c.args) > 1 else 0
        if not isinstance(m, Mask) or cx.conc(n) != 1 or cx.conc(r) != 0: raise Unsupported('reshape')
        return Mask(1, m.some)
    M['cv::Mat::reshape'] = reshape
    def cnz(cx, c):
        m = rd(cx, c.args[0])
        if not isinstance(m, Mask): raise Unsupported('countNonZero')
        if not cx.branch(eqi(cx, m.cn, 1)): raise Throw('cv::Exception', cx.cur_line)
        n = cx.fresh('non-zero', I); cx.assume(z3.And(n >= 0, n < 2**31, (n > 0) == cx.zb(m.some))); return n
    M['cv::countNonZero'] = cnz
def t_image(env):
    cx = env.ctx('channels', 'int'); p = cx.prog; vt = 'cv::Mat'; rt = lambda: chan_rec(cx, vt)
    def equal(a, b): return z3.And(SZ(a.z) == SZ(b.z), TY(a.z) == TY(b.z), z3.Or(EMPTY(SZ(a.z)), ALLEQ(a.z, b.z)))
    def cmp(cx):
        W = setup(cx); img_setup(cx); f = fn_id(p, 'vu::compare_img'); a = cx.new_cell('left', cx.sym('left', rt())); other = cx.fresh('other type', I); rb = cx.sym('right', rt()); rb.f['__tag'] = other; b = cx.new_cell('right', rb); va, vb = cx.read(a).f['value_'], rb.f['value_']
        s, v = attempt(cx, lambda: call(cx, f, None, Ptr(a), Ptr(b))); same_t = other == W.tid(CH % vt)
        if s != 'ok': cx.oblige('images of any size and type are compared', z3.Not(same_t)); cx.cover('refused'); return
        cx.oblige('comparing with another type is refused', same_t); cx.oblige('image channels are equal exactly when size, type and elements are', cx.zb(v) == equal(va, vb)); cx.oblige('comparing changes nothing', z3.And(cx.read(a).f['value_'].z == va.z, cx.read(b).f['value_'].z == vb.z)); cx.cover('compared')
    cx.explore('comparison', cmp)
    def cl(cx):
        W = setup(cx); img_setup(cx); f = fn_id(p, 'vu::clone_img'); a = cx.new_cell('original', cx.sym('original', rt())); va = cx.read(a).f['value_']; s, v = attempt(cx, lambda: call(cx, f, None, Ptr(a))); cx.oblige('cloning returns', s == 'ok')
        if s != 'ok': return
        ok = isinstance(v, Ptr) and v.ref is not None and repr(v.ref) != repr(a) and cx.ghost.get('heap', {}).get(v.ref.cell) == 'object'; cx.oblige('a clone is a new channel', ok)
        if not ok: return
        r = cx.read(v.ref); cx.oblige('a clone has the same type', name_of(cx, r.t) == CH % vt); cx.oblige('a clone shows the same image', r.f['value_'].z == va.z); cx.cover('end')
    cx.explore('clone', cl); return cx
def t_pointer(env):
    """Channel<std::shared_ptr<T>>: values are the pointees"""
    cx = env.ctx('channels', 'int'); p = cx.prog; vt = 'std::shared_ptr<vu::OpaqueA>'; so = lambda: cx.sort(rectype(p, QA))
    def run(cx):
        W = setup(cx); f = fn_id(p, 'vu::eq_p'); rt = chan_rec(cx, vt); S = []
        for n in ('left', 'right'):
            null = cx.branch(cx.fresh_bool(n + ' null')); x = None if null else cx.new_cell(n + ' pointee', cx.sym(n + ' pointee', rectype(p, QA))); S.append((null, x, cx.new_cell(n, Rec(rt, {'value_': NULL if null else Ptr(x)}))))
        (na, xa, a), (nb, xb, b) = S; s, v = attempt(cx, lambda: call(cx, f, None, Ptr(a), Ptr(b))); cx.oblige('pointer channels are compared', s == 'ok')
        if s != 'ok': return
        want = z3.BoolVal(na and nb) if na or nb else cx.uf('equal ' + QA, so(), so(), B)(cx.read(xa), cx.read(xb)); cx.oblige('pointer channels are equal exactly when both are null or their pointees are equal', cx.zb(v) == want); cx.cover('null' if na or nb else 'pointees')
    cx.explore('comparison', run); return cx
def t_serial(env):
    """the conversions of a channel convert its value and report what the conversion reports"""
    cx = env.ctx('channels', 'int'); p = cx.prog
    for nm, vt in (('a', QA), ('b', QB), ('img', 'cv::Mat')):
        for fn in ('to_string', 'from_string', 'to_buffer', 'from_buffer'):
            def run(cx, nm=nm, vt=vt, fn=fn):
                W = setup(cx); img_setup(cx); f = fn_id(p, 'vu::%s_%s' % (fn, nm)); a = cx.new_cell('channel', cx.sym('channel', chan_rec(cx, vt))); calls = []
                def con(cx, c): b = cx.fresh_bool('converted'); calls.append((c.f['s'], c.args, b)); return b
                for q in ('serializeToString', 'deSerializeFromString', 'serializeToBuffer', 'deSerializeFromBuffer'): cx.contracts['aslam::internal::' + q] = con
                if fn.endswith('string'): x = cx.new_cell('text', cx.sym('text', rectype_str(cx))); args = [Ptr(x) if fn[0] == 't' else x]
                elif fn[0] == 't': x = cx.new_cell('buffer', NULL); n = cx.new_cell('size', 0); args = [Ptr(x), Ptr(n)]
                else: x = cx.new_cell('bytes', cx.sym('bytes', rectype_str(cx))); args = [Ptr(x.at(0)), cx.input('size', cx.fresh_int('size', 0, 2**64 - 1))]
                s, v = attempt(cx, lambda: call(cx, f, None, Ptr(a), *args)); cx.oblige('the conversion returns', s == 'ok'); cx.oblige('converted once', len(calls) == 1)
                if s != 'ok' or len(calls) != 1: return
                q, ar, b = calls[0]; ref = lambda x: repr(x.ref if isinstance(x, Ptr) else x); cx.oblige('by the matching conversion', q == {'to_string': 'serializeToString', 'from_string': 'deSerializeFromString', 'to_buffer': 'serializeToBuffer', 'from_buffer': 'deSerializeFromBuffer'}[fn])
                val, rest = (ar[0], ar[1:]) if fn[0] == 't' else (ar[-1], ar[:-1]); cx.oblige('the value of the channel is converted', ref(val) == repr(a.fld('value_'))); same = lambda x, y: ref(x) == ref(y) if isinstance(y, (Ptr, Ref)) else cx.ix(rd(cx, x)) == cx.ix(y)
                cx.oblige('with the given arguments', z3.And(*[z3.BoolVal(r) if isinstance(r, bool) else r for r in [same(x, y) for x, y in zip(rest, args)]])); cx.oblige('its result is reported', cx.zb(v) == b); cx.cover('end')
            cx.explore('%s %s' % (fn, vt), run)
    return cx
def t_mats(env):
    """matrix and list channels: equal exactly when dimensions (length) and elements are; == of Eigen needs equal dimensions"""
    cx = env.ctx('channels', 'int'); p = cx.prog
    for nm in ('vx', 'm2', 'mx', 'fix'):
        def run(cx, nm=nm):
            W = setup(cx); f = fn_id(p, 'vu::eq_' + nm); ct = ptype(p, f, 0); a, b = cx.new_cell('left', cx.sym('left', ct)), cx.new_cell('right', cx.sym('right', ct)); x, y = cx.read(a).f['value_'], cx.read(b).f['value_']
            for n, v in (('left.rows', x.r), ('left.cols', x.c), ('right.rows', y.r), ('right.cols', y.c)): cx.input(n, v)
            s, v = attempt(cx, lambda: call(cx, f, None, Ptr(a), Ptr(b))); cx.oblige('matrices of any dimensions are compared', s == 'ok')
            if s != 'ok': return
            dims = z3.And(cx.ix(x.r) == cx.ix(y.r), cx.ix(x.c) == cx.ix(y.c)); i, j = z3.Ints('i!me j!me')
            if nm == 'fix': el = z3.And(*[cx.zr(x.g[i][j]) == cx.zr(y.g[i][j]) for i in range(2) for j in range(2)])
            else: el = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, j >= 0, i < cx.ix(x.r), j < cx.ix(x.c)), x.at(i, j) == y.at(i, j)))
            cx.oblige('matrices are equal exactly when dimensions and elements are', cx.zb(v) == z3.And(dims, el)); cx.cover('end')
        cx.explore('matrix ' + nm, run)
    st = {}
    def inv(cx, L):
        i = cx.ix(L['i']); k = z3.Int('k!li'); return [('range', z3.And(i >= 0, i <= st['n'])), ('elements so far are equal', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < i), st['eq'](k)), patterns=[z3.Select(st['x'].arr, k)]))]
    cx.loopspecs = [LoopSpec(inv, name='elements')]
    def run(cx):
        W = setup(cx); f = fn_id(p, 'vu::eq_list'); ct = ptype(p, f, 0); a, b = cx.new_cell('left', cx.sym('left', ct)), cx.new_cell('right', cx.sym('right', ct)); x, y = cx.read(a).f['value_'], cx.read(b).f['value_']; so = cx.sort(rectype(p, QA)); E = cx.uf('equal ' + QA, so, so, B); st.update(n=cx.ix(x.n), x=x, eq=lambda k: E(z3.Select(x.arr, k), z3.Select(y.arr, k))); cx.input('left.size', x.n); cx.input('right.size', y.n)
        s, v = attempt(cx, lambda: call(cx, f, None, Ptr(a), Ptr(b))); cx.oblige('lists of any length are compared', s == 'ok')
        if s != 'ok': return
        k = z3.Int('k!le'); cx.oblige('lists are equal exactly when length and elements are', cx.zb(v) == z3.And(cx.ix(x.n) == cx.ix(y.n), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < cx.ix(x.n)), st['eq'](k))))); cx.cover('end')
    cx.explore('list', run); return cx
def tasks(env):
    return [acc_task(*a) for a in accessors()] + [Task('clone', t_clone), Task('equality', t_equal), t_channel('a', QA), t_channel('b', QB), Task('image channels', t_image), Task('pointer channels', t_pointer), Task('matrix and list channels', t_mats), Task('conversions', t_serial)]
