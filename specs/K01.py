"""K01: sensors compare, copy and serialize by all their identity fields."""
from idutil import *
from models import model, seq_eq, m_text
import core
REPLAY_SRC = ['REPO/aslam_cv_common/src/sensor.cc'] + REPLAY_SRC; REPLAY_LIBS = ['-lyaml-cpp', '-lglog', '-lprotobuf', '-pthread']
UNITS = {'sensor': r'^(aslam::Sensor|aslam::UniqueId|aslam::HashId|aslam::generateId|aslam::Yaml|vu::|YAML::safeGet|YAML::hasKey)'}
# ---- assumed contract of the document library: a node is a handle to shared state
class YNode(core.Obj):
    """kind: undef, null, scalar (text), seq, map (fields: key -> node; missing keys of an arbitrary map are decided when read)"""
    def __init__(s, kind, text=None, open_=False): s.kind, s.text, s.fields, s.open, s.reads = kind, text, {}, open_, []
def key_of(cx, v):
    ks = [cx.conc(cx.vec_get(v, i)) for i in range(cx.conc(v.n))] if cx.conc(v.n) is not None else [None]
    if None in ks: raise Unsupported('lookup of a key that is not constant')
    return ''.join(chr(k) for k in ks)
def some_string(cx, n='s'): v = cx.sym(n, str_t(cx)); cx.assume(z3.ULT(cx.ix(v.n), 2 ** 62)); cx.input('length of ' + n, cx.ix(v.n)); return v
def file_name(cx): return Vec(char_of(cx, str_t(cx)), items=[ord(x) for x in 's.yaml'])      # the name reaches the library unchanged; its content plays no role
def str_t(cx): return next(i for i, T in enumerate(cx.prog.types) if T.get('q') == 'std::basic_string' and cx.prog.tname(char_of(cx, i)) in ('char', 'i8'))
def char_of(cx, i): return cx.T(i)['a'][0]['t']
def node(cx, v): return rd(cx, v)
core.TYPE_DEFAULT['YAML::Node'] = lambda cx, t: YNode('null')
@model('YAML::Node::Node')
def _(cx, c):
    if not c.args: return YNode('null')
    v = rd(cx, c.args[0])
    if isinstance(v, YNode): return v
    if isinstance(v, Vec): return YNode('scalar', vcopy_(v))
    raise Unsupported('document node of that type')
def vcopy_(v): return core.vcopy(v)
@model('YAML::Node::IsDefined', 'YAML::Node::operator bool')
def _(cx, c): return node(cx, c.obj).kind != 'undef'
@model('YAML::Node::operator!')
def _(cx, c): return node(cx, c.obj).kind == 'undef'
@model('YAML::Node::IsNull')
def _(cx, c): return node(cx, c.obj).kind == 'null'
@model('YAML::Node::IsMap')
def _(cx, c): return node(cx, c.obj).kind == 'map'
@model('YAML::Node::IsScalar')
def _(cx, c): return node(cx, c.obj).kind == 'scalar'
@model('YAML::Node::IsSequence')
def _(cx, c): return node(cx, c.obj).kind == 'seq'
@model('YAML::Node::operator[]')
def _(cx, c):
    n = node(cx, c.obj); a = rd(cx, c.args[0]); k = key_of(cx, a) if isinstance(a, Vec) else key_of(cx, drop0(cx, a))
    if n.kind not in ('map', 'undef', 'null'): raise Throw('YAML::BadSubscript', cx.cur_line)
    if k not in n.fields:
        f = YNode('undef'); f.parent = n
        if n.open and n.kind == 'map':
            w = cx.choose(4); f = YNode(('scalar', 'undef', 'seq', 'null')[w], some_string(cx, k) if w == 0 else None); f.parent = n
        n.fields[k] = f
    n.reads.append(k); return n.fields[k]
def drop0(cx, p):
    import models
    return models.str_from_cptr(cx, p, None)
@model('YAML::Node::operator=')
def _(cx, c):
    n = node(cx, c.obj); v = rd(cx, c.args[0])
    if isinstance(v, YNode): cx.write(c.obj, v); return v
    if isinstance(v, Ptr): v = drop0(cx, v)
    if not isinstance(v, Vec): raise Unsupported('a document value of that type')
    n.kind, n.text = 'scalar', vcopy_(v); p = getattr(n, 'parent', None)
    while p is not None and p.kind in ('undef', 'null'): p.kind = 'map'; p = getattr(p, 'parent', None)
    return n
@model('YAML::Node::as')
def _(cx, c):
    n = node(cx, c.obj)
    if n.kind == 'scalar': return vcopy_(n.text)
    if n.kind == 'null': return Vec(char_of(cx, str_t(cx)), items=[ord(x) for x in 'null'])
    raise Throw('YAML::Exception', cx.cur_line)
@model('YAML::LoadFile')
def _(cx, c):
    h = cx.hooks.get('load_file')
    if h: return h(cx, c)
    raise Unsupported('reading a file')
@model('YAML::operator<<')
def _(cx, c): cx.ghost['written'] = (rd(cx, c.args[1]),); return c.args[0]
# ---- sensors
def sensor(cx, n, valid=None):
    v = cx.sym(n, rectype(cx.prog, 'vu::Probe')); r = cx.new_cell(n, v)
    for f in ('topic_', 'description_'): cx.assume(z3.ULT(cx.ix(v.f[f].n), 2 ** 62)); cx.input('%s.%s length' % (n, f), cx.ix(v.f[f].n))
    cx.input(n + '.type', v.f['type']); cx.input(n + '.data', v.f['data'])
    if valid is not None: cx.assume(idv(cx, r) if valid else z3.Not(idv(cx, r)))
    return r
def idb(cx, r): return bytes_of(cx, r.fld('id_'))
def nz(B): return z3.Or(*[x != 0 for x in B])
def idv(cx, r): return nz(idb(cx, r))
def snap(cx, r): return core.vcopy(cx.read(r))
def string_eq(cx, a, b): return cx.zb(seq_eq(cx, a, b))
def base_same(cx, a, B, but=()):
    A = cx.read(a); return AND(True if 'id_' in but else same(bytes_of(cx, a.fld('id_')), [bv(x, 8) for x in B.f['id_'].f['val_'].bytes]), *[string_eq(cx, A.f[f], B.f[f]) for f in ('topic_', 'description_') if f not in but])
def all_same(cx, a, B): A = cx.read(a); return AND(base_same(cx, a, B), A.f['type'] == B.f['type'], A.f['data'] == B.f['data'])
def impl(cx):
    """contracts of the type-specific functions and of the identifier text (C. I01)"""
    G = cx.ghost; G['impl'] = []; G['hex'] = []; cx.ghost['written'] = None
    def rec(n, ret):
        def h(cx, c): G['impl'].append((n, c)); return ret(cx, c)
        return h
    def eq(cx, c): a, b = cx.read(c.obj), cx.read(c.args[0]); G['impl'].append(('eq', c)); return a.f['data'] == b.f['data']
    res = lambda k: lambda cx, c: cx.sym(k, c.f['ret'])
    C = cx.contracts; C['vu::Probe::isEqualImpl'] = eq; tn = some_string(cx, 'type name')
    C['vu::Probe::getSensorTypeString'] = lambda cx, c: vcopy_(tn); G['type name'] = tn
    for n in ('isValidImpl', 'loadFromYamlNodeImpl'): C['vu::Probe::' + n] = (lambda n: lambda cx, c: (lambda v: (G['impl'].append((n, c, v)), v)[1])(cx.fresh_bool(n)))(n)
    for n in ('setRandomImpl', 'saveToYamlNodeImpl'): C['vu::Probe::' + n] = (lambda n: lambda cx, c: G['impl'].append((n, c)))(n)
    def hexs(cx, c):
        B = bytes_of(cx, c.obj); v = Vec(char_of(cx, str_t(cx)), items=[cx.sym('hex', char_of(cx, str_t(cx))) for _ in range(32)]); G['hex'].append((B, v)); return v
    def from_hex(cx, c):
        s = rd(cx, c.args[0])
        ok = cx.fresh_bool('text is an identifier'); B = [z3.BitVec('hexbyte%d_%d' % (len(G['hex']), i), 8) for i in range(16)]
        for A, v in G['hex']: cx.assume(z3.Implies(string_eq(cx, s, v), z3.And(ok, *[a == b for a, b in zip(A, B)])))
        if not cx.branch(ok): return False
        u = cx.read(c.obj.fld('val_')).copy(); u.bytes = list(B); cx.write(c.obj.fld('val_'), u); G['parsed'] = (s, B); return True
    C['aslam::HashId::hexString'] = hexs; C['aslam::HashId::fromHexString'] = from_hex
    def gen(cx, c):
        p = rd(cx, c.args[0]); w = [z3.BitVec('generated%d_%d' % (len(G['impl']), i), 64) for i in range(2)]; cx.assume(z3.Or(*[x != 0 for x in w])); G['impl'].append(('generate', c)); G['generated'] = w
        for i in range(2): cx.write(cx.ptr_add(p, i).ref, w[i])
    C['aslam::internal::generateUnique128BitHash'] = gen
def called(cx, n): return [x for x in cx.ghost['impl'] if x[0] == n]
def mk(env): return env.ctx('sensor', 'bv')
def t_equal(env):
    cx = mk(env); p = cx.prog
    for nm in ('equal', 'unequal', 'is_equal'):
        f = fn_id(p, 'vu::' + nm)
        def run(cx, nm=nm, f=f):
            impl(cx); a, b = sensor(cx, 'a'), sensor(cx, 'b'); A, B = snap(cx, a), snap(cx, b)
            s, v = attempt(cx, lambda: call(cx, f, None, a, b, *([cx.fresh_bool('verbose')] if nm == 'is_equal' else []))); cx.oblige('any two sensors can be compared', s == 'ok')
            if s != 'ok': return
            e = cx.zb(all_same(cx, a, B)); v = cx.zb(v); v = z3.Not(v) if nm == 'unequal' else v
            cx.oblige('sensors reported equal have equal identifier, type, topic, description and data', z3.Implies(v, e)); cx.oblige('sensors with equal fields are reported equal', z3.Implies(e, v))
            cx.oblige('the sensors are not changed', AND(all_same(cx, a, A), all_same(cx, b, B))); cx.cover('end')
        cx.explore(nm, run)
    return cx
def t_access(env):
    cx = mk(env); p = cx.prog; F = lambda n: fn_id(p, 'vu::' + n)
    def run(cx):
        impl(cx); a = sensor(cx, 'a'); A = snap(cx, a); i = new_id(cx, 'i', 'aslam::SensorId'); I = bytes_of(cx, i); s, _ = attempt(cx, lambda: call(cx, F('set_id'), None, Ptr(a), i))
        cx.oblige('exactly valid identifiers are accepted', cx.zb(s == 'ok') == nz(I))
        if s == 'ok': cx.oblige('the identifier is set and nothing else', AND(same(idb(cx, a), I), base_same(cx, a, A, ('id_',)), cx.read(a).f['type'] == A.f['type'], cx.read(a).f['data'] == A.f['data'])); cx.cover('end')
    cx.explore('setId', run)
    def run(cx):
        impl(cx); a = sensor(cx, 'a'); A = snap(cx, a); s, r = attempt(cx, lambda: call(cx, F('get_id'), None, a)); cx.oblige('exactly a valid identifier is handed out', cx.zb(s == 'ok') == idv(cx, a))
        if s == 'ok': cx.oblige('the identifier is returned', same(bytes_of(cx, r), [bv(x, 8) for x in A.f['id_'].f['val_'].bytes])); cx.cover('end')
    cx.explore('getId', run)
    for n, f in (('topic', 'topic_'), ('description', 'description_')):
        def run(cx, n=n, f=f):
            impl(cx); a = sensor(cx, 'a'); A = snap(cx, a); t = some_string(cx, 'new'); s, _ = attempt(cx, lambda: call(cx, F('set_' + n), None, Ptr(a), cx.new_cell('t', t))); cx.oblige('every text is accepted', s == 'ok')
            cx.oblige('the field is set and nothing else', AND(string_eq(cx, cx.read(a).f[f], t), base_same(cx, a, A, (f,)))); s, r = attempt(cx, lambda: call(cx, F('get_' + n), None, a)); cx.oblige('the field is returned', s == 'ok' and string_eq(cx, rd(cx, r), t)); cx.cover('end')
        cx.explore(n, run)
    for k in range(4):
        def run(cx, k=k):
            impl(cx); i = new_id(cx, 'i', 'aslam::SensorId'); I = bytes_of(cx, i); t, d = some_string(cx, 'topic'), some_string(cx, 'description')
            s, r = attempt(cx, lambda: call(cx, F('make%d' % k), None, *[i, cx.new_cell('t', t), cx.new_cell('d', d)][:k]))
            if k: cx.oblige('a sensor is made of a valid identifier only', cx.zb(s == 'ok') == nz(I))
            else: cx.oblige('a sensor can be made', s == 'ok')
            if s != 'ok': return
            q = r if isinstance(r, Ref) else cx.new_cell('made', r); v = cx.read(q); cx.oblige('it has the given identifier', same(idb(cx, q), I) if k else idv(cx, q))
            cx.oblige('it has the given topic', string_eq(cx, v.f['topic_'], t) if k > 1 else eqi(cx, v.f['topic_'].n, 0)); cx.oblige('it has the given description', string_eq(cx, v.f['description_'], d) if k > 2 else eqi(cx, v.f['description_'].n, 0)); cx.cover('end')
        cx.explore('constructor %d' % k, run)
    def run(cx):
        impl(cx); a = sensor(cx, 'a'); A = snap(cx, a); s, r = attempt(cx, lambda: call(cx, F('copy'), None, a)); cx.oblige('a sensor can be copied', s == 'ok')
        if s == 'ok': q = r if isinstance(r, Ref) else cx.new_cell('made', r); cx.oblige('a copy has the fields of the original', base_same(cx, q, A)); cx.oblige('copying does not change the original', all_same(cx, a, A)); cx.cover('end')
    cx.explore('copy', run)
    def run(cx):
        impl(cx); a, b = sensor(cx, 'a'), sensor(cx, 'b'); B = snap(cx, b); s, r = attempt(cx, lambda: call(cx, F('assign'), None, Ptr(a), b)); cx.oblige('a sensor can be assigned', s == 'ok')
        if s == 'ok': cx.oblige('an assigned sensor has the fields of the original', base_same(cx, a, B)); cx.oblige('assigning does not change the original', all_same(cx, b, B)); cx.cover('end')
    cx.explore('assignment', run)
    def run(cx):
        impl(cx); a = sensor(cx, 'a'); A = snap(cx, a); s, r = attempt(cx, lambda: call(cx, F('valid'), None, a)); cx.oblige('validity can be asked', s == 'ok'); im = called(cx, 'isValidImpl')
        if s == 'ok': cx.oblige('a sensor is valid exactly when its identifier and its type-specific data are', cx.zb(r) == (z3.And(idv(cx, a), cx.zb(im[0][2])) if im else z3.BoolVal(False))); cx.oblige('type-specific data is looked at if the identifier is valid', z3.Implies(idv(cx, a), cx.zb(bool(im)))); cx.oblige('the sensor is not changed', all_same(cx, a, A)); cx.cover('end')
    cx.explore('isValid', run)
    def run(cx):
        impl(cx); a = sensor(cx, 'a'); A = snap(cx, a); s, r = attempt(cx, lambda: call(cx, F('set_random'), None, Ptr(a))); cx.oblige('a sensor can be randomized', s == 'ok')
        if s == 'ok': cx.oblige('it gets a fresh valid identifier and random data', AND(idv(cx, a), len(called(cx, 'generate')) == 1, len(called(cx, 'setRandomImpl')) == 1)); cx.cover('end')
    cx.explore('setRandom', run)
    return cx
def t_round(env):
    cx = mk(env); p = cx.prog; F = lambda n: fn_id(p, 'vu::' + n)
    def written(cx, a, A, N, msg):
        f = N.fields; ok = lambda k: k in f and f[k].kind == 'scalar'
        cx.oblige('the identifier is written', ok('id') and bool(cx.ghost['hex']) and AND(string_eq(cx, f['id'].text, cx.ghost['hex'][-1][1]), same(cx.ghost['hex'][-1][0], idb(cx, a))))
        for k, w in (('sensor_type', cx.ghost['type name']), ('topic', A.f['topic_']), ('description', A.f['description_'])): cx.oblige('the %s is written' % k.replace('_', ' '), ok(k) and string_eq(cx, f[k].text, w))
        im = called(cx, 'saveToYamlNodeImpl'); cx.oblige('type-specific data is written once', len(im) == 1 and rd(cx, rd(cx, im[0][1].args[0]).ref) is N)
        cx.oblige('writing does not change the sensor', all_same(cx, a, A))
    for way in ('node', 'file'):
        def run(cx, way=way):
            impl(cx); a, b = sensor(cx, 'a'), sensor(cx, 'b', True); A, B = snap(cx, a), snap(cx, b); n = cx.new_cell('node', YNode('null'))
            fname = cx.new_cell('file', file_name(cx))
            if way == 'node': s, _ = attempt(cx, lambda: call(cx, F('write'), None, a, Ptr(n))); N = cx.read(n)
            else:
                s, _ = attempt(cx, lambda: call(cx, F('save_file'), None, a, fname))
                if s == 'ok': cx.oblige('the document is written to the file', cx.ghost['written'] is not None)
                else: cx.oblige('a sensor is written if it has a valid identifier and the file opens', z3.Or(z3.Not(idv(cx, a)), cx.zb(NOT(cx.ghost.get('opened', False))))); return
                N = cx.ghost['written'][0] if cx.ghost['written'] else YNode('undef')
            if way == 'node': cx.oblige('exactly sensors with a valid identifier are written', cx.zb(s == 'ok') == idv(cx, a))
            if s != 'ok': return
            written(cx, a, A, N, way); cx.ghost['impl'] = []
            cx.hooks['load_file'] = lambda cx, c: N
            s, r = attempt(cx, lambda: call(cx, F('read'), None, Ptr(b), cx.new_cell('n2', N)) if way == 'node' else call(cx, F('load_file'), None, Ptr(b), fname)); cx.oblige('what was written can be read', s == 'ok')
            if s != 'ok': return
            cx.oblige('the sensor read has the identifier, topic and description of the one written', base_same(cx, b, A)); im = called(cx, 'loadFromYamlNodeImpl'); cx.oblige('type-specific data is read once and decides the result', len(im) == 1 and cx.zb(r) == cx.zb(im[0][2]))
            cx.oblige('type-specific data is read from the same document', bool(im) and rd(cx, im[0][1].args[0]) is N); cx.cover('end')
        cx.explore('round trip by ' + way, run)
    return cx
def t_read(env):
    cx = mk(env); p = cx.prog; F = lambda n: fn_id(p, 'vu::' + n)
    for way in ('node', 'file'):
        def run(cx, way=way):
            impl(cx); b = sensor(cx, 'b'); B = snap(cx, b); N = YNode(('map', 'undef', 'null', 'scalar', 'seq')[cx.choose(5)], open_=True)
            if N.kind == 'scalar': N.text = some_string(cx, 'text')
            def load(cx, c):
                if cx.choose(2): cx.ghost['nofile'] = True; raise Throw('YAML::BadFile', cx.cur_line)
                return N
            cx.ghost['nofile'] = False; cx.hooks['load_file'] = load; n = cx.new_cell('node', N)
            s, r = attempt(cx, lambda: call(cx, F('read'), None, Ptr(b), n) if way == 'node' else call(cx, F('load_file'), None, Ptr(b), cx.new_cell('f', file_name(cx)))); v = cx.read(b)
            if cx.ghost['nofile'] or N.kind != 'map':
                cx.oblige('what is not a map is refused', s == 'ok' and cx.zb(r) == False); cx.oblige('a refused document does not change the sensor', all_same(cx, b, B)); cx.cover('refused'); return
            f = N.fields; idt = f.get('id'); text = lambda k: f[k].text if k in f and f[k].kind == 'scalar' else None
            cx.oblige('the identifier is looked up', idt is not None)
            if idt is None: return
            if s != 'ok':
                cx.oblige('only a malformed identifier is refused', idt.kind in ('scalar', 'null') and (('parsed' not in cx.ghost) or not cx.valid(nz(cx.ghost['parsed'][1])))); return
            if idt.kind == 'scalar':
                cx.oblige('a malformed identifier is refused', 'parsed' in cx.ghost)
                if 'parsed' in cx.ghost: cx.oblige('the identifier is the one of the document', AND(string_eq(cx, cx.ghost['parsed'][0], idt.text), same(idb(cx, b), cx.ghost['parsed'][1])))
            if idt.kind in ('undef', 'seq'): cx.oblige('without an identifier a fresh one is generated', len(called(cx, 'generate')) == 1)
            cx.oblige('a sensor read has a valid identifier', idv(cx, b))
            for k, g in (('topic', 'topic_'), ('description', 'description_')):
                t = text(k)
                if t is not None: cx.oblige('the %s is the one of the document' % k, string_eq(cx, v.f[g], t))
                elif k in f and f[k].kind != 'null': cx.oblige('without a %s it stays as it was' % k, string_eq(cx, v.f[g], B.f[g]))
                cx.oblige('the %s is looked up' % k, k in f)
            im = called(cx, 'loadFromYamlNodeImpl'); cx.oblige('type-specific data is read once and decides the result', len(im) == 1 and cx.zb(r) == cx.zb(im[0][2])); cx.cover('end')
        def run_(cx, run=run):
            cx.ghost.pop('parsed', None); run(cx)
        cx.explore('any document by ' + way, run_)
    f = F('safe_get')
    def run(cx):
        impl(cx); N = YNode(('map', 'undef', 'null', 'scalar', 'seq')[cx.choose(5)], open_=True); k = Vec(char_of(cx, str_t(cx)), items=[ord(x) for x in 'key']); o = some_string(cx, 'old'); out = cx.new_cell('out', o)
        s, r = attempt(cx, lambda: call(cx, f, None, cx.new_cell('n', N), cx.new_cell('k', k), Ptr(out))); cx.oblige('safeGet does not throw', s == 'ok')
        if s != 'ok': return
        e = N.fields.get('key'); ok = N.kind == 'map' and e is not None and e.kind in ('scalar', 'null'); cx.oblige('success means the key was there as text', cx.zb(r) == ok)
        cx.oblige('the value is returned on success, untouched otherwise', string_eq(cx, rd(cx, out), e.text if ok and e.kind == 'scalar' else Vec(k.et, items=[ord(x) for x in 'null']) if ok else o))
        s, h = attempt(cx, lambda: call(cx, F('has_key'), None, cx.new_cell('n', N), cx.new_cell('k', k))); cx.oblige('hasKey tells whether the key is there', s == 'ok' and cx.zb(h) == (N.kind == 'map' and N.fields['key'].kind != 'undef')); cx.cover('end')
    cx.explore('safeGet', run)
    return cx
@model('std::basic_ofstream::basic_ofstream')
def _(cx, c): return Rec(c.node['t'], {})
@model('std::basic_ofstream::is_open')
def _(cx, c): b = cx.fresh_bool('the file opens'); cx.ghost['opened'] = b; return b
@model('std::basic_ofstream::close')
def _(cx, c): return None
ASSUMPTIONS = ['yaml-cpp nodes are shared handles: a text assigned to a key is read back unchanged, in memory and through a file (the driver exercises the library)', 'fromHexString inverts hexString and reports malformed text (I01)', 'generated identifiers are valid (I03)']
TECHNIQUE = "contract-based deductive verification (extracted C++, symbolic execution, z3; yaml-cpp by an assumed contract)"
LEVEL_NOTE = "equality, accessors, constructors, copies, writing and reading proved for all identifiers, texts and documents; the document library is assumed"
def tasks(env): return [Task('equality', t_equal), Task('access', t_access), Task('round trip', t_round), Task('reading', t_read)]
