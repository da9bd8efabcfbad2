"""Verification condition generator: path-wise symbolic execution of the typed clang AST that cxxast
extracts from /repo.  Calls with a contract are replaced by it, /repo helpers without one are inlined
from their extracted bodies, loops with a symbolic condition are cut by an invariant."""
import json, re, time, sys
from fractions import Fraction
import z3

sys.setrecursionlimit(20000)
z3.set_param('auto_config', True)


class Abort(Exception):
    """CHECK / LOG(FATAL): the program refuses and terminates."""
    def __init__(s, line, what=''): s.line, s.what = line, what
class Throw(Exception):
    def __init__(s, what, line=0): s.what, s.line = what, line
class PathEnd(Exception): pass
class Unsupported(Exception): pass
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class ReturnEx(Exception):
    def __init__(s, v): s.v = v


class Rec:
    __slots__ = ('t', 'f')
    def __init__(s, t, f=None): s.t, s.f = t, f if f is not None else {}
    def copy(s): return Rec(s.t, {k: vcopy(v) for k, v in s.f.items()})
    def __repr__(s): return 'Rec(%s,%s)' % (s.t, s.f)
class Arr:
    """fixed length array, items are values"""
    __slots__ = ('et', 'items')
    def __init__(s, et, items): s.et, s.items = et, items
    def copy(s): return Arr(s.et, [vcopy(v) for v in s.items])
    def __repr__(s): return 'Arr(%s)' % (s.items,)
class Vec:
    """dynamic sequence: len and z3 array (or python list when len is concrete)"""
    __slots__ = ('et', 'n', 'arr', 'items')
    def __init__(s, et, n=None, arr=None, items=None):
        s.et, s.n, s.arr, s.items = et, n, arr, items
        if items is not None: s.n = len(items)
    def copy(s): return Vec(s.et, s.n, s.arr, [vcopy(v) for v in s.items] if s.items is not None else None)
    def __repr__(s): return 'Vec(%s,%s)' % (s.n, s.items if s.items is not None else s.arr)
class MapV:
    """std::map / std::unordered_map / set: domain array, value array, cardinality"""
    __slots__ = ('kt', 'vt', 'dom', 'val', 'n', 'ordered')
    def __init__(s, kt, vt, dom, val, n): s.kt, s.vt, s.dom, s.val, s.n = kt, vt, dom, val, n
    def copy(s): return MapV(s.kt, s.vt, s.dom, s.val, s.n)
class Union_:
    __slots__ = ('t', 'bytes')
    def __init__(s, t, b): s.t, s.bytes = t, b
    def copy(s): return Union_(s.t, list(s.bytes))
class Undef:
    def __init__(s, t): s.t = t
    def __repr__(s): return 'Undef'
class Obj:
    """opaque python-side object (closures, library handles); copied by reference unless it has copy()"""
    pass
class Closure(Obj):
    def __init__(s, f, env, this, byval): s.f, s.env, s.this, s.byval = f, env, this, byval
class Ref:
    __slots__ = ('cell', 'path')
    def __init__(s, cell, path=()): s.cell, s.path = cell, tuple(path)
    def fld(s, n): return Ref(s.cell, s.path + (('f', n),))
    def at(s, i): return Ref(s.cell, s.path + (('i', i),))
    def __repr__(s): return 'Ref(%s%s)' % (s.cell, ''.join('.%s' % (p[1],) for p in s.path))
class Ptr:
    """pointer / iterator / smart pointer: ref is None for null"""
    __slots__ = ('ref', 'meta')
    def __init__(s, ref, meta=None): s.ref, s.meta = ref, meta
    def __repr__(s): return 'Ptr(%r)' % (s.ref,)
NULL = Ptr(None)

def vcopy(v):
    if isinstance(v, (Rec, Arr, Vec, MapV, Union_)): return v.copy()
    if isinstance(v, Obj) and hasattr(v, 'copy'): return v.copy()
    return v

def isz(v): return isinstance(v, z3.ExprRef)

def strip_targs(n):
    out, d = [], 0
    i = 0
    while i < len(n):
        c = n[i]
        if n.startswith('operator<', i) or n.startswith('operator>', i) or n.startswith('operator-', i):
            m = re.match(r'operator(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|-=|--|-|<|>)', n[i:])
            if m:
                if d == 0: out.append(m.group(0))
                i += len(m.group(0)); continue
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out.append(c)
        i += 1
    return ''.join(out)


class Prog:
    def __init__(s, path):
        d = json.load(open(path))
        s.types, s.funcs, s.vars = d['types'], d['funcs'], d['vars']
        s.bodies = {int(k): v for k, v in d['bodies'].items()}
        s.records = {int(k): v for k, v in d['records'].items()}
        for f in s.funcs: f['q'] = strip_targs(f['n']).replace('std::__cxx11::', 'std::').replace('std::__1::', 'std::')
        for t in s.types:
            if t.get('k') == 'rec': t['q'] = strip_targs(t['n']).replace('std::__cxx11::', 'std::')
        s.byname = {}
        for i, f in enumerate(s.funcs):
            s.byname.setdefault(f['q'], []).append(i)
    def find(s, q, pred=None):
        c = [i for i in s.byname.get(q, []) if i in s.bodies]
        if pred: c = [i for i in c if pred(s, s.funcs[i])]
        return c
    def tname(s, t):
        T = s.types[t]; k = T['k']
        if k == 'int': return ('i' if T['s'] else 'u') + str(T['w'])
        if k == 'fp': return 'f%d' % T['w']
        if k in ('bool', 'void', 'nullptr'): return k
        if k == 'enum': return T['n']
        if k == 'ptr': return s.tname(T['e']) + '*'
        if k == 'ref': return s.tname(T['e']) + '&'
        if k == 'arr': return '%s[%d]' % (s.tname(T['e']), T['n'])
        if k == 'vec': return 'vec%d' % T['n']
        if k == 'rec':
            a = T.get('a')
            if a: return T['q'] + '<' + ','.join(s.tname(x['t']) if 't' in x else x.get('i', '?') for x in a) + '>'
            return T['q']
        return T.get('n', k)
    def targ(s, t, i):
        return s.types[t]['a'][i]


class Result:
    def __init__(s):
        s.obl = {}       # name -> dict(total, ok, fails=[...], unknown=[...])
        s.paths = 0; s.solver_s = 0.0; s.queries = 0; s.backends = {}
        s.functions = set(); s.models = set(); s.assumed = set(); s.unsupported = []
    def add(s, name, st, info=None):
        o = s.obl.setdefault(name, dict(total=0, ok=0, fails=[], unknown=[]))
        o['total'] += 1
        if st == 'ok': o['ok'] += 1
        elif st == 'fail': o['fails'].append(info)
        else: o['unknown'].append(info)
    def failed(s): return [n for n, o in s.obl.items() if o['fails']]
    def unknown(s): return [n for n, o in s.obl.items() if o['unknown']]


MODELS = {}          # qualified name -> fn(cx, call)
TYPE_DEFAULT = {}    # record qualified name -> fn(cx, tid) default value
PATTERNS = []        # (regex, fn)

def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d
def model_re(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f)); return f
    return d
def default_of(*names):
    def d(f):
        for n in names: TYPE_DEFAULT[n] = f
        return f
    return d


class Call:
    """what a model sees: f (function entry), obj (Ref or None), args (values/Refs), node"""
    def __init__(s, f, obj, args, node): s.f, s.obj, s.args, s.node = f, obj, args, node


class LoopSpec:
    """inv(cx, L) -> [(name, formula)].  infinite: applies to while(true)."""
    def __init__(s, inv, infinite=False, fn=None, post_havoc=None, name='loop', depth=None):
        s.depth = depth      # nesting depth this loop has; None: any
        s.inv, s.infinite, s.fn, s.post_havoc, s.name = inv, infinite, fn, post_havoc, name


class LoopView:
    def __init__(s, cx, entry, idx=None, frame=None, extra=None):
        s.cx, s.entry_store, s._idx, s.frame, s.extra = cx, entry, idx, frame, dict(extra or {})
    def _ref(s, name, typ=None):
        cands = [(vid, r) for vid, r in s.frame.vars.items() if s.cx.prog.vars[vid]['n'] == name]
        if not cands:
            # a renamed local: accept a unique variable of the wanted type that no other role names
            alt = s.extra.get('roles', {}).get(name)
            if alt: return alt(s)
            for f in reversed(s.cx.frames[:-1]):
                up = [r for vid, r in f.vars.items() if s.cx.prog.vars[vid]['n'] == name]
                if up: return up[-1]
            ctr = s.counters()      # a renamed or replaced loop counter
            if len(ctr) == 1 and ctr[0] is not None: return ctr[0]
            raise Unsupported('invariant does not bind: no variable %s' % name)
        return cands[-1][1]
    def counters(s):
        n = s.extra.get('node') or {}
        if s._idx is not None: return [s._idx]
        d = n.get('i') if n.get('k') == 'for' else None
        vs = [v['v'] for v in d.get('d', d.get('v', [])) if isinstance(v, dict) and 'v' in v] if isinstance(d, dict) and d.get('k') == 'decl' else []
        return [s.frame.vars.get(v) for v in vs]
    @property
    def idx(s):
        if s._idx is None:
            c = s.counters()
            if len(c) == 1: return c[0]
        return s._idx
    def __getitem__(s, name): return s.cx.read(s._ref(name))
    def pos(s, name):
        """the loop position: the counter of that name, else the only counter of the loop; an index or an iterator"""
        if not s.has(name):
            c = s.counters()
            if len(c) == 1 and c[0] is not None: v = s.cx.read(c[0])
            else: v = s[name]
        else: v = s[name]
        return s.cx.ix(v.ref.path[-1][1] if isinstance(v, Ptr) else v)
    def ref(s, name): return s._ref(name)
    def has(s, name): return any(s.cx.prog.vars[v]['n'] == name for v in s.frame.vars)
    def entry(s, name): return s.cx.read(s._ref(name), s.entry_store)
    def at_entry(s, ref): return s.cx.read(ref, s.entry_store)


class Frame:
    def __init__(s, fid, label):
        s.fid, s.label, s.vars, s.this, s.scopes, s.temps, s.parent = fid, label, {}, None, [[]], [], None


class Ctx:
    def __init__(s, prog, mode='int', contracts=None, loops=None, timeout_ms=15000, opts=None):
        s.prog, s.mode = prog, mode
        s.contracts = contracts or {}
        s.loopspecs = loops or []
        s.res = Result()
        s.timeout = timeout_ms
        s.opts = dict(unroll=700, signed_overflow=False, feas_ms=1500, max_paths=4000, inline_std=False, max_s=400)
        if opts: s.opts.update(opts)
        s.modsets = {}
        s.sorts = {}
        s.globals_init = {}
        s.hooks = {}
        s.name = ''
        s._ufs = {}

    # ------------------------------------------------------------------ path machinery
    def explore(s, name, run):
        """run(cx) executes one path in direct style; re-executed once per feasible path"""
        s.name = name
        t0 = time.time()
        keep = s.res
        while True:   # modset fixpoint
            s.res = Result()
            changed = s._explore_once(run, t0)
            if not changed: break
        r, s.res = s.res, keep
        keep.paths += r.paths; keep.solver_s += r.solver_s; keep.queries += r.queries
        for k, v in r.backends.items(): keep.backends[k] = keep.backends.get(k, 0) + v
        keep.functions |= r.functions; keep.models |= r.models; keep.assumed |= r.assumed
        keep.unsupported += r.unsupported
        for n, o in r.obl.items():
            k = keep.obl.setdefault(name + ' :: ' + n, dict(total=0, ok=0, fails=[], unknown=[]))
            k['total'] += o['total']; k['ok'] += o['ok']; k['fails'] += o['fails']; k['unknown'] += o['unknown']
        return keep

    def _explore_once(s, run, t0):
        s.mod_changed = False
        prefix = []
        while True:
            s.prefix, s.dec, s.fresh_n, s.cell_n = prefix, [], 0, 0
            s.pc, s.store, s.births, s.frames, s.loopstack = [], {}, {}, [], []
            s.loop_seen = []
            s.ghost = {}
            s.cur_line = 0
            s.solver = z3.Solver(); s.solver.set('timeout', s.opts['feas_ms'])
            s.solver_pcs = 0
            s.statics = {}; s.widths = {}; s.access = None; s.monitor = None
            try:
                run(s)
            except PathEnd: pass
            except Unsupported as e:
                if not s.mod_changed: s.res.unsupported.append('%s (line %s)' % (e, s.cur_line))
            except (Abort, Throw) as e:
                s.res.add('no uncaught refusal/exception', 'fail', dict(line=getattr(e, 'line', 0), what=str(getattr(e, 'what', ''))))
            s.res.paths += 1
            if s.mod_changed and s.opts.get('fast_fix', True) and False: return True
            # backtrack
            d = s.dec
            while d and not d[-1][1]: d.pop()
            if not d: break
            v = d.pop()
            alt = v[1]
            prefix = [(x[0], x[1]) for x in d] + [(alt[0], alt[1:])]
            if sum(len(o['fails']) for o in s.res.obl.values()) > 25 and not s.mod_changed: break
            if s.res.paths > s.opts['max_paths']:
                s.res.unsupported.append('path limit'); break
            if time.time() - t0 > s.opts['max_s']:
                s.res.unsupported.append('time limit'); break
        return s.mod_changed

    @property
    def live(s): return len(s.dec) >= len(s.prefix)

    def _decide(s, options):
        """options: list of values still possible; returns chosen"""
        k = len(s.dec)
        if k < len(s.prefix):
            s.dec.append(s.prefix[k]); return s.prefix[k][0]
        opts = options()
        if not opts: raise PathEnd()
        s.dec.append((opts[0], tuple(opts[1:])))
        return opts[0]

    def choose(s, n):
        return s._decide(lambda: list(range(n)))
    def hint(s, fn):
        """cache a solver answer in the decision list"""
        return s._decide(lambda: [fn()])

    def _sync(s):
        while s.solver_pcs < len(s.pc):
            s.solver.add(s.pc[s.solver_pcs]); s.solver_pcs += 1
    def sat(s, *extra, ms=None):
        s._sync()
        t = time.time()
        s.solver.push()
        for e in extra: s.solver.add(e)
        if ms: s.solver.set('timeout', ms)
        r = s.solver.check()
        if ms: s.solver.set('timeout', s.opts['feas_ms'])
        s.solver.pop()
        s.res.solver_s += time.time() - t; s.res.queries += 1
        return r
    def valid(s, f):
        f = s.b(f)
        if isinstance(f, bool): return f
        return s.sat(z3.Not(f)) == z3.unsat

    def b(s, c):
        """normalise a condition to python bool or z3 Bool"""
        if isinstance(c, bool): return c
        if isinstance(c, (int, Fraction)): return c != 0
        if isinstance(c, Ptr): return c.ref is not None
        if isinstance(c, Undef): s.undef_use(c); return s.fresh_bool()
        if z3.is_bool(c):
            c = z3.simplify(c)
            if z3.is_true(c): return True
            if z3.is_false(c): return False
            return c
        if z3.is_bv(c): return s.b(c != 0)
        if z3.is_arith(c): return s.b(c != 0)
        raise Unsupported('condition %r' % (c,))

    def branch(s, c):
        c = s.b(c)
        if isinstance(c, bool): return c
        def opts():
            o = []
            rt = s.sat(c)
            if rt != z3.unsat: o.append(True)
            if rt == z3.unsat or s.sat(z3.Not(c)) != z3.unsat: o.append(False)
            return o
        v = s._decide(opts)
        s.assume(c if v else z3.Not(c))
        return v
    def assume(s, f):
        f = s.b(f)
        if f is True: return
        if f is False: raise PathEnd()
        s.pc.append(f)
    def oblige(s, name, f, info=None):
        if s.live:
            ok = s.b(f)
            if ok is True: s.res.add(name, 'ok')
            else: s._check(name, z3.BoolVal(False) if ok is False else ok, info)
        s.assume_soft(f)
    def assume_soft(s, f):
        f = s.b(f)
        if f is True: return
        if f is False: raise PathEnd()
        s.pc.append(f)

    def _check(s, name, f, info):
        if s.mod_changed: return      # this round only collects what loops modify; it is repeated
        t = time.time()
        st, mdl, be = discharge(s.pc, f, s.timeout)
        s.res.solver_s += time.time() - t; s.res.queries += 1
        s.res.backends[be] = s.res.backends.get(be, 0) + 1
        d = dict(line=s.cur_line, fn=s.frames[-1].label if s.frames else '', info=info)
        if st == 'ok': s.res.add(name, 'ok')
        elif st == 'fail':
            d['model'] = str(mdl)[:3000]; d['witness'] = s.witness(mdl)
            s.res.add(name, 'fail', d)
        else: s.res.add(name, 'unknown', d)

    def witness(s, mdl):
        w = {}
        for k, t in s.ghost.get('inputs', {}).items():
            try: w[k] = str(mdl.eval(t, model_completion=True)) if isz(t) else str(t)
            except Exception: pass
        return w
    def input(s, name, term):
        s.ghost.setdefault('inputs', {})[name] = term
        return term
    def cover(s, name):
        """vacuity guard: this point must be reachable"""
        if s.live and not s.mod_changed:
            o = s.res.obl.get('reach: ' + name)
            if o and o['ok']: return
            r = s.sat(ms=max(1000, s.opts['feas_ms'] * 3))
            if o: del s.res.obl['reach: ' + name]
            s.res.add('reach: ' + name, 'ok' if r != z3.unsat else 'unknown')

    # ------------------------------------------------------------------ types & sorts
    def T(s, t): return s.prog.types[t]
    def rng(s, T):
        w, sg = T['w'], T['s']
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    def sizeof(s, t):
        T = s.T(t); k = T['k']
        if k in ('int', 'fp', 'enum'): return T['w'] // 8
        if k == 'bool': return 1
        if k == 'ptr': return 8
        if k == 'arr': return T['n'] * s.sizeof(T['e'])
        if k == 'rec' and T['rid'] in s.prog.records:
            R = s.prog.records[T['rid']]
            if R['union']: return max(s.sizeof(f['t']) for f in R['fields'])
            return sum(s.sizeof(f['t']) for f in R['fields'])
        raise Unsupported('sizeof %s' % s.prog.tname(t))
    def sort(s, t):
        T = s.T(t); k = T['k']
        if k in ('int', 'enum'): return z3.IntSort() if s.mode == 'int' else z3.BitVecSort(T['w'])
        if k == 'bool': return z3.BoolSort()
        if k == 'fp': return z3.RealSort()
        if k == 'ptr': return z3.IntSort()
        if k == 'vec': return z3.BitVecSort(128)
        nm = s.prog.tname(t)
        if nm in s.sorts: return s.sorts[nm][0]
        if k == 'arr':
            so = z3.ArraySort(s.isort(), s.sort(T['e'])); s.sorts[nm] = (so,); return so
        if k == 'rec':
            q = T['q']
            if s.opaque(q):
                so = z3.DeclareSort(nm); s.sorts[nm] = (so,); return so
            if q in SEQ_TYPES:
                et = s.elem(t)
                D = z3.Datatype(nm); D.declare('mk', ('len', s.isort()), ('arr', z3.ArraySort(s.isort(), s.sort(et))))
                so = D.create(); s.sorts[nm] = (so, 'seq', et); return so
            if q in MAP_TYPES:
                kt, vt = s.map_types(t)
                D = z3.Datatype(nm); D.declare('mk', ('dom', z3.ArraySort(s.sort(kt), z3.BoolSort())), ('val', z3.ArraySort(s.sort(kt), s.sort(vt))), ('n', s.isort()))
                so = D.create(); s.sorts[nm] = (so,); return so
            if q in SMART_TYPES: return z3.IntSort()
            if q == 'std::pair':
                a = [x['t'] for x in T['a']]
                D = z3.Datatype(nm); D.declare('mk', ('first', s.sort(a[0])), ('second', s.sort(a[1])))
                so = D.create(); s.sorts[nm] = (so,); return so
            fs = s.fields(t)
            if fs is not None:
                D = z3.Datatype(nm); D.declare('mk', *[('f_' + n, s.sort(ft)) for n, ft in fs])
                so = D.create(); s.sorts[nm] = (so,); return so
        if q_extra_sort := EXTRA_SORTS.get(T.get('q')): return q_extra_sort(s, t)
        raise Unsupported('sort of %s' % nm)
    opaques = ()
    def opaque(s, q): return q.startswith('vu::Opaque') or q in s.opaques
    def isort(s): return z3.IntSort() if s.mode == 'int' else z3.BitVecSort(64)
    def fields(s, t):
        """flattened (bases first) list of (name, type) of a /repo record; None if unknown"""
        T = s.T(t)
        if T['k'] != 'rec' : return None
        if T['q'] == 'std::pair':
            return [('first', T['a'][0]['t']), ('second', T['a'][1]['t'])]
        R = s.prog.records.get(T['rid'])
        if R is None:
            # const-qualified twin
            for tid, RR in s.prog.records.items():
                if s.prog.types[tid].get('q') == T['q'] and s.prog.tname(tid) == s.prog.tname(t): R = RR; break
        if R is None: return None
        out = []
        for bt in R['bases']:
            fb = s.fields(bt)
            if fb: out += fb
        for f in R['fields']: out.append((f['n'], f['t']))
        return out
    def record(s, t):
        T = s.T(t)
        R = s.prog.records.get(T['rid'])
        if R is None:
            for tid, RR in s.prog.records.items():
                if s.prog.types[tid].get('q') == T['q'] and s.prog.tname(tid) == s.prog.tname(t): return RR
        return R
    def elem(s, t):
        T = s.T(t)
        return s.elem_of_args(T)
    def elem_of_args(s, T):
        return T['a'][0]['t']
    def map_types(s, t):
        T = s.T(t)
        if T['q'] in ('std::set', 'std::unordered_set'): return T['a'][0]['t'], s.bool_t()
        return T['a'][0]['t'], T['a'][1]['t']
    def bool_t(s):
        for i, T in enumerate(s.prog.types):
            if T['k'] == 'bool': return i
        s.prog.types.append({'k': 'bool'}); return len(s.prog.types) - 1
    def type_named(s, nm):
        for i in range(len(s.prog.types)):
            if s.prog.tname(i) == nm: return i
        raise Unsupported('type %s not in unit' % nm)

    # ------------------------------------------------------------------ fresh values
    def fresh(s, base, sort):
        s.fresh_n += 1
        return z3.Const('%s!%d' % (base, s.fresh_n), sort)
    def fresh_bool(s, base='b'): return s.fresh(base, z3.BoolSort())
    def fresh_int(s, base='i', lo=None, hi=None):
        v = s.fresh(base, s.isort())
        if s.mode == 'int':
            if lo is not None: s.assume(v >= lo)
            if hi is not None: s.assume(v <= hi)
        return v
    def sym(s, base, t):
        """fresh symbolic value of C++ type t with its type invariant assumed"""
        T = s.T(t); k = T['k']
        if k in ('int', 'enum'):
            v = s.fresh(base, s.sort(t))
            if s.mode == 'int': lo, hi = s.rng(T); s.assume(z3.And(v >= lo, v <= hi))
            return v
        if k == 'bool': return s.fresh(base, z3.BoolSort())
        if k == 'fp': return s.fresh(base, z3.RealSort())
        if k == 'arr': return Arr(T['e'], [s.sym('%s[%d]' % (base, i), T['e']) for i in range(T['n'])])
        if k == 'vec': return s.fresh(base, z3.BitVecSort(128))
        if k == 'rec':
            q = T['q']
            if q in SYM_TYPES: return SYM_TYPES[q](s, base, t)
            if q in SEQ_TYPES:
                et = s.elem(t); n = s.fresh(base + '.len', s.isort())
                s.assume_len(n)
                return Vec(et, n, s.fresh(base + '.arr', z3.ArraySort(s.isort(), s.sort(et))))
            if q in MAP_TYPES:
                kt, vt = s.map_types(t)
                n = s.fresh(base + '.n', s.isort()); s.assume_len(n)
                return MapV(kt, vt, s.fresh(base + '.dom', z3.ArraySort(s.sort(kt), z3.BoolSort())), s.fresh(base + '.val', z3.ArraySort(s.sort(kt), s.sort(vt))), n)
            if s.opaque(q): return s.fresh(base, s.sort(t))
            R = s.record(t)
            if R and R['union']: return Union_(t, [s.fresh('%s.b%d' % (base, i), z3.BitVecSort(8)) for i in range(s.sizeof(t))])
            fs = s.fields(t)
            if fs is not None: return Rec(t, {n: s.sym(base + '.' + n, ft) for n, ft in fs})
        raise Unsupported('symbolic value of %s' % s.prog.tname(t))
    def assume_len(s, n):
        if s.mode == 'int': s.assume(z3.And(n >= 0, n < (1 << 60)))
        else: s.assume(z3.ULT(n, z3.BitVecVal(1 << 60, 64)))
    def default(s, t, zero=False):
        """value of a default-initialised (zero: value-initialised) object"""
        T = s.T(t); k = T['k']
        if k in ('int', 'enum'): return 0 if zero else Undef(t)
        if k == 'bool': return False if zero else Undef(t)
        if k == 'fp': return Fraction(0) if zero else Undef(t)
        if k == 'ptr' or k == 'nullptr': return NULL if zero else Undef(t)
        if k == 'arr': return Arr(T['e'], [s.default(T['e'], zero) for _ in range(T['n'])])
        if k == 'vec': return z3.BitVecVal(0, 128) if zero else Undef(t)
        if k == 'rec':
            q = T['q']
            if q in s.opaques: return s.uf('new ' + q, z3.IntSort(), s.sort(t))(0)
            if q in TYPE_DEFAULT: return TYPE_DEFAULT[q](s, t)
            if q in SEQ_TYPES: return Vec(s.elem(t), items=[])
            if q in MAP_TYPES:
                kt, vt = s.map_types(t)
                return MapV(kt, vt, z3.K(s.sort(kt), z3.BoolVal(False)), None, 0)
            if q in SMART_TYPES: return NULL
            R = s.record(t)
            if R and R['union']: return Union_(t, [0 if zero else Undef(None) for i in range(s.sizeof(t))])
            fs = s.fields(t)
            if fs is not None: return Rec(t, {n: s.default(ft, zero) for n, ft in fs})
        raise Unsupported('default value of %s' % s.prog.tname(t))

    # ------------------------------------------------------------------ pack/unpack (values <-> z3 terms)
    def pack(s, v, t):
        T = s.T(t); k = T['k']
        if isinstance(v, Undef): return s.fresh('undef', s.sort(t))
        if k in ('int', 'enum'): return s.zi(v, T)
        if k == 'bool': return z3.BoolVal(v) if isinstance(v, bool) else s.zb(v)
        if k == 'fp': return s.zr(v)
        if k == 'ptr' or (k == 'rec' and T['q'] in SMART_TYPES): return s.ptr_handle(v)
        if isz(v): return v
        so = s.sort(t)
        if isinstance(v, bool) and so == z3.BoolSort(): return z3.BoolVal(v)
        if k == 'arr':
            a = s.fresh('arr', so)
            for i, x in enumerate(v.items): a = z3.Store(a, s.ix(i), s.pack(x, T['e']))
            return a
        if isinstance(v, Vec): return so.mk(s.ix(v.n), s.vec_arr(v))
        if isinstance(v, MapV): return so.mk(v.dom, s.map_val(v), s.ix(v.n))
        if isinstance(v, Rec):
            if T['q'] == 'std::pair': return so.mk(s.pack(v.f['first'], T['a'][0]['t']), s.pack(v.f['second'], T['a'][1]['t']))
            return so.mk(*[s.pack(v.f[n], ft) for n, ft in s.fields(t)])
        if hasattr(v, 'pack'): return v.pack(s, t)
        raise Unsupported('pack %r' % (v,))
    def unpack(s, z, t):
        T = s.T(t); k = T['k']
        if k in ('int', 'enum'):
            if s.mode == 'int' and not z3.is_int_value(z):
                lo, hi = s.rng(T); s.assume(z3.And(z >= lo, z <= hi))
            return s.norm(z)
        if k in ('bool', 'fp', 'vec'): return s.norm(z)
        if k == 'ptr' or (k == 'rec' and T['q'] in SMART_TYPES): return s.handle_ptr(z, t)
        if k == 'rec':
            q = T['q']
            so = s.sort(t)
            if s.opaque(q): return z
            if q in SEQ_TYPES:
                n = z3.simplify(so.len(z)); s.assume_len(n)
                return Vec(s.elem(t), s.norm(n), z3.simplify(so.arr(z)))
            if q in MAP_TYPES:
                kt, vt = s.map_types(t); n = z3.simplify(so.n(z)); s.assume_len(n)
                return MapV(kt, vt, z3.simplify(so.dom(z)), z3.simplify(so.val(z)), s.norm(n))
            if q == 'std::pair': return Rec(t, {'first': s.unpack(z3.simplify(so.first(z)), T['a'][0]['t']), 'second': s.unpack(z3.simplify(so.second(z)), T['a'][1]['t'])})
            if q in EXTRA_UNPACK: return EXTRA_UNPACK[q](s, z, t)
            fs = s.fields(t)
            return Rec(t, {n: s.unpack(z3.simplify(getattr(so, 'f_' + n)(z)), ft) for n, ft in fs})
        raise Unsupported('unpack %s' % s.prog.tname(t))
    def norm(s, z):
        z = z3.simplify(z)
        if z3.is_int_value(z): return z.as_long()
        if z3.is_bv_value(z): return z.as_long() if False else z
        if z3.is_true(z): return True
        if z3.is_false(z): return False
        if z3.is_rational_value(z): return Fraction(z.numerator_as_long(), z.denominator_as_long())
        return z
    def ptr_handle(s, v):
        if v is None or (isinstance(v, Ptr) and v.ref is None): return z3.IntVal(0)
        if isinstance(v, Ptr):
            if v.meta is not None and isz(v.meta): return v.meta
            h = s.hooks.get('ptr_handle'); r = h(s, v) if h else None
            if r is not None: return r
            tbl = s.ghost.setdefault('handles', {})
            key = repr(v.ref)
            if key not in tbl:
                tbl[key] = (len(tbl) + 1, v)
            return z3.IntVal(tbl[key][0])
        raise Unsupported('pointer handle of %r' % (v,))
    def handle_ptr(s, z, t):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            k = z.as_long()
            if k == 0: return NULL
            for kk, (i, v) in s.ghost.get('handles', {}).items():
                if i == k: return v
        h = s.hooks.get('handle_ptr')
        if h: return h(s, z, t)
        raise Unsupported('symbolic pointer loaded from memory')

    # numeric coercions
    def zi(s, v, T):
        if isinstance(v, Undef): s.undef_use(v); return s.fresh('undef', z3.IntSort() if s.mode == 'int' else z3.BitVecSort(T['w']))
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int): return z3.IntVal(v) if s.mode == 'int' else z3.BitVecVal(v, T['w'])
        return v
    def zb(s, v):
        v = s.b(v)
        return z3.BoolVal(v) if isinstance(v, bool) else v
    def zr(s, v):
        if isinstance(v, Undef): s.undef_use(v); return s.fresh('undef', z3.RealSort())
        if isinstance(v, (int, Fraction)): return z3.RealVal(str(Fraction(v)))
        return v
    def ix(s, v):
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int): return z3.IntVal(v) if s.mode == 'int' else z3.BitVecVal(v, 64)
        if s.mode == 'bv' and z3.is_bv(v) and v.size() < 64: return z3.ZeroExt(64 - v.size(), v)
        return v
    def undef_use(s, v):
        s.oblige('no use of an uninitialised value', False)

    # vectors
    def vec_arr(s, v):
        if v.items is not None:
            a = z3.K(s.isort(), s.default_term(v.et)) if not v.items else s.fresh('lit', z3.ArraySort(s.isort(), s.sort(v.et)))
            for i, x in enumerate(v.items): a = z3.Store(a, s.ix(i), s.pack(x, v.et))
            return a
        return v.arr
    def default_term(s, t): return s.fresh('dflt', s.sort(t))
    def map_val(s, m):
        if m.val is None: m.val = s.fresh('mval', z3.ArraySort(s.sort(m.kt), s.sort(m.vt)))
        return m.val
    def vec_sym(s, v):
        """make the vector use a z3 array"""
        if v.items is not None:
            a = s.vec_arr(v); v.arr = a; v.items = None
        return v
    def conc(s, v):
        """concrete python int if v is one"""
        if isinstance(v, bool): return int(v)
        if isinstance(v, int): return v
        if isz(v):
            z = z3.simplify(v)
            if z3.is_int_value(z): return z.as_long()
            if z3.is_bv_value(z): return z.as_long()
        return None
    def vec_get(s, v, i):
        c = s.conc(i)
        if isinstance(v, Arr) or v.items is not None:
            items = v.items
            if c is not None:
                if 0 <= c < len(items): return items[c]
                s.oblige('memory access in bounds', False); raise PathEnd()
            if not items: s.oblige('memory access in bounds', False); raise PathEnd()
            # symbolic index into a literal: ite chain
            et = v.et; r = s.pack(items[-1], et)
            iz = s.ix(i)
            for k in range(len(items) - 2, -1, -1): r = z3.If(iz == s.ix(k), s.pack(items[k], et), r)
            return s.unpack(r, et)
        return s.unpack(z3.Select(v.arr, s.ix(i)), v.et)
    def vec_set(s, v, i, x):
        c = s.conc(i)
        if isinstance(v, Arr) or v.items is not None:
            if c is not None:
                if 0 <= c < len(v.items): v.items[c] = x; return
                s.oblige('memory access in bounds', False); raise PathEnd()
            if isinstance(v, Arr):
                iz = s.ix(i)
                v.items = [s.unpack(z3.If(iz == s.ix(k), s.pack(x, v.et), s.pack(o, v.et)), v.et) for k, o in enumerate(v.items)]
                return
            s.vec_sym(v)
        v.arr = z3.Store(v.arr, s.ix(i), s.pack(x, v.et))
    def in_bounds(s, i, n, what='index'):
        i_, n_ = s.conc(i), s.conc(n)
        if i_ is not None and n_ is not None: f = 0 <= i_ < n_
        elif s.mode == 'int': f = z3.And(s.ix(i) >= 0, s.ix(i) < s.ix(n))
        else: f = z3.ULT(s.ix(i), s.ix(n))
        s.oblige('memory access in bounds', f, what)

    # ------------------------------------------------------------------ store
    def new_cell(s, label, v):
        s.cell_n += 1
        c = '%s#%d' % (label, s.cell_n)
        s.store[c] = v; s.births[c] = s.cell_n
        return Ref(c)
    access = None
    monitor = None
    widths = {}
    def fields_of(s, ref):
        return dict(s.fields(s.read(ref).t))
    def zbv(s, v):
        return s.b(v)
    def read(s, r, store=None):
        if not isinstance(r, Ref): return r
        if s.access is not None and store is None: s.access(r, 'r')
        st = store if store is not None else s.store
        if r.cell not in st: raise Unsupported('dangling reference %s' % r.cell)
        v = st[r.cell]
        for p in r.path:
            if isinstance(v, Rec):
                if p[0] != 'f': 
                    if p[0] == 'i' and s.conc(p[1]) == 0: continue
                    raise Unsupported('index into record')
                if p[1] not in v.f: raise Unsupported('no field %s' % p[1])
                v = v.f[p[1]]
            elif isinstance(v, Union_):
                v = s.union_get(v, p[1])
            elif isinstance(v, (Arr, Vec)):
                if p[0] != 'i': raise Unsupported('field %s of array' % (p[1],))
                v = s.vec_get(v, p[1])
            elif hasattr(v, 'get_path'):
                v = v.get_path(s, p)
            elif isinstance(v, MapV) and p[0] == 'k':
                v = s.unpack(z3.Select(s.map_val(v), p[1]), v.vt)
            elif p[0] == 'i' and s.conc(p[1]) == 0: pass      # &scalar + 0
            elif isz(v) and p[0] == 'f': raise Unsupported('field of opaque value')
            else: raise Unsupported('path %s into %r' % (p, type(v)))
        return v
    def write(s, r, val):
        s.note_write(r)
        if not r.path: s.store[r.cell] = val; return
        s.store[r.cell] = s._upd(s.store[r.cell], r.path, val)
    def _upd(s, v, path, val):
        if not path: return val
        p = path[0]
        if isinstance(v, Rec):
            if p[0] == 'i' and s.conc(p[1]) == 0: return s._upd(v, path[1:], val)
            if p[1] not in v.f: raise Unsupported('no field %s' % (p[1],))
            v.f[p[1]] = s._upd(v.f[p[1]], path[1:], val); return v
        if isinstance(v, Union_):
            sub = s.union_get(v, p[1]); sub = s._upd(sub, path[1:], val); s.union_set(v, p[1], sub); return v
        if isinstance(v, (Arr, Vec)):
            if len(path) == 1: s.vec_set(v, p[1], val)
            else: s.vec_set(v, p[1], s._upd(vcopy(s.vec_get(v, p[1])), path[1:], val))
            return v
        if isinstance(v, MapV) and p[0] == 'k':
            sub = val if len(path) == 1 else s._upd(s.unpack(z3.Select(s.map_val(v), p[1]), v.vt), path[1:], val)
            v.val = z3.Store(s.map_val(v), p[1], s.pack(sub, v.vt)); return v
        if hasattr(v, 'set_path'): return v.set_path(s, path, val)
        if p[0] == 'i' and s.conc(p[1]) == 0: return s._upd(v, path[1:], val)
        raise Unsupported('write path %s into %r' % (p, type(v)))
    def mutate(s, r):
        """value at r for in-place mutation (noted as a write)"""
        s.note_write(r)
        if any(p[0] in 'ik' for p in r.path):
            raise Unsupported('in-place mutation below an element')
        return s.read(r)
    def note_write(s, r):
        if s.access is not None: s.access(r, 'w')
        for L in s.loopstack:
            if s.births.get(r.cell, 0) <= L['birth']:
                key = [r.cell]
                for p in r.path:
                    if p[0] != 'f': break
                    key.append(p[1])
                key = tuple(key)
                ms = s.modsets.setdefault(L['key'], set())
                if not any(key[:len(m)] == m for m in ms):
                    for m in [m for m in ms if m[:len(key)] == key]: ms.discard(m)
                    ms.add(key); s.mod_changed = True
    def union_get(s, u, name):
        R = s.record(u.t)
        ft = next(f['t'] for f in R['fields'] if f['n'] == name)
        return s.from_bytes(u.bytes[:s.sizeof(ft)], ft)
    def union_set(s, u, name, v):
        R = s.record(u.t)
        ft = next(f['t'] for f in R['fields'] if f['n'] == name)
        b = s.to_bytes(v, ft); u.bytes[:len(b)] = b
    def from_bytes(s, bs, t):
        T = s.T(t); k = T['k']
        if k in ('int', 'enum'):
            if any(isinstance(x, Undef) for x in bs): return Undef(t)
            if all(isinstance(x, int) for x in bs):
                v = sum(x << (8 * i) for i, x in enumerate(bs))
                if T['s'] and v >> (T['w'] - 1): v -= 1 << T['w']
                return v
            if s.mode != 'bv':
                u = z3.simplify(sum([s.zi_(x) * (1 << (8 * i)) for i, x in enumerate(bs)], z3.IntVal(0)))
                if len(bs) > 1 and not z3.is_int_value(u): w = s.fresh('word', z3.IntSort()); s.assume(w == u); s.ghost.setdefault('words', []).append(w); u = w
                return z3.If(u >= 1 << (T['w'] - 1), u - (1 << T['w']), u) if T['s'] else u
            zs = [z3.BitVecVal(x, 8) if isinstance(x, int) else x for x in bs]
            return z3.simplify(z3.Concat(*reversed(zs))) if len(zs) > 1 else zs[0]
        if k == 'arr':
            w = s.sizeof(T['e'])
            return Arr(T['e'], [s.from_bytes(bs[i * w:(i + 1) * w], T['e']) for i in range(T['n'])])
        if k == 'rec':
            R = s.record(t)
            if R and R['union']: return Union_(t, list(bs))
            o, out = 0, {}
            for n, ft in s.fields(t):
                w = s.sizeof(ft); out[n] = s.from_bytes(bs[o:o + w], ft); o += w
            return Rec(t, out)
        raise Unsupported('from_bytes %s' % s.prog.tname(t))
    def zi_(s, x): return z3.IntVal(x) if isinstance(x, int) else x
    def to_bytes(s, v, t):
        T = s.T(t); k = T['k']
        if isinstance(v, Undef): return [Undef(None)] * s.sizeof(t)
        if k in ('int', 'enum'):
            n = T['w'] // 8
            if isinstance(v, bool): v = int(v)
            if isinstance(v, int): return [(v >> (8 * i)) & 255 for i in range(n)]
            if s.mode != 'bv':
                u = z3.If(v < 0, v + (1 << T['w']), v) if T['s'] else v
                if n == 1: return [u]
                u = z3.simplify(u); key = (u.get_id(), n); bt = s.ghost.setdefault('bytes', {})
                if key not in bt:
                    b = [s.fresh('byte', z3.IntSort()) for _ in range(n)]; bt[key] = (u, b)
                    for x in b: s.assume(z3.And(x >= 0, x < 256))
                    s.assume(u == sum([x * (1 << (8 * i)) for i, x in enumerate(b)], z3.IntVal(0)))
                return list(bt[key][1])
            return [z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(n)]
        if k == 'arr': return sum([s.to_bytes(x, T['e']) for x in v.items], [])
        if isinstance(v, Union_): return list(v.bytes)
        if isinstance(v, Rec): return sum([s.to_bytes(v.f[n], ft) for n, ft in s.fields(t)], [])
        raise Unsupported('to_bytes %s' % s.prog.tname(t))

    # ------------------------------------------------------------------ arithmetic
    def wrap(s, v, T, op='+'):
        """value v (python int or z3 Int) reduced to machine type T, int mode"""
        lo, hi = s.rng(T)
        if isinstance(v, int):
            if lo <= v <= hi: return v
            m = 1 << T['w']; v %= m
            return v - m if v > hi else v
        v = z3.simplify(v)
        if z3.is_int_value(v): return s.wrap(v.as_long(), T)
        if T['s']:
            if op != 'cast':
                if s.opts['signed_overflow']: s.oblige('no signed overflow', z3.And(v >= lo, v <= hi))
                else: s.res.assumed.add('signed integer arithmetic does not overflow'); 
                return v
        if not T['s'] and T['w'] == 64 and op in '+*' and not s.opts.get('exact_u64'):
            s.res.assumed.add('64-bit unsigned sums/products of sizes and counters do not reach 2^64'); return v
        if s.hint(lambda: s.valid(z3.And(v >= lo, v <= hi))): return v
        m = 1 << T['w']
        if op == 'cast' and not T['s'] and s.hint(lambda: s.valid(z3.And(v >= -m, v <= hi))): return z3.If(v < 0, v + m, v)
        r = v % m
        if T['s']: r = z3.If(r > hi, r - m, r)
        return r
    def arith(s, op, a, b, t):
        T = s.T(t); k = T['k']
        if isinstance(a, Undef): s.undef_use(a)
        if isinstance(b, Undef): s.undef_use(b)
        if k == 'fp': return s.farith(op, a, b)
        if k == 'bool': T = {'k': 'int', 'w': 32, 's': 1}
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if z3.is_bool(a) if isz(a) else False: a = z3.If(a, s.zi(1, T), s.zi(0, T))
        if z3.is_bool(b) if isz(b) else False: b = z3.If(b, s.zi(1, T), s.zi(0, T))
        if isinstance(a, int) and isinstance(b, int):
            if op in '/%':
                if b == 0: s.oblige('no division by zero', False); raise PathEnd()
                q = abs(a) // abs(b); q = -q if (a < 0) != (b < 0) else q
                return s.wrap(q if op == '/' else a - q * b, T)
            r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                 '<<': lambda: a << b, '>>': lambda: a >> b}[op]()
            return s.wrap(r, T)
        if s.mode == 'bv':
            A = s.bvw(a, T); B = s.bvw(b, T)
            if op in '/%': s.oblige('no division by zero', B != 0)
            r = {'+': lambda: A + B, '-': lambda: A - B, '*': lambda: A * B, '&': lambda: A & B, '|': lambda: A | B, '^': lambda: A ^ B,
                 '<<': lambda: A << B, '>>': lambda: (A >> B) if T['s'] else z3.LShR(A, B),
                 '/': lambda: (A / B) if T['s'] else z3.UDiv(A, B), '%': lambda: z3.SRem(A, B) if T['s'] else z3.URem(A, B)}[op]()
            return z3.simplify(r)
        if op == '+': return s.wrap(a + b, T, '+')
        if op == '-': return s.wrap(a - b, T, '-')
        if op == '*': return s.wrap(a * b, T, '*')
        if op in '/%':
            s.oblige('no division by zero', s.zi(b, T) != 0)
            A, B = s.zi(a, T), s.zi(b, T)
            if not T['s'] or (isinstance(b, int) and b > 0 and s.hint(lambda: s.valid(A >= 0))):
                q, r = A / B, A % B
            else:
                q = z3.If(A >= 0, A / B, -((-A) / B)); r = A - q * B
            return q if op == '/' else r
        if op == '<<' and isinstance(b, int): return s.wrap(a * (1 << b), T, '<<')
        if op == '<<' and isinstance(a, int): return s.wrap(a * s.pow2(b, T['w']), T, '<<')
        if op == '>>' and isinstance(b, int): return s.zi(a, T) / (1 << b)
        if op == '&' and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0: return s.zi(a, T) % (b + 1)
        if op == '&' and isinstance(a, int) and a >= 0 and (a & (a + 1)) == 0: return s.zi(b, T) % (a + 1)
        if op in '&|^':
            f = s.uf('bit' + {'&': 'and', '|': 'or', '^': 'xor'}[op] + str(T['w']), z3.IntSort(), z3.IntSort(), z3.IntSort())
            r = f(s.zi(a, T), s.zi(b, T)); lo, hi = s.rng(T); s.assume(z3.And(r >= lo, r <= hi)); return r
        raise Unsupported('int op %s' % op)
    def pow2(s, b, w):
        r = z3.IntVal(1 << (w - 1))
        for k in range(w - 2, -1, -1): r = z3.If(b == k, z3.IntVal(1 << k), r)
        return r
    def bvw(s, v, T):
        if isinstance(v, int): return z3.BitVecVal(v, T['w'])
        if v.size() == T['w']: return v
        if v.size() < T['w']: return z3.ZeroExt(T['w'] - v.size(), v)
        return z3.Extract(T['w'] - 1, 0, v)
    def farith(s, op, a, b):
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            a, b = Fraction(a), Fraction(b)
            if op == '/':
                if b == 0: s.oblige('no division by zero (real)', False); raise PathEnd()
                return a / b
            return {'+': a + b, '-': a - b, '*': a * b}[op]
        A, B = s.zr(a), s.zr(b)
        if op == '+': return A + B
        if op == '-': return A - B
        if op == '*': return A * B
        if op == '/':
            if s.opts.get('fdiv', True): s.oblige('no division by zero (real)', B != 0)
            return A / B
        raise Unsupported('fp op ' + op)
    def uf(s, name, *sorts):
        if name not in s._ufs: s._ufs[name] = z3.Function(name, *sorts)
        return s._ufs[name]
    def compare(s, op, a, b, t):
        T = s.T(t); k = T['k']
        if isinstance(a, Undef): s.undef_use(a); return s.fresh_bool()
        if isinstance(b, Undef): s.undef_use(b); return s.fresh_bool()
        if isinstance(a, Ptr) or isinstance(b, Ptr): return s.ptr_cmp(op, a, b)
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        if k == 'fp': A, B = s.zr(a), s.zr(b)
        elif k == 'bool': A, B = s.zb(a), s.zb(b)
        else: A, B = s.zi(a, T), s.zi(b, T)
        if k == 'bool' and op in ('<', '>', '<=', '>='): A, B = z3.If(A, 1, 0), z3.If(B, 1, 0)
        if op == '==': return A == B
        if op == '!=': return A != B
        if z3.is_bv(A) and not T.get('s', 0):
            return {'<': z3.ULT, '>': z3.UGT, '<=': z3.ULE, '>=': z3.UGE}[op](A, B)
        return {'<': lambda: A < B, '>': lambda: A > B, '<=': lambda: A <= B, '>=': lambda: A >= B}[op]()
    def ptr_cmp(s, op, a, b):
        if isinstance(a, int) and a == 0: a = NULL
        if isinstance(b, int) and b == 0: b = NULL
        if a.ref is None or b.ref is None:
            eq = a.ref is None and b.ref is None
            if op == '==': return eq
            if op == '!=': return not eq
            raise Unsupported('relational compare with null')
        ra, rb = a.ref, b.ref
        if ra.cell == rb.cell:
            pa, pb = ra.path, rb.path
            if len(pa) < len(pb) and pb[-1][0] == 'i' and pb[:-1] == pa: pa = pa + (('i', 0),)
            if len(pb) < len(pa) and pa[-1][0] == 'i' and pa[:-1] == pb: pb = pb + (('i', 0),)
            if len(pa) == len(pb) and pa and pa[-1][0] == 'i' and pb[-1][0] == 'i' and s.same_path(pa[:-1], pb[:-1]):
                x, y = pa[-1][1], pb[-1][1]
                cx_, cy_ = s.conc(x), s.conc(y)
                if cx_ is not None and cy_ is not None: x, y = cx_, cy_
                else: x, y = s.ix(x), s.ix(y)
                return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y}[op]()
            if len(pa) == len(pb) and pa and pa[-1][0] == 'k' and pb[-1][0] == 'k':
                eq = pa[-1][1] == pb[-1][1]
                return eq if op == '==' else z3.Not(eq)
            if op in ('==', '!='):
                eqs = s.path_eq(pa, pb)
                return eqs if op == '==' else (not eqs if isinstance(eqs, bool) else z3.Not(eqs))
        if op == '==': return False
        if op == '!=': return True
        raise Unsupported('pointer comparison')
    def same_path(s, a, b):
        return len(a) == len(b) and all(x[0] == y[0] and (x[1] is y[1] or (isz(x[1]) and isz(y[1]) and x[1].eq(y[1])) or (not isz(x[1]) and not isz(y[1]) and x[1] == y[1])) for x, y in zip(a, b))
    def path_eq(s, a, b):
        if len(a) != len(b): return False
        cs = []
        for x, y in zip(a, b):
            if x[0] != y[0]: return False
            if x[0] == 'f':
                if x[1] != y[1]: return False
            else: cs.append(s.ix(x[1]) == s.ix(y[1]) if x[0] == 'i' else x[1] == y[1])
        return z3.And(*cs) if cs else True
    def cast_num(s, v, ft, tt):
        F, T = s.T(ft), s.T(tt)
        if isinstance(v, Undef): s.undef_use(v); return s.sym('undef', tt)
        fk, tk = F['k'], T['k']
        if tk == 'bool': return s.b(v)
        if tk in ('int', 'enum'):
            if fk == 'bool' or isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
                if isinstance(v, bool): return int(v)
                return z3.If(s.zb(v), s.zi(1, T), s.zi(0, T))
            if fk in ('int', 'enum'):
                if isinstance(v, int): return s.wrap(v, T)
                if s.mode == 'int':
                    lo, hi = s.rng(T); flo, fhi = s.rng(F)
                    if lo <= flo and fhi <= hi: return v
                    return s.wrap(v, T, 'cast')
                if v.size() == T['w']: return v
                if v.size() > T['w']: return z3.simplify(z3.Extract(T['w'] - 1, 0, v))
                return z3.simplify((z3.SignExt if F['s'] else z3.ZeroExt)(T['w'] - v.size(), v))
            if fk == 'fp':
                if isinstance(v, (int, Fraction)): return s.wrap(int(v), T)
                if s.mode == 'int':
                    r = v.arg(0) if z3.is_to_real(v) else z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                    lo, hi = s.rng(T); s.oblige('float to integer conversion in range', z3.And(r >= lo, r <= hi)) if s.opts.get('f2i_range') else s.res.assumed.add('float to integer conversions are in range')
                    return r
                raise Unsupported('float to int in bv mode')
        if tk == 'fp':
            if isinstance(v, bool): return Fraction(int(v))
            if isinstance(v, (int, Fraction)): return Fraction(v)
            if fk == 'fp': return v
            if z3.is_bool(v): return z3.If(v, z3.RealVal(1), z3.RealVal(0))
            if z3.is_int(v): return z3.ToReal(v)
            if z3.is_bv(v): return z3.ToReal(z3.BV2Int(v, bool(F.get('s'))))
        raise Unsupported('numeric cast %s->%s' % (fk, tk))

    # ------------------------------------------------------------------ expressions
    def deref(s, p, what='pointer dereference'):
        if isinstance(p, Ref): return p
        if isinstance(p, Undef): s.undef_use(p); raise PathEnd()
        if not isinstance(p, Ptr): raise Unsupported('deref %r' % (p,))
        if p.ref is None: s.oblige('no null dereference', False); raise PathEnd()
        if s.ghost.get('heap', {}).get(p.ref.cell) == 'freed': s.oblige('released memory is not accessed', False); raise PathEnd()
        return p.ref
    def rv(s, e):
        """value of expression (lvalues are read)"""
        v = s.ev(e)
        if isinstance(v, Ref): v = s.read(v)
        return v
    def ev(s, e):
        if e is None: return None
        s.cur_line = e.get('l', s.cur_line)
        m = getattr(s, 'e_' + e['k'], None)
        if m is None: raise Unsupported('expression ' + e['k'] + ' ' + str(e.get('what', '')))
        return m(e)
    def e_int(s, e):
        T = s.T(e['t'])
        return int(e['v'])
    def e_bool(s, e): return bool(e['v'])
    def e_flt(s, e):
        src = e.get('src', '').rstrip('fFlL')
        try: return Fraction(src)
        except Exception: return Fraction(float.fromhex(e['v']))
    def e_str(s, e):
        T = s.T(e['t'])
        ct = T['e'] if T['k'] == 'arr' else None
        chars = [x - 256 if x > 127 else x for x in e['v']] + [0]
        return s.new_cell('lit', Arr(ct, chars))
    def e_null(s, e): return NULL
    def e_zero(s, e): return s.default(e['t'], True)
    def e_this(s, e): return Ptr(s.frames[-1].this)
    def e_var(s, e):
        v = e['v']
        for fr in (s.frames[-1],):
            if v in fr.vars: return fr.vars[v]
        V = s.prog.vars[v]
        if v in s.statics: return s.statics[v]
        if 'cv' in V:
            r = s.new_cell('const:' + V['n'], s.cv(V['cv'], V['t'])); s.births[r.cell] = 0
            s.statics[v] = r; return r
        h = s.hooks.get('global')
        if h:
            r = h(s, v, V)
            if r is not None: s.statics[v] = r; return r
        if V.get('static') or V.get('global'):
            raise Unsupported('global variable %s' % V['n'])
        raise Unsupported('unbound variable %s' % V['n'])
    def cv(s, c, t):
        T = s.T(t)
        if 'i' in c: return bool(int(c['i'])) if T['k'] == 'bool' else int(c['i'])
        if 'f' in c: 
            x = float.fromhex(c['f']); return Fraction(repr(x)) if x == x and abs(x) != float('inf') else Undef(t)
        et = T['e'] if 'e' in T else s.type_named('i8')
        return Arr(et, [s.cv(x, et) for x in c['a']])
    def e_fun(s, e): return ('fun', e['f'])
    def e_mem(s, e):
        b = s.ev(e['b'])
        if isinstance(b, Ptr): b = s.deref(b, 'member access')
        if isinstance(b, Ref): 
            r = b.fld(e['n'])
            T = s.T(e['t'])
            # reference members hold a Ref
            v = s.read(b)
            if isinstance(v, Rec) and isinstance(v.f.get(e['n']), Ref): return v.f[e['n']]
            return r
        if isinstance(b, Rec): return b.f[e['n']]
        raise Unsupported('member of %r' % (b,))
    def e_un(s, e):
        op = e['op']
        if op == '&':
            r = s.ev(e['e'])
            if isinstance(r, tuple): return r
            return Ptr(r)
        if op == '*':
            p = s.ev(e['e'])
            if isinstance(p, Ref): p = s.read(p)
            if isinstance(p, tuple): return p
            return s.deref(p)
        if op in ('++', '--'):
            r = s.ev(e['e']); old = s.read(r); T = s.T(e['t'])
            if isinstance(old, Undef): s.undef_use(old)
            if T['k'] == 'fp': new = s.farith('+' if op == '++' else '-', old, 1)
            elif isinstance(old, Ptr): new = s.ptr_add(old, 1 if op == '++' else -1)
            else: new = s.arith('+' if op == '++' else '-', old, 1, e['t'])
            s.write(r, new)
            return old if e.get('post') else r
        v = s.rv(e['e'])
        if isinstance(v, Undef): s.undef_use(v); return s.sym('undef', e['t'])
        if op == '!':
            c = s.b(v)
            return (not c) if isinstance(c, bool) else z3.Not(c)
        if op == '-':
            if isinstance(v, (int, Fraction)) and not isinstance(v, bool): return -v if s.T(e['t'])['k'] == 'fp' else s.wrap(-v, s.T(e['t']))
            if s.T(e['t'])['k'] == 'fp': return -v
            return s.arith('-', 0, v, e['t'])
        if op == '+': return v
        if op == '~':
            if isinstance(v, int): return s.wrap(~v, s.T(e['t']))
            if z3.is_bv(v): return ~v
            T = s.T(e['t']); return s.wrap(-v - 1, T, 'cast')
        raise Unsupported('unary ' + op)
    def ptr_add(s, p, k):
        if p.ref is None:
            if s.conc(k) == 0: return p
            raise Unsupported('null arithmetic')
        path = p.ref.path
        if path and path[-1][0] == 'i':
            i = path[-1][1]
            ci, ck = s.conc(i), s.conc(k)
            n = ci + ck if ci is not None and ck is not None else s.ix(i) + s.ix(k)
            return Ptr(Ref(p.ref.cell, path[:-1] + (('i', n),)), p.meta)
        if s.conc(k) == 0: return p
        return Ptr(Ref(p.ref.cell, path + (('i', k),)), p.meta)
    def ptr_diff(s, a, b):
        pa, pb = a.ref.path, b.ref.path
        ia = pa[-1][1] if pa and pa[-1][0] == 'i' else 0
        ib = pb[-1][1] if pb and pb[-1][0] == 'i' else 0
        if a.ref.cell != b.ref.cell: raise Unsupported('pointer difference across objects')
        ca, cb = s.conc(ia), s.conc(ib)
        if ca is not None and cb is not None: return ca - cb
        return z3.simplify(s.ix(ia) - s.ix(ib))
    def e_bin(s, e):
        op = e['op']
        if op == ',': s.ev(e['a']); return s.ev(e['b'])
        if op in ('&&', '||'):
            a = s.rv(e['a'])
            if op == '&&': return s.branch_val(a, lambda: s.rv(e['b']), lambda: False)
            return s.branch_val(a, lambda: True, lambda: s.rv(e['b']))
        a, b = s.rv(e['a']), s.rv(e['b'])
        at = e['a']['t']
        if op in ('==', '!=', '<', '>', '<=', '>='): return s.compare(op, a, b, at)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == '-': return s.ptr_diff(a, b)
        if isinstance(a, Ptr): return s.ptr_add(a, b if op == '+' else (-b if not isinstance(b, int) else -b))
        if isinstance(b, Ptr): return s.ptr_add(b, a)
        if op in ('<<', '>>') and s.mode == 'bv' and isz(b):
            b = s.cast_num(b, e['b']['t'], e['t'])
        return s.arith(op, a, b, e['t'])
    def branch_val(s, c, ta, fa):
        """evaluate ta or fa depending on c; pure boolean operands are merged when cheap"""
        return ta() if s.branch(c) else fa()
    def e_asg(s, e):
        r = s.ev(e['a']); v = s.rv(e['b'])
        if not isinstance(r, Ref): raise Unsupported('assignment target')
        s.write(r, vcopy(v)); return r
    def e_casg(s, e):
        v = s.rv(e['b']); r = s.ev(e['a']); old = s.read(r); ct = e['ct']
        if isinstance(old, Ptr): new = s.ptr_add(old, v if e['op'] == '+' else -v)
        else:
            if isinstance(old, Undef): s.undef_use(old)
            if s.T(ct)['k'] == 'fp':
                new = s.farith(e['op'], s.cast_num(old, e['a']['t'], ct), s.cast_num(v, e['b']['t'], ct))
            else:
                x = s.cast_num(old, e['a']['t'], ct)
                y = s.cast_num(v, e['b']['t'], ct) if s.T(e['b']['t'])['k'] != s.T(ct)['k'] or s.T(e['b']['t']).get('w') != s.T(ct).get('w') else v
                new = s.arith(e['op'], x, y, ct)
            if e['t'] != ct: new = s.cast_num(new, ct, e['t'])
        s.write(r, new); return r
    def e_cond(s, e):
        c = s.b(s.rv(e['c']))
        if isinstance(c, bool): return s.ev(e['a'] if c else e['b'])
        # merge scalars without side effects
        if s.simple(e['a']) and s.simple(e['b']):
            a, b = s.rv(e['a']), s.rv(e['b'])
            T = s.T(e['t'])
            if not e.get('lv') and T['k'] in ('int', 'fp', 'bool', 'enum') and not isinstance(a, Undef) and not isinstance(b, Undef):
                return z3.If(c, s.pack(a, e['t']), s.pack(b, e['t']))
        return s.ev(e['a']) if s.branch(c) else s.ev(e['b'])
    def simple(s, e):
        k = e['k']
        if k in ('int', 'bool', 'flt', 'var', 'this'): return True
        if k == 'cast' and e['ck'] in ('LValueToRValue', 'IntegralCast', 'FloatingCast', 'IntegralToFloating'): return s.simple(e['e'])
        if k == 'mem': return s.simple(e['b'])
        return False
    def e_idx(s, e):
        b = s.ev(e['a']); i = s.rv(e['i'])
        if isinstance(b, int) : b, i = s.ev(e['i']), b
        if isinstance(b, Ptr): return s.elem_ref(s.ptr_add(b, i))
        if isinstance(b, Ref): return b.at(i)
        if z3.is_bv(b): return z3.Extract(7, 0, z3.LShR(b, 8 * i))
        raise Unsupported('subscript of %r' % (b,))
    def elem_ref(s, p):
        """reference through a pointer, with bounds obligation"""
        r = s.deref(p)
        s.check_ref(r)
        return r
    def check_ref(s, r):
        if r.path and r.path[-1][0] == 'i':
            base = s.read(Ref(r.cell, r.path[:-1]))
            if isinstance(base, (Arr,)): s.in_bounds(r.path[-1][1], len(base.items))
            elif isinstance(base, Vec): s.in_bounds(r.path[-1][1], base.n)
            elif hasattr(base, 'bound'): s.in_bounds(r.path[-1][1], base.bound(s))
    def e_cast(s, e):
        ck = e['ck']
        if ck == 'LValueToRValue':
            r = s.ev(e['e'])
            if isinstance(r, Ref):
                s.check_ref(r)
                return s.read(r)
            return r
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralToBoolean', 'FloatingToBoolean', 'BooleanToSignedIntegral'):
            return s.cast_num(s.rv(e['e']), e['e']['t'], e['t'])
        if ck == 'PointerToBoolean': 
            v = s.rv(e['e'])
            if isinstance(v, Undef): s.undef_use(v); return s.fresh_bool()
            return v.ref is not None if isinstance(v, Ptr) else True
        if ck == 'NullToPointer': return NULL
        if ck == 'ArrayToPointerDecay':
            r = s.ev(e['e'])
            return Ptr(r.at(0)) if isinstance(r, Ref) else r
        if ck in ('ToVoid',): s.ev(e['e']); return None
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'NoOp', 'Dependent', 'AtomicToNonAtomic', 'NonAtomicToAtomic', 'MemberPointerToBoolean'):
            return s.ev(e['e'])
        if ck == 'BitCast':
            v = s.ev(e['e'])
            h = s.hooks.get('bitcast')
            if h:
                r = h(s, e, v)
                if r is not None: return r
            return v
        if ck == 'LValueBitCast': return s.ev(e['e'])
        if ck == 'Dynamic':
            h = s.hooks.get('dynamic_cast')
            if h: return h(s, e, s.ev(e['e']))
            return s.ev(e['e'])
        if ck == 'VectorSplat': raise Unsupported('splat')
        raise Unsupported('cast ' + ck)
    def e_temp(s, e):
        v = s.ev(e['e'])
        if isinstance(v, Ref): return v
        r = s.new_cell('tmp', v)
        if s.frames: s.frames[-1].temps.append((r, e['t']))
        return r
    def e_lambda(s, e):
        fr = s.frames[-1]; env = {}
        this = None
        for c in e['caps']:
            if c.get('this'): this = fr.this; continue
            if c['byref']: env[c['v']] = s.ev(c['init']) if c['init'] and c['init'].get('lv') else fr.vars[c['v']]
            else:
                v = s.rv(c['init'])
                r = env[c['v']] = s.new_cell('cap', vcopy(v)); T = s.T(s.prog.vars[c['v']]['t'])
                if T['k'] == 'int': s.widths[r.cell] = T['w']
        return Closure(e['f'], env, this, None)
    def e_ilist(s, e):
        T = s.T(e['t'])
        if T['k'] == 'arr':
            items = [s.val(x) for x in e['e']]
            while len(items) < T['n']: items.append(s.val(e['fill']) if e.get('fill') else s.default(T['e'], True))
            return Arr(T['e'], items)
        if T['k'] == 'rec':
            fs = s.fields(e['t'])
            if fs is not None:
                v = s.default(e['t'], True)
                if isinstance(v, Rec):
                    for (n, ft), x in zip(fs, e['e']): v.f[n] = s.val(x)
                    return v
            if T['q'] == 'std::initializer_list':
                return Arr(T['a'][0]['t'], [s.val(x) for x in e['e']])
        if len(e['e']) == 1: return s.val(e['e'][0])
        if not e['e']: return s.default(e['t'], True)
        if T['k'] == 'vec': raise Unsupported('vector literal')
        raise Unsupported('init list of ' + s.prog.tname(e['t']))
    def val(s, e):
        v = s.ev(e)
        if isinstance(v, Ref) and s.T(e['t'])['k'] != 'ref':
            return vcopy(s.read(v)) if not e.get('lv') or True else v
        return v
    def e_new(s, e):
        at = e['at']
        h = s.hooks.get('new')
        if e.get('n') is not None:
            n = s.rv(e['n'])
            if h: return h(s, e, n)
            c = s.conc(n)
            if c is not None and c <= 64: r = s.new_cell('heap', Vec(at, items=[s.default(at) for _ in range(c)]))
            else:
                r = s.new_cell('heap', Vec(at, n, s.fresh('heap', z3.ArraySort(s.isort(), s.sort(at)))))
            s.ghost.setdefault('heap', {})[r.cell] = 'array'
            return Ptr(r.at(0))
        v = s.ev(e['init']) if e.get('init') else s.default(at)
        if isinstance(v, Ref): v = vcopy(s.read(v))
        r = s.new_cell('heap', v)
        s.ghost.setdefault('heap', {})[r.cell] = 'object'
        return Ptr(r)
    def e_del(s, e):
        p = s.rv(e['e'])
        if isinstance(p, Undef): s.undef_use(p); return None
        if p.ref is None: return None
        h = s.ghost.setdefault('heap', {})
        st = h.get(p.ref.cell)
        s.oblige('delete of live heap memory, matching form', st == ('array' if e.get('arr') else 'object'))
        h[p.ref.cell] = 'freed'
        return None
    def e_throw(s, e): raise Throw('throw', e['l'])
    def e_typeid(s, e):
        if 'of' in e: return ('typeid', s.prog.tname(e['of']))
        r = s.ev(e['e']); v = s.read(r) if isinstance(r, Ref) else r
        if isinstance(v, Rec):
            return v.f['__dyn'] if '__dyn' in v.f else ('typeid', s.prog.tname(v.t))
        raise Unsupported('typeid')
    def e_stmtexpr(s, e): raise Unsupported('statement expression')
    def e_pdtor(s, e): return None

    # ------------------------------------------------------------------ calls
    def e_ctor(s, e):
        f = s.prog.funcs[e['f']]; args = e['args']
        if e.get('elide') and len(args) == 1:
            return s.val(args[0])
        t = e['t']; T = s.T(t)
        m = s.find_model(f)
        if e['f'] in s.contracts or f['q'] in s.contracts or m:
            a = [s.ev(x) for x in args]
            r = s.new_cell('obj', s.undef_obj(t))
            return s.finish_ctor(r, s.dispatch(e['f'], r, a, e))
        if (f.get('copy') or f.get('move')) and not f.get('up') and len(args) == 1 and not s.deep_copy(e['f']):
            v = s.ev(args[0]); vv = s.read(v) if isinstance(v, Ref) else v
            if f.get('move') and isinstance(vv, Rec) and isinstance(v, Ref): return s.move_rec(v, t)
            return s.slice(vcopy(vv), t)
        if e['f'] in s.prog.bodies or not f.get('up'):
            a = [s.ev(x) for x in args]
            if e['f'] not in s.prog.bodies:
                if not args: return s.default(t, bool(e.get('zi')))
                raise Unsupported('constructor ' + f['n'])
            r = s.new_cell('obj', s.default_fields(t, bool(e.get('zi'))))
            s.call_body(e['f'], r, a)
            return vcopy_shallow(s.store[r.cell]) if not s.frames else s.store[r.cell]
        raise Unsupported('constructor ' + f['n'])
    def deep_copy(s, fid):
        """a defaulted copy whose bases or members are copied by a constructor of the repository: it is executed"""
        h = s.prog.__dict__.setdefault('deep', {})
        if fid not in h:
            h[fid] = False; b = s.prog.bodies.get(fid)
            if b and b.get('defaulted'): h[fid] = any(i.get('e') and i['e']['k'] == 'ctor' and len(i['e']['args']) == 1 and (s.prog.funcs[i['e']['f']].get('up') and i['e']['f'] in s.prog.bodies or s.deep_copy(i['e']['f'])) for i in b.get('inits', []))
        return h[fid]
    def move_rec(s, ref, t):
        return s.slice(vcopy(s.read(ref)), t)
    def undef_obj(s, t):
        try: return s.default(t)
        except Unsupported: return None
    def finish_ctor(s, r, res):
        if res is not None: return res
        return s.store[r.cell]
    def default_fields(s, t, zero):
        T = s.T(t)
        R = s.record(t)
        if R is None: return s.default(t, zero)
        if R['union']: return s.default(t, zero)
        return s.default(t, zero)
    def slice(s, v, t):
        if isinstance(v, Rec) and v.t != t:
            fs = s.fields(t)
            if fs is not None:
                return Rec(t, {n: v.f[n] for n, _ in fs})
        return v
    def e_call(s, e):
        if 'f' not in e:
            c = s.ev(e['callee'])
            if isinstance(c, Ref): c = s.read(c)
            args = [s.ev(x) for x in e['args']]
            return s.call_value(c, args, e)
        f = s.prog.funcs[e['f']]
        h = s.hooks.get('pre_call')
        if h:
            r = h(s, e, f)
            if r is not None: return r[0]
        obj = None
        if 'obj' in e:
            obj = s.ev(e['obj'])
            if isinstance(obj, Ptr): obj = s.deref(obj)
            elif not isinstance(obj, Ref):
                if e['obj'].get('lv') is None: obj = s.new_cell('tmp', obj)
        args = [s.ev(x) for x in e['args']]
        fid = e['f']
        if f.get('virt') and not e.get('qual') and obj is not None: fid = s.resolve_virtual(fid, obj)
        return s.dispatch(fid, obj, args, e)
    def resolve_virtual(s, fid, obj):
        v = s.read(obj)
        f = s.prog.funcs[fid]
        if isinstance(v, Rec):
            t = v.t
            seen = 0
            while True:
                R = s.record(t)
                if R is None: return fid
                for m in R.get('virt', []):
                    if m['f'] == fid or s.overrides(m, fid): return m['f']
                if not R['bases']: return fid
                t = R['bases'][0]; seen += 1
                if seen > 10: return fid
        return fid
    def overrides(s, m, fid):
        if fid in m['over']: return True
        for o in m['over']:
            fo = s.prog.funcs[o]
            R = s.record(fo['rec']) if 'rec' in fo else None
            if R:
                for mm in R.get('virt', []):
                    if mm['f'] == o and s.overrides(mm, fid): return True
        return False
    def find_model(s, f):
        m = MODELS.get(f['q'])
        if m: return m
        for rx, fn in PATTERNS:
            if rx.search(f['q']): return fn
        return None
    def dispatch(s, fid, obj, args, node):
        f = s.prog.funcs[fid]
        ct = s.contracts.get(fid) or s.contracts.get(f['q'])
        if ct:
            s.res.assumed_contracts = getattr(s.res, 'assumed_contracts', set()); 
            s.res.models.add('contract ' + f['q'])
            return ct(s, Call(f, obj, args, node))
        if fid in s.prog.bodies and not (f.get('casg') or f.get('masg')) or (fid in s.prog.bodies and f.get('up')):
            return s.call_body(fid, obj, args)
        m = s.find_model(f)
        if m:
            s.res.models.add(f['q'])
            return m(s, Call(f, obj, args, node))
        if f.get('casg') or f.get('masg'):   # implicit assignment: memberwise
            src = args[0]; v = s.read(src) if isinstance(src, Ref) else src
            if isinstance(v, Rec):
                fs = s.fields(f['rec'])
                for n, ft in fs or []: s.write(obj.fld(n), vcopy(v.f[n]))
                return obj
            s.write(obj, vcopy(v)); return obj
        if f.get('dtor'): return None
        raise Unsupported('call to %s (no body, contract or model)' % f['q'])
    def call_value(s, c, args, node):
        if isinstance(c, Closure):
            return s.call_body(c.f, None, args, closure=c)
        if isinstance(c, tuple) and c[0] == 'fun': return s.dispatch(c[1], None, args, node)
        if hasattr(c, 'call'): return c.call(s, args, node)
        raise Unsupported('call of %r' % (c,))
    def call_functor(s, fn, args, node=None):
        """call any callable value: closure, function, functor record"""
        if isinstance(fn, Ref):
            v = s.read(fn)
            if not isinstance(v, Rec) : fn = v
        if isinstance(fn, (Closure, tuple)) or hasattr(fn, 'call'): return s.call_value(fn, args, node)
        if isinstance(fn, Rec): fn = s.new_cell('functor', fn)
        v = s.read(fn)
        c = [i for i, f in enumerate(s.prog.funcs) if f['s'] == 'operator()' and 'rec' in f and s.prog.tname(f['rec']) == s.prog.tname(v.t)]
        c = [i for i in c if i in s.prog.bodies or s.prog.funcs[i]['q'] in s.contracts or i in s.contracts or s.find_model(s.prog.funcs[i])]
        if len(c) >= 1: return s.dispatch(c[0], fn, args, node)
        raise Unsupported('functor ' + s.prog.tname(v.t))
    def call_body(s, fid, obj, args, closure=None):
        if len(s.frames) > 40: raise Unsupported('call depth')
        f = s.prog.funcs[fid]; b = s.prog.bodies[fid]
        s.res.functions.add(f['n'])
        fr = Frame(fid, f['q'])
        fr.this = obj; fr.args = args
        if closure is not None:
            fr.vars.update(closure.env); fr.this = closure.this
        for p, a in zip(b['params'], args):
            s.bind(fr, p, a)
        s.frames.append(fr)
        saved_line = s.cur_line
        res = None
        try:
            try:
                if f.get('ctor'): s.ctor_inits(fr, f, b, obj)
                s.st(b['body'])
            except ReturnEx as r: res = r.v
            except (Abort, PathEnd, Unsupported): raise
            except Throw:
                s.unwind(fr); raise
            s.unwind(fr)
        finally:
            if s.frames and s.frames[-1] is fr: s.frames.pop()
        s.cur_line = saved_line
        return res
    def bind(s, fr, p, a):
        T = s.T(p['t'])
        if T['k'] == 'ref':
            if not isinstance(a, Ref): a = s.new_cell('arg', a)
            fr.vars[p['v']] = a
        else:
            v = s.read(a) if isinstance(a, Ref) else a
            r = s.new_cell('p_' + str(p['n']), vcopy(v)); fr.vars[p['v']] = r
    def ctor_inits(s, fr, f, b, obj):
        for i in b.get('inits', []):
            e = i['e']
            if i.get('deleg'): s.write(obj, s.val(e)); continue
            if 'mem' in i:
                if e is not None and e['k'] == 'ctor' and not e['args'] and s.T(e['t'])['k'] == 'rec' and not s.find_model(s.prog.funcs[e['f']]) and e['f'] not in s.prog.bodies and not e.get('zi'):
                    s.write(obj.fld(i['mem']), s.default(e['t'])); continue
                v = s.ev(e)
                rt = next((ft for n, ft in (s.fields(f['rec']) or []) if n == i['mem']), None)
                if rt is not None and s.T(rt)['k'] == 'ref': pass
                elif isinstance(v, Ref): v = vcopy(s.read(v))
                s.write(obj.fld(i['mem']), v)
            elif 'base' in i:
                if e['k'] == 'ctor':
                    bf = s.prog.funcs[e['f']]
                    a = list(fr.args) if e.get('inh') else [s.ev(x) for x in e['args']]   # inherited constructor: the arguments are passed on
                    if e['f'] in s.contracts or bf['q'] in s.contracts or e['f'] in s.prog.bodies and (bf.get('up') or not (bf.get('copy') or bf.get('move')) or s.deep_copy(e['f'])):
                        if e['f'] in s.contracts or bf['q'] in s.contracts: s.dispatch(e['f'], obj, a, e)
                        else: s.call_body(e['f'], obj, a)
                    elif bf.get('copy') or bf.get('move'):
                        src = s.read(a[0]) if isinstance(a[0], Ref) else a[0]
                        for n, ft in s.fields(i['base']) or []: s.write(obj.fld(n), vcopy(src.f[n]))
                    elif s.find_model(bf): s.dispatch(e['f'], obj, a, e)
                elif e['k'] == 'ilist' and not e['e']: pass
                else: s.ev(e)
    # scope handling
    def unwind(s, fr, depth=0):
        while len(fr.scopes) > depth:
            sc = fr.scopes.pop()
            for r, t in reversed(sc): s.destroy(r, t)
        if depth == 0: fr.scopes = [[]]
    def destroy(s, r, t):
        T = s.T(t)
        if T['k'] != 'rec': return
        h = DTORS.get(T['q'])
        if h: h(s, r); return
        R = s.record(t)
        if R and R.get('dtor') is not None:
            d = R['dtor']
            if d in s.contracts or s.prog.funcs[d]['q'] in s.contracts: s.dispatch(d, r, [], None)
            elif d in s.prog.bodies: s.call_body(d, r, [])
        if R:
            for bt in R['bases']:
                RB = s.record(bt)
                if RB: s.destroy(r, bt)
    def has_dtor(s, t):
        T = s.T(t)
        if T['k'] != 'rec': return False
        if T['q'] in DTORS: return True
        R = s.record(t)
        return bool(R and (R.get('dtor') is not None or any(s.has_dtor(b) for b in R['bases'])))
    def full_expr(s, fn):
        fr = s.frames[-1]; mark = len(fr.temps)
        v = fn()
        keep = fr.temps[:mark]; tmp = fr.temps[mark:]; fr.temps = keep
        for r, t in reversed(tmp):
            if s.has_dtor(t): s.destroy(r, t)
        return v

    # ------------------------------------------------------------------ statements
    def st(s, n):
        if n is None: return
        s.cur_line = n.get('l', s.cur_line)
        m = getattr(s, 's_' + n['k'], None)
        if m is None: raise Unsupported('statement ' + n['k'] + ' ' + str(n.get('what', '')))
        return m(n)
    def s_blk(s, n):
        fr = s.frames[-1]
        fr.scopes.append([]); d = len(fr.scopes) - 1
        try:
            for x in n['s']: s.st(x)
        except (BreakEx, ContinueEx):
            s.unwind(fr, d); raise
        except ReturnEx as r:
            s.unwind(fr, d); raise
        except Throw:
            s.unwind(fr, d); raise
        if len(fr.scopes) > d: s.unwind(fr, d)
    def s_nop(s, n): pass
    def s_expr(s, n): s.full_expr(lambda: s.ev(n['e']))
    def decl(s, d):
        fr = s.frames[-1]; T = s.T(d['t'])
        if d.get('static'):
            if d['v'] in s.statics: return
            h = s.hooks.get('static')
            r = h(s, d) if h else None
            if r is None:
                raise Unsupported('static local %s' % d['n'])
            s.statics[d['v']] = r; return
        if T['k'] == 'ref':
            v = s.ev(d['init'])
            if not isinstance(v, Ref): v = s.new_cell(d['n'], v)
            # lifetime-extended temporaries are destroyed with the scope
            if fr.temps and fr.temps[-1][0].cell == v.cell: fr.scopes[-1].append(fr.temps.pop())
            fr.vars[d['v']] = v; return
        if d.get('init') is not None:
            v = s.ev(d['init'])
            if isinstance(v, Ref): v = vcopy(s.read(v))
            elif isinstance(v, (Rec, Arr)): v = vcopy(v)
        else: v = s.default(d['t'])
        r = s.new_cell('v_' + str(d['n']), v)
        if T['k'] == 'int': s.widths[r.cell] = T['w']
        fr.vars[d['v']] = r
        if s.has_dtor(d['t']): fr.scopes[-1].append((r, d['t']))
    def s_decl(s, n):
        for d in n['d']: s.full_expr(lambda: s.decl(d))
    def cond(s, n):
        if n.get('cv'): s.decl(n['cv'])
        return s.rv(n['c']) if n.get('c') is not None else True
    def s_if(s, n):
        if n.get('i'): s.st(n['i'])
        c = s.full_expr(lambda: s.cond(n))
        if s.branch(c): s.st(n['a'])
        elif n.get('b'): s.st(n['b'])
    def s_ret(s, n):
        v = None
        if n.get('e') is not None:
            def go():
                v = s.ev(n['e'])
                ret = s.T(s.prog.funcs[s.frames[-1].fid]['ret'])
                if ret['k'] != 'ref' and isinstance(v, Ref): v = vcopy(s.read(v))
                return v
            v = s.full_expr(go)
        raise ReturnEx(v)
    def s_brk(s, n): raise BreakEx()
    def s_cnt(s, n): raise ContinueEx()
    def s_switch(s, n):
        c = s.rv(n['c'])
        body = n['s']['s'] if n['s']['k'] == 'blk' else [n['s']]
        flat = []      # (labels, stmt)
        for x in body:
            labs = []
            while x is not None and x['k'] in ('case', 'default'):
                labs.append('default' if x['k'] == 'default' else x['e']); x = x['s']
            flat.append((labs, x))
        start, dflt = None, None
        for i, (labs, x) in enumerate(flat):
            for l in labs:
                if l == 'default': dflt = i
                elif start is None and s.branch(s.compare('==', c, s.rv(l), n['c']['t'])): start = i
            if start is not None: break
        if start is None:
            for i, (labs, x) in enumerate(flat):
                if 'default' in labs: dflt = i
            start = dflt
        if start is None: return
        fr = s.frames[-1]; fr.scopes.append([]); d = len(fr.scopes) - 1
        try:
            for labs, x in flat[start:]: s.st(x)
        except BreakEx: pass
        s.unwind(fr, d)
    def s_try(s, n):
        fr = s.frames[-1]; d = len(fr.scopes)
        try: s.st(n['s'])
        except Throw as t:
            if len(fr.scopes) > d: s.unwind(fr, d)
            for h in n['h']:
                v = h.get('v'); hn = s.prog.tname(s.strip_ref(v['t'])) if v else None; w = str(t.what)
                if hn and hn != 'std::exception' and '::' in w and not (w == hn or w.split('::')[0] == hn.split('::')[0]): continue
                fr.scopes.append([])
                if v: fr.vars[v['v']] = s.new_cell('exception', Rec(s.strip_ref(v['t']), {}))
                try: s.st(h['s'])
                finally:
                    if len(fr.scopes) > d: s.unwind(fr, d)
                return
            raise
    def strip_ref(s, t):
        T = s.T(t); return s.strip_ref(T['e']) if T['k'] == 'ref' else t

    # loops -------------------------------------------------------------------------------------
    def s_for(s, n):
        fr = s.frames[-1]; fr.scopes.append([]); d = len(fr.scopes) - 1
        if n.get('i'): s.st(n['i'])
        s.loop(n, lambda: s.cond(n), n['s'], (lambda: s.ev(n['n'])) if n.get('n') else None)
        if len(fr.scopes) > d: s.unwind(fr, d)
    def s_while(s, n):
        # CHECK_op expands to while (unique_ptr r = Check_EQImpl(..)) LogMessageFatal
        if s.is_check_loop(n):
            if s.branch(s.full_expr(lambda: s.cond(n))): s.st(n['s'])
            return
        s.loop(n, lambda: s.cond(n), n['s'], None)
    def is_check_loop(s, n):
        j = n['s']
        return s.mentions_fatal(j)
    def mentions_fatal(s, j):
        if isinstance(j, dict):
            if j.get('k') == 'ctor' and 'LogMessageFatal' in s.prog.funcs[j['f']]['q']: return j
            if j.get('k') in ('blk', 'for', 'while', 'if', 'do', 'rfor'): return None
            for v in j.values():
                if isinstance(v, (dict, list)) and s.mentions_fatal(v): return True
        elif isinstance(j, list):
            return any(s.mentions_fatal(x) for x in j)
        return None
    def s_do(s, n):
        # body first, then a while loop; executed exactly as such
        c = n.get('c')
        while isinstance(c, dict) and c.get('k') in ('cast', 'paren', 'full') and isinstance(c.get('e'), dict): c = c['e']
        if isinstance(c, dict) and c.get('k') in ('int', 'bool') and str(c.get('v')) in ('0', 'False', 'false'):    # do { } while (0), as macros use it
            try: s.st(n['s'])
            except (BreakEx, ContinueEx): pass
            return
        spec = s.loop_spec(n, True)
        if spec is None:
            try:
                s.st(n['s'])
            except BreakEx: return
            except ContinueEx: pass
            s.loop(n, lambda: s.cond(n), n['s'], None)
            return
        s.loop(n, None, n['s'], None, spec=spec, do_cond=lambda: s.cond(n))
    def loop_spec(s, n, symbolic, infinite=False):
        k = id(n)
        for kk, sp in s.loop_seen:
            if kk == k: return sp
        used = [id(sp) for _, sp in s.loop_seen]; d = len(s.loopstack)
        for sp in s.loopspecs:
            if sp is None or id(sp) in used or sp.depth is not None and sp.depth != d: continue
            if infinite and not sp.infinite: return None
            s.loop_seen.append((k, sp)); return sp
        return None
    def loop(s, n, cond, body, inc, spec=None, do_cond=None, idx=None, view_extra=None):
        count = 0
        if spec is None:
            while True:
                c = s.b(s.full_expr(cond)) if not s.has_spec(n) else None
                if c is None or not isinstance(c, bool) or (c is True and count == 0 and n.get('c') is not None and n['c'].get('k') == 'bool' and s.peek_infinite()):
                    # symbolic (or designated infinite) loop: needs an invariant
                    spec = s.loop_spec(n, True)
                    if spec is None:
                        # bounded by path conditions? let the solver decide
                        if c is None: raise Unsupported('loop')
                        if s.opts.get('fork_loops'):
                            c = s.branch(c)
                            if not c: return
                            try: s.st(body)
                            except BreakEx: return
                            except ContinueEx: pass
                            if inc: s.full_expr(inc)
                            count += 1
                            if count > s.opts['unroll']: raise Unsupported('loop unrolled too often')
                            continue
                        c2 = s.hint(lambda: 1 if s.valid(c) else (0 if s.valid(z3.Not(c)) else 2))
                        if c2 == 2: raise Unsupported('loop at line %s needs an invariant' % n.get('l'))
                        c = bool(c2)
                    else: break
                if not c: return
                try: s.st(body)
                except BreakEx: return
                except ContinueEx: pass
                if inc: s.full_expr(inc)
                count += 1
                if count > s.opts['unroll']: raise Unsupported('loop unrolled too often')
        fr = s.frames[-1]
        key = (fr.label, n['l'], n['k'])
        entry = {k: vcopy(v) for k, v in s.store.items()}
        L = dict(key=key, birth=s.cell_n, node=n)
        view = LoopView(s, entry, idx, fr, view_extra)
        view.key = key; view.extra['node'] = n
        tag = '%s invariant' % spec.name
        for nm, f in spec.inv(s, view): s.oblige('%s "%s" holds on entry' % (tag, nm), f)
        acc, s.access = s.access, None
        s.havoc(s.modsets.get(key, set()), L['birth'])
        s.access = acc
        if spec.post_havoc: spec.post_havoc(s, view)
        for nm, f in spec.inv(s, view): s.assume(f)
        s.loopstack.append(L)
        scopes0 = len(fr.scopes); frames0 = len(s.frames)
        try:
            go = True if do_cond else s.branch(s.full_expr(cond))
            if go:
                try: s.st(body)
                except BreakEx:
                    s.loopstack.remove(L); return
                except ContinueEx: pass
                if do_cond:
                    if not s.branch(s.full_expr(do_cond)):
                        s.loopstack.remove(L); return
                if inc: s.full_expr(inc)
                for nm, f in spec.inv(s, view): s.oblige('%s "%s" is preserved' % (tag, nm), f)
                s.cover('loop body of ' + spec.name)
                raise PathEnd()
        except (ReturnEx, Throw):
            if L in s.loopstack: s.loopstack.remove(L)
            raise
        s.loopstack.remove(L)
    def has_spec(s, n): return any(k == id(n) for k, _ in s.loop_seen)
    def peek_infinite(s):
        u = len(s.loop_seen)
        return u < len(s.loopspecs) and s.loopspecs[u] is not None and s.loopspecs[u].infinite
    def havoc(s, keys, birth):
        for key in sorted(keys):
            if key[0] not in s.store or s.births.get(key[0], 0) > birth: continue
            r = Ref(key[0], tuple(('f', x) for x in key[1:]))
            try: v = s.read(r)
            except Unsupported: continue
            nv = s.fresh('h_' + key[0].split('#')[0], z3.BitVecSort(s.widths[key[0]])) if len(key) == 1 and s.mode == 'bv' and isinstance(v, int) and not isinstance(v, bool) and key[0] in s.widths else s.havoc_val(v, key[-1].split('#')[0])
            for L in s.loopstack: pass
            s.note_write(r)
            if r.path: s.store[r.cell] = s._upd(s.store[r.cell], r.path, nv)
            else: s.store[r.cell] = nv
    def havoc_val(s, v, base):
        base = 'h_' + base
        if isinstance(v, bool): return s.fresh_bool(base)
        if isinstance(v, int): 
            return s.fresh(base, s.isort())
        if isinstance(v, Fraction): return s.fresh(base, z3.RealSort())
        if isz(v):
            return s.fresh(base, v.sort())
        if isinstance(v, Rec): return Rec(v.t, {k: s.havoc_val(x, base + '.' + k) for k, x in v.f.items()})
        if isinstance(v, Arr): return Arr(v.et, [s.havoc_val(x, base) for x in v.items])
        if isinstance(v, Vec):
            n = s.fresh(base + '.len', s.isort()); s.assume_len(n)
            return Vec(v.et, n, s.fresh(base + '.arr', z3.ArraySort(s.isort(), s.sort(v.et))))
        if isinstance(v, MapV):
            n = s.fresh(base + '.n', s.isort()); s.assume_len(n)
            return MapV(v.kt, v.vt, s.fresh(base + '.dom', z3.ArraySort(s.sort(v.kt), z3.BoolSort())), s.fresh(base + '.val', z3.ArraySort(s.sort(v.kt), s.sort(v.vt))), n)
        if isinstance(v, Ptr):
            if v.ref is not None and v.ref.path and v.ref.path[-1][0] == 'i':
                return Ptr(Ref(v.ref.cell, v.ref.path[:-1] + (('i', s.fresh(base, s.isort())),)), v.meta)
            raise Unsupported('havoc of pointer')
        if isinstance(v, Undef): return v
        if hasattr(v, 'havoc'): return v.havoc(s, base)
        raise Unsupported('havoc of %r' % type(v))
    def s_rfor(s, n):
        """for (T x : container): exact when the container has a concrete length, else by invariant"""
        fr = s.frames[-1]
        rng = s.ev(n['r'])
        if not isinstance(rng, Ref): rng = s.new_cell('range', rng)
        v = s.read(rng)
        it = s.hooks.get('range_for')
        if it:
            r = it(s, n, rng, v)
            if r: return
        if isinstance(v, MapV): return s.rfor_map(n, rng, v)
        if isinstance(v, Arr): cnt = len(v.items)
        elif isinstance(v, Vec): cnt = v.n
        else: raise Unsupported('range-for over %r' % type(v))
        T = s.T(n['v']['t'])
        k = s.conc(cnt)
        ir = s.new_cell('idx', 0)
        def bindv():
            i = s.read(ir)
            er = rng.at(i)
            if T['k'] == 'ref': fr.vars[n['v']['v']] = er
            else:
                fr.vars[n['v']['v']] = s.new_cell('v_' + n['v']['n'], vcopy(s.read(er)))
        def cond():
            vv = s.read(rng); c = len(vv.items) if isinstance(vv, Arr) else vv.n
            a, b = s.conc(s.read(ir)), s.conc(c)
            if a is not None and b is not None: return a < b
            return s.ix(s.read(ir)) < s.ix(c) if s.mode == 'int' else z3.ULT(s.ix(s.read(ir)), s.ix(c))
        body = {'k': 'pybody', 'f': bindv, 's': n['s'], 'l': n['l']}
        def inc():
            i = s.read(ir); c = s.conc(i)
            s.write(ir, c + 1 if c is not None else s.ix(i) + 1)
        nn = dict(n); nn['c'] = {'k': 'rfor'}
        s._keepalive = getattr(s, '_keepalive', {}); s._keepalive[id(n)] = nn
        nn = s._rf.setdefault(id(n), nn) if hasattr(s, '_rf') else s._mk_rf(n, nn)
        s.loop(nn, cond, body, inc, idx=ir, view_extra={'range': rng})
    def _mk_rf(s, n, nn):
        s._rf = {id(n): nn}; return nn
    def s_pybody(s, n):
        n['f'](); s.st(n['s'])
    def rfor_map(s, n, rng, m):
        """iteration over an associative container: every key of the domain exactly once, in no order"""
        fr = s.frames[-1]
        vis = s.new_cell('visited', MapV(m.kt, m.vt, z3.K(s.sort(m.kt), z3.BoolVal(False)), s.map_val(m), 0))
        kr = s.new_cell('curkey', None)
        seq = s.new_cell('visit_order', Vec(m.kt, items=[])); s.vec_sym(s.store[seq.cell])
        pair_t = s.T(n['v']['t'])
        pt = pair_t['e'] if pair_t['k'] == 'ref' else n['v']['t']
        more = s.new_cell('more', None)
        def cond():
            mm, vv = s.read(rng), s.read(vis)
            k = s.fresh('key', s.sort(m.kt))
            b = s.fresh_bool('more')
            kk = z3.Const('kk', s.sort(m.kt))
            s.assume(z3.If(b, z3.And(z3.Select(mm.dom, k), z3.Not(z3.Select(vv.dom, k))), z3.ForAll([kk], z3.Implies(z3.Select(mm.dom, kk), z3.Select(vv.dom, kk)))))
            s.assume(z3.Implies(z3.Not(b), vv.n == mm.n)); s.assume(z3.Implies(b, s.ix(vv.n) < s.ix(mm.n)))
            s.store[kr.cell] = k
            return b
        def bindv():
            k = s.read(kr)
            mm = s.read(rng)
            if s.T(pt).get('q') != 'std::pair' or s.T(m.kt).get('q') == 'std::pair' and s.T(m.vt)['k'] == 'bool':      # a set
                fr.vars[n['v']['v']] = s.new_cell('key', s.unpack(k, m.kt)); return
            pr = MapPair(rng, k, m.kt, m.vt, pt)
            if pair_t['k'] == 'ref': fr.vars[n['v']['v']] = s.new_cell('pair', pr)
            else: fr.vars[n['v']['v']] = s.new_cell('pair', Rec(pt, {'first': s.unpack(k, m.kt), 'second': s.unpack(z3.Select(s.map_val(mm), k), m.vt)}))
        def inc():
            vv = s.read(vis); k = s.read(kr)
            s.write(vis, MapV(vv.kt, vv.vt, z3.Store(vv.dom, k, True), vv.val, s.ix(vv.n) + 1))
            q = s.read(seq); s.write(seq, Vec(m.kt, s.ix(q.n) + 1, z3.Store(q.arr, s.ix(vv.n), k)))
        body = {'k': 'pybody', 'f': bindv, 's': n['s'], 'l': n['l']}
        nn = dict(n); nn['c'] = {'k': 'rfor'}
        if not hasattr(s, '_rf'): s._rf = {}
        nn = s._rf.setdefault(id(n), nn)
        if not s.has_spec(nn):
            pass
        s.loop(nn, cond, body, inc, idx=vis, view_extra={'range': rng, 'visit_order': seq})
    def s_unk(s, n): raise Unsupported('statement ' + str(n.get('what')))
    def e_unk(s, n): raise Unsupported('expression ' + str(n.get('what')))


class MapPair:
    """reference to the (key, value) pair of a map entry"""
    def __init__(s, rng, key, kt, vt, pt): s.rng, s.key, s.kt, s.vt, s.pt = rng, key, kt, vt, pt
    def get_path(s, cx, p):
        if p[1] == 'first': return cx.unpack(s.key, s.kt)
        m = cx.read(s.rng)
        return cx.unpack(z3.Select(cx.map_val(m), s.key), s.vt)
    def set_path(s, cx, path, val):
        if path[0][1] != 'second': raise Unsupported('write to map key')
        cx.write(Ref(s.rng.cell, s.rng.path + (('k', s.key),) + tuple(path[1:])), val)
        return s

def vcopy_shallow(v): return v

SEQ_TYPES = {'std::vector', 'std::deque', 'std::basic_string', 'std::list', 'google::protobuf::RepeatedField'}
MAP_TYPES = {'std::map', 'std::unordered_map', 'std::set', 'std::unordered_set'}
SMART_TYPES = {'std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr'}
EXTRA_SORTS = {}
EXTRA_UNPACK = {}
SYM_TYPES = {}
DTORS = {}


def discharge(pc, f, ms):
    """valid(pc => f)?  z3 first, then z3 with a different strategy, then cvc5"""
    sv = z3.Solver(); sv.set('timeout', ms)
    for p in pc: sv.add(p)
    sv.add(z3.Not(f))
    r = sv.check()
    if r == z3.unsat: return 'ok', None, 'z3'
    if r == z3.sat: return 'fail', sv.model(), 'z3'
    sv2 = z3.SolverFor('AUFLIRA') if False else z3.Solver()
    sv2.set('timeout', ms); sv2.set('smt.arith.solver', 2) if False else None
    try:
        sv2.set('smt.mbqi', False)
    except Exception: pass
    for p in pc: sv2.add(p)
    sv2.add(z3.Not(f))
    r = sv2.check()
    if r == z3.unsat: return 'ok', None, 'z3(no-mbqi)'
    st = cvc5_check(pc, f, ms)
    if st == 'unsat': return 'ok', None, 'cvc5'
    return 'unknown', None, 'z3+cvc5'


def cvc5_check(pc, f, ms):
    import subprocess, shutil
    if not shutil.which('cvc5'): return 'unknown'
    sv = z3.Solver()
    for p in pc: sv.add(p)
    sv.add(z3.Not(f))
    txt = '(set-logic ALL)\n' + sv.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % ms, '--lang=smt2', '-q'], input=txt, capture_output=True, text=True, timeout=ms / 1000 + 5)
        o = p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
        return o
    except Exception: return 'unknown'
