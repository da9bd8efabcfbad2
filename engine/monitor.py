"""Monitor reasoning for code whose shared state is protected by one mutex.

Every critical section is verified on its own: on acquiring the mutex the protected fields hold an arbitrary state
satisfying the monitor invariant J (other threads may have done anything their contracts allow), on releasing it or
going to sleep J must hold again for the new state.  Ghost counters record what every thread holds or waits for: `mine`
is the verified thread's own contribution in its current phase, `others` the sum over all other threads.
A sleeping condition that a critical section turns from true to false must be followed by notify_all on its condition
variable before the thread sleeps again or returns.  A second sleep at the same place with nothing changed since is
covered by the first (the state after waking is arbitrary in J both times)."""
import re, z3
from core import *
from models import *
import models, core

class Monitor:
    def __init__(s, cx, obj, mutex, fields, ghosts, J, tags=None, rely=None, guarantee=None, waits=(), others_inv=None, havoc=None):
        s.cx, s.obj, s.mutex, s.fields, s.ghosts, s.J = cx, obj, mutex, fields, ghosts, J
        s.tags, s.rely, s.guarantee, s.waits, s.others_inv, s.havoc_fn = tags, rely, guarantee, waits, others_inv, havoc
        s.held, s.phase, s.snap, s.first, s.owed, s.notified = False, None, None, None, [], set()
        s.others, s.visited, s.quiet, s.last, s.changed_since = None, {}, 0, None, 0
        s.sections = 0; s.log = []; s.exempt = set(); s.rely_always = False
        cx.monitor = s
        cx.access = s.access
    def ob(s, tag, name, f):
        if s.tags is None or tag in s.tags: s.cx.oblige(name, f)
        else: s.cx.assume_soft(s.cx.b(f))
    # field access -------------------------------------------------------------------------------
    def access(s, r, kind):
        if s.quiet or r.cell != s.obj.cell or not r.path: return
        base = s.obj.path
        if r.path[:len(base)] != base or len(r.path) <= len(base): return
        f = r.path[len(base)][1]
        if f in s.fields and f not in s.exempt and not s.held:
            s.quiet += 1
            s.ob('race', 'shared state is only accessed while holding the mutex', False)
            s.quiet -= 1
    def state(s):
        s.quiet += 1
        try: return {f: vcopy(s.cx.read(s.obj.fld(f))) for f in s.fields}
        finally: s.quiet -= 1
    def with_state(s, F, fn):
        cur = s.state(); h = s.held
        s.quiet += 1
        try:
            for f, v in F.items(): s.cx.store[s.obj.cell] = s.cx._upd(s.cx.store[s.obj.cell], s.obj.path + (('f', f),), vcopy(v))
            return fn()
        finally:
            for f, v in cur.items(): s.cx.store[s.obj.cell] = s.cx._upd(s.cx.store[s.obj.cell], s.obj.path + (('f', f),), v)
            s.quiet -= 1
    def total(s, mine): return {k: s.others[k] + mine.get(k, 0) for k in s.ghosts}
    # critical sections --------------------------------------------------------------------------
    def acquire(s, relying=None):
        cx = s.cx
        s.ob('mutex', 'the mutex is not locked twice by one thread', not s.held)
        s.held = True; s.sections += 1
        if s.last is not None:      # an earlier section of this call ended: it must have left the invariant in the phase it is in
            s.check_J(s.last[0], s.phase)
            if relying is None and s.rely_always: relying = s.last[0]
            s.last = None
        s.quiet += 1
        R = cx.fields_of(s.obj)
        for f in s.fields:
            if s.havoc_fn and f in s.havoc_fn: v = s.havoc_fn[f](cx)
            else: v = cx.sym('s_' + f, R[f])
            cx.store[s.obj.cell] = cx._upd(cx.store[s.obj.cell], s.obj.path + (('f', f),), v)
            if isz(v): cx.input('%s when section %d starts' % (f, s.sections), v)
        s.quiet -= 1
        s.others = {}
        for g in s.ghosts:
            v = cx.fresh('o_' + g, z3.IntSort()); cx.assume(v >= 0); s.others[g] = v
            cx.input('other threads: %s when section %d starts' % (g, s.sections), v)
        F = s.state()
        if s.others_inv: cx.assume(s.others_inv(s.others))
        for nm, f in s.J(cx, F, s.total(s.phase)): cx.assume(f)
        if relying is not None and s.rely: cx.assume(s.rely(cx, relying, F, s.phase, s.others))
        s.snap = F; s.notified = set()
        if s.first is None: s.first = F
    def check_J(s, F, mine):
        for nm, f in s.J(s.cx, F, s.total(mine)): s.ob('J', nm, f)
    def end_section(s):
        cx = s.cx; F = s.state()
        if s.guarantee:
            for nm, f in s.guarantee(cx, s.snap, F, s.others): s.ob('J', nm, f)
        for cv, lab, pred, asleep in s.waits:
            if s.snap is None: continue
            a = s.with_state(s.snap, pred); b = s.with_state(F, pred)
            t = AND(a, NOT(b)) if not (isinstance(a, bool) and isinstance(b, bool)) else (a and not b)
            if asleep is not None: t = AND(t, asleep(s))
            if t is False: continue
            if cv in s.notified: continue
            s.owed.append((cv, lab, t))
        return F
    def release(s):
        s.ob('mutex', 'the mutex is held when it is unlocked', s.held)
        F = s.end_section(); s.held = False
        s.last = (F, None)
    def settle(s, what):
        for cv, lab, t in s.owed: s.ob('wake', 'threads sleeping on %s are all notified once %s' % (lab, 'they can proceed'), NOT(t))
        s.owed = []
    def wait(s, cv, site, phase):
        cx = s.cx
        s.ob('mutex', 'the mutex is held when going to sleep', s.held)
        F = s.end_section(); s.phase = phase
        s.check_J(F, phase)
        s.settle('sleep')
        loc = {c: vcopy(v) for c, v in cx.store.items() if c != s.obj.cell}
        # locals that differ between two rounds are given arbitrary values after the wait
        var = {}
        for fr in cx.frames:
            for vid, r in fr.vars.items():
                if isinstance(r, Ref) and not r.path: var.setdefault(r.cell, (fr.label, vid))
        known = cx.__dict__.setdefault('wait_locals', {}).setdefault((cx.name, site), set())
        if site in s.visited:
            D = {c for c, v in s.visited[site].items() if not s.same_local(loc.get(c), v)}
            D = {c for c in D if c in var or not str(c).startswith(('v_', 'idx#', 'visited#', 'curkey#', 'more#', 'range#', 'key#', 'pair#', 'visit_order#'))}     # out of scope otherwise
            if any(c not in var for c in D): raise Unsupported('state outside the locals changes between two waits')
            D = {var[c] for c in D}
            if not D <= known: known |= D; cx.mod_changed = True
            raise PathEnd()
        s.visited[site] = loc
        for c in sorted(c for c in var if var[c] in known): cx.store[c] = cx.havoc_val(cx.store[c], 'local')
        s.held = False
        s.phase = phase
        relying = F; s.last = None
        s.acquire(relying)
    def same_local(s, a, b):
        if same_val(a, b): return True
        zs = lambda x: isz(x) or (isinstance(x, (int, bool)))
        try:
            if zs(a) and zs(b) and (isz(a) or isz(b)): return s.cx.hint(lambda: 1 if s.cx.valid(a == b) else 0) == 1
        except z3.Z3Exception: pass
        return False
    def notify(s, cv, every):
        if not every: s.log.append('notify_one ' + cv); return
        if s.held: s.notified.add(cv); s.owed = [o for o in s.owed if o[0] != cv]
        else: s.owed = [o for o in s.owed if o[0] != cv]
    def finish(s, mine):
        s.ob('mutex', 'the call returns without the mutex', not s.held)
        if s.held: s.last = (s.state(), None)
        if s.last is not None: s.check_J(s.last[0], mine)
        s.settle('return')

def same_val(a, b):
    if a is b: return True
    if isinstance(a, Rec) and isinstance(b, Rec): return a.f.keys() == b.f.keys() and all(same_val(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, (Arr,)) and isinstance(b, Arr): return len(a.items) == len(b.items) and all(same_val(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.items is not None and b.items is not None: return len(a.items) == len(b.items) and all(same_val(x, y) for x, y in zip(a.items, b.items))
        return same_val(a.n, b.n) and same_val(a.arr, b.arr)
    if isz(a) and isz(b): return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr): return repr(a.ref) == repr(b.ref)
    if isinstance(a, Undef) and isinstance(b, Undef): return True
    if type(a) != type(b) or isz(a) or isz(b): return False
    try: return bool(a == b)
    except Exception: return False

# ------------------------------------------------------------------ library contracts
for q in ('std::mutex', 'std::condition_variable'):
    def _d(q):
        @default_of(q)
        def _(cx, t): return Rec(t, {'__id': q})
        @model(q + '::' + q.split('::')[1])
        def _(cx, c): return Rec(c.node['t'], {'__id': q})
        SYM_TYPES[q] = lambda cx, base, t: Rec(t, {'__id': q})
    _d(q)
def mon_of(cx, mref):
    m = getattr(cx, 'monitor', None)
    if m is None: raise Unsupported('mutex without a monitor')
    if hasattr(m, 'for_mutex'): return m.for_mutex(mref)
    if repr(mref) != repr(m.obj.fld(m.mutex)): raise Unsupported('a mutex other than the monitor mutex')
    return m
def ul_ctor(cx, c):
    if not c.args: return Rec(c.node['t'], {'m': NULL, 'own': False})
    m = c.args[0]
    if len(c.args) > 1: 
        tn = cx.prog.tname(c.f['pt'][1])
        if 'defer_lock' in tn: return Rec(c.node['t'], {'m': Ptr(m), 'own': False})
        if 'adopt_lock' not in tn: raise Unsupported('lock constructor')
        return Rec(c.node['t'], {'m': Ptr(m), 'own': True})
    if not isinstance(m, Ref): raise Unsupported('lock constructor')
    v = cx.read(m)
    if isinstance(v, Rec) and 'm' in v.f: raise Unsupported('moved lock')
    mon_of(cx, m).acquire()
    return Rec(c.node['t'], {'m': Ptr(m), 'own': True})
MODELS['std::unique_lock::unique_lock'] = ul_ctor
MODELS['std::lock_guard::lock_guard'] = ul_ctor
def ul_dtor(cx, r):
    v = cx.read(r)
    if isinstance(v, Rec) and v.f.get('own') is True:
        mon_of(cx, v.f['m'].ref).release(); cx.write(r.fld('own'), False)
core.DTORS['std::unique_lock'] = ul_dtor
core.DTORS['std::lock_guard'] = ul_dtor
@model('std::unique_lock::lock')
def _(cx, c):
    v = cx.read(c.obj); m = mon_of(cx, v.f['m'].ref)
    m.acquire(); cx.write(c.obj.fld('own'), True)
@model('std::unique_lock::unlock')
def _(cx, c):
    v = cx.read(c.obj); m = mon_of(cx, v.f['m'].ref)
    m.ob('mutex', 'only a held lock is unlocked', v.f['own'] is True)
    m.release(); cx.write(c.obj.fld('own'), False)
@model('std::unique_lock::owns_lock', 'std::unique_lock::operator bool')
def _(cx, c): return cx.read(c.obj).f['own']
@model('std::mutex::lock')
def _(cx, c): mon_of(cx, c.obj).acquire()
@model('std::mutex::unlock')
def _(cx, c): mon_of(cx, c.obj).release()
def cv_name(cx, r):
    if not r.path: raise Unsupported('condition variable')
    return r.path[-1][1]
@model('std::condition_variable::notify_all')
def _(cx, c): cx.monitor.notify(cv_name(cx, c.obj), True)
@model('std::condition_variable::notify_one')
def _(cx, c): cx.monitor.notify(cv_name(cx, c.obj), False)
@model('std::condition_variable::wait')
def _(cx, c):
    lk = cx.read(c.args[0]); m = mon_of(cx, lk.f['m'].ref)
    m.ob('mutex', 'the mutex is held when going to sleep', lk.f['own'] is True)
    site = (tuple(f.label for f in cx.frames), cx.cur_line)
    if len(c.args) == 1: m.wait(cv_name(cx, c.obj), site, m.wait_phase(m)); return None
    while not cx.branch(cx.b(rd(cx, cx.call_functor(c.args[1], [])))): m.wait(cv_name(cx, c.obj), site, m.wait_phase(m))

# ------------------------------------------------------------------ sleeping conditions, read off the code
def sleeping_conditions(prog, fids):
    """[(cv member, label, fid, kind, ast)]: every `while (cond) cv.wait(lock)` and cv.wait(lock, pred) in the given bodies"""
    out, bad = [], []
    def wait_calls(j):
        r = []
        def w(x):
            if isinstance(x, dict):
                if x.get('k') == 'call' and 'f' in x and prog.funcs[x['f']]['q'] == 'std::condition_variable::wait': r.append(x)
                for v in x.values(): w(v)
            elif isinstance(x, list):
                for v in x: w(v)
        w(j); return r
    def cvname(x):
        e = x['obj']
        while e['k'] == 'cast': e = e['e']
        return e['n'] if e['k'] == 'mem' else None
    def scan(fid, j):
        if isinstance(j, dict):
            if j.get('k') == 'while' and wait_calls(j['s']):
                body = j['s']['s'] if j['s']['k'] == 'blk' else [j['s']]
                if len(body) >= 1 and all(b['k'] in ('expr', 'nop') for b in body):
                    for c in wait_calls(j['s']):
                        if len(c['args']) == 1: out.append((cvname(c), fid, 'cond', j['c']))
                        else: out.append((cvname(c), fid, 'pred', c['args'][1]))
                    return
            if j.get('k') == 'call' and 'f' in j and prog.funcs[j['f']]['q'] == 'std::condition_variable::wait':
                if len(j['args']) == 2: out.append((cvname(j), fid, 'pred', j['args'][1]))
                else: bad.append((fid, j.get('l')))
                return
            for v in j.values(): scan(fid, v)
        elif isinstance(j, list):
            for v in j: scan(fid, v)
    for f in fids: scan(f, prog.bodies[f]['body'])
    return out, bad
def condition_fn(cx, obj, fid, kind, ast):
    """evaluates a sleeping condition of the code in the current state of obj"""
    def go():
        fr = Frame(fid, 'condition'); fr.this = obj
        cx.frames.append(fr)
        try:
            if kind == 'cond': return cx.zbv(cx.rv(ast))
            clo = cx.rv(ast); v = cx.call_functor(clo, [])
            return NOT(cx.zbv(rd(cx, v)))
        finally: cx.frames.pop()
    return go
