from util import *
from monitor import *
UNITS = {'locks': r'^(aslam::|vu_)'}
BASE, RF = 'aslam::ReaderWriterMutex', 'aslam::ReaderFirstReaderWriterMutex'
FIELDS = ['pending_readers_', 'num_readers_', 'num_pending_writers_', 'current_writer_', 'pending_upgrade_']
GH = ['R', 'W', 'U', 'PW', 'PR']     # read locks held, write locks held, upgrades pending, writers waiting, readers waiting
METHODS = {  # method -> (contribution before, while asleep, after)
    'acquireReadLock': (dict(), dict(PR=1), lambda r: dict(R=1)),
    'releaseReadLock': (dict(R=1), dict(R=1), lambda r: dict()),
    'acquireWriteLock': (dict(), dict(PW=1), lambda r: dict(W=1)),
    'releaseWriteLock': (dict(W=1), dict(W=1), lambda r: dict()),
    'upgradeToWriteLock': (dict(R=1), dict(R=1, U=1), lambda r: dict(W=1) if r is True else dict()),
    'isInUse': (dict(), dict(), lambda r: dict()),
}
def method_id(p, cls, m):
    c = p.find(cls + '::' + m) or p.find(BASE + '::' + m)
    if not c: raise Unsupported('method %s not found' % m)
    return c[0]
def J(cls):
    def j(cx, F, g):
        b2i = lambda b: z3.If(cx.zb(b), 1, 0)
        out = [('reader count equals the read locks held', F['num_readers_'] == g['R']),
               ('writer flag set exactly while the write lock is held', b2i(F['current_writer_']) == g['W']),
               ('no read lock is held while the write lock is held', z3.Implies(g['W'] >= 1, g['R'] == 0)),
               ('upgrade flag set exactly while an upgrade is pending', b2i(F['pending_upgrade_']) == g['U'])]
        if cls == BASE:
            out += [('pending-writer count equals the writers waiting', F['num_pending_writers_'] == g['PW']), ('pending-reader count equals the readers waiting', F['pending_readers_'] == g['PR'])]
        else: out += [('waiting threads are not counted', AND(F['num_pending_writers_'] == 0, F['pending_readers_'] == 0))]
        return out
    return j
def ready(cx, F):   # no reader besides a pending upgrader
    return F['num_readers_'] <= z3.If(cx.zb(F['pending_upgrade_']), 1, 0)
def others_inv(g): return z3.And(g['U'] <= g['R'], *[g[k] < (1 << 30) for k in g])
def new_monitor(cx, cls, obj, tags, waits):
    rely = guar = None
    if cls == BASE:
        rely = lambda cx, a, b, mine, o: z3.Implies(z3.And(mine.get('PW', 0) >= 1 if not isinstance(mine.get('PW', 0), int) else z3.BoolVal(mine.get('PW', 0) >= 1), ready(cx, a)), ready(cx, b))
        guar = lambda cx, a, b, o: [('once a writer waits and the readers are gone none can come in', z3.Implies(z3.And(o['PW'] >= 1, ready(cx, a)), ready(cx, b)))]
    m = Monitor(cx, obj, 'mutex_', FIELDS, GH, J(cls), tags=tags, rely=rely, guarantee=guar, waits=waits, others_inv=others_inv)
    return m
def sleeper(m):
    """some other thread is inside method m and asleep"""
    g = {'upgradeToWriteLock': 'U', 'acquireWriteLock': 'PW', 'acquireReadLock': 'PR'}.get(m)
    return (lambda mon: mon.others[g] >= 1) if g else None
def run_method(env, cls, name, tags):
    cx = env.ctx('locks', 'int', opts=dict(fork_loops=True, unroll=12)); p = cx.prog
    fid = method_id(p, cls, name)
    meths = [method_id(p, cls, m) for m in METHODS]
    conds, bad = sleeping_conditions(p, [i for i in p.bodies if p.funcs[i].get('rec') is not None and p.tname(p.funcs[i]['rec']) in (BASE, cls) and not p.funcs[i].get('ctor') and (cls == BASE or i in meths or p.tname(p.funcs[i]['rec']) == cls or not p.funcs[i].get('virt'))])
    if cls == RF: conds = [c for c in conds if c[1] in meths or p.tname(p.funcs[c[1]]['rec']) == RF or not p.funcs[c[1]].get('virt')]
    if bad and 'wake' in tags: raise Unsupported('a wait without a condition loop')
    def run(cx):
        obj = cx.new_cell('lock', cx.sym('lock', rectype(p, cls)))
        waits = [(cv, p.funcs[f]['s'] + ' (' + cv + ')', condition_fn(cx, obj, f, k, ast), sleeper(p.funcs[f]['s'])) for cv, f, k, ast in conds]
        m = new_monitor(cx, cls, obj, tags, waits)
        before, asleep, after = METHODS[name]
        m.phase = before; m.wait_phase = lambda mm: asleep
        st, v = attempt(cx, lambda: call(cx, fid, obj))
        m.ob('J', 'the call does not refuse', st == 'ok')
        r = v
        if name in ('upgradeToWriteLock', 'isInUse'):
            r = cx.branch(cx.b(v))
        if name == 'isInUse':
            g = m.others
            used = z3.Or(g['R'] >= 1, g['W'] >= 1, g['U'] >= 1, *([g['PW'] >= 1, g['PR'] >= 1] if cls == BASE else []))
            m.ob('use', 'in-use query is true exactly when a thread holds or, as counted, waits for the lock', used == r)
        if name == 'upgradeToWriteLock':
            m.ob('upg', 'an upgrade is refused exactly when another one is already pending', cx.zb(m.first['pending_upgrade_']) == z3.BoolVal(not r))
            F = m.last[0] if m.last else m.state()
            if r: m.ob('upg', 'an upgrade is granted only to the sole remaining reader with no writer active', AND(m.snap['num_readers_'] == 1, m.others['R'] == 0, m.others['W'] == 0))
            else: m.ob('upg', 'a refused upgrade does not wait', m.sections == 1)
        m.finish(after(r)); cx.access = None
        cx.cover('end')
    cx.explore('%s::%s' % (cls.split('::')[1], name), run)
    return cx
def ctor_task(env, cls, tags):
    cx = env.ctx('locks', 'int'); p = cx.prog
    fid = [i for i in p.find(cls + '::' + cls.split('::')[1]) if not p.funcs[i]['pt']][0]
    def run(cx):
        obj = cx.new_cell('lock', cx.default(rectype(p, cls)))
        st, _ = attempt(cx, lambda: call(cx, fid, obj))
        cx.oblige('construction returns', st == 'ok')
        F = {f: cx.read(obj.fld(f)) for f in FIELDS}
        cx.oblige('all counters are initialised', not any(isinstance(v, Undef) for v in F.values()))
        z = {k: z3.IntVal(0) for k in GH}
        for nm, f in J(cls)(cx, {k: (z3.IntVal(v) if isinstance(v, int) and not isinstance(v, bool) else v) for k, v in F.items()}, z): cx.oblige('initially: ' + nm, f)
        cx.cover('end')
    cx.explore('%s constructor' % cls.split('::')[1], run); return cx
