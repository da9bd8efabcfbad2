"""L04: scoped lock guards."""
from lockutil import *
REPLAY_SRC = ['REPO/aslam_cv_common/src/reader-writer-lock.cc', 'REPO/aslam_cv_common/src/reader-first-reader-writer-lock.cc']
REPLAY_SECS = (8, 60)
def t_guard(env, cls, acq, rel):
    cx = env.ctx('locks', 'int'); p = cx.prog
    q = 'aslam::%s::%s' % (cls, cls)
    T = rectype(p, 'aslam::' + cls)
    ct = [i for i in p.find(q) if not p.funcs[i].get('copy') and not p.funcs[i].get('move')][0]
    mv = [i for i in p.find(q) if p.funcs[i].get('move')][0]
    log = []
    def contracts():
        log.clear()
        for n in ('acquireReadLock', 'releaseReadLock', 'acquireWriteLock', 'releaseWriteLock', 'upgradeToWriteLock', 'isInUse'):
            def c(cx_, c_, n=n): log.append((n, repr(c_.obj))); return True if n in ('upgradeToWriteLock', 'isInUse') else None
            cx.contracts[BASE + '::' + n] = c
    def lock(cx): return cx.new_cell('lock', cx.sym('lock', rectype(p, BASE)))
    def guard(cx, ptr): return cx.new_cell('guard', Rec(T, {cx.fields(T)[0][0]: ptr}))
    def state(cx, g):
        v = cx.read(g).f[cx.fields(T)[0][0]]; return v
    def own(cx):
        """a guard as left by construction"""
        lk = lock(cx); g = cx.new_cell('guard', cx.default(T))
        st, _ = attempt(cx, lambda: call(cx, ct, g, Ptr(lk)))
        return lk, g, st
    def r_ctor(cx):
        contracts(); lk, g, st = own(cx)
        cx.oblige('construction acquires the lock exactly once', AND(st == 'ok', log == [(acq, repr(lk))])); cx.cover('end')
    cx.explore(cls + ' construction', r_ctor)
    def r_null(cx):
        contracts(); g = cx.new_cell('guard', cx.default(T))
        st, _ = attempt(cx, lambda: call(cx, ct, g, NULL))
        cx.oblige('a null lock is refused', AND(st == 'abort', log == [])); cx.cover('end')
    cx.explore(cls + ' null', r_null)
    def r_dtor(cx):
        contracts(); lk, g, st = own(cx); log.clear()
        st, _ = attempt(cx, lambda: cx.destroy(g, T))
        cx.oblige('destroying an owning guard releases the lock exactly once', AND(st == 'ok', log == [(rel, repr(lk))])); cx.cover('end')
    cx.explore(cls + ' destruction', r_dtor)
    def r_move(cx):
        contracts(); lk, g, st = own(cx); log.clear()
        h = cx.new_cell('target', cx.default(T))
        st, _ = attempt(cx, lambda: call(cx, mv, h, g))
        cx.oblige('moving neither acquires nor releases', AND(st == 'ok', log == []))
        k = cx.choose(2)       # either may be destroyed first
        a, b = ((g, h), (h, g))[k]
        log.clear(); attempt(cx, lambda: cx.destroy(a, T)); l1 = list(log); log.clear(); attempt(cx, lambda: cx.destroy(b, T)); l2 = list(log)
        lg, lh = (l1, l2) if k == 0 else (l2, l1)
        cx.oblige('a moved-from guard releases nothing', lg == [])
        cx.oblige('the move target releases the lock exactly once', lh == [(rel, repr(lk))]); cx.cover('end')
    cx.explore(cls + ' move', r_move)
    def r_movenull(cx):
        # moving on from a moved-from guard: still nothing to release anywhere but at the end of the chain
        contracts(); lk, g, st = own(cx)
        h = cx.new_cell('target', cx.default(T)); call(cx, mv, h, g)
        h2 = cx.new_cell('target2', cx.default(T)); call(cx, mv, h2, g)
        h3 = cx.new_cell('target3', cx.default(T)); call(cx, mv, h3, h); log.clear()
        tot = []
        for x in (g, h, h2, h3): log.clear(); attempt(cx, lambda: cx.destroy(x, T)); tot.append(list(log))
        cx.oblige('only the last guard of the chain releases', tot == [[], [], [], [(rel, repr(lk))]]); cx.cover('end')
    cx.explore(cls + ' chain', r_movenull)
    return cx
def tasks(env):
    return [Task('ScopedReadLock', lambda env: t_guard(env, 'ScopedReadLock', 'acquireReadLock', 'releaseReadLock')),
            Task('ScopedWriteLock', lambda env: t_guard(env, 'ScopedWriteLock', 'acquireWriteLock', 'releaseWriteLock'))]
