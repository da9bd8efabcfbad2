"""Extraction of /repo's current sources, task pool, evidence and verdict."""
import os, sys, subprocess, json, time, re, multiprocessing as mp, traceback, hashlib, shutil, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, models, monitor
from core import *

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
RES = '/usr/lib/llvm-18/lib/clang/18'

def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)

def incs():
    out = ['-I%s/%s/include' % (REPO, d) for d in sorted(os.listdir(REPO)) if d.startswith('aslam_cv_') and os.path.isdir('%s/%s/include' % (REPO, d))]
    return out + ['-I' + proto_dir(), '-I/usr/include/opencv4', '-I/usr/include/eigen3', '-I' + ROOT + '/stubs']

def proto_dir():
    src = REPO + '/aslam_cv_common/proto/aslam/common/id.proto'
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    d = os.path.join(BUILD, 'proto-' + h)
    if not os.path.exists(d + '/ok'):
        tmp = d + '.%d' % os.getpid(); os.makedirs(tmp, exist_ok=True)
        r = sh(['protoc', '-I' + REPO + '/aslam_cv_common/proto', '--cpp_out=' + tmp, src])
        if r.returncode: raise RuntimeError('protoc: ' + r.stderr)
        open(tmp + '/ok', 'w').close()
        try: os.rename(tmp, d)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return d

def tool():
    src = ROOT + '/tools/cxxast/cxxast.cc'; out = BUILD + '/cxxast'
    os.makedirs(BUILD, exist_ok=True)
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        tmp = out + '.%d' % os.getpid()
        r = sh(['clang++-18', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM-18.so'])
        if r.returncode: raise RuntimeError('cxxast: ' + r.stderr[-2000:])
        os.rename(tmp, out)
    return out

def extract(unit, roots, defs=()):
    out = '%s/ast-%s-%d.json' % (BUILD, unit, os.getpid())
    src = '%s/units/%s.cc' % (ROOT, unit)
    cmd = [tool(), '-roots', roots, '-prefixes', REPO + '/,' + ROOT + '/units/', '-o', out, src, '--', '-xc++', '-std=gnu++14', '-mssse3', '-resource-dir=' + RES] + incs() + ['-I' + REPO, '-include', 'opencv2/imgproc/imgproc_c.h', '-w'] + list(defs)
    r = sh(cmd)
    if r.returncode or not os.path.exists(out): raise RuntimeError('extraction of %s failed: %s' % (unit, r.stderr[-3000:]))
    try: return Prog(out)
    finally: os.unlink(out)


class Task:
    def __init__(s, name, fn, kind='proof', limit=600): s.name, s.fn, s.kind, s.limit = name, fn, kind, limit

class Env:
    def __init__(s, tier, seed): s.tier, s.seed, s.progs = tier, seed, {}
    def prog(s, unit, roots=None): return s.progs[unit]
    def ctx(s, unit, mode='int', **k):
        return Ctx(s.progs[unit], mode, **k)

def _child(env, t, q):
    try:
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        cx = t.fn(env)
        rs = cx if isinstance(cx, list) else [cx]
        out = []
        for c in rs:
            r = c.res if isinstance(c, Ctx) else c
            out.append(dict(obl=r.obl, paths=r.paths, solver_s=r.solver_s, queries=r.queries, backends=r.backends, functions=sorted(r.functions), models=sorted(r.models), assumed=sorted(r.assumed), unsupported=r.unsupported))
        q.put(('ok', out))
    except Unsupported as e: q.put(('unsupported', str(e)))
    except Exception as e: q.put(('error', traceback.format_exc()[-700:]))

def run_tasks(env, tasks, jobs=None, log=None, until=None):
    jobs = jobs or max(2, min(8, os.cpu_count() or 4))
    pend, run, done = list(tasks), [], {}
    ctxm = mp.get_context('fork')
    while pend or run:
        while pend and len(run) < jobs:
            if until and time.time() > until:
                for t in pend: done[t.name] = (t, ('timeout', 'no time left'), 0)
                pend = []; break
            t = pend.pop(0); q = ctxm.SimpleQueue()
            p = ctxm.Process(target=_child, args=(env, t, q)); p.start()
            run.append((t, p, q, time.time()))
        nxt = []
        for t, p, q, t0 in run:
            if not q.empty():
                done[t.name] = (t, q.get(), time.time() - t0); p.join(5)
                if p.is_alive(): p.kill()
            elif not p.is_alive():
                time.sleep(0.05)
                if not q.empty(): done[t.name] = (t, q.get(), time.time() - t0)
                else: done[t.name] = (t, ('error', 'task process died (exit %s)' % p.exitcode), time.time() - t0)
            elif time.time() - t0 > t.limit or (until and time.time() > until):
                p.kill(); p.join(); done[t.name] = (t, ('timeout', 'task exceeded its time'), time.time() - t0)
            else: nxt.append((t, p, q, t0))
        run = nxt
        time.sleep(0.03)
    return done
