"""check.py <property> <quick|thorough>: prove the property's contracts on /repo's current source."""
import os, sys, json, time, subprocess, importlib, traceback, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env as E
from env import *
sys.path.insert(0, E.ROOT + '/specs')

def log(*a): print(*a, flush=True)

class Replay:
    """compile and run the executable contract of the property against /repo's current source"""
    def __init__(s, pid, spec, tier, seed):
        s.pid, s.spec, s.tier, s.seed = pid, spec, tier, seed
        s.src = '%s/replay/%s.cc' % (E.ROOT, pid)
        s.bin = '%s/replay-%s-%d' % (E.BUILD, pid, os.getpid())
        s.p = None; s.err = None; s.out = ''; s.ran = False; s.fail = None; s.cases = 0
    def start(s):
        if not os.path.exists(s.src): s.err = 'no replay driver'; return
        secs = getattr(s.spec, 'REPLAY_SECS', (20, 200))[0 if s.tier == 'quick' else 1]
        flags = getattr(s.spec, 'REPLAY_FLAGS', ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'])
        libs = getattr(s.spec, 'REPLAY_LIBS', ['-lglog', '-lgflags', '-lprotobuf', '-pthread'])
        extra = getattr(s.spec, 'REPLAY_SRC', [])
        srcs = [x.replace('REPO', E.REPO).replace('PROTO', E.proto_dir()) for x in extra]
        s.cmd = ['g++', '-std=gnu++14', '-g1', '-O1', '-mssse3', '-w', '-include', 'opencv2/imgproc/imgproc_c.h', '-I' + E.REPO] + flags + E.incs() + ['-I' + E.ROOT + '/replay', s.src] + srcs + ['-o', s.bin] + libs
        s.secs = secs
        sh = 'ulimit -c 0; %s > %s.log 2>&1 || exit 99; exec timeout -k 5 %d %s %d %d' % (' '.join("'%s'" % c for c in s.cmd), s.bin, secs * 3 + 60, s.bin, s.seed, secs)
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_abort=0:max_allocation_size_mb=4000', UBSAN_OPTIONS='print_stacktrace=0', GLOG_logtostderr='1', GLOG_minloglevel='3')
        s.p = subprocess.Popen(['bash', '-c', sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=e, cwd=E.BUILD)
    def finish(s):
        if s.p is None: return
        try: s.out, _ = s.p.communicate(timeout=780)
        except subprocess.TimeoutExpired:
            s.p.kill(); s.out, _ = s.p.communicate(); s.err = 'replay driver timed out'
        rc = s.p.returncode
        if rc == 99:
            s.err = 'replay driver does not compile: ' + open(s.bin + '.log').read()[-1500:]
        elif rc == 0:
            s.ran = True
            m = re.findall(r'CASES (\d+)', s.out); s.cases = int(m[-1]) if m else 0
        elif rc in (124, 137):
            s.err = 'replay driver exceeded its time'
        else:
            s.ran = True
            m = re.search(r'^FAIL (.*)$', s.out, re.M)
            last = re.findall(r'^CASE (.*)$', s.out, re.M)
            san = re.findall(r'(?:runtime error: .*|ERROR: AddressSanitizer: .*|ERROR: ThreadSanitizer.*)', s.out)
            s.fail = dict(what=m.group(1) if m else (san[0] if san else 'driver died with status %s' % rc), case=last[-1] if last else '', sanitizer=san[:1], status=rc)
        for f in (s.bin, s.bin + '.log'):
            try: os.unlink(f)
            except OSError: pass

def main(pid, tier):
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = importlib.import_module(pid)
    env = Env(tier, seed)
    problems, tasks, done = [], [], {}
    os.makedirs(E.BUILD, exist_ok=True)
    rp = Replay(pid, spec, tier, seed)
    try: E.proto_dir(); rp.start()
    except Exception as e: problems.append('replay: %s' % e)
    try:
        for u, roots in spec.UNITS.items():
            env.progs[u] = E.extract(u, roots)
        tasks = spec.tasks(env)
    except Exception as e: problems.append('extraction: %s' % (str(e)[-1500:]))
    if not problems or tasks:
        done = run_tasks(env, [t for t in tasks if t.kind != 'fallback'], until=t0 + 450)
    fails, unknown, unsup, agg = [], [], [], dict(obl=0, ok=0, solver=0.0, queries=0, paths=0, functions=set(), models=set(), assumed=set(), backends={}, names={})
    def collect(done, bounded=False):
        for n, (t, (st, r), dt) in done.items():
            if st != 'ok': unsup.append((n, '%s: %s' % (st, r))); continue
            for d in r:
                agg['paths'] += d['paths']; agg['solver'] += d['solver_s']; agg['queries'] += d['queries']
                agg['functions'] |= set(d['functions']); agg['models'] |= set(d['models']); agg['assumed'] |= set(d['assumed'])
                for k, v in d['backends'].items(): agg['backends'][k] = agg['backends'].get(k, 0) + v
                for u in d['unsupported']: unsup.append((n, u))
                for on, o in d['obl'].items():
                    full = on
                    agg['obl'] += o['total']; agg['ok'] += o['ok']
                    x = agg['names'].setdefault(full, [0, 0]); x[0] += o['total']; x[1] += o['ok']
                    for f in o['fails']: fails.append((full, f, t))
                    for f in o['unknown']: unknown.append((full, f, t))
    collect(done)
    bounded_used = []
    def structural(n): return 'invariant' in n or 'lemma' in n
    # a proof that no longer fits the shape of the code: bounded unrolling of the same contract stands in
    if (unsup or unknown or any(structural(f[0]) for f in fails)) and tasks:
        fb = [t for t in tasks if t.kind == 'fallback']
        bad_tasks = set(n for n, _ in unsup) | set(f[2].name for f in unknown) | set(f[2].name for f in fails)
        fb = [t for t in fb if not getattr(t, 'covers', None) or t.covers & bad_tasks]
        if fb:
            log('proof structure does not fit the current code; bounded unrolling of the same contracts stands in')
            d2 = run_tasks(env, fb, until=t0 + 700)
            keep_f, keep_u, keep_s = fails[:], unknown[:], unsup[:]
            fails.clear(); unknown.clear(); unsup.clear()
            sv = (agg['obl'], agg['ok'])
            collect(d2)
            bounded_used = [t.name for t in fb]
            agg['bounded_obl'] = agg['obl'] - sv[0]; agg['obl'], agg['ok'] = sv
            covered = set().union(*[getattr(t, 'covers', set()) or bad_tasks for t in fb if done_ok(d2, t)]) if fb else set()
            fails += [f for f in keep_f if not (f[2].name in covered)]
            unknown += [f for f in keep_u]; unsup += [f for f in keep_s]
    rp.finish()
    # no bounded proof stands in: the executable contract decides (bounded by the cases it ran)
    shape = set(f[2].name for f in fails if structural(f[0]))
    if shape and rp.ran and not rp.fail and not rp.err:
        unsup += [(n, 'the loop or lemma contracts do not fit the current code') for n in sorted(shape)]
        fails[:] = [f for f in fails if f[2].name not in shape]
        bounded_used = list(bounded_used) + ['%s: executable contract on %d concrete cases' % (n, rp.cases) for n in sorted(shape)]
    kf = known_findings(pid)
    known_hit = []
    def is_known(name, text=''):
        for k in kf:
            if k.get('match') and (re.search(k['match'], name) or (text and re.search(k['match'], text))): known_hit.append(k); return True
        return False
    real = [f for f in fails if not is_known(f[0])]
    concrete = rp.fail if rp.fail and not is_known(rp.fail['what'], rp.fail['case']) else None
    outdir = E.BUILD + '/replays'; os.makedirs(outdir, exist_ok=True)
    rc = 0; viol = []
    if concrete or real:
        path = '%s/%s-%s.json' % (outdir, pid, tier)
        rec = dict(property=pid, failed_obligations=[dict(name=n, where=(f or {}).get('fn'), line=(f or {}).get('line'), info=(f or {}).get('info'), counterexample=(f or {}).get('witness'), verifier_output=((f or {}).get('model') or '')[:1500]) for n, f, _ in real[:20]],
                   undecided=[n for n, _, _ in unknown[:10]] + ['%s: %s' % u for u in unsup[:10]],
                   failing_input=concrete, driver_output=rp.out[-3000:] if concrete else '', seed=seed,
                   rerun='cd %s && VERIF_SEED=%d python3-vt engine/check.py %s %s' % (E.ROOT, seed, pid, tier))
        json.dump(rec, open(path, 'w'), indent=1, default=str)
        for n, f, _ in real[:10]: log('FAILED OBLIGATION', n, (f or {}).get('fn', ''), 'line', (f or {}).get('line', ''), 'counterexample', (f or {}).get('witness', ''))
        if concrete: log('FAILING INPUT', concrete['what'], '|', concrete['case'])
        log('VIOLATION property=%s replay=%s%s' % (pid, path, '' if concrete else ' no-failing-input-found'))
        viol = [concrete['what'] if concrete else real[0][0]]
        rc = 1
    for k in {json.dumps(k, sort_keys=True): k for k in known_hit}.values():
        log('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for n, f, _ in unknown[:10]: log('undecided obligation', n, (f or {}).get('line', ''))
    for n, u in unsup[:10]: log('outside verifier reach:', n, u)
    for p in problems: log('problem:', p[:800])
    if rp.err: log('replay driver:', rp.err[:1500])
    complete = not (unsup or unknown or problems or fails) and agg['obl'] > 0
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level='proof' if complete or rc else 'other',
              coverage=dict(obligations=agg['obl'], discharged=agg['ok'], checker_cmd='python3-vt engine/check.py %s %s' % (pid, tier), trusted_base=['cxxast (clang 18 AST export)', 'engine/core.py (VC generator)', 'engine/models.py (library contracts)', 'z3', 'cvc5'],
                            functions_under_contract=sorted(agg['functions']), library_contracts_assumed=sorted(agg['models']), back_ends=agg['backends'], solver_s=round(agg['solver'], 2), paths=agg['paths'], queries=agg['queries'],
                            obligation_groups={k: '%d/%d' % (v[1], v[0]) for k, v in sorted(agg['names'].items())},
                            undecided=[n for n, _, _ in unknown] + ['%s: %s' % u for u in unsup] + problems,
                            bounded_stand_ins=bounded_used + list(getattr(spec, 'BOUNDED', [])),
                            explored='%d obligations over %d paths; executable contract ran %d concrete cases' % (agg['obl'], agg['paths'], rp.cases),
                            replay_cases=rp.cases, replay_driver=rp.err or 'ran'),
              assumptions=sorted(agg['assumed']) + list(getattr(spec, 'ASSUMPTIONS', [])), wall_s=round(wall, 2), violations=viol)
    os.makedirs(E.ROOT + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (E.ROOT, pid), 'w'), indent=1, default=str)
    log('%s %s: %d/%d obligations discharged, %d paths, %d functions, %.1f s solver, %.1f s wall, replay cases %d%s' % (pid, tier, agg['ok'], agg['obl'], agg['paths'], len(agg['functions']), agg['solver'], wall, rp.cases, '' if complete else ' (INCOMPLETE)'))
    return rc

def done_ok(d, t):
    r = d.get(t.name)
    return bool(r) and r[1][0] == 'ok' and all(not x['unsupported'] and all(not o['fails'] and not o['unknown'] for o in x['obl'].values()) for x in r[1][1])
def known_findings(pid):
    try: return [k for k in json.load(open(E.ROOT + '/known_findings.json')) if k.get('property') == pid and k.get('status') == 'open']
    except FileNotFoundError: return []

if __name__ == '__main__':
    try: rc = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick')
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); rc = 0
        print('check machinery failed; nothing decided')
    sys.exit(rc)
