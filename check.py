#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--tier quick|thorough]: prove the property's contracts on /repo's
current source, then run its replay harness.  See DESIGN.md for the outcome policy."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def worker(args):
    build_dir, crc, mod, name, tier, budget, baseline, q = args


def child(conn, build_dir, crc, mod, idx, tier, budget, baseline):
    sys.setrecursionlimit(200000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = {}

    def go():
        from vcg.task import run_task
        m = importlib.import_module('props.' + mod)
        name, fn = m.TASKS[idx][:2]
        out['r'] = run_task(build_dir, crc, name, fn, tier, budget, baseline)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    conn.send(out.get('r'))
    conn.close()


def run_tasks(build, mod, tasks, tier, budget, baseline, jobs, only=None):
    ctx = mp.get_context('fork')
    pending = [i for i in range(len(tasks)) if only is None or only in tasks[i][0]]
    running = []
    results = {}
    while pending or running:
        while pending and len(running) < jobs:
            i = pending.pop(0)
            a, b = ctx.Pipe(False)
            bud = budget
            p = ctx.Process(target=child, args=(b, build.dir, build.crc, mod, i, tier, bud, baseline))
            p.start()
            b.close()
            running.append((i, p, a, time.time()))
        time.sleep(0.02)
        still = []
        for i, p, a, t0 in running:
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = None
                p.join()
                if r is None:
                    r = {'task': tasks[i][0], 'status': 'abort', 'error': 'worker died', 'obs': [], 'functions': [], 'time': 0, 'loops': [], 'assumed': [], 'fallback': [], 'fingerprints': {}}
                results[i] = r
            elif time.time() - t0 > budget + 60:
                p.kill()
                p.join()
                results[i] = {'task': tasks[i][0], 'status': 'unknown', 'error': 'hard budget', 'obs': [], 'functions': [], 'time': time.time() - t0, 'loops': [], 'assumed': [], 'fallback': [], 'fingerprints': {}}
            else:
                still.append((i, p, a, t0))
        running = still
    return [results[i] for i in sorted(results)]


def run_harness(build, prop, P, tier, seed, deep):
    """native harness over the real library.  returns dict"""
    H = getattr(P, 'HARNESS', None)
    if not H:
        return {'ran': False}
    out = os.path.join(build.dir, 'h_' + prop)
    t0 = time.time()
    from vcg.build import BuildError
    try:
        lib = build.lib()
        build.native([os.path.join(HERE, 'harness', H['src'])] + [lib], out, extra=['-DVERIF_HARNESS', '-lm', '-lpthread'] + H.get('cflags', []))
    except BuildError as e:
        return {'ran': False, 'build_error': str(e)}
    scale = H.get('scale', 1)
    n = {'quick': 1, 'thorough': 8}[tier] * (3 if deep else 1) * scale
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0')
    procs = []
    jobs = H.get('jobs', 8)
    limit = 420 if tier == 'quick' else 3600
    for j in range(jobs):
        cmd = [out, str(seed * 1000 + j), str(n), str(j), str(jobs)]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=build.dir)))
    fail = None
    cases = 0
    timeouts = 0
    for cmd, p in procs:
        try:
            o = p.communicate(timeout=max(5, limit - (time.time() - t0)))[0].decode('latin-1')
        except subprocess.TimeoutExpired:
            p.kill()
            o = p.communicate()[0].decode('latin-1')
            timeouts += 1
            # a library call that never returns is reported by the harness's own alarm
            continue
        for ln in o.split('\n'):
            if ln.startswith('CASES '):
                cases += int(ln.split()[1])
        if p.returncode != 0 and fail is None:
            fail = {'cmd': ['<harness %s>' % H['src']] + cmd[1:], 'rc': p.returncode, 'output': o[-4000:]}
    return {'ran': True, 'fail': fail, 'cases': cases, 'time': round(time.time() - t0, 1), 'timeouts': timeouts,
            'what': H.get('what', ''), 'bound': H.get('bound', '')}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--no-harness', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--baseline', action='store_true', help='record loop fingerprints of this tree')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = importlib.import_module('props.' + prop)
    from vcg.build import Build, BuildError
    bl_path = os.path.join(HERE, 'baseline.json')
    baseline = json.load(open(bl_path)) if os.path.exists(bl_path) else {}
    known = []
    kf = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(kf):
        for ln in open(kf):
            if ln.startswith('known: property=%s ' % prop):
                known.append(ln.split(' ', 2)[2].strip())
    b = Build(crc=True)
    try:
        build_err = None
        try:
            b.configure()
        except BuildError as e:
            build_err = str(e)
        tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
        budget = getattr(P, 'BUDGET', 240) * (1 if tier == 'quick' else 4)
        res = []
        if not a.no_proof and not build_err:
            res = run_tasks(b, prop, P.TASKS, tier, budget, baseline, a.jobs, a.only)
        bad = [r for r in res if r['status'] != 'proved']
        for r in res:
            nob = len(r['obs'])
            if a.v or r['status'] != 'proved':
                print('task %-34s %-8s %4d obligations %6.1fs %s' % (r['task'], r['status'], nob, r['time'], r['error'][-600:]))
                for o in r['obs']:
                    if a.v and o['time'] > 2:
                        print('    slow %.1fs %s [%s]' % (o['time'], o['label'], o['backend']))
                    if o['status'] != 'ok':
                        print('    FAILED %s in %s [%s] %s %s' % (o['label'], o['where'], o['status'], o['model'] or '', o['detail'][:200]))
        if a.baseline:
            for r in res:
                if r['status'] == 'proved':
                    baseline.update(r['fingerprints'])
            json.dump(baseline, open(bl_path, 'w'), indent=0, sort_keys=True)
        hr = {'ran': False}
        if not a.no_harness and not build_err:
            hr = run_harness(b, prop, P, tier, seed, bool(bad))
            if hr.get('build_error'):
                print('harness does not build: ' + hr['build_error'][:800])
            elif hr['ran']:
                print('harness: %d cases, %.1fs%s' % (hr['cases'], hr['time'], ' FAILED' if hr['fail'] else ''))
                if hr['fail']:
                    print(hr['fail']['output'][-1500:])
        # -------- verdict
        violations = []
        rdir = os.path.join(HERE, 'replay')
        os.makedirs(rdir, exist_ok=True)
        refuted = [r for r in res if r['status'] == 'refuted']
        rc = 0
        if hr.get('fail'):
            path = os.path.join(rdir, prop + '.json')
            json.dump({'property': prop, 'harness': P.HARNESS['src'], 'args': hr['fail']['cmd'][1:], 'output': hr['fail']['output'],
                       'how': 'python3-vt check.py %s rebuilds the harness against /repo and runs it with these arguments' % prop,
                       'failed_obligations': [{'task': r['task'], 'obs': [o for o in r['obs'] if o['status'] != 'ok']} for r in bad]},
                      open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            violations.append({'replay': path, 'input': True})
            rc = 1
        elif refuted:
            path = os.path.join(rdir, prop + '.json')
            json.dump({'property': prop, 'failed_obligations': [{'task': r['task'], 'obs': [o for o in r['obs'] if o['status'] != 'ok']} for r in refuted]},
                      open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
            violations.append({'replay': path, 'input': False})
            rc = 1
        elif bad or build_err:
            print('NOT RE-ESTABLISHED: %d of %d proof tasks gave no verdict on this source; the bounded harness found no failing input'
                  % (len(bad), len(res)))
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        # -------- evidence
        nob = sum(len(r['obs']) for r in res)
        nok = sum(1 for r in res for o in r['obs'] if o['status'] == 'ok')
        be = {}
        st = 0.0
        for r in res:
            for o in r['obs']:
                be[o['backend']] = be.get(o['backend'], 0) + 1
                st += o['time']
        level = getattr(P, 'LEVEL', 'proof')
        cov = {
            'obligations': nob, 'discharged': nok,
            'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (prop, tier),
            'trusted_base': ['/verif/vcg (LLVM-IR VC generator: ir.py, sym.py)', 'clang 18 -O0 front end (C to IR)', 'z3 5.3', 'cvc5 1.1.2'] + getattr(P, 'TRUSTED', []),
            'functions_under_contract': sorted(set(f for r in res for f in r['functions'])),
            'by_backend': be, 'solver_s': round(st, 2),
            'tasks': [{'task': r['task'], 'status': r['status'], 'obligations': len(r['obs']), 's': r['time'], 'error': r['error'][:300]} for r in res],
            'annotated_loops': sorted(set('%s#%d' % (l[0], l[1]) for r in res for l in r['loops'] if l[2])),
            'unrolled_loops': sorted(set('%s#%d' % (l[0], l[1]) for r in res for l in r['loops'] if not l[2])),
            'bounded_standin': {'covers': getattr(P, 'BOUNDED', 'nothing beyond re-checking the contracts on concrete runs'),
                                'harness_cases': hr.get('cases', 0), 'bound': hr.get('bound', ''), 'ran': hr['ran'], 's': hr.get('time', 0)},
            'not_re_established': [r['task'] for r in bad if r['status'] != 'refuted'],
        }
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
              'assumptions': getattr(P, 'ASSUMPTIONS', []) + sorted(set(x for r in res for x in r['assumed'])),
              'wall_s': round(time.time() - t0, 1), 'violations': len(violations)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
        print('%s: %d/%d obligations discharged, %d functions, %d tasks, wall %.1fs' % (prop, nok, nob, len(cov['functions_under_contract']), len(res), time.time() - t0))
        return rc
    finally:
        b.close()


if __name__ == '__main__':
    sys.exit(main())
