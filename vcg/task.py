"""Task context handed to proof functions."""
import os
import time
import traceback
from . import sym
from .build import Build, BuildError


class T:
    def __init__(self, build, name, tier, budget):
        self.build, self.name, self.tier = build, name, tier
        self.exs = []
        self.deadline = time.time() + budget
        self.notes = []

    def mod(self, src, defs=()):
        return self.build.module(src, defs)

    def ex(self, *srcs, **kw):
        mods = [s if not isinstance(s, str) else self.mod(s) for s in srcs]
        kw.setdefault('deadline', self.deadline)
        e = sym.Ex(mods, task=self.name, **kw)
        self.exs.append(e)
        return e


def fingerprint(mods, fname):
    for m in mods:
        f = m.funcs.get(fname)
        if f is not None:
            names = sorted(i.dst for b in f.blocks.values() for i in b if i.op == 'alloca' and not i.dst.startswith('tmp') and not i.dst.isdigit())
            return [names, len(f.loops())]
    return None


def run_task(build_dir, crc, name, fn, tier, budget, baseline):
    b = Build(crc=crc, root=build_dir)
    b.configured = True
    t = T(b, name, tier, budget)
    res = {'task': name, 'status': 'proved', 'error': '', 'obs': [], 'functions': [], 'time': 0.0,
           'loops': [], 'assumed': [], 'fallback': [], 'fingerprints': {}}
    t0 = time.time()
    try:
        fn(t)
    except sym.StopTask:
        pass
    except sym.Timeout as e:
        res['status'], res['error'] = 'unknown', 'budget: %s' % e
    except (sym.Abort, BuildError) as e:
        res['status'], res['error'] = 'abort', '%s: %s' % (type(e).__name__, e)
    except Exception as e:
        res['status'], res['error'] = 'abort', 'internal: %s' % traceback.format_exc()[-(1500 if not os.environ.get("VCG_TB") else 100000):]
    funcs, loops = set(), set()
    for e in t.exs:
        for o in e.obs:
            res['obs'].append({'label': o.label, 'where': o.where, 'status': o.status, 'backend': o.backend,
                               'time': round(o.time, 3), 'model': o.model, 'detail': o.detail})
        funcs |= e.funcs_seen
        loops |= e.loops_seen
        res['assumed'] += sorted(e.assumed)
        res['fallback'] += [list(x) for x in e.fallback_used]
        for fnm, idx, ann in e.loops_seen:
            if ann:
                res['fingerprints'][fnm] = fingerprint(e.mods, fnm)
    res['functions'] = sorted(funcs)
    res['loops'] = sorted([list(x) for x in loops])
    bad = [o for o in res['obs'] if o['status'] != 'ok']
    if bad and res['status'] != 'abort':
        if all(o['status'] == 'unknown' for o in bad):
            res['status'] = 'unknown'
        else:
            res['status'] = 'refuted'
    if bad and res['status'] == 'abort' and any(o['status'] == 'fail' and not o['label'].startswith('loop') for o in bad):
        res['status'] = 'refuted'
    if res['status'] == 'proved' and not res['obs']:
        res['status'], res['error'] = 'abort', 'no obligations generated'
    # annotations attach to loops by function, ordinal and local names: when any of those
    # changed the annotation no longer speaks about this code
    drift = res['fallback'][:]
    for fnm, fp in res['fingerprints'].items():
        b0 = baseline.get(fnm)
        if b0 is not None and b0 != fp:
            drift.append(fnm)
    if res['status'] == 'refuted' and drift:
        res['status'] = 'drift'
        res['error'] += ' annotated loops changed shape: %s' % drift
    res['time'] = round(time.time() - t0, 2)
    return res
