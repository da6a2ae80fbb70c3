"""Common driver of all checks:  python mc/check.py <ID> [--tier quick|thorough] [--replay FILE]"""
import importlib
import json
import multiprocessing as mp
import os
import pickle
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from mc import engine  # noqa: E402

WORKERS = int(os.environ.get('MC_WORKERS', '8'))


class Job:
    """one bounded exploration: a scenario on `size` ranks with `args`; all its choice points are enumerated
    when explore=True, otherwise the canonical schedule is run (sufficient without wildcards / shared files)."""

    def __init__(self, key, size, func, args=(), mode='sync', explore=False, bound=None, group=None, timeout=240.,
                 meta=None, seed=1, cost=None):
        self.key, self.size, self.func, self.args = key, size, func, args
        self.mode, self.explore, self.bound, self.group = mode, explore, bound, group
        self.timeout, self.meta, self.seed = timeout, meta, seed
        self.cost = cost if cost is not None else size

    def spec(self):
        return dict(key=self.key, size=self.size, func=self.func, args=self.args, mode=self.mode,
                    explore=self.explore, bound=self.bound, group=self.group, seed=self.seed)


class Res:
    pass


FARM = None


def _one(job):
    t0 = time.time()
    mod, fn = job.func.split(':')
    r = Res()
    r.key = job.key
    r.execs = []
    r.transitions = 0
    r.nexec = 0
    r.error = None
    try:
        if job.explore:
            seen = {}
            for x in engine.explore(FARM, job.size, mod, fn, job.args, mode=job.mode, bound=job.bound,
                                    timeout=job.timeout, seed=job.seed):
                r.nexec += 1
                r.transitions += x.transitions
                k = pickle.dumps((x.outcome, x.results if x.outcome == 'ok' else None))
                if k not in seen:
                    seen[k] = x
                    r.execs.append(x)
        else:
            x = engine.run(FARM, job.size, mod, fn, job.args, mode=job.mode, timeout=job.timeout, seed=job.seed)
            r.nexec = 1
            r.transitions = x.transitions
            r.execs.append(x)
            if x.points:
                r.error = f'unexpected choice points in {job.key}: {x.points[:3]}'
    except BaseException:
        r.error = traceback.format_exc()
    r.wall = time.time() - t0
    return r


def _worker(q, out):
    while True:
        j = q.get()
        if j is None:
            return
        i, job = j
        out.put(pickle.dumps((i, _one(job))))


def _plain(o):
    """a form of the job specification that fits in a json file (the complete one is in the .pkl beside it)"""
    if isinstance(o, dict):
        return {str(k): _plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_plain(v) for v in o]
    return o if isinstance(o, (int, float, str, bool, type(None))) else repr(o)[:2000]


class Checker:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations = []        # (key, message, spec)
        self.states = 0
        self.transitions = 0
        self.execs = 0
        self.real = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.outcomes = {}
        self.t0 = time.time()
        self.findings = load_findings(prop)

    @property
    def quick(self):
        return self.tier == 'quick'

    def bad(self, key, msg, spec=None):
        self.violations.append((key, msg, spec))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    # ---- running jobs ---------------------------------------------------------------------
    def run(self, jobs, judge=None):
        """run all jobs in parallel; default judgement on every execution; returns {key: Res}"""
        jobs = list(jobs)
        assert len({j.key for j in jobs}) == len(jobs), 'job keys must be unique'
        res = {}
        order = sorted(range(len(jobs)), key=lambda i: -jobs[i].cost)
        ctx = mp.get_context('fork')
        q, out = ctx.Queue(), ctx.Queue()
        n = max(1, min(WORKERS, len(jobs)))
        for i in order:
            q.put((i, jobs[i]))
        for _ in range(n):
            q.put(None)
        ws = [ctx.Process(target=_worker, args=(q, out), daemon=True) for _ in range(n)]
        for w in ws:
            w.start()
        done = 0
        while done < len(jobs):
            try:
                i, r = pickle.loads(out.get(timeout=5))
            except Exception as e:
                if e.__class__.__name__ != 'Empty':
                    raise
                if not any(w.is_alive() for w in ws):
                    raise RuntimeError('all workers died')
                continue
            done += 1
            job = jobs[i]
            if r.error:
                raise RuntimeError(f'harness error in {job.key}: {r.error}')
            res[job.key] = r
            self.execs += r.nexec
            self.transitions += r.transitions
            for x in r.execs:
                self.outcomes[x.outcome] = self.outcomes.get(x.outcome, 0) + 1
                spec = dict(job.spec(), choices=x.choices)
                if x.outcome != 'ok':
                    self.bad(f'{job.key}/{x.outcome}', x.detail, spec)
                    continue
                for rk, d in enumerate(x.results):
                    if isinstance(d, dict):
                        for b in d.get('bad', ()):
                            k, m = b if isinstance(b, tuple) else ('', b)
                            self.bad(f'{job.key}/{k}', f'rank {rk} of {job.size}: {m}', spec)
                        self.states += d.get('states', 0)
                        self.transitions += d.get('trans', 0)
                if judge is not None:
                    for k, m in judge(job, x) or ():
                        self.bad(f'{job.key}/{k}', m, spec)
        for w in ws:
            w.join()
        if os.environ.get('MC_TIMES'):
            for k, r in sorted(res.items(), key=lambda kr: -kr[1].wall)[:12]:
                print(f'   {r.wall:7.1f}s {k}')
        if jobs:
            j = jobs[len(jobs) // 2]
            self.sample(dict(job=j.key, ranks=j.size, scenario=j.func, args=repr(j.args)[:300],
                             executions=res[j.key].nexec, transitions=res[j.key].transitions,
                             outcome=[x.outcome for x in res[j.key].execs][:5]))
        return res

    # ---- verdict ----------------------------------------------------------------------------
    def finish(self, model_note=''):
        known, new = {}, []
        for key, msg, spec in self.violations:
            f = next((f for f in self.findings if re.search(f['key'], key)), None)
            if f is not None:
                known.setdefault(f['what'], []).append(key)
            else:
                new.append((key, msg, spec))
        for what, keys in known.items():
            print(f'KNOWN-FINDING: property={self.prop} {what} ({len(keys)} case(s))')
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=int(self.states), transitions=int(self.transitions),
                                traces_validated_against_impl=int(self.execs + self.real),
                                samples=self.samples, executions_on_virtual_mpi=self.execs,
                                executions_on_real_mpi=self.real, outcomes=self.outcomes, **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=repr)
        print(f'{self.prop}: states={self.states} transitions={self.transitions} executions={self.execs} '
              f'real-mpi={self.real} violations={len(new)} known={sum(map(len, known.values()))} '
              f'wall={ev["wall_s"]}s', flush=True)
        if os.environ.get('MC_SUMMARY'):
            cat = {}
            for k, m, _ in new:
                cat.setdefault(k.split('/')[-1], []).append((k, m))
            for k, v in sorted(cat.items()):
                print(f'   [{k}] x{len(v)}')
                for kk, m in v[:: max(1, len(v) // 3)][:4]:
                    print(f'        {kk}: {str(m)[-700:]}')
        if not new:
            return 0
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', f'{self.prop}.json')
        new.sort(key=lambda v: (v[2]['size'] if v[2] else 0, len(str(v[0]))))
        with open(path, 'w') as fh:
            json.dump([dict(key=k, message=m, spec=_plain(s)) for k, m, s in new[:20]], fh, indent=1, default=repr)
        with open(path[:-5] + '.pkl', 'wb') as fh:
            pickle.dump([(k, m, s) for k, m, s in new[:20]], fh)
        for k, m, s in new[:5]:
            print(f'-- {k}: {str(m)[-900:]}')
        print(f'VIOLATION property={self.prop} replay={path}', flush=True)
        return 1


def load_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) :: (.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append(dict(key=m.group(2), what=m.group(3)))
    return out


def main():
    global FARM
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module(f'mc.props.{prop.lower()}')
    maxsize = getattr(mod, 'RANKS', {}).get(tier, 6 if tier == 'thorough' else 4)
    if '--replay' in sys.argv:
        return replay(sys.argv[sys.argv.index('--replay') + 1], maxsize, getattr(mod, 'LIGHT', False))
    c = Checker(prop, tier, seed)
    if maxsize:
        FARM = engine.Farm(maxsize, seed=seed, light=getattr(mod, 'LIGHT', False))
    try:
        mod.check(c)
        rc = c.finish()
    finally:
        if FARM:
            FARM.close()
    return rc


def replay(path, maxsize, light=False):
    """re-run every recorded violation: python mc/check.py C01 --replay replays/C01.json"""
    global FARM
    FARM = engine.Farm(maxsize, light=light)
    rc = 0
    with open(path[:-5] + '.pkl', 'rb') as fh:
        items = pickle.load(fh)
    for k, m, s in items:
        print('==', k)
        if s is None or 'func' not in s:
            print('   ', m)
            continue
        mod, fn = s['func'].split(':')
        x = engine.run(FARM, s['size'], mod, fn, s['args'], choices=s['choices'], mode=s['mode'], seed=s['seed'],
                       trace=True)
        print('   ', x.outcome, x.detail[-1500:])
        if x.results:
            for d in x.results:
                if isinstance(d, dict):
                    for b in d.get('bad', ())[:5]:
                        print('   ', b)
        rc = 1
    FARM.close()
    return rc


if __name__ == '__main__':
    # the module must be importable under one name only
    from mc import check as _c
    try:
        sys.exit(_c.main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
