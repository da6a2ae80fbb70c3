"""C11: saved objects read back equal: histories of saves and reads, all writer x reader rank counts, cut files."""
from mc.check import Job
from mc.scen import common as cm
from mc.scen.saveread import KINDS2, KINDS3


def check(c):
    q = c.quick
    sizes = (1, 2, 3) if q else (1, 2, 3, 4, 6)
    cfg = [('arch', [1, 1, 2]), ('c3a', [1, 2, 1]), ('c2a', [2, 1]), ('chp1', [1, 2])] if q else \
        [('arch', [1, 1, 2]), ('c3a', [1, 2, 1]), ('p3', [2, 1, 1]), ('cubd', [1, 1, 1]), ('one3', [2, 2, 2]), ('cubp', [1, 1, 1]),
         ('c2a', [2, 1]), ('chp1', [1, 2]), ('p2', [2, 2]), ('rect32', [1, 3]), ('one2', [3, 2]), ('cic', [1, 2])]
    jobs = []
    for nm, p in cfg:
        d = cm.dim(nm)
        kinds = KINDS3 if d == 3 else KINDS2
        if q and d == 3:
            kinds = [k for j, k in enumerate(kinds) if (j + (nm == 'arch')) % 2]
        n = cm.num_elements(nm)
        for s in sizes:
            parts = [None] if s == 1 else [None, cm.some_parts(n, s, 6)[(c.seed + s) % 6 if n > 1 else 0]]
            if q:
                parts = parts[-1:]
            for pt in parts:
                jobs.append(Job(f'write/{nm}/{s}/{pt}', s, 'mc.scen.saveread:write', (d, nm, p, kinds, pt), timeout=600, cost=40 * s * d, meta=(nm, n)))
    for d in (2, 3):
        for s in (1, 2) if q else (1, 2, 3):
            o, k = (2, 1) if q or s == 3 else (3, 10)
            for a in range(k):
                jobs.append(Job(f'history{o}/{d}/{s}/{a}', s, 'mc.scen.saveread:history', (d, o, None if s == 1 else (1,) * s if s == 4 else None, (a, k)), timeout=900, cost=80 * s * d))
            jobs.append(Job(f'inputs/{d}/{s}', s, 'mc.scen.saveread:inputs', (d,), cost=5))
    if q:
        # all histories of length 3 over the operations that touch the caches
        for d in (2, 3):
            for a in range(3):
                jobs.append(Job(f'history3c/{d}/1/{a}', 1, 'mc.scen.saveread:history', (d, 3, None, (a, 3), [2, 3, 4, 5, 7, 8]), timeout=900, cost=90 * d))
    files = {}

    def judge(job, x):
        if job.key.startswith('write') and x.results and x.results[0]:
            files[job.key] = (job, x.results[0]['files'])
        return ()
    c.run(jobs, judge)
    jobs = []
    for key, (job, fs) in sorted(files.items()):
        nm, n = job.meta
        for s in sizes:
            parts = [None] if job.args[4] is None else [p for p in cm.some_parts(n, s, 6)][(0 if q else None):(1 if q else None)] if s > 1 else [None]
            for pt in parts:
                if q and job.size == s and s > 1:
                    continue
                jobs.append(Job(f'read/{key[6:]}/{s}/{pt}', s, 'mc.scen.saveread:reads', (fs, pt), timeout=600, cost=60 * s * job.args[0]))
        if job.size == 1 and nm in ('arch', 'c2a'):
            pick = [f for f in fs if f[0] in ('mesh', 'pair1')]
            for fn, data, want, _ in pick:
                for a in range(2):
                    jobs.append(Job(f'cut/{nm}/{fn}/{a}', 1, 'mc.scen.saveread:cut', (data, want, 1, (a, 2)), timeout=600, cost=20))
    c.run(jobs)
    c.assumptions.append('forms without cochain and local trace forms are refused by save; only the last mesh and space read are cached, so sharing is required of objects '
                         'following each other in a file; a file that save was writing when the process died is refused by read, not recovered')
