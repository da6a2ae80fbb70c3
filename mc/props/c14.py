"""C14: mesh connectivity against geometry, over meshes x element distributions x rank counts."""
from mc.check import Job
from mc.mesh_oracle import judge_connectivity
from mc.scen import common as cm

RANKS = {'quick': 4, 'thorough': 5}


def check(c):
    jobs = []
    q = c.quick
    big = ('p333', 'c3big', 'arch2')
    for name in cm.MESHES:
        if name == 'tri':      # singular geometry: two faces of one element coincide
            continue
        N = cm.num_elements(name)
        three = cm.dim(name) == 3
        for size in range(1, RANKS[c.tier] + 1):
            parts = [None] + (['debug'] if size > 1 else []) + (['SWV0'] if size >= max(2, cm.num_regions(name)) else [])
            if size > 1:
                lim = (2 if size == 2 else 3 if size == 3 else 1) if q else (60 if not three else 25)
                if q and name in big:
                    lim = 1
                parts += cm.some_parts(N, size, lim, c.seed + size)
            for p in parts:
                if q and name in big and size > 2 and p is not None:
                    continue
                jobs.append(Job(f'{name}/{size}/{p}', size, 'mc.scen.meshdump:connectivity', (name, p, not q or N <= 8),
                                cost=N * size * (3 if three else 1)))

    def judge(job, x):
        c.states += sum(len(r['indices']) for r in x.results)
        yield from judge_connectivity(x.results, job.args[0])
    c.run(jobs, judge)
    c.extra['meshes'] = len(cm.MESHES)
    c.extra['distributions_explored'] = len(jobs)
