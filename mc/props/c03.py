"""C03: global dof numbering of all form kinds against a union-find over geometric faces."""
from mc.check import Job
from mc.dof_oracle import judge_numbering
from mc.scen import common as cm

RANKS = {'quick': 3, 'thorough': 5}
BIG = ('p333', 'c3big', 'arch2', 'p3o')


def check(c):
    jobs = []
    q = c.quick
    for name in cm.MESHES:
        if name == 'tri':
            continue
        N = cm.num_elements(name)
        three = cm.dim(name) == 3
        ps = ([(2, 1, 2)] + ([(1, 1, 1)] if name in ('c3', 'one3', 'cubp') else []) if q else [(1, 1, 1), (2, 1, 3), (3, 2, 1), (2, 2, 2)]) if three else \
            ([(2, 3), (1, 1)] if q else [(1, 1), (2, 1), (1, 3), (3, 3), (4, 2)])
        for size in range(1, RANKS[c.tier] + 1):
            parts = [None] + (['SWV0'] if size >= max(2, cm.num_regions(name)) else [])
            if size > 1:
                lim = (1 if three else 2) if q else (12 if three else 40)
                parts += cm.some_parts(N, size, lim, c.seed + size)
            if q and name in BIG and size > 1:
                parts = parts[-1:]
            for p in parts:
                for i, deg in enumerate(ps):
                    if size > 1 and q and i != len(jobs) % len(ps):
                        continue
                    if not q and three and size > 2 and deg == (2, 2, 2):
                        continue
                    jobs.append(Job(f'{name}/{size}/{p}/{deg}', size, 'mc.scen.dofs:numbering',
                                    (name, p, deg, not (q and name in BIG)), cost=N * size * (5 if three else 1)))

    def judge(job, x):
        c.states += sum(len(v) for r in x.results for o in r['forms'].values() for v in o['gm'].values())
        yield from judge_numbering(x.results, job.args[0])
    c.run(jobs, judge)
    c.extra['configurations'] = len(jobs)
