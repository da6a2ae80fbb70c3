"""C04: incidence matrices are the topological ones, d d = 0, and the derivative commutes with discretization."""
from mc.check import Job
from mc.scen import common as cm
from mc.scen.geo import SPECS

RANKS = {'quick': 2, 'thorough': 4}


def check(c):
    q = c.quick
    jobs = []
    for n, (spec, tol) in SPECS.items():
        d = spec[0]
        if d == 3:
            ps = [(2, 1, 3)] if q else [(1, 1, 1), (2, 1, 3), (3, 2, 1), (1, 3, 2), (2, 2, 2)]
        else:
            ps = [(2, 3), (1, 1)] if q else [(1, 1), (2, 1), (1, 3), (3, 2), (4, 4)]
        for i, p in enumerate(ps):
            for size in range(1, RANKS[c.tier] + 1):
                if size > 1 and (q and (i or len(jobs) % 3)):
                    continue
                for hyb in ((True, False) if not q else ((len(jobs) % 2 == 0),)):
                    jobs.append(Job(f'{n}/{size}/{p}/{hyb}', size, 'mc.scen.std:derivative', (spec, None, p, tol, hyb),
                                    cost=100 if d == 3 else 20))
    c.run(jobs)
    c.extra['configurations'] = len(jobs)
