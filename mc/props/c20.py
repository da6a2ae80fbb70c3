"""C20: quadrature rules, nodes, bases: all families x degrees x polynomials; all evaluation histories of the caches."""
import itertools
from mc.check import Job

RANKS = {'quick': 1, 'thorough': 1}
# the quantities are local to a rank: one rank is enough


def check(c):
    q = c.quick
    S = 'mc.scen.quad:'
    jobs = [Job('rules', 1, S + 'rules', (24 if q else 64,), cost=30),
            Job('tensor', 1, S + 'tensor', (2 if q else 3,), cost=30),
            Job('bases', 1, S + 'bases', (12 if q else 24,), cost=30),
            Job('plane', 1, S + 'plane', (2 if q else 4,), cost=20)]
    for p in (1, 3) if q else (1, 2, 3, 4):
        jobs.append(Job(f'hist1/{p}', 1, S + 'hist1', (3 if q else 5, p), cost=30))
    for d in (2, 3):
        of = {2: 2, 3: 5}[d]
        for i in range(of):
            jobs.append(Job(f'hist2/{d}/{i}', 1, S + 'hist2', (d, 3 if q or d == 3 else 4, i, of), cost=30))
        P = (3, 2)[d == 3] if q else (5, 4)[d == 3]
        ps = list(itertools.product(range(1, P + 1), repeat=d))
        if q and d == 3:
            ps += [(1, 2, 3), (3, 1, 2), (2, 3, 1), (3, 3, 1)]
        n = (2 if d == 2 else 6) if q else 16
        for i in range(n):
            if ps[i::n]:
                jobs.append(Job(f'spaces/{d}/{i}', 1, S + 'spaces', (d, ps[i::n], True), cost=40))

    def judge(job, x):
        return ()
    c.run(jobs, judge)
    c.assumptions.append('degrees up to 24 (64 thorough) for rules, 12 (24) for 1d bases, comparison at 1e-12..1e-10 of the natural scale')
