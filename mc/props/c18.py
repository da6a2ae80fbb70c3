"""C18: trace and selective matrices, dual forms, hybrid pairings against topology, own quadrature and dense algebra."""
import itertools
from mc.check import Job
from mc.scen.common import MESHES
from mc.scen.geo import SPECS

RANKS = {'quick': 3, 'thorough': 4}
PAIR = {'line': (3, 'crazy', dict(c=0.1), [2, 1, 1]), 'sq': (3, 'crazy', dict(c=0.), [1, 2, 2]),
        'cube': (3, 'crazy', dict(c=0.1), [2, 2, 2]), 'cub': (3, 'cuboid', dict(region_layout=(2, 1, 2)), [1, 1, 1]),
        'one': (3, 'crazy', dict(c=0.), [1, 1, 1]),
        'arch': (3, 'bridge_arch_cracked', {}, [1, 1, 1])}


def check(c):
    q = c.quick
    R = RANKS[c.tier]
    jobs = []
    for n, spec in MESHES.items():
        if n == 'tri' or (q and n not in ('c3', 'c3a', 'p3', 'arch', 'psc', 'cubd', 'c2a', 'chp2', 'rect32', 'p2')):
            continue
        ps = [(1, 1, 1), (2, 1, 3), (3, 2, 1)] if spec[0] == 3 else [(1, 1), (2, 3), (4, 1)]
        for p in (ps[:2] if q else ps):
            for size in range(1, R + 1):
                if q and size not in (1, 2):
                    continue
                jobs.append(Job(f'structure/{n}/{size}/{p}', size, 'mc.scen.trace:structure', (spec, None, p), cost=5))
    for n, (spec, tol) in SPECS.items():
        if spec[0] != 3 or n in ('psc3', 'pwc3', 'ldc3'):      # transfinite regions: trace classification not implemented
            continue
        for p in ([(2, 1, 2)] if q else [(1, 1, 1), (2, 1, 2), (1, 3, 2)]):
            for size in range(1, R + 1):
                if q and size > 1 and n not in ('box3', 'cub3', 'per3'):
                    continue
                jobs.append(Job(f'commute/{n}/{size}/{p}', size, 'mc.scen.trace:commute', (spec, None, p, 1e-5 if n in ('ct3', 'arch3') else 1e-7, n == 'per3'), cost=10))
                jobs.append(Job(f'dual/{n}/{size}/{p}', size, 'mc.scen.trace:duals', (spec, None, p, 1e-6 if n in ('ct3', 'arch3') else 1e-8), cost=40))
    plan = [('line', (1, 2, 1), 'all'), ('sq', (1, 1, 1), 'all'), ('cub', (1, 1, 2), 'some'), ('cube', (1, 1, 1), 'some'), ('one', (1, 1, 1), 'some'),
            ('arch', (1, 1, 1), 'some')]
    if not q:
        plan = [(n, p, 'some' if n == 'arch' else 'all') for n in PAIR for p in ((1, 1, 1), (1, 2, 1), (2, 1, 2))]
    for n, p, how in plan:
        nb = {'arch': 8}.get(n, 6)
        subs = [s for m in range(nb + 1) for s in itertools.combinations(range(nb), m)]
        if how == 'some':
            subs = [(), (0,), (1, 2), (0, 1, 2), tuple(range(nb))] if nb < 6 else \
                [(), (0,), (5,), (1, 2), (0, 3), (0, 2, 4), (1, 3, 4, 5), tuple(range(nb))]
        subs = [s for s in subs if all(x < nb for x in s)]
        seq = [(s, float(i % 3)) for i, s in enumerate(subs)]
        for k in range(3):
            for size in range(1, R + 1):
                if q and (size == 3 and n != 'cub' or size == 2 and n not in ('sq', 'cub', 'arch')):
                    continue
                if q and k == 1 and how == 'all' and size > 1:
                    continue
                m = 8 if how == 'all' else 5
                for j in range(0, len(seq), m):
                    # odd chunks go backwards, with the objects of the previous pairing; the others with new objects
                    part = seq[j:j + m][::-1] if (j // m) % 2 else seq[j:j + m]
                    jobs.append(Job(f'pairing/{n}/{k}/{size}/{p}/{j}', size, 'mc.scen.trace:pairing',
                                    (PAIR[n], None, p, k, part, bool((j // m) % 3 == 2), 1e-4 if n == 'arch' else 1e-8), cost=60 if k == 1 else 20))
    c.run(jobs)
    c.extra['boundary_subsets'] = {n: h for n, _, h in plan}
    c.assumptions.append('the dual mass matrices of curved elements are compared with the Gauss rule of p+2 points per direction')
