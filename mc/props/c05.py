"""C05: reduction, reconstruction, mass matrices, inner products, norms and errors against own integrals."""
import itertools
from mc.check import Job
from mc.scen import common as cm
from mc.scen.geo import SPECS

RANKS = {'quick': 2, 'thorough': 3}
# same region names, different layouts / geometry: what is cached for one mesh must not leak into another
H3 = [(3, 'crazy', dict(c=0.), [2, 2, 1]), (3, 'crazy', dict(c=0.1), [[1, 2], 1, 2]), (3, 'cuboid', dict(region_layout=(2, 1, 1)), [1, 2, 1])]
H2 = [(2, 'crazy', dict(c=0.), [2, 2]), (2, 'crazy', dict(c=0.1), [[1, 2], 3]), (2, 'rectangle', dict(region_layout=(2, 1)), [1, 2])]


def check(c):
    q = c.quick
    jobs = []
    for n, (spec, tol) in SPECS.items():
        d = spec[0]
        if d == 3:
            ps = [((2, 1, 1), (1, 2, 1))] if q else [((2, 1, 1), (1, 2, 1)), ((1, 2, 3), (2, 2, 2)), ((2, 2, 2), None)]
        else:
            ps = [((2, 3), (3, 1)), ((1, 1), None)] if q else [((2, 3), (3, 1)), ((1, 1), None), ((4, 2), (2, 4)), ((3, 3), None)]
        for i, (p, p2) in enumerate(ps):
            for size in range(1, RANKS[c.tier] + 1):
                if size > 1 and q and (i or len(jobs) % 3):
                    continue
                hybs = (True, False) if not q else ((len(jobs) % 2 == 0),)
                for hyb in hybs:
                    jobs.append(Job(f'{n}/{size}/{p}/{hyb}', size, 'mc.scen.std:reduction',
                                    (spec, None, p, tol, hyb, p2), cost=100 if d == 3 else 20))
    depth = 2 if q else 3
    moves = [(m, g) for m in range(3) for g in range(3)]
    for nm, H, p in (('hist3', H3, (1, 2, 1)), ('hist2', H2, (2, 1))):
        for seq in itertools.product(moves, repeat=depth):
            if q and (seq[0][0] > 1 or seq[0][1] == 2 or seq[0] == seq[1]):
                continue
            if not q and nm == 'hist3' and seq[0][0] > 1:
                continue
            jobs.append(Job(f'{nm}/{"".join(f"{a}{b}" for a, b in seq)}', 1, 'mc.scen.std:field_history', (H, p, seq), cost=30))
    # the caller's own arrays, modified in place between the steps
    for nm, H, p in (('hist3', H3, (1, 2, 1)), ('hist2', H2, (2, 1))):
        for m in range(len(H)):
            for mid in ([], [(m, 0)], [((m + 1) % len(H), 3)]):
                seq = ((m, 3), *mid, (m, 3))
                jobs.append(Job(f'{nm}/own/{"".join(f"{a}{b}" for a, b in seq)}', 1, 'mc.scen.std:field_history',
                                (H, p, seq), cost=30))
    for m, g in moves[:6]:
        for size in range(2, RANKS[c.tier] + 1):
            jobs.append(Job(f'hist3/{size}/{m}{g}', size, 'mc.scen.std:field_history', (H3, (1, 2, 1), ((m, g),)), cost=60))
            jobs.append(Job(f'hist2/{size}/{m}{g}', size, 'mc.scen.std:field_history', (H2, (1, 2), ((m, g),)), cost=30))
    c.run(jobs)
    c.extra['configurations'] = len(jobs)
    c.extra['grid_histories'] = sum('hist' in j.key for j in jobs)
    c.assumptions.append('integrals are judged by Gauss quadrature with more points than needed for exactness on affine '
                         'elements; on curved elements the mass matrix is compared with the Gauss rule with p+2 points')
