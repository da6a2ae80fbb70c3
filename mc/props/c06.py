"""C06: element-wise lazy algebra, all expressions up to a depth x operand kinds x evaluation orders, against eager dense values."""
import numpy as np
from mc.check import Job
from mc.scen import common as cm

LIB = {
    'c2': ((2, 'crazy', dict(c=0.), [[1, 2, 1], [1, 1, 3]]), (2, 1)), 'c2c': ((2, 'crazy', dict(c=0.1), [2, 2]), (1, 2)),
    'quad': ((2, 'quadrangle', dict(p_UL=(0, 0), p_DL=(1, 0.2), p_UR=(0.3, 1.1), p_DR=(2, 1.5)), [2, 2]), (2, 2)),
    'chp1': ((2, 'chp1', {}, [1, 2]), (1, 1)), 'rect': ((2, 'rectangle', dict(region_layout=(2, 1)), [[1, 2], 2]), (2, 1)),
    'c3': ((3, 'crazy', dict(c=0.), [[1, 2], [1, 1], 2]), (1, 1, 2)), 'cub': ((3, 'cuboid', dict(region_layout=(2, 1, 1)), [1, [1, 2], 1]), (1, 2, 1)),
    'c3c': ((3, 'crazy', dict(c=0.1), [1, 2, 1]), (1, 1, 1)),
}


def check(c):
    q = c.quick
    parts = 24 if q else 96
    jobs = [Job(f'expr/{i}', 1, 'mc.scen.ewc:run_expressions', (c.tier, i, parts), cost=300) for i in range(parts)]
    jobs += [Job(f'adjust/{i}', 1, 'mc.scen.ewc:adjust', (i, 8), cost=300) for i in range(8)]
    jobs += [Job(f'customs/{i}', 1, 'mc.scen.ewc:customs', (i, 8 if q else 24, 2 if q else 3), cost=250) for i in range(8 if q else 24)]
    for n, (spec, p) in LIB.items():
        N = cm.num_elements(spec)
        for size in (1, 2) if q else (1, 2, 3):
            for part in ([None] if size == 1 else cm.some_parts(N, size, 1 if q else 6, c.seed + size)):
                jobs.append(Job(f'lib/{n}/{size}/{part}', size, 'mc.scen.ewc:library', (spec, p, part, (0, 1, 2) if q else tuple(range(8))),
                                cost=100 * N))

    def judge(job, x):
        if job.key.startswith('lib'):
            v = [s for r in x.results for s in r['sp']]
            for k, r in enumerate(x.results):
                if not abs(r['ps'] - np.mean(v)) < 1e-9:
                    yield 'pseudo-sparsity', f'rank {k}: {r["ps"]} instead of {np.mean(v)}'
    c.run(jobs, judge)
    c.extra['expressions'] = sum(1 for _ in __import__('mc.scen.ewc', fromlist=['x']).expressions(c.tier))
