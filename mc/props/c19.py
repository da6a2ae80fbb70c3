"""C19: chained numbering: all form tuples x methods x partitions, searching/splitting/assembling inverse, all call histories."""
from mc.check import Job
from mc.scen import common as cm

LINE = (3, 'crazy', dict(c=0.), [1, 1, 2])
Q2 = [('c2', 1), ('chp1', 1), ('p2', 2), ('rect', (1, 2)), ('bcr', 1)]
Q3 = [('c3', 1), ('cub', (1, 2, 1)), ('arch', 1), ('p3', 1)]
MORE2 = [('cic', 1), ('chp2', 2), ('quad', (3, 1)), ('rectp', 1), ('c2a', 1), ('tri', 1), ('line2', 2)]
MORE3 = [('psc', 1), ('ct', 1), ('cubp', 1), ('c3', 2), ('ldc', 1), ('pwc', 1)]


def check(c):
    q = c.quick
    jobs = []
    for n, p in Q2 + Q3 + ([] if q else MORE2 + MORE3):
        N, R = cm.num_elements(n), cm.num_regions(n)
        for size in ((1, 2) if n in ('bcr', 'c2') else (1, 3)) if q else (1, 2, 3, 4, 5):
            parts = [None] if size == 1 else [None, cm.some_parts(N, size, 6, 1)[c.seed % 5]] + ([] if q else cm.some_parts(N, size, 8, c.seed + size)[1:]) + (['SWV0'] if size >= R > 1 else [])
            for part in dict.fromkeys(parts):
                L = (1 if n in ('arch', 'p3') else 2) if q or cm.dim(n) == 3 else 3
                jobs.append(Job(f'chain/{n}/{size}/{part}', size, 'mc.scen.chain:chains', (n, part, p, L, not q), cost=N * (8 if cm.dim(n) == 3 else 2)))
    for n, size, parts in (('c2', 1, [None]), ('c2', 2, [None, (6, 0)]), (LINE, 2, [None])):
        for part in parts:
            for o in '1234567':
                jobs.append(Job(f'hist/{n if isinstance(n, str) else "line3"}/{size}/{part}/{o}', size, 'mc.scen.chain:histories', (n, part, o, 3 if q else 5 if n == 'c2' and size == 1 else 4), cost=200))
    c.run(jobs)
    c.assumptions.append('chains are taken of forms of one mesh; irregular (multi-layer) gathering matrices are not constructible '
                         'from the public form callers and stay outside')
