"""C08: distributed matrices and vectors: every spread of the entries over the ranks x every operation, and operation sequences."""
from mc.check import Job
from mc.scen.gm import POS


def check(c):
    q = c.quick
    jobs = []
    sizes = (1, 2, 3) if q else (1, 2, 3, 4, 5)
    for size in sizes:
        for shape in POS:
            for fmt in ('csc', 'csr'):
                m = (1 if size < 3 else 20) if q else 1
                for a in range(1 if q else 4 if size > 2 else 1):
                    k = 1 if q else 4 if size > 2 else 1
                    big = size > 3 and len(POS[shape]) > 3
                    jobs.append(Job(f'unary/{shape}/{fmt}/{size}/{a}', size, 'mc.scen.gm:matrix_unary',
                                    (shape, fmt, ((a + c.seed) % m if q else a, m if q else k * (8 if big else 1))), cost=300 * size))
        jobs += [Job(f'vector/{n}/{size}', size, 'mc.scen.gm:vector_all', (n, q), cost=200 * size) for n in ((1, 3) if size > 2 else (1, 3, 4))]
        if size < 4:
            for sa, sb in (((2, 3), (3, 2)), ((3, 3), (3, 3)), ((1, 3), (3, 3)), ((3, 2), (2, 3)), ((2, 3), (2, 3)), ((4, 1), (1, 1))):
                for fa in ('csc', 'csr'):
                    for fb in ('csc', 'csr'):
                        m = {1: 1, 2: 61, 3: 4519} if q else {1: 1, 2: 1, 3: 97}
                        if len(POS[sa]) + len(POS[sb]) < 8:
                            m = {1: 1, 2: 3, 3: 211} if q else {1: 1, 2: 1, 3: 5}
                        jobs.append(Job(f'binary/{sa}/{sb}/{fa}/{fb}/{size}', size, 'mc.scen.gm:matrix_binary', (sa, sb, fa, fb, (c.seed % m[size], m[size])), cost=250 * size))
            for shape in ((3, 3), (2, 3)):
                for fmt in ('csc', 'csr'):
                    for o in 'TnsapmcgGhv':
                        if q and (size == 2 and fmt == 'csr' and shape == (2, 3) or size == 3 and shape == (2, 3)):
                            continue
                        jobs.append(Job(f'prog/{shape}/{fmt}/{size}/{o}', size, 'mc.scen.gm:programs', (shape, fmt, 2 if q else 4, o), cost=20 * size))
    c.run(jobs)
    c.assumptions.append('products of two matrices that are both distributed irregularly are refused by the library')
