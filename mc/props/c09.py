"""C09: linear solvers: every routine on small systems, every storage on the ranks, sequences of solves, Schur elimination."""
from mc.check import Job
from mc.scen import common as cm

SOLVERS = ('GMRES', 'LGMRES', 'BiCGSTAB', 'TFQMR', 'GCROTmk', 'direct')


def check(c):
    q = c.quick
    jobs = []
    ns = (1, 2, 4) if q else (1, 2, 3, 4, 5, 6)
    for size in (1, 2, 3) if q else (1, 2, 3, 4):
        ways = size + 4
        for s in SOLVERS:
            k = {'GMRES': 8, 'LGMRES': 8}.get(s, 2)
            m = {'GMRES': 140, 'LGMRES': 200, 'BiCGSTAB': 6}.get(s, 8) * size if q else {'GMRES': 4, 'LGMRES': 4}.get(s, 1) * max(1, size - 1)
            for a in range(k):
                jobs.append(Job(f'solve/{s}/{size}/{a}', size, 'mc.scen.sol:solve', (s, ns, list(range(ways)), ((a * m + c.seed % m), k * m)), timeout=850, cost=30 * size))
        for a in range(2):
            jobs.append(Job(f'reuse2/{size}/{a}', size, 'mc.scen.sol:reuse', (2, (a, 2 * size if q else 2)), timeout=600, cost=20 * size))
            if not q:
                jobs.append(Job(f'reuse3/{size}/{a}', size, 'mc.scen.sol:reuse', (3, (a, 2)), timeout=850, cost=60 * size))
    H3 = [('2-f', True), ('3-f', True), ('2-t', True), ('0-e', True)]
    H2 = [('1-f-o', True), ('2-f-o', True), ('1-t-o', True)]
    for nm, p in [('c3', (1, 1, 1)), ('arch', (1, 1, 1)), ('c2a', (2, 1)), ('p22', (1, 2)), ('chp1', (1, 1)), ('one2', (2, 2))][:6]:
        d = cm.dim(nm)
        H = H3 if d == 3 else H2
        n = cm.num_elements(nm)
        for size in (1, 2, 3) if q else (1, 2, 3, 4):
            parts = [None] if size == 1 else cm.some_parts(n, size, 2 if q else 8)
            for pt in parts:
                for blocks in range(1, len(H)):
                    for last in range(blocks + 1, len(H) + 1):
                        if blocks == 3 and last == 3 or blocks > 2:
                            continue
                        if q and (len(jobs) + size) % 3 and size > 1:
                            jobs.append(None)
                            continue
                        jobs.append(Job(f'schur/{nm}/{size}/{pt}/{blocks}/{last}', size, 'mc.scen.sol:schur',
                                        (nm, pt, p, H[:last], blocks, (blocks + last) % 2), timeout=300, cost=5 * size))
    c.run([j for j in jobs if j])
    c.assumptions.append('a string as number of iterations (forced iterations) is for the parallel routines, scipy does not support it; '
                         'scipy residual norms with an ILU preconditioner are trusted within a factor 20; singular systems are outside the property')
