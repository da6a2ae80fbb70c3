"""C13: matrix-input runner: all ragged inputs, rerun histories, every crash state of the result file."""
from mc.check import Job
from mc.killrun import batch


def check(c):
    q = c.quick
    jobs = []
    for size in (1, 2, 3) if q else (1, 2, 3, 4, 6):
        k = 8
        for a in range(k):
            if q and (a + size + c.seed) % 3:
                continue
            jobs.append(Job(f'inputs/{size}/{a}', size, 'mc.scen.runner:inputs', (3, 2 if q or size > 2 else 3, (a, k)), timeout=800, cost=40 * size))
    for size in (1, 2) if q else (1, 2, 3):
        for a in range(8):
            m = (8 * 5 if q else 8) * (1 if size == 1 else 3)
            jobs.append(Job(f'history2/{size}/{a}', size, 'mc.scen.runner:histories', (2, ((a * 5 + c.seed) % m if q else a, m)), timeout=800, cost=60 * size))
            m = (45 * 45 * 45 // (20 if q else 300)) // size
            jobs.append(Job(f'history3/{size}/{a}', size, 'mc.scen.runner:histories', (3, ((a * 311 + c.seed) % m, m)), timeout=800, cost=60 * size))
    for w in range(3):
        for size in (1, 2) if q else (1, 2, 3):
            keep = ((7, 331) if size == 1 else (37, 0)) if q else (1, 11) if size == 1 else (5, 41)
            jobs.append(Job(f'crash/{w}/{size}', size, 'mc.scen.runner:crashes', (w, keep, 2 if size == 1 or not q else 1, 7.3 if w else 4321.), timeout=800, cost=300 * size))
    for w in (0,) if q else (0, 1, 2):
        ks = range(1, 9, 2) if q else range(1, 20)
        jobs.append(Job(f'kill/{w}', 1, 'mc.scen.runner:killed', (w, 7.3, batch('mc.scen.runner', 'one_run', [w, 7.3], ks)), cost=10))
    c.run(jobs)
    c.real += sum(len(j.args[-1]) for j in jobs if j.key.startswith('kill'))
    c.assumptions.append('the solver is a function of its inputs; a crash keeps everything handed to the operating system or any prefix of it; the wall clock is simulated')
