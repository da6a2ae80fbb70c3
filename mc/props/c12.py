"""C12: time iteration with stops, restarts and crashes at every durable state of the result file"""
from mc.check import Job
from mc.killrun import batch

T0 = [0, 1, -0.5, 0.3, 2.7]
DT = [None, 0.1, 0.3, 0.25, 1, 0.7, 0.01]
TIMES = [None, 1, 1.1, 0.9, 3, 2.8, 7.3]


def check(c):
    q = c.quick
    jobs = []
    steps = [None, 1, 2, 3, 7, 10, 49] if q else [None] + list(range(1, 101))
    for t0 in T0:
        for dt in DT:
            for size in (1,) if q else (1, 2):
                jobs.append(Job(f'config/{t0}/{dt}/{size}', size, 'mc.scen.itr:configs', ([t0], [dt], steps, TIMES if q else TIMES + [k / 10 for k in range(4, 60)]), cost=30))
    N = 4 if q else 5
    stops = [('sd', i, v) for i in range(1, N + 1) for v in (1, True, 'enough')] + [('ms', m) for m in range(1, N)]
    freqs = (True, False, 1, 2, 3)
    ticks = (0., 1.2e6, 1.1e7)
    for freq in freqs:
        for tick in ticks:
            for (t0, dt) in ((0, 0.1), (-0.3, 0.7)):
                for size in (1, 2) if q else (1, 2, 3, 4):
                    st = stops if not q else stops[(c.seed + size) % 3::3] + [('ms', 2)]
                    if q and (t0, dt) != (0, 0.1) and (freq is not True or tick):
                        continue
                    jobs.append(Job(f'chain/{freq}/{tick}/{t0}/{size}', size, 'mc.scen.itr:chains', ((t0, dt, N, freq, 0, tick), st, 2 if q or size > 1 else 3), timeout=800, cost=60 * size))
    for freq in freqs:
        for tick in ticks:
            for size in (1, 2) if q else (1, 2, 3):
                if q and size == 2 and freq not in (True, 2):
                    continue
                for plan in ({}, {3: 'why'}) if not q or freq == 1 else ({},):
                    keep = (9, 131) if q else (1, 11)
                    if size > 1:
                        keep = (23, 0) if q else (3, 41)
                    jobs.append(Job(f'crash/{freq}/{tick}/{size}/{len(plan)}', size, 'mc.scen.itr:crashes', ((0, 0.1, 3 if q else 4, freq, 0, tick, plan, freq == 3), keep, 1 if q and size > 1 else 2), timeout=800, cost=200 * size))
    for freq in (True, 1, 2):
        for tick in (0., 1.1e7):
            jobs.append(Job(f'fault/{freq}/{tick}', 1, 'mc.scen.itr:faults', ((0, 0.1, 3, freq, 0, tick, (1, 2, 3)),), cost=40))
    for freq, tick in ((1, 1.1e7), (True, 0.)) if q else ((1, 1.1e7), (2, 1.2e6), (True, 0.), (False, 0.)):
        a = [0, 0.1, 3, freq, tick]
        ks = range(1, 9, 2) if q else range(1, 25)
        jobs.append(Job(f'kill/{freq}/{tick}', 1, 'mc.scen.itr:killed', (*a, batch('mc.scen.itr', 'one_run', a, ks)), cost=10))
    c.run(jobs)
    c.real += sum(len(j.args[-1]) for j in jobs if j.key.startswith('kill'))
    c.assumptions.append('the solver is a function of the two times only; the wall clock is simulated, a crash keeps everything handed to the operating system or any prefix of it (no reordering by power loss)')
