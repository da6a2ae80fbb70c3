"""C02: ownership of elements, over layouts x distribution methods x rank counts."""
from mc.check import Job
from mc.mesh_oracle import judge_ownership
from mc.scen import common as cm

RANKS = {'quick': [1, 2, 3, 4, 5, 7], 'thorough': [1, 2, 3, 4, 5, 6, 7, 8]}


def check(c):
    jobs = []
    q = c.quick
    for name in cm.MESHES:
        N = cm.num_elements(name)
        for size in RANKS[c.tier]:
            parts = [None, 'debug'] + (['SWV0'] if size >= max(2, cm.num_regions(name)) else [])
            if size >= 5 and q and name not in ('c3big', 'c2c', 'arch', 'cub222', 'chp2', 'rect32', 'p333', 'line2', 'c3'):
                continue
            if size > 1:
                parts += cm.some_parts(N, size, (3 if size < 5 else 1) if q else 60, c.seed + size)
            for p in parts:
                jobs.append(Job(f'{name}/{size}/{p}', size, 'mc.scen.meshdump:ownership', (name, p), cost=size))

    def judge(job, x):
        c.states += x.results[0]['N']
        p = job.args[1]
        if isinstance(p, tuple) and tuple(r['num'] for r in x.results) == p:
            c.extra['distributions_realised'] = c.extra.get('distributions_realised', 0) + 1
        c.extra.setdefault('methods', {}).setdefault(str(x.results[0]['edm']), 0)
        c.extra['methods'][str(x.results[0]['edm'])] += 1
        yield from judge_ownership(x.results, job.args[0])
    c.run(jobs, judge)
    c.extra['distributions_explored'] = len(jobs)
