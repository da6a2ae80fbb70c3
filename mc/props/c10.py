"""C10: core communication utilities, all schedules, both extremes of message buffering."""
import itertools
from mc.check import Job
from mc import engine

RANKS = {'quick': 6, 'thorough': 9}
LIGHT = True


def check(c):
    smax = RANKS[c.tier]
    jobs = []
    # ---- dispatching: every schedule
    dmax = 5 if c.quick else 6
    for size in range(1, dmax + 1):
        for n in range(0, 7 if c.quick else 9):
            w = max(size - 1, 1)
            if w ** max(n - w, 0) > (300 if c.quick else 4000):
                continue
            for mode in ('sync', 'eager'):
                jobs.append(Job(f'dispatch/{size}/{n}/{mode}', size, 'mc.scen.core:dispatch',
                                (list(range(n)), 1), mode=mode, explore=True,
                                cost=size * w ** max(n - w, 0)))
    for size, n in ((3, 2), (3, 3), (4, 3), (4, 4)):    # two calls in a row, tasks of several kinds
        for mode in ('sync', 'eager'):
            jobs.append(Job(f'dispatch2/{size}/{n}/{mode}', size, 'mc.scen.core:dispatch',
                            ([('t', i) for i in range(n)], 2), mode=mode, explore=True, cost=40))
    for size in (1, 2, 3, 4):
        for nm, tasks in (('repeat', [0, 0, 0, 0]), ('falsy', [None, 0, '', [], False]),
                          ('text', ['stop waiting for new tasks', 'a', 'b']), ('dict', [{'a': 1}, {'b': [1, 2]}])):
            jobs.append(Job(f'dispatch-{nm}/{size}', size, 'mc.scen.core:dispatch', (tasks, 1), explore=True,
                            mode='sync', cost=20))
    # ---- chaining: file-system entries are scheduling points, so every interleaving is explored
    for size in range(1, smax + 1):
        for mode in ('sync', 'eager'):
            jobs.append(Job(f'chain/{size}/{mode}', size, 'mc.scen.core:chain', (2 if size <= 4 else 1,), mode=mode,
                            explore=True, cost=30))
        jobs.append(Job(f'groups/{size}', size, 'mc.scen.core:groups'))
        jobs.append(Job(f'ranks/{size}', size, 'mc.scen.core:ranks'))
        for mode in ('sync', 'eager'):
            jobs.append(Job(f'tree/{size}/{mode}', size, 'mc.scen.core:tree', (3,), mode=mode, explore=True))
    # ---- same-input check: every assignment of two/three distinct values to the ranks
    kinds = [((1, 'a'), (1, 'b')), ((1,), (2,)), ((), ()), (([1, 2], {'x': 1}), ([1, 2], {'x': 2})),
             ((0.1 + 0.2,), (0.3,)), ((None,), (False,)), (('ab', 'c'), ('a', 'bc')), (((1, 2),), ((2, 1),)),
             ((1, 2), (2, 1)), ((1,), (1, 1))]
    for size in range(1, min(smax, 5) + 1):
        vec = []
        for a, b in kinds:
            for bits in itertools.product((0, 1), repeat=size):
                vec.append([(a, b)[x] for x in bits])
        jobs.append(Job(f'same/{size}', size, 'mc.scen.core:same', (vec,), meta=vec, cost=30))

    def judge(job, x):
        kind = job.key.split('/')[0]
        R = x.results
        size = job.size
        if kind.startswith('dispatch'):
            tasks, rep = job.args
            key = (lambda t: repr(t))
            for k in range(rep):
                ran = [t for r in R for t in r[0][k][0]]
                if sorted(map(key, ran)) != sorted(map(key, tasks)):
                    yield 'once', f'call {k}: tasks run {ran}, given {tasks}'
                for rk, r in enumerate(R):
                    if r[0][k][1] != [('res', k, t) for t in r[0][k][0]]:
                        yield 'place', f'call {k} rank {rk}: returned {r[0][k][1]} for tasks {r[0][k][0]}'
                    if not r[0][k][2]:
                        yield 'input', f'call {k}: task list of the caller changed'
                if size <= 2 and [r[0][k][0] for r in R][0] != list(tasks):
                    yield 'order', 'master does not run the tasks in their order'
            if any(r[1] != size for r in R):
                yield 'sync', 'collective after dispatching is wrong'
        elif kind == 'chain':
            for rk, (out, logs) in enumerate(R):
                for k, o in enumerate(out):
                    if o != (rk, 'a', (rk,), rk + k):
                        yield 'value', f'rank {rk} got {o}'
                for lg in logs:
                    if lg != [r for r in range(size) for _ in (0, 1)]:
                        yield 'order', f'ranks executed in order {lg}'
        elif kind == 'groups':
            for q in R[0]:
                ref = {k: v for k, v in R[0][q].items() if k != 'my leader'}
                m, g = q
                members = []
                for ld in ref['leaders']:
                    members.append([ld] + list(ref[ld]))
                flat = [i for s in members for i in s]
                if sorted(flat) != list(range(size)) or ref['group number'] != len(ref['leaders']):
                    yield 'partition', f'{q}: {ref}'
                if set(ref) != {'group number', 'leaders'} | set(ref['leaders']):
                    yield 'keys', f'{q}: {ref}'
                if any(s != sorted(s) for s in members) or flat != list(range(size)):
                    yield 'order', f'{q}: {ref}'
                if g is not None and len(members) != g:
                    yield 'number', f'{q}: {ref}'
                if max(map(len, members)) - min(map(len, members)) > 1:
                    yield 'balance', f'{q}: {ref}'
                if g is None:
                    want = min(max(int(m), 1), size)
                    if max(map(len, members)) > want or len(members) != -(-size // want):
                        yield 'members', f'{q}: {ref}'
                for rk, o in enumerate(R):
                    if {k: v for k, v in o[q].items() if k != 'my leader'} != ref:
                        yield 'agree', f'{q}: rank {rk} {o[q]} rank 0 {ref}'
                    ld = next((s[0] for s in members if rk in s), None)
                    if o[q].get('my leader') != ld:
                        yield 'leader', f'{q}: rank {rk} {o[q]}'
        elif kind == 'tree':
            for k in range(job.args[0]):
                got = R[0][k]
                if sorted(got) != [(k, r) for r in range(size)]:
                    yield 'once', f'master received {got}'
                if any(R[r][k] for r in range(1, size)):
                    yield 'left', f'{R}'
        elif kind == 'ranks':
            for rk, o in enumerate(R):
                if o != (rk, size, 0, 1 if size > 1 else 0, [r for r in range(size) if r != 0],
                         [r for r in range(size) if r != (1 if size > 1 else 0)]):
                    yield 'roles', f'{o}'
        elif kind == 'same':
            for i, v in enumerate(job.meta):
                want = all(a == v[0] for a in v)
                for rk, o in enumerate(R):
                    if (o[i] is True) != want:
                        yield 'accept', f'arguments {v}: rank {rk} says {o[i]}'
                    elif not want:
                        bad = [r for r in range(size) if v[r] != v[0]]
                        if str(bad) not in o[i][1]:
                            yield 'names', f'arguments {v}: message {o[i][1]!r} does not name {bad}'
        c.states += 1

    res = c.run(jobs, judge)
    c.extra['distinct_dispatch_outcomes'] = {k: len(r.execs) for k, r in res.items() if k.startswith('dispatch/')}
    # ---- conformance of the virtual MPI: real OpenMPI outcomes are among the explored ones
    conf = [('dispatch/3/4/eager', 3), ('dispatch/4/5/eager', 4), ('chain/3/eager', 3), ('tree/4/eager', 4),
            ('groups/4', 4)] if not c.quick else [('dispatch/4/5/eager', 4), ('tree/3/eager', 3)]
    byk = {j.key: j for j in jobs}
    for k, size in conf:
        j = byk[k]
        mod, fn = j.func.split(':')
        real = engine.real_mpi(size, mod, fn, j.args)
        if real is None:
            c.extra.setdefault('real_mpi_unavailable', []).append(k)
            continue
        c.real += 1
        # an unexplored real outcome would be an incomplete model: judged by the same oracle, reported if bad

        class X:
            results = real
            outcome = 'ok'
        for kk, m in judge(j, X) or ():
            c.bad(f'real/{k}/{kk}', m)
        c.extra.setdefault('real_outcome_explored', {})[k] = any(e.results == real for e in res[k].execs)
    c.assumptions += ['ranks share nothing but messages and files (checked by construction: separate processes)',
                      'collectives modelled as fully synchronising; sends as rendezvous (sync) and as buffered (eager)']
