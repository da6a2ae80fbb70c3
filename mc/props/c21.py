"""C21: trilinear terms, multi-dimensional element-wise matrices and nonlinear systems against dense first-principle oracles"""
from mc.check import Job
from mc.scen import common as cm

RANKS = {'quick': 2, 'thorough': 4}

# bricks of several sizes, so that element types alternate
ODD3 = (3, 'crazy', dict(c=0., bounds=((0, 2), (1, 2), (-1, 1))), [[1, 2], 1, [2, 1]])
ODD2 = (2, 'crazy', dict(c=0., bounds=((0, 2), (-1, 1))), [[1, 2, 1], [3, 1]])


def elements(m):
    return cm.num_elements(m)


def check(c):
    q = c.quick
    jobs = []
    # ---- operators and everything that can be done with them
    three = {'122': 1, '111': 1, '222': 1, '221': 1, '212': 1, 'curl': 1}
    P3 = [((1, 1, 1),) * 3, ((1, 2, 1), (1, 1, 1), (1, 1, 2))]
    if not q:
        P3 += [((2, 1, 1), (1, 1, 2), (1, 2, 1)), ((2, 2, 2),) * 3]
    M3 = [('c3', None), (ODD3, None), ('one3', (4, 5, 6)), ('c3c', (6, 4, 5))]
    if not q:
        M3 += [('cub', None), ('arch', (5, 4, 6)), ('p333', (4, 5, 6)), ('psc', (4, 6, 5))]
    for op in three:
        for k, ps in enumerate(P3):
            for m, qd in M3:
                if op == 'curl' and qd is not None:
                    continue                              # refused with NotImplementedError: only orthogonal elements
                if q and k and (m in ('c3c', 'c3') or op == '222' and qd):
                    continue
                for size in range(1, RANKS[c.tier] + 1):
                    if q and size > 1 and (k or qd):
                        continue
                    for pt in [None] if size == 1 else cm.some_parts(elements(m), size, 1, c.seed):
                        jobs.append(Job(f'op/{op}/{m}/{ps}/{size}/{pt}', size, 'mc.scen.mdm:operator',
                                        (op, m, pt, ps, qd), cost=8 + 10 * k))
    P2 = [((1, 1),) * 3, ((1, 2), (2, 1), (1, 1))]
    if not q:
        P2 += [((2, 2),) * 3, ((3, 1), (1, 2), (2, 3))]
    M2 = [('c2', None), (ODD2, None), ('c2c', (5, 7)), ('quad', (7, 5)), ('chp1', (6, 7))]
    if not q:
        M2 += [('cic', (8, 7)), ('rect', None), ('p2', (6, 8)), ('tri', (7, 8))]
    for op in ('o011', 'i011', 'i211'):
        for k, ps in enumerate(P2):
            for m, qd in M2:
                for size in range(1, RANKS[c.tier] + 1):
                    if q and size > 1 and k:
                        continue
                    for pt in [None] if size == 1 else cm.some_parts(elements(m), size, 1, c.seed):
                        jobs.append(Job(f'op/{op}/{m}/{ps}/{size}/{pt}', size, 'mc.scen.mdm:operator',
                                        (op, m, pt, ps, qd, bool(k)), cost=5))
    # ---- every triple of basis cochains
    for op, m, ps in [('o011', 'c2', ((1, 1),) * 3), ('122', 'c3', ((1, 1, 1),) * 3)] + \
            ([] if q else [('222', ODD3, ((1, 1, 1),) * 3), ('212', ODD3, ((1, 1, 1),) * 3), ('o011', ODD2, ((2, 1),) * 3)]):
        for size in range(1, RANKS[c.tier] + 1):
            for pt in [None] if size == 1 else cm.some_parts(elements(m), size, 1, c.seed):
                jobs.append(Job(f'basis/{op}/{m}/{ps}/{size}/{pt}', size, 'mc.scen.mdm:operator',
                                (op, m, pt, ps, None, False, True), cost=12))
    for m, qd in M3:
        jobs.append(Job(f'curlself/{m}', 1, 'mc.scen.mdm:curl_self', (m, None, ((1, 1, 1), (1, 2, 1)), qd), cost=3))
        jobs.append(Job(f'curlself2/{m}', 2, 'mc.scen.mdm:curl_self', (m, None, ((1, 2, 1), (1, 1, 1)), qd), cost=3))
    jobs.append(Job('repeated/222', 1, 'mc.scen.mdm:repeated', ('222', ODD3, None, ((1, 1, 1),) * 3)))
    # ---- lifetimes
    W = [((3, 'crazy', dict(c=0.), [1, 1, 2]), ((1, 1, 1),) * 3),
         ((3, 'crazy', dict(c=0., bounds=((0, 2), (1, 2), (-1, 1))), [2, 1, 1]), ((1, 1, 1),) * 3),
         ((3, 'crazy', dict(c=0.), [1, 1, 1]), ((1, 1, 2),) * 3)]
    import itertools
    for op in ('curl', '222', '122', '212'):
        for seq in [(0, 1, 0), (1, 1, 2)] if q else list(itertools.product(range(3), repeat=3)):
            for keep in (0, 1):
                jobs.append(Job(f'life/{op}/{seq}/{keep}', 1, 'mc.scen.mdm:lifetimes', (op, W, seq, keep), cost=4))
    for op in ('curl',) if q else ('curl', '222', '122', '212', '221'):
        for slot in (2,) if q else range(3):
            jobs.append(Job(f'reborn/{op}/{slot}', 1, 'mc.scen.mdm:reborn',
                            (op, W[0][0], W[0][1], (1, 1, 2), slot), cost=30))
    # ---- nonlinear systems
    two, tri = [('uw2', [(1, 1)]), ('uw2n', [(1, 2)]), ('ns2', [(1, 1)]), ('lin2', [(1, 1)])], \
        [('uw3', [(1, 1, 1)]), ('wu3', [(1, 1, 1)]), ('mhd3', [(1, 1, 1)])]
    small3 = (3, 'crazy', dict(c=0.), [1, 1, 2])
    if not q:
        two += [('uw2', [(2, 2)]), ('ns2', [(2, 1)])]
        tri += [('uw3', [(1, 2, 1)])]
    for w, ps in two + tri:
        d = len(ps[0])
        for m in [ODD2, 'c2'] if d == 2 else [small3, 'c3'] if not q else [small3]:
            base = ('dof', (-1,)) if w == 'ns2' else 'no'
            for size in range(1, RANKS[c.tier] + 1):
                parts = [None] if size == 1 else cm.some_parts(elements(m), size, 2 if q else 4, c.seed)
                for pt in parts:
                    jobs.append(Job(f'residual/{w}/{m}/{size}/{pt}', size, 'mc.scen.mdm:residual', (w, m, pt, ps), cost=3))
                    for custom, chain, given in [(base, 'silly', 'lists')] + ([(base, 'sequent', 'lists')] if d == 2 or not q
                                                                               else []):
                        if q and m == 'c2' and chain == 'sequent':
                            continue
                        jobs.append(Job(f'newton/{w}/{m}/{custom}/{chain}/{given}/{size}/{pt}', size, 'mc.scen.mdm:newton',
                                        (w, m, pt, ps, ('zero', 'some'), custom, chain, given), cost=15))
    customs = [('dof', (0, -1, 5)), ('value', ((0, 0.03), (-1, .02), (5, -.01))), ('strong', 0, ('Upper', 'Left')),
               ('strong', 1, ('Down', 'Right'))]
    for cu in customs:
        for w in ('uw2', 'lin2'):
            for size in range(1, RANKS[c.tier] + 1):
                for pt in [None] if size == 1 else cm.some_parts(6, size, 1 if q else 3, c.seed):
                    for given in ('lists',) if size > 1 else ('lists', 'tuples', 'zeros'):
                        jobs.append(Job(f'custom/{w}/{cu}/{given}/{size}/{pt}', size, 'mc.scen.mdm:newton',
                                        (w, 'c2', pt, [(1, 1)], ('some',), cu, 'silly', given), cost=6))
    for cu in [('strong', 0, ('North', 'East')), ('strong', 1, ('South',)), ('value', ((3, 0.01),))]:
        for size in range(1, RANKS[c.tier] + 1):
            jobs.append(Job(f'custom/uw3/{cu}/{size}', size, 'mc.scen.mdm:newton',
                            ('uw3', 'c3', None, [(1, 1, 1)], ('some',), cu, 'silly', 'lists'), cost=12))
    for given in ('tuples', 'zeros'):
        jobs.append(Job(f'given/ns2/{given}', 2, 'mc.scen.mdm:newton',
                        ('ns2', 'c2', None, [(1, 1)], ('some',), ('dof', (-1,)), 'silly', given), cost=5))
    jobs.append(Job('stopping', 1, 'mc.scen.mdm:stopping', (), cost=10))
    st = {'conv': 0, 'reborn': 0}

    def judge(job, x):
        for res in x.results[:1]:
            st['conv'] += res.get('converged', 0)
            st['reborn'] += res.get('reborn', 0)
        return ()
    c.run(jobs, judge)
    c.extra['newton_runs_that_reported_convergence'] = st['conv']
    c.extra['forms_reborn_at_the_address_of_a_dead_one'] = st['reborn']
    c.assumptions += ['affine elements: default quadrature (exact); curved elements: the quadrature degree given to the library is '
                      'used in the oracle too', 'inner linear systems are solved directly']
