"""C22: fields and function wrappers: all operator trees up to a depth, boundary-wise and trace-wise fields, norms"""
from mc.check import Job
from mc.scen import common as cm
from mc.scen import fld

RANKS = {'quick': 2, 'thorough': 4}

PERIODIC = ('p333', 'p2', 'p22', 'rectp', 'cubp')


def check(c):
    q = c.quick
    jobs = []
    # ---- operator trees
    worlds = [('f3', 'one3'), ('f2', 'one2'), ('w3', 'one3'), ('w2', 'one2')]
    if not q:
        worlds += [('f3', 'c3a'), ('f3', 'cub'), ('f2', 'c2a'), ('f2', 'chp1')]
    for fw, m in worlds:
        for first in fld.ops(fw):
            for depth, how in [(1, 'def'), (1, 'method'), (2, 'def')] + ([] if q else [(2, 'method')]):
                sizes = [1] if fw[0] == 'w' or depth == 2 else range(1, RANKS[c.tier] + 1)
                for size in sizes:
                    jobs.append(Job(f'{fw}/{m}/{first}/{depth}/{how}/{size}', size, 'mc.scen.fld:trees',
                                    (fw, m, None, first, depth, (first,), how), cost=(30 if depth == 2 else 3)))
    # ---- on the boundaries and trace elements
    b3 = ['c3', 'cub', 'c3c', 'one3'] if q else ['c3', 'c3c', 'c3a', 'cub', 'cubd', 'arch', 'one3', 'line3', 'p333', 'cubp']
    b2 = ['c2', 'c2c', 'chp1', 'rect', 'quad', 'cic', 'bcr', 'tri', 'c2a', 'rect32']
    for m in b3 + b2:
        if m not in cm.MESHES:
            continue
        three = m in b3
        n = cm.num_elements(m)
        for size in range(1, RANKS[c.tier] + 1):
            if three and q and m == 'c3c' and size > 1:
                continue
            parts = [None] if size == 1 else cm.some_parts(n, size, 1 if q else 3, c.seed)
            for p in parts:
                times = (0.5, 2) if q else (0.5, 2, 0.25)
                jobs.append(Job(f'{"bound3" if three else "bound2"}/{m}/{size}/{p}', size,
                                'mc.scen.fld:bound3' if three else 'mc.scen.fld:bound2', (m, p, times),
                                cost=60 if three else 5))
    for m in ['one3', 'c3', 'c3c'] if q else b3:
        if m not in cm.MESHES or m in PERIODIC:
            continue
        n = cm.num_elements(m)
        for first in ('bw', 'std', 'flux', 'norm', 'perp'):
            for size in range(2, RANKS[c.tier] + 1):
                for p in [(n,) + (0,) * (size - 1), (0,) * (size - 1) + (n,)]:
                    jobs.append(Job(f'first/{first}/{m}/{size}/{p}', size, 'mc.scen.fld:bound3', (m, p, (1.,), first),
                                    cost=2))
    # ---- norms and inner products with basis functions
    for m, p in [('c3', (2, 1, 1)), ('c3c', (1, 2, 1)), ('c2', None), ('c2c', None), ('quad', None)] + \
                ([] if q else [('cub', (2, 2, 1)), ('arch', (1, 1, 1)), ('chp1', None)]):
        for size in range(1, RANKS[c.tier] + 1):
            for pt in [None] if size == 1 else cm.some_parts(cm.num_elements(m), size, 1 if q else 3, c.seed):
                jobs.append(Job(f'norms/{m}/{size}/{pt}', size, 'mc.scen.fld:norms', (m, pt, p), cost=10))
    st = {'trees': 0, 'refused': 0}

    def judge(job, x):
        for res in x.results[:1]:
            st['trees'] += res.get('trees', 0)
            rf = res.get('refused')
            st['refused'] += len(rf) if isinstance(rf, list) else 0
        return ()
    c.run(jobs, judge)
    c.extra['operator_trees'] = st['trees']
    c.extra['operator_trees_refused_with_NotImplementedError'] = st['refused']
    c.assumptions += ['derivatives are numerical (central differences, step 1e-6): judged to 1e-6, second derivatives to 5e-2 '
                      'of the scale of the value',
                      'a combination answered with NotImplementedError at depth 2 is a refusal, not a violation; every '
                      'operation must work on plain operands']
