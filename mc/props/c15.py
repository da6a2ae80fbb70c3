"""C15: boundary conditions select exactly the dofs and values on the named boundaries, whatever happened before."""
from mc.check import Job
from mc.scen import common as cm

M3 = {'box3': ((3, 'crazy', dict(c=0., bounds=((0, 2), (1, 2), (-1, 1))), [2, [1, 2], 1]), 1e-9),
      'cub3': ((3, 'cuboid', dict(region_layout=(2, 1, 2), width=2, length=1.5), [[1, 2], 1, 1]), 1e-9),
      'psc3': ((3, 'psc', {}, [2, 2, 2]), 1e-7),
      'arch3': ((3, 'bridge_arch_cracked', {}, [1, 1, 2]), 2e-3)}
M2 = {'box2': ((2, 'crazy', dict(c=0., bounds=((0, 2), (-1, 0.5))), [[1, 2], 3]), 1e-9),
      'rect2': ((2, 'rectangle', dict(region_layout=(2, 2), width=2, length=1.5), [1, [1, 2]]), 1e-9),
      'quad2': ((2, 'quadrangle', dict(p_UL=(0, 0), p_DL=(1, 0.2), p_UR=(0.3, 1.1), p_DR=(2, 1.5)), [2, 2]), 1e-9),
      'chp1': ((2, 'chp1', {}, [2, 1]), 2e-3),
      'cic': ((2, 'cic', {}, [1, 1]), 2e-3)}
K3 = [(f'{k}-f', h) for k in range(3) for h in (0, 1)] + [(f'{k}-t', h) for k in range(3) for h in (1, 0)] + \
     [(f'{k}-lt', h) for k in range(3) for h in (1, 0)]
K2 = [(f'{k}-f-{o}', h) for k in range(2) for o in 'io' for h in (0, 1)] + [('1-t-o', 1)]
OPS = 'AB20fgtuVLop'
H = {'0bw': ((3, 'crazy', dict(c=0.), [1, 2, 1]), (1, 1, 1), '0-f', 0, 'boundary-wise', ('1-f', True)),
     '0st': ((3, 'crazy', dict(c=0.), [1, 1, 2]), (1, 1, 1), '0-f', 0, 'standard', ('0-f', True)),
     '2bw': ((3, 'crazy', dict(c=0.), [2, 1, 1]), (1, 1, 1), '2-f', 0, 'boundary-wise', ('1-f', False)),
     '1o': ((2, 'crazy', dict(c=0.), [2, 2]), (1, 2), '1-f-o', 0, 'standard', ('1-f-i', True)),
     '0lt': ((3, 'crazy', dict(c=0.), [1, 1, 1]), (1, 1, 1), '0-lt', 1, 'boundary-wise', ('0-f', True))}


def check(c):
    q = c.quick
    jobs = []
    for n, (spec, tol) in list(M3.items()) + list(M2.items()):
        d = spec[0]
        N = cm.num_elements(spec)
        p = (1, 2, 1) if d == 3 else (2, 1)
        for size in (1, 2) if q else (1, 2, 3):
            if q and n in ('psc3', 'quad2') and size > 1:
                continue
            for part in [None] if size == 1 else cm.some_parts(N, size, 2 if q else 5, c.seed)[-1 if q else 0:]:
                ks = K3 if d == 3 else K2
                for a in range(0, len(ks), 2):
                    jobs.append(Job(f'subsets/{n}/{size}/{part}/{ks[a][0]}', size, 'mc.scen.bc:subsets',
                                    (spec, part, p, ks[a:a + 2], tol, not q), cost=50 * N))
                if n in ('box3', 'cub3', 'box2', 'rect2', 'quad2'):
                    jobs.append(Job(f'natural/{n}/{size}/{part}', size, 'mc.scen.bc:natural',
                                    (spec, part, p, tol), cost=20 * N))
                kinds = [x for x in ks if '-f' in x[0]]
                for ID, h in kinds:
                    jobs.append(Job(f'impose/{n}/{size}/{part}/{ID}{h}', size, 'mc.scen.bc:impose',
                                    (spec, part, p, ID, h, tol, 6 if q else 40), cost=20 * N))
                for k in range(3) if d == 3 else (1,):
                    if 'per' not in n and n != 'psc3':
                        jobs.append(Job(f'offdiag/{n}/{size}/{part}/{k}', size, 'mc.scen.bc:impose_offdiag',
                                        (spec, part, p, k, tol, 6 if q else 40), cost=20 * N))
    depth = 3 if q else 4
    for h, a in H.items():
        for o in OPS:
            jobs.append(Job(f'hist/{h}/{o}', 1, 'mc.scen.bc:histories', a + (o, depth), cost=2000))
    for o in OPS:
        jobs.append(Job(f'hist/0adt/{o}', 1, 'mc.scen.bc:histories',
                        ((3, 'crazy', dict(c=0.), [1, 1, 1]), (1, 1, 1), '0-t', 1, 'standard', ('0-t', True), o, 2 if q else 3, True),
                        cost=2000))
    c.run(jobs)
    c.extra['configurations'] = len(jobs)
    c.extra['histories'] = len(H) * len(OPS) ** depth
