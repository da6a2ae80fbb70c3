"""C16: coordinate transformations and metric reuse, over meshes x layouts x distributions x visiting orders."""
import itertools
import numpy as np
from mc.check import Job
from mc.scen import common as cm

RANKS = {'quick': 2, 'thorough': 4}

# layouts whose elements almost, or only after rounding, coincide; thin and tiny domains
EXTRA = {
    'near3': (3, 'crazy', dict(c=0.), [[1, 1.0003, 1], 1, [1, 1.00002]]),
    'tiny3': (3, 'crazy', dict(c=0., bounds=((0, 0.002), (0, 0.002), (0, 0.002))), [[1, 2], [1, 2], [1, 2]]),
    'tiny3b': (3, 'crazy', dict(c=0., bounds=((0, 1e-6), (0, 1e-6), (0, 3e-6))), [[1, 3], [1, 2], 2]),
    'thin3': (3, 'cuboid', dict(region_layout=(1, 2, 1), width=1e-3, length=2, height=3e-4), [[1, 2, 2], 1, [1, 3]]),
    'perm3': (3, 'crazy', dict(c=0.), [[1, 2, 3], [3, 2, 1], [2, 1, 3]]),
    'bnd3': (3, 'crazy', dict(c=0., bounds=((0, 2), (1, 4), (-1, 0.5))), [2, [1, 2], 2]),
    'bndp3': (3, 'crazy_periodic', dict(c=0., bounds=((0, 2), (1, 4), (-1, 0.5))), [2, [1, 2], 2]),
    'pwc3': (3, 'pwc', {}, [[1, 2, 1], [1, 1.0004], 2]),
    # nearly all elements are the same
    'odd24': (3, 'crazy', dict(c=0.), [[1] * 23 + [1.5], 1, 1]),
    'odd2d': (2, 'crazy', dict(c=0.), [1, [1] * 23 + [1.5]]),
    'odd2c': (2, 'rectangle', dict(region_layout=(1, 2), width=1, length=2), [[1] * 12, [1]]),
    'near2': (2, 'crazy', dict(c=0.), [[1, 1.0001, 1], [1, 1, 1.00003]]),
    'tiny2': (2, 'crazy', dict(c=0., bounds=((0, 2e-4), (0, 2e-4))), [[1, 2, 3], [3, 2, 1]]),
    'bnd2': (2, 'crazy', dict(c=0., bounds=((0, 3), (1, 1.7))), [3, [1, 2]]),
    'par2': (2, 'quadrangle', dict(p_UL=(0, 0), p_DL=(1, 0.2), p_UR=(0.3, 1.1), p_DR=(1.3, 1.3)), [[1, 1.00001, 2], [1, 2]]),
    'tpar2': (2, 'quadrangle', dict(p_UL=(0, 0), p_DL=(1e-5, 2e-6), p_UR=(3e-6, 1.1e-5), p_DR=(1.3e-5, 1.3e-5)),
              [[1, 3], [1, 2]]),
    'rect2': (2, 'rectangle', dict(region_layout=(3, 2), width=1e-3, length=3), [[1, 2], [1, 1.00002]]),
    'perm2': (2, 'rectangle', dict(region_layout=(1, 2), width=2, length=4), [[1, 2, 3], [3, 2, 1]]),
}


def hist_specs():
    s = []
    for L, w, h in ((2., 1.5, 1.), (1., 1.5, 2.), (3., 1., 1.)):
        s.append(((3, 'LDC', dict(l=L, w=w, h=h), [1, 1, 1]), ((0, 0, 0), (L, w, h))))
    return s


def check(c):
    q = c.quick
    jobs = []
    names = dict(EXTRA)
    for n in cm.MESHES:
        if n != 'tri' and not (q and n in ('p333', 'c3big', 'arch2', 'c3')):
            names[n] = cm.MESHES[n]
    for n, spec in names.items():
        d = spec[0]
        for size in range(1, RANKS[c.tier] + 1):
            parts = [None]
            if size > 1 and not q:
                parts += ['debug'] + cm.some_parts(cm.num_elements(n) if n in cm.MESHES else 0, size, 3, c.seed)
            if q and size > 1 and n not in EXTRA and d == 3:
                continue
            for p in parts:
                if isinstance(p, tuple) and sum(p) == 0:
                    continue
                jobs.append(Job(f'{n}/{size}/{p}', size, 'mc.scen.ct:ct', (spec, p, not q), cost=100 if d == 3 else 20))
    hs = [((3, 'LDC', dict(L=L, w=w, h=h), [1, 1, 1]), ((0, 0, 0), (L, w, h)))
          for L, w, h in ((2, 1.5, 1), (1, 1.5, 2), (3, 1, 1))]
    hs2 = [((2, 'quadrangle', dict(p_UL=(0, 0), p_DL=(a, 0), p_UR=(0, b), p_DR=(a, b)), [1, 2]), ((0, 0), (a, b)))
           for a, b in ((1, 2), (3, 1), (2, 2))]
    depth = 3 if q else 5
    for nm, H in (('hist3', hs), ('hist2', hs2)):
        for seq in itertools.product(range(3), repeat=depth):
            if any(a == b for a, b in zip(seq, seq[1:])) or (q and seq[0] > 1):
                continue
            jobs.append(Job(f'{nm}/{"".join(map(str, seq))}', 1, 'mc.scen.ct:history', (H, seq), cost=15))

    def judge(job, x):
        if not job.func.endswith(':ct'):
            return
        by = {}
        shape = x.results[0]['shape']
        for res in x.results:
            for i, (m, b) in res['marks'].items():
                if m is None:
                    continue
                J = np.frombuffer(b).reshape(shape)
                c.states += 1
                if m in by:
                    i0, J0 = by[m]
                    e = np.max(np.abs(J - J0)) / np.max(np.abs(J0))
                    # componentwise, relative to the size of that direction
                    s = np.max(np.abs(J0), axis=(0,) + tuple(range(2, J0.ndim)), keepdims=True)
                    e = np.max(np.abs(J - J0) / s)
                    if e > 1e-7:
                        yield 'same-mark', f'elements {i0} and {i} share the metric mark {m!r} but their Jacobians ' \
                                           f'differ by {e:.2e} (relative)'
                else:
                    by[m] = (i, J)
        by = {}
        for res in x.results:
            for t, (m, g) in res['tm'].items():
                if m in by and abs(by[m][1] - g) > 1e-7 * abs(g):
                    yield 'same-trace-mark', f'trace elements {by[m][0]} and {t} share the mark {m!r}, metrics ' \
                                             f'{by[m][1]} and {g}'
                by.setdefault(m, (t, g))
    c.run(jobs, judge)
    c.extra['meshes'] = len(names)
    c.extra['mesh_histories'] = sum('hist' in j.key for j in jobs)
    c.assumptions.append('derivatives are judged by 4th-order central differences (h=2e-3, relative tolerance 2e-7)')
