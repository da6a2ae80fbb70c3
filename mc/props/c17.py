"""C17: triangular meshes: every rotation / reflection of the cells of small triangulations x degrees x rank counts against geometry."""
import itertools
from mc.check import Job

RANKS = {'quick': 6, 'thorough': 9}

SQ = [(0., 0.), (1., 0.), (1., 1.), (0., 1.)]
FAN3 = [(0., 0.), (1., .1), (.2, .9), (-.7, -.4)]
FAN4 = [(0., 0.), (0., -1.), (.9, .1), (0., .9), (-.8, .4)]
HEX = [(0., 0.), (1., 0.), (.6, .8), (-.4, .9), (-1., .1), (-.5, -.9), (.6, -.7)]
FULL = ('ct', 'num', 'inc', 'mass', 'red', 'rec')


def rot(cell, k):
    """k = 0..2 rotations of the vertex order, 3..5 those of the reversed one"""
    c = tuple(cell) if k < 3 else (cell[0], cell[2], cell[1])
    return c[k % 3:] + c[:k % 3]


def square():
    for d in (((0, 1, 2), (0, 2, 3)), ((0, 1, 3), (1, 2, 3))):
        for a, b in itertools.product(range(6), repeat=2):
            yield ('cells', SQ, [rot(d[0], a), rot(d[1], b)], 'unit')


def fan(pts, ks=range(3), order=None):
    n = len(pts) - 1
    cells = [(0, i, i % n + 1) for i in range(1, n + 1)]
    for r in itertools.product(ks, repeat=n):
        c = [rot(x, k) for x, k in zip(cells, r)]
        yield ('cells', pts, [c[i] for i in order] if order else c, 'half' if n == 4 else 'wall')


def strip(xs, rots, sc=1., h=1.):
    n = len(xs)
    pts = [(sc * x, 0.) for x in xs] + [(sc * x, sc * h) for x in xs]
    c = []
    for i in range(n - 1):
        c += [(i, i + 1, n + i), rot((n + i + 1, n + i, i + 1), rots[i])]
    return ('cells', pts, c, 'wall')


def grid(nx, ny, rots):
    """nx x ny distorted cells split in two, rotated by the pattern rots"""
    pts = [(i + .15 * ((i * 3 + j * 5) % 4) / 4, j + .2 * ((i * 5 + j * 2) % 3) / 3) for j in range(ny + 1) for i in range(nx + 1)]
    c = []
    for j in range(ny):
        for i in range(nx):
            a = j * (nx + 1) + i
            b = a + nx + 1
            c += [(a, a + 1, b + 1), (a, b + 1, b)] if (i + j) % 2 else [(a, a + 1, b), (a + 1, b + 1, b)]
    return ('cells', pts, [rot(x, rots[m % len(rots)]) for m, x in enumerate(c)], 'wall')


def chunks(L, n):
    L = list(L)
    return [L[i:i + n] for i in range(0, len(L), n)]


def check(c):
    q = c.quick
    R = 3 if q else 4
    jobs = []

    def add(name, size, func, args, cost):
        jobs.append(Job(name, size, f'mc.scen.tri:{func}', args, cost=cost))

    # all vertex orders of small triangulations
    for m, L in enumerate(chunks(square(), 9)):
        add(f'square/{m}', 1, 'many', (L, [2], ('num', 'inc', 'red')), 8)
        if not q or m % 3 == 0:
            add(f'square/2/{m}', 2, 'many', (L, [1] if q else [1, 3], ('ct', 'num', 'inc', 'mass')), 8)
    for m, L in enumerate(chunks(fan(FAN3), 9)):
        add(f'fan3/{m}', m % 3 + 1, 'many', (L, [2], ('num', 'inc', 'red')), 8)
    for m, L in enumerate(chunks(fan(FAN4, order=(2, 0, 3, 1)), 9)):
        add(f'fan4/{m}', (1, 2, 3)[m % 3], 'many', (L, [1] if q else [1, 2], ('num', 'inc') if q else ('num', 'inc', 'mass', 'red')), 6)
    if not q:
        for m, L in enumerate(chunks(fan(FAN3, range(6)), 18)):
            add(f'fan3r/{m}', m % 3 + 1, 'many', (L, [1, 2], ('num', 'inc', 'red')), 20)
        for m, L in enumerate(chunks(fan(HEX), 27)):
            add(f'hex/{m}', m % 4 + 1, 'many', (L, [1], ('num', 'inc')), 12)
    # everything, several degrees, all rank counts (with ranks that own nothing)
    degs = [1, 2, 3] if q else [1, 2, 3, 4, 5]
    full = {'sq': ('cells', SQ, [(0, 1, 2), (3, 0, 2)], 'unit'), 'fan4': ('cells', FAN4, [(0, 1, 2), (2, 3, 0), (4, 0, 3), (1, 4, 0)], 'half'),
            'one': ('cells', SQ[:3], [(1, 2, 0)], 'wall'), 'grid': grid(3, 2, (0, 1, 2, 4, 0, 5, 3))}
    for n, s in full.items():
        for p in degs:
            for size in range(1, R + 1):
                if q and size > 1 and (size + p) % 3 != {'sq': 0, 'fan4': 1, 'one': 2, 'grid': 0}[n]:
                    continue
                add(f'full/{n}/{p}/{size}', size, 'many', ([s], [p], FULL), 4 * p * (3 if n == 'grid' else 1))
    for size in (5, 6) if q else (5, 6, 7, 8, 9):             # more ranks than elements
        add(f'ranks/{size}', size, 'many', ([full['fan4'], full['one']], [1], ('num', 'inc')), 6)
    for n, kw, b in (('st2', {}, 'unit'), ('test0', {}, 'unit'), ('square', dict(K=2, d=3), 'sq3'), ('square', dict(K=3, d=2), 'sq2')):
        for size in (1, 3) if q else range(1, R + 1):
            add(f'lib/{n}/{b}/{size}', size, 'many', ([('id', n, kw, b)], [2], ('ct', 'num', 'inc', 'mass')), 12)
    # elements of the same, of almost the same, and of tiny shapes
    similar = [strip([0, 1, 2, 3], (0, 0, 0)), strip([0, 1, 2.00003, 3], (0, 0, 0)), strip([0, 1, 1.7, 3.1], (0, 0, 0), 1e-5),
               strip([0, 1, 1.7, 3.1], (0, 1, 2), 3e-4), strip([0, 1, 2, 3], (0, 1, 2), 1e3)]
    for m, s in enumerate(similar):
        add(f'similar/{m}', 1 + m % 2, 'many', ([s], [1, 2] if q else [1, 2, 3], FULL), 10)
    rots = list(itertools.product(range(3), repeat=4))
    for m, L in enumerate(chunks([strip([0, 1, 2, 3, 4], r) for r in rots], 27 if q else 9)):
        add(f'similar/rot/{m}', 1 if q else m % 3 + 1, 'manycross', (L, 1 if q else 2), 8)
    for n in ('sq', 'fan4', 'grid'):
        for p in (1, 2, 3) if q else (1, 2, 3, 4):
            add(f'cross/{n}/{p}', p % 3 + 1, 'cross', (full[n], p), 6)
        for size in (1, 3) if q else range(1, R + 1):
            add(f'fields/{n}/{size}', size, 'fields', (full[n],), 8)
            add(f'exports/{n}/{size}', size, 'exports', (full[n], 2 if q else 3), 8)
    # boundary conditions: histories, and programs on all subsets of the boundaries
    sub = [s for m in range(1, 5) for s in itertools.combinations(('Upper', 'Down', 'Left', 'Right'), m)]
    add('bc/hist', 1, 'bhist', (full['sq'], 2, ('0-f-o', '1-f-o'), (('Upper',), ('Left', 'Down'), ('Right',)), 5), 20)
    if not q:
        add('bc/hist3', 1, 'bhist', (full['sq'], 1, ('0-f-i', '1-f-i', '1-f-o'), (('Upper',), ('Left', 'Down', 'Right')), 5), 20)
        add('bc/hist2', 2, 'bhist', (full['grid'], 2, ('0-f-i', '1-f-o'), (('Wall',), ()), 5), 20)
    kinds = ('0-f-i', '0-f-o', '1-f-i', '1-f-o')
    for m, b in enumerate(sub):
        h = [(k, list(b), True, False) for k in kinds] + [(k, list(b[::-1]), True, True) for k in kinds]
        add(f'bc/values/{m}', m % 3 + 1, 'boundary', (full['sq'], m % 3 + 1, h), 4)
    for n, b in (('fan4', ['Neg']), ('fan4', ['Pos', 'Neg']), ('grid', ['Wall'])):
        add(f'bc/values/{n}/{len(b)}', 2, 'boundary', (full[n], 2, [(k, b, True, False) for k in kinds]), 4)
    for kind in ('poisson', 'stokes'):
        for m, b in enumerate(sub):
            for p in (1 + m % 2,) if q else (1, 2, 3):
                for size in (m % 3 + 1,) if q else range(1, R):
                    add(f'program/{kind}/{m}/{p}/{size}', size, 'program', (full['sq'], p, list(b), kind), 5)
        for n, b in (('fan4', ['Neg']), ('grid', ['Wall'])):
            add(f'program/{kind}/{n}', 2, 'program', (full[n], 2, b, kind), 8)
    c.run(jobs)
    c.assumptions += ['vertex 0 of a triangle is a singular point of its map: 2-form mass matrices are divergent integrals there and are compared '
                      'with the documented Gauss rule of p + 2 points']
