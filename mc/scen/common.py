"""shared helpers of the scenarios: mesh catalogue, controlled element distribution, keys"""
import random as _random
import numpy as np

# name -> (dim, ID, kwargs, layout)
MESHES = {
    # ---- 3D
    'c3': (3, 'crazy', dict(c=0.), [2, 2, 2]),
    'c3c': (3, 'crazy', dict(c=0.15), [2, 2, 2]),
    'c3a': (3, 'crazy', dict(c=0.1, bounds=((0, 2), (1, 2), (-1, 1))), [[1, 2], 1, [2, 1, 1]]),
    'c3big': (3, 'crazy', dict(c=0.1), [3, 2, 4]),
    'p3': (3, 'crazy_periodic', dict(c=0.1), [2, 2, 3]),
    'p3o': (3, 'crazy_periodic', dict(c=0.), [2, 3, 2]),
    'p333': (3, 'crazy_periodic', dict(c=0.05), [3, 3, 3]),
    'arch': (3, 'bridge_arch_cracked', {}, [2, 1, 2]),
    'arch2': (3, 'bridge_arch_cracked', {}, [2, 2, [1, 2]]),
    'psc': (3, 'psc', {}, [2, 2, 2]),
    'pwc': (3, 'pwc', {}, [3, 2, 2]),
    'ldc': (3, 'LDC', dict(L=2, w=1.5, h=1), [2, 2, 1]),
    'cub': (3, 'cuboid', dict(region_layout=(2, 1, 2)), [2, 1, 1]),
    'cub222': (3, 'cuboid', dict(region_layout=(2, 2, 2)), [1, 2, 1]),
    'cubd': (3, 'cuboid', dict(region_layout=(1, 2, 2), width=2, length=1.5), [[1, 2], 2, 1]),
    'cubp': (3, 'cuboid_periodic', dict(region_layout=(2, 2, 2)), [1, 1, 2]),
    'ct': (3, 'ct', {}, [2, 2, 2]),
    'one3': (3, 'crazy', dict(c=0.1), [1, 1, 1]),
    'line3': (3, 'crazy', dict(c=0.05), [1, 1, 5]),
    # ---- 2D
    'c2': (2, 'crazy', dict(c=0.), [2, 3]),
    'c2c': (2, 'crazy', dict(c=0.2), [3, 3]),
    'c2a': (2, 'crazy', dict(c=0.1, bounds=((0, 2), (-1, 1))), [[1, 2, 1], [3, 1]]),
    'p2': (2, 'crazy_periodic', dict(c=0.1), [3, 3]),
    'p22': (2, 'crazy_periodic', dict(c=0.), [2, 2]),
    'chp1': (2, 'chp1', {}, [2, 2]),
    'chp2': (2, 'chp2', {}, [1, 2]),
    'cic': (2, 'cic', {}, [1, 2]),
    'quad': (2, 'quadrangle', dict(p_UL=(0, 0), p_DL=(1, 0.2), p_UR=(0.3, 1.1), p_DR=(2, 1.5)), [2, 2]),
    'rect': (2, 'rectangle', dict(region_layout=(2, 2)), [2, 1]),
    'rect32': (2, 'rectangle', dict(region_layout=(3, 2), width=2, length=1.5), [1, [1, 2]]),
    'rectp': (2, 'rectangle_periodic', dict(region_layout=(2, 2)), [1, 2]),
    'bcr': (2, 'bcr', {}, [2, 2]),
    'tri': (2, 'triangle_test', {}, [2, 2]),
    'one2': (2, 'crazy', dict(c=0.1), [1, 1]),
    'line2': (2, 'crazy', dict(c=0.05), [1, 6]),
}


def dim(name):
    return MESHES[name][0]


def masters(d):
    if d == 3:
        from objects.CSCG._3d import master
    else:
        from objects.CSCG._2d import master
    return master


# ---- element distribution -------------------------------------------------------------------------
def _draws(counts):
    """integers that the 'chaotic' distribution turns into exactly these element counts (or None)"""
    N = sum(counts)

    def result(vals):
        vals = [0 if v <= 5 else v for v in vals]
        S = sum(vals)
        if S <= 0:
            return None
        fr = np.array(vals) / S
        d = [int(N * fr[i]) for i in range(len(vals))]
        d[-1] = N - sum(d[:-1])
        return d
    k = sum(1 for c in counts[:-1] if c)
    for M, e in ((1000, 10), (1000, 0), (1000, 100), (997, 1), (100000, 7), (1 << 20, 0), (1 << 20, 64)):
        v = [c * M + e if c else 0 for c in counts[:-1]]
        for last in (counts[-1] * M - e * k, counts[-1] * M, 0):
            w = v + [max(last, 0)]
            if result(w) == list(counts):
                return w
    return None


class force_partition:
    """context: the next 'chaotic' distribution(s) drawn in this process give these counts"""
    def __init__(self, counts):
        self.draws = _draws(counts) if counts is not None else None

    def __enter__(self):
        self.orig = _random.randint
        if self.draws is not None:
            it = {'i': 0}

            def randint(a, b):
                v = self.draws[it['i'] % len(self.draws)]
                it['i'] += 1
                return v
            _random.randint = randint
        return self

    def __exit__(self, *a):
        _random.randint = self.orig


def make_mesh(name, part=None, **over):
    """part: None (library default) | 'debug' | 'SWV0' | tuple of element counts per rank"""
    d, ID, kw, layout = MESHES[name] if isinstance(name, str) else name
    kw = dict(kw)
    kw.update(over)
    M = masters(d)
    if isinstance(part, tuple):
        with force_partition(part):
            mesh = M.MeshGenerator(ID, **kw)(layout, EDM='chaotic')
    else:
        mesh = M.MeshGenerator(ID, **kw)(layout, EDM=part)
    return mesh


def make_space(d, p):
    return masters(d).SpaceInvoker('polynomials')([('Lobatto', q) for q in (p if isinstance(p, (tuple, list)) else
                                                                            [p] * d)])


def num_elements(name):
    """number of elements, computed with a throw-away mesh is too costly: from the catalogue (regions x layout)"""
    d, ID, kw, layout = MESHES[name] if isinstance(name, str) else name
    per = 1
    for x in layout:
        per *= x if isinstance(x, int) else len(x)
    return int(per * num_regions(name))


def num_regions(name):
    d, ID, kw, layout = MESHES[name] if isinstance(name, str) else name
    return int({'cuboid': lambda: np.prod(kw.get('region_layout', (2, 2, 2))),
         'cuboid_periodic': lambda: np.prod(kw.get('region_layout', (2, 2, 2))),
         'rectangle': lambda: np.prod(kw.get('region_layout', (2, 2))),
         'rectangle_periodic': lambda: np.prod(kw.get('region_layout', (2, 2))),
         'bridge_arch_cracked': lambda: 4, 'chp1': lambda: 4, 'chp2': lambda: 8, 'cic': lambda: 6,
         'triangle_test': lambda: 1, 'ct': lambda: 1}.get(ID, lambda: 1)())


def compositions(n, k, zero=True):
    """all ways to write n as an ordered sum of k non-negative (positive) parts"""
    if k == 1:
        if n or zero:
            yield (n,)
        return
    for a in range(0 if zero else 1, n + 1):
        for r in compositions(n - a, k - 1, zero):
            yield (a,) + r


def some_parts(n, size, limit, seed=1):
    """partitions to explore: all when they fit, else the structured extremes then evenly strided ones"""
    allp = list(compositions(n, size))
    if len(allp) <= limit:
        return allp
    out = []

    def add(p):
        if p not in out and len(out) < limit:
            out.append(p)
    add(tuple(n // size + (1 if j < n % size else 0) for j in range(size)))      # balanced
    for i in range(size):                                   # one rank owns everything
        add(tuple(n if j == i else 0 for j in range(size)))
    for i in range(size):                                   # one rank empty
        rest = size - 1
        if rest:
            q = [n // rest + (1 if x < n % rest else 0) for x in range(rest)]
            add(tuple(q[:i] + [0] + q[i:]))
    for i in range(size):                                   # singletons
        add(tuple(n - size + 1 if j == i else 1 for j in range(size)) if n >= size else allp[0])
    k = max(1, len(allp) // max(1, limit - len(out)))
    i = (seed * 7) % k
    while i < len(allp):
        add(allp[i])
        i += k
    for p in allp:
        add(p)
    return out


# ---- geometry ----------------------------------------------------------------------------------------
def center(mesh, i):
    """geometric key of an element, independent of its number and owner"""
    d = mesh.ndim
    x = mesh.elements[i].coordinate_transformation.mapping(*[np.array([0.0])] * d)
    return tuple(float(np.round(np.ravel(v)[0], 8)) + 0. for v in x)


def R(x, n=7):
    return float(np.round(float(x), n)) + 0.
