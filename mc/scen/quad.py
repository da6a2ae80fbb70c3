"""C20: quadrature rules, 1d bases, tensor-product bases and their caches"""
import itertools
import math
import numpy as np
from numpy.polynomial import legendre as Leg
from mc.scen.ct import Rec

_GL = {}


def gl(n):
    """a Gauss rule of n points from the Golub-Welsch matrix, polished (not the rule of the library)"""
    if n not in _GL:
        k = np.arange(1, n)
        b = k / np.sqrt(4. * k * k - 1)
        x = np.linalg.eigvalsh(np.diag(b, 1) + np.diag(b, -1)) if n > 1 else np.zeros(1)
        c = np.zeros(n + 1)
        c[n] = 1
        d = Leg.legder(c)
        for _ in range(3):
            x = x - Leg.legval(x, c) / Leg.legval(x, d)
        w = 2 / ((1 - x * x) * Leg.legval(x, d) ** 2)
        _GL[n] = (x, w)
    return _GL[n]


def lobatto(p):
    c = np.zeros(p + 1)
    c[p] = 1
    d = Leg.legder(c)
    dd = Leg.legder(d)
    x = np.concatenate([[-1.], np.sort(Leg.legroots(d)) if p > 1 else [], [1.]])
    for _ in range(3):
        if p > 1:
            x[1:-1] -= Leg.legval(x[1:-1], d) / Leg.legval(x[1:-1], dd)
    return x, 2 / (p * (p + 1) * Leg.legval(x, c) ** 2)


def rule(cat, p):
    if cat == 'Gauss':
        return gl(p + 1)
    if cat == 'Lobatto':
        return lobatto(p)
    if cat == 'Chebyshev':
        return -np.cos((2 * np.arange(1, p + 2) - 1) * np.pi / (2 * p + 2)), np.full(p + 1, np.pi / (p + 1))
    x, w = gl(p - 1)
    return np.concatenate([[-1], x, [1]]), np.concatenate([[0], w, [0]])


CATS = {'Gauss': 0, 'Lobatto': 1, 'extended_Gauss': 2, 'Chebyshev': 0}


def rules(P):
    """every 1d rule up to degree P: nodes, weights, exactness on every polynomial up to its order"""
    from components.quadrature import Quadrature
    r = Rec()
    for cat, lo in CATS.items():
        for p in range(lo, P + 1):
            q = Quadrature(p, category=cat)
            x, w = q.quad
            X, W = rule(cat, p)
            tol = 1e-12
            K = f'{cat}-{p}'
            if not r.eq(x, X, cat, f'{K} nodes', tol=tol, scale=1):
                continue
            r.eq(w, W, cat, f'{K} weights', tol=tol, scale=max(W))
            if q.ndim != 1 or np.size(x) != p + 1:
                r.bad.append((cat, f'{K}: ndim {q.ndim}, {np.size(x)} nodes'))
            V = Leg.legvander(np.asarray(x), 2 * p + 1)
            T = np.polynomial.chebyshev.chebvander(np.asarray(x), 2 * p + 1)
            order = {'Gauss': 2 * p + 1, 'Lobatto': 2 * p - 1, 'extended_Gauss': 2 * p - 3, 'Chebyshev': 2 * p + 1}[cat]
            for n in range(order + 1):
                if cat == 'Chebyshev':
                    r.eq(w @ T[:, n], math.pi if n == 0 else 0., cat, f'{K} integral of T_{n}', tol=tol * 5, scale=1)
                else:
                    r.eq(w @ V[:, n], 2. if n == 0 else 0., cat, f'{K} integral of P_{n}', tol=tol * 5, scale=1)
                    if n <= 12:
                        r.eq(w @ np.asarray(x) ** n, (1 + (-1) ** n) / (n + 1), cat, f'{K} integral of x^{n}', tol=tol * 5, scale=1)
            r.eq(np.array(q.quad_ndim[0]), X, cat, f'{K} quad_ndim', tol=tol, scale=1)
            r.eq(np.array(q.quad_ndim_ravel[-1]), W, cat, f'{K} quad_ndim_ravel', tol=tol, scale=max(W))
    return r.out()


def tensor(P, dims=(2, 3)):
    """every tensor rule of up to 3 categories and degrees up to P"""
    from components.quadrature import Quadrature
    r = Rec()
    one = [(c, p) for c, lo in CATS.items() for p in range(lo, P + 1)]
    for d in dims:
        for cmb in itertools.product(one, repeat=d):
            cats = [c for c, _ in cmb]
            ps = tuple(p for _, p in cmb)
            same = len(set(cats)) == 1
            for category in ([cats[0], cats] if same else [cats]):
                for deg in (ps, list(ps)):
                    q = Quadrature(deg, category=category)
                    ref = [rule(c, p) for c, p in cmb]
                    K = f'{cmb}'
                    for i in range(d):
                        r.eq(q.quad[0][i], ref[i][0], 'tensor', f'{K} nodes {i}', scale=1)
                        r.eq(q.quad[1][i], ref[i][1], 'tensor', f'{K} weights {i}', scale=4)
                    g = np.meshgrid(*[a for a, _ in ref], indexing='ij')
                    W = ref[0][1]
                    for i in range(1, d):
                        W = np.multiply.outer(W, ref[i][1])
                    nd = q.quad_ndim
                    rv = q.quad_ndim_ravel
                    if len(nd) != d + 1 or len(rv) != d + 1 or q.ndim != d or tuple(q.p) != ps:
                        r.bad.append(('tensor', f'{K}: {len(nd)} {len(rv)} {q.ndim} {q.p}'))
                        continue
                    for i in range(d + 1):
                        ex = g[i] if i < d else W
                        r.eq(nd[i], ex, 'tensor', f'{K} quad_ndim {i}', scale=4)
                        r.eq(rv[i], [ex[tuple(reversed(ix))] for ix in np.ndindex(*reversed(ex.shape))],
                             'tensor', f'{K} quad_ndim_ravel {i}', scale=4)
    return r.out()


# --------------------------------------------------------------- 1d bases (oracle by barycentric-free direct products)
def lag(nodes, x):
    x = np.asarray(x, dtype=float)
    return np.array([np.prod([(x - b) / (a - b) for j, b in enumerate(nodes) if j != i], axis=0) * np.ones(x.shape)
                     for i, a in enumerate(nodes)])


def dlag(nodes, x):
    """derivatives of the Lagrange polynomials by the product rule"""
    x = np.asarray(x, dtype=float)
    out = np.zeros((len(nodes), x.size))
    for i, a in enumerate(nodes):
        for m, c in enumerate(nodes):
            if m != i:
                t = np.ones(x.shape) / (a - c)
                for j, b in enumerate(nodes):
                    if j != i and j != m:
                        t = t * (x - b) / (a - b)
                out[i] += t
    return out


def edge(nodes, x):
    d = dlag(nodes, x)
    return np.array([-np.sum(d[:i + 1], axis=0) for i in range(len(nodes) - 1)]).reshape(len(nodes) - 1, -1)


POOL = (-0.8, -0.5, 0., 0.25, 0.7)


def bases(P, free=True):
    from objects.CSCG.base.spaces._1d_basis.polynomials import _1dPolynomial as B
    r = Rec()
    todo = []
    for p in range(1, P + 1):
        ref = lobatto(p)[0]
        for inp in ((p,), ('Lobatto', p), (f'Lobatto-{p}',)):
            todo.append((inp, ref, 'Lobatto'))
    if free:
        for n in range(len(POOL) + 1):
            for s in itertools.combinations(POOL, n):
                ns = [-1.] + list(s) + [1.]
                todo.append(((ns,), np.array(ns), 'free'))
                todo.append(((np.array(ns),), np.array(ns), 'free'))
        todo.append((([-1, 0, 1],), np.array([-1, 0, 1]), 'free'))
        todo.append((((-1, 1),), np.array([-1, 1]), 'free'))
    for inp, ref, cat in todo:
        b = B(*inp)
        K = f'basis {inp}'
        p = len(ref) - 1
        if b.p != p or b.category != cat or b.ndim != 1 or b.isKronecker is not True:
            r.bad.append((cat, f'{K}: p {b.p}, category {b.category}'))
            continue
        r.eq(b.nodes, ref, cat, f'{K} nodes', tol=1e-12, scale=1)
        nd = np.asarray(b.nodes, dtype=float)
        leb = max(1., np.max(np.sum(np.abs(lag(nd, np.linspace(-1, 1, 101))), axis=0))) * (p + 1) ** 2
        tol = 1e-13 * leb
        r.eq(b.node_basis(nd), np.eye(p + 1), cat, f'{K}: nodal basis is not Kronecker', tol=tol, scale=1)
        gx, gw = gl(p + 2)
        I = np.zeros((p, p))
        for j in range(p):
            a, c = nd[j], nd[j + 1]
            I[:, j] = b.edge_basis((a + c) / 2 + gx * (c - a) / 2) @ gw * (c - a) / 2
        r.eq(I, np.eye(p), cat, f'{K}: integrals of edge functions', tol=tol * 10, scale=1)
        for x in (np.linspace(-1, 1, 2 * p + 3), np.array([0.3]), [-0.4, 0.9], gx):
            L, E = b.lagrange_basis(x), b.edge_basis(x)
            X = np.asarray(x, dtype=float)
            r.eq(L, lag(nd, X), cat, f'{K} nodal basis at {len(x)} points', tol=tol, scale=1)
            r.eq(b.node_basis(x), L, cat, f'{K} node_basis', tol=tol, scale=1)
            r.eq(E, edge(nd, X), cat, f'{K} edge basis at {len(x)} points', tol=tol * 20, scale=p * p)
            for n in range(p + 1):
                r.eq(nd ** n @ L, X ** n, cat, f'{K}: interpolation of x^{n}', tol=tol, scale=1)
                r.eq(np.diff(nd ** n) @ E, n * X ** max(n - 1, 0), cat, f'{K}: edge expansion of d(x^{n})', tol=tol * 20, scale=p * p)
        qx, qw = gl(p + 2)
        L, E = lag(nd, qx), edge(nd, qx)
        r.eq(b.node_reference_mass_matrix, L * qw @ L.T, cat, f'{K} node mass', tol=tol, scale=1)
        r.eq(b.edge_reference_mass_matrix, E * qw @ E.T, cat, f'{K} edge mass', tol=tol * 20, scale=p * p)
    for bad in ([-1, 0.5, 0.2, 1], [-1, 0.9], [-0.9, 1], [-1, -1, 1]):
        try:
            B(bad)
            r.bad.append(('refuse', f'nodes {bad} were accepted'))
        except AssertionError:
            r.n += 1
    return r.out()


GA = np.array([-0.9, -0.1, 0.35])
GB = np.array([-0.6, 0.2, 0.8])
GC = np.array([-0.3, 0.4])
OPS1 = ['LA', 'LB', 'LC', 'Ll', 'LD', 'EA', 'EB', 'EC', 'El', 'ED', 'mut']
GD = GA * (1 + 4e-7)      # nearly, not exactly, the first grid


def hist1(depth, p):
    """every sequence of evaluations of one basis on repeated, equal, different and modified grids"""
    from objects.CSCG.base.spaces._1d_basis.polynomials import _1dPolynomial as B
    r = Rec()
    nd = lobatto(p)[0]
    for h in itertools.product(OPS1, repeat=depth):
        b = B('Lobatto', p)
        g = {'A': GA.copy(), 'B': GB.copy(), 'C': GC.copy(), 'D': GD.copy(), 'l': list(GA)}
        for k, op in enumerate(h):
            if op == 'mut':
                g['A'] += 0.05
                g['C'][:] = g['C'] * 0.5
                g['l'][0] += 0.01
                continue
            x = g[op[1]]
            v = b.node_basis(x) if op[0] == 'L' else b.edge_basis(x)
            if not r.eq(v, lag(nd, x) if op[0] == 'L' else edge(nd, x), 'cache', f'history {h[:k + 1]}', scale=p * p):
                break
    return r.out()


# --------------------------------------------------------------- spaces
def _space(d, ps, inputs=None):
    if d == 3:
        from objects.CSCG._3d.spaces.polynomials.main import _3dCSCG_PolynomialSpace as S
    else:
        from objects.CSCG._2d.spaces.polynomials.main import _2dCSCG_PolynomialSpace as S
    return S(inputs if inputs is not None else [('Lobatto', p) for p in ps], None)


def form_basis(nodes, xs, k, orientation=None):
    """components of the tensor-product basis: list of arrays, first axis running fastest in both indices"""
    d = len(nodes)
    N = [lag(n, x) for n, x in zip(nodes, xs)]
    E = [edge(n, x) for n, x in zip(nodes, xs)]
    if k == 0:
        comps = [[0] * d]
    elif k == d:
        comps = [[1] * d]
    elif d == 3:
        comps = [[int((i == j) == (k == 1)) for i in range(3)] for j in range(3)]
    else:
        comps = [[1, 0], [0, 1]] if orientation == 'inner' else [[0, 1], [1, 0]]
    return [prod([E[i] if c[i] else N[i] for i in range(d)]) for c in comps]


def prod(fs):
    R, C = [f.shape[0] for f in fs], [f.shape[1] for f in fs]
    out = np.zeros((int(np.prod(R)), int(np.prod(C))))
    for a, ri in enumerate(np.ndindex(*reversed(R))):
        for b, ci in enumerate(np.ndindex(*reversed(C))):
            v = 1.
            for f, i, j in zip(reversed(fs), ri, ci):
                v *= f[i, j]
            out[a, b] = v
    return out


def prod_fast(fs):
    out = fs[0]
    for f in fs[1:]:
        n = out.shape[0] * f.shape[0], out.shape[1] * f.shape[1]
        out = np.einsum('ij,kl->kilj', out, f).reshape(n)
    return out


def flat(xs):
    g = np.meshgrid(*xs, indexing='ij')
    return [np.array([a[tuple(reversed(ix))] for ix in np.ndindex(*reversed(a.shape))]) for a in g]


def inputs_of(d, ps):
    """the same space described in every accepted way"""
    out = [[('Lobatto', p) for p in ps], list(ps)]
    if d == 3:
        out.append([f'Lobatto-{p}' for p in ps])
    out.append([(list(map(float, lobatto(p)[0])),) for p in ps])
    return out


GR = {3: ([np.array([-1., -0.3, 0.5]), np.array([-0.7, 1.]), np.array([0.1])],
          [np.array([0.2, 0.9]), np.array([-0.5, 0., 0.5]), np.array([-0.95, 0.3])]),
      2: ([np.array([-1., -0.3, 0.5]), np.array([-0.7, 1.])], [[0.4], [-0.5, 0., 0.5]])}
AX = {'N': 0, 'S': 0, 'W': 1, 'E': 1, 'B': 2, 'F': 2, 'U': 0, 'D': 0, 'L': 1, 'R': 1}
POS = {'N': -1, 'S': 1, 'W': -1, 'E': 1, 'B': -1, 'F': 1, 'U': -1, 'D': 1, 'L': -1, 'R': 1}


def spaces(d, plist, alt=False):
    r = Rec()
    for ps in plist:
        for ni, inp in enumerate(inputs_of(d, ps) if alt else inputs_of(d, ps)[:1]):
            s = _space(d, ps, inp)
            K = f'{d}d space {inp}'
            if tuple(s.p) != tuple(ps) or s.ndim != d or not s.IS_Kronecker:
                r.bad.append(('p', f'{K}: p {s.p}'))
                continue
            nodes = [lobatto(p)[0] for p in ps]
            for i in range(d):
                r.eq(s.nodes[i], nodes[i], 'nodes', f'{K} nodes {i}', scale=1)
            nb, ln = s.num_basis, s.local_numbering
            for xs in GR[d]:
                pts = flat(xs)
                for k in range(d + 1):
                    for o in (('inner', 'outer') if d == 2 else (None,)):
                        kw = dict(orientation=o) if d == 2 else {}
                        mesh, bf = s.do.evaluate_form_basis_at_meshgrid(k, *xs, **kw)
                        ref = form_basis(nodes, xs, k, o)
                        if len(bf) != len(ref):
                            r.bad.append(('form', f'{K}: {k}-form has {len(bf)} components'))
                            continue
                        for i, (a, b) in enumerate(zip(bf, ref)):
                            r.eq(a, b, 'form', f'{K}: {k}-form {o} component {i} on {[len(x) for x in xs]}', tol=1e-10)
                        for i in range(d):
                            r.eq(mesh[i], pts[i], 'grid', f'{K}: grid coordinate {i}', scale=1)
                        m2, bf2 = s.do.evaluate_form_basis_at_meshgrid(k, *xs, compute_xietasigma=False, **kw)
                        if m2 is not None or any(not np.array_equal(a, b) for a, b in zip(bf, bf2)):
                            r.bad.append(('form', f'{K}: {k}-form without grid differs'))
                        name = f'_{d}dCSCG_{k}Form' + (f'_{o.capitalize()}' if o else '')
                        n, comp = getattr(nb, name)
                        if [int(c) for c in comp] != [b.shape[0] for b in ref] or int(n) != sum(b.shape[0] for b in ref):
                            r.bad.append(('num', f'{K}: {name} {n} {comp}'))
                        num = getattr(ln, name)
                        off = 0
                        for i, a in enumerate(num):
                            r.n += 1
                            if not np.array_equal(np.asarray(a).ravel('F'), off + np.arange(ref[i].shape[0])):
                                r.bad.append(('num', f'{K}: local numbering {name} component {i}'))
                            off += ref[i].shape[0]
                for k in range(d):
                    mesh, bf = s.do.evaluate_trace_basis_at_meshgrid(k, *xs)
                    for side in ('NSWEBF' if d == 3 else 'UDLR'):
                        ax = [i for i in range(d) if i != AX[side]]
                        ref = trace_basis([nodes[i] for i in ax], [xs[i] for i in ax], k)
                        for i, (a, b) in enumerate(zip(bf[side], ref)):
                            r.eq(a, b, 'trace', f'{K}: {k}-trace {side} component {i}', tol=1e-10)
                        if len(bf[side]) != len(ref):
                            r.bad.append(('trace', f'{K}: {k}-trace {side} has {len(bf[side])} components'))
                        q = list(xs)
                        q[AX[side]] = [POS[side]]
                        for i, (a, b) in enumerate(zip(mesh[side], flat(q))):
                            r.eq(a, b, 'grid', f'{K}: grid coordinate {i} on {side}', scale=1)
                    if d == 3:
                        _, lb = s.do.evaluate_local_trace_basis_at_meshgrid(k, *xs)
                        for side in lb:
                            for a, b in zip(lb[side], bf[side]):
                                r.eq(a, b, 'trace', f'{K}: local {k}-trace {side}')
                if d == 3:
                    for k in (0, 1):
                        bf = s.do.evaluate_edge_basis_at_meshgrid(k, *xs)
                        for e, (a,) in bf.items():
                            i = [j for j in range(3) if not any(AX[c] == j for c in e)][0]
                            r.eq(a, (edge if k else lag)(nodes[i], xs[i]), 'edge', f'{K}: {k}-edge basis {e}', tol=1e-10)
                        if len(bf) != 12:
                            r.bad.append(('edge', f'{K}: {len(bf)} edges'))
            for dp in itertools.product((0, 1, 2), repeat=d):
                if 'free' in s.category:
                    break
                t = s.do.refine(p=dp)
                r.n += 1
                if tuple(t.p) != tuple(a + b for a, b in zip(ps, dp)) or t.category != s.category:
                    r.bad.append(('refine', f'{K}: refined by {dp} has degree {t.p}, {t.category}'))
            if d == 2:
                for a, b, c in zip(s.GoN, s.GoN_ravel, flat(nodes)):
                    r.eq(np.asarray(a).ravel('F'), c, 'grid', f'{K}: grid of nodes', scale=1)
                    r.eq(b, c, 'grid', f'{K}: ravelled grid of nodes', scale=1)
    return r.out()


def trace_basis(nodes, xs, k):
    """on the side of a 3d element (2 axes) or of a 2d element (1 axis)"""
    if len(nodes) == 1:
        return [(edge if k else lag)(nodes[0], xs[0])]
    if k == 1:
        return form_basis(nodes, xs, 1, 'inner')
    return form_basis(nodes, xs, {0: 0, 2: 2}[k])


def qops(d):
    degs = ([1, 2, 2], [2, 1, 3]) if d == 3 else ([1, 2], [3, 2])
    out = []
    for g in range(2):
        for t in (None, 'Gauss', 'Lobatto')[::d - 1]:
            out.append(('quad', g, t))
        if d == 3:
            out.append(('fb', g, None, 1))
            out.append(('fb', g, 'Lobatto', 2))
    out.append(('mut',))
    return degs, out


def hist2(d, depth, part=0, of=1):
    """every sequence of quadrature evaluations, also at a degree list modified by the caller, on two spaces"""
    r = Rec()
    D0, ops = qops(d)
    ps = ((1, 2, 3), (2, 2, 1)) if d == 3 else ((2, 3), (1, 2))
    nodes = [[lobatto(p)[0] for p in q] for q in ps]
    for h in itertools.product(ops[part::of], *[ops] * (depth - 1)):
        sp = [_space(d, q) for q in ps]
        degs = [list(g) for g in D0]
        for n, op in enumerate(h):
            if op[0] == 'mut':
                degs[0][0] += 1
                continue
            g = degs[op[1]]
            t = op[2]
            ref = [rule(t or 'Gauss', p) for p in g]
            W = flat([b for _, b in ref])
            W = np.prod(W, axis=0)
            ok = True
            for si in ((0, 1) if n % 2 else (1, 0)):
                if op[0] == 'quad':
                    x, w, wr = sp[si].do.evaluate_quadrature(g, **({} if t is None else dict(quad_type=t)))
                    for i in range(d):
                        ok &= r.eq(x[i], ref[i][0], 'quad', f'{h[:n + 1]} nodes', scale=1)
                        ok &= r.eq(w[i], ref[i][1], 'quad', f'{h[:n + 1]} weights', scale=1)
                    ok &= r.eq(wr, W, 'quad', f'{h[:n + 1]} ravelled weights', scale=1)
                else:
                    pt, bf, w, wr = sp[si].do.evaluate_form_basis_at_quadrature(op[3], g, **({} if t is None else dict(quad_type=t)))
                    xs = [a for a, _ in ref]
                    for a, b in zip(bf, fbq(si, op[3], tuple(g), t, nodes[si], xs)):
                        ok &= r.eq(a, b, 'basis', f'{h[:n + 1]} basis on space {si}', tol=1e-10)
                    for a, b in zip(pt, flat(xs)):
                        ok &= r.eq(a, b, 'basis', f'{h[:n + 1]} points', scale=1)
                    ok &= r.eq(wr, W, 'basis', f'{h[:n + 1]} weights', scale=1)
            if not ok:
                break
    return r.out()


_FBQ = {}


def fbq(si, k, g, t, nodes, xs):
    key = si, k, g, t
    if key not in _FBQ:
        _FBQ[key] = form_basis(nodes, xs, k)
    return _FBQ[key]


# --------------------------------------------------------------- plane geometry used to build domains
def plane(R):
    from components.functions._2dSpace.angle import angle
    from components.functions._2dSpace.distance import distance
    from components.functions._2dSpace.line_intersection import find_line_intersection
    from components.functions._2dSpace.check_if_two_lines_parallel import if_two_lines_parallel
    from components.functions._2dSpace.angles_of_triangle import angles_of_triangle
    from components.functions._2dSpace.Cartesian_polar_coordinates_switcher import CartPolSwitcher as CP
    from components.functions._3dSpace.Cartesian_spherical_coordinate_switcher import CartSphSwitcher as CS
    from components.functions._3dSpace.Cartesian_cylinder_coordinate_switcher import CartCylSwitcher as CC
    from components.functions._3dSpace.angle import angle_between_two_vectors as a3
    from components.functions._2dSpace.geometrical_functions.straight_line import StraightLine
    from components.functions._2dSpace.geometrical_functions.clockwise_arc import ArcClockWise
    from components.functions._2dSpace.geometrical_functions.anticlockwise_arc import ArcAntiClockWise
    from components.functions._2dSpace.transfinite import TransfiniteMapping
    r = Rec()
    pts = list(itertools.product(range(-R, R + 1), repeat=2))
    t = np.linspace(0, 1, 9)
    for a in pts:
        for b in pts:
            if a == b:
                continue
            K = f'{a} {b}'
            th = math.atan2(b[1] - a[1], b[0] - a[0]) % (2 * math.pi)
            r.eq(angle(a, b), th, 'angle', f'angle {K}', scale=1, tol=1e-12)
            r.eq(distance(a, b), math.dist(a, b), 'distance', f'distance {K}')
            g, dg = StraightLine(a, b)()
            r.eq(g(t), [a[i] + t * (b[i] - a[i]) for i in (0, 1)], 'line', f'line {K}', scale=1)
            r.eq(dg(t), [(b[i] - a[i]) + 0 * t for i in (0, 1)], 'line', f'line derivative {K}', scale=1)
            if a == (0, 1):
                for c in pts:
                    if c == a or math.dist(a, c) != math.dist(a, b):
                        continue
                    for cls, sg in ((ArcAntiClockWise, 1), (ArcClockWise, -1)):
                        g, dg = cls(a, b, c)()
                        tb, tc = th, math.atan2(c[1] - a[1], c[0] - a[0])
                        sw = sg * ((sg * (tc - tb)) % (2 * math.pi))
                        if b == c:
                            sw = 0.
                        ro = math.dist(a, b)
                        r.eq(g(t), [a[0] + ro * np.cos(tb + t * sw), a[1] + ro * np.sin(tb + t * sw)], 'arc',
                             f'{cls.__name__} {a} {b} {c}', scale=1)
                        r.eq(dg(t), [-ro * sw * np.sin(tb + t * sw), ro * sw * np.cos(tb + t * sw)], 'arc',
                             f'{cls.__name__} derivative {a} {b} {c}', scale=1)
    small = list(itertools.product(range(-1, 2), repeat=2))
    segs = [(a, b) for a in small for b in small if a != b]
    from fractions import Fraction as F
    for a, b in segs:
        for c, d in segs:
            x = find_line_intersection(a, b, c, d)
            det = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
            if (x is None) != (det == 0):
                r.bad.append(('intersect', f'{a}{b} {c}{d}: {x}'))
            elif x is not None:
                s = F((c[0] - a[0]) * (d[1] - c[1]) - (c[1] - a[1]) * (d[0] - c[0]), det)
                r.eq(x, [float(a[i] + s * (b[i] - a[i])) for i in (0, 1)], 'intersect', f'{a}{b} {c}{d}', scale=1)
            dot = (b[0] - a[0]) * (d[0] - c[0]) + (b[1] - a[1]) * (d[1] - c[1])
            par = det == 0 and dot > 0
            ok = if_two_lines_parallel(a, b, c, d)
            # equality of rounded angles: only same-length pairs are decided exactly
            if bool(ok) != par and math.dist(a, b) == math.dist(c, d):
                r.bad.append(('parallel', f'{a}{b} {c}{d}: {ok}'))
    for a, b, c in itertools.product(small, repeat=3):
        if (b[0] - a[0]) * (c[1] - a[1]) == (b[1] - a[1]) * (c[0] - a[0]):
            continue
        def at(o, p, q):
            v, w = (p[0] - o[0], p[1] - o[1]), (q[0] - o[0], q[1] - o[1])
            return math.degrees(abs(math.atan2(v[0] * w[1] - v[1] * w[0], v[0] * w[0] + v[1] * w[1])))
        r.eq(angles_of_triangle(a, b, c), [at(a, b, c), at(b, a, c), at(c, a, b)], 'triangle', f'{a} {b} {c}', scale=180)
    for v in itertools.product(range(-2, 3), repeat=3):
        v = [float(i) for i in v]
        r.eq(CP.pol2cart(*CP.cart2pol(v[0], v[1])), v[:2], 'switch', f'polar {v}', scale=1)
        r.eq(CC.cyl2cart(*CC.cart2cyl(*v)), v, 'switch', f'cylinder {v}', scale=1)
        r.eq(CS.sph2cart(*CS.cart2sph(*v)), v, 'switch', f'sphere {v}', scale=1)
        rho, phi = CP.cart2pol(v[0], v[1])
        r.eq([rho, phi], [math.hypot(v[0], v[1]), math.atan2(v[1], v[0])], 'switch', f'polar {v}', scale=1)
        az, el, ra = CS.cart2sph(*v)
        r.eq([az, ra], [math.atan2(v[1], v[0]), math.sqrt(sum(i * i for i in v))], 'switch', f'sphere {v}', scale=1)
        for w in ((1, 0, 0), (0, 2, 1), (-1, 1, -2)):
            if any(v):
                cr = np.linalg.norm(np.cross(v, w))
                r.eq(a3(v, w), math.atan2(cr, float(np.dot(v, w))), 'angle3', f'{v} {w}', scale=1, tol=1e-7)
    # transfinite maps of quadrangles with one curved side
    for quad in itertools.product(((0, 0), (0.2, -0.1)), ((1, 0), (1.3, 0.1)), ((0, 1), (-0.1, 1.2)), ((1, 1), (1.1, 1.4))):
        p00, p10, p01, p11 = quad
        for curved in (None, 0, 1, 2, 3):
            ends = [(p00, p10), (p10, p11), (p01, p11), (p00, p01)]
            gs, ds = [], []
            for i, (a, b) in enumerate(ends):
                am = 0.2 if i == curved else 0.
                nrm = (-(b[1] - a[1]), b[0] - a[0])
                gs.append(lambda o, a=a, b=b, am=am, n=nrm: tuple(a[j] + o * (b[j] - a[j]) + am * o * (1 - o) * n[j] for j in (0, 1)))
                ds.append(lambda o, a=a, b=b, am=am, n=nrm: tuple((b[j] - a[j]) + am * (1 - 2 * o) * n[j] + 0 * np.asarray(o, dtype=float) for j in (0, 1)))
            T = TransfiniteMapping(gs, ds)
            K = f'transfinite {quad} curved {curved}'
            z, o = np.zeros(9), np.ones(9)
            for i, (rr, ss) in enumerate(((t, z), (o, t), (t, o), (z, t))):
                r.eq(T.mapping(rr, ss), gs[i](t), 'tf', f'{K}: side {i}', scale=1)
            rr, ss = [x.ravel() for x in np.meshgrid(np.linspace(0.1, 0.9, 4), np.linspace(0.05, 0.8, 4))]
            r.eq([T.x(rr, ss), T.y(rr, ss)], T.mapping(rr, ss), 'tf', f'{K}: x, y', scale=1)
            h = 1e-3
            for nm, dr, dsx, ci in (('dx_dr', 1, 0, 0), ('dx_ds', 0, 1, 0), ('dy_dr', 1, 0, 1), ('dy_ds', 0, 1, 1)):
                f = lambda e: np.asarray(T.mapping(rr + dr * e, ss + dsx * e)[ci])
                num = (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)
                r.eq(getattr(T, nm)(rr, ss), num, 'tf', f'{K}: {nm}', scale=1)
    return r.out()
