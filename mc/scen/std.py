"""standard forms against the first-principles oracle (C04: exact derivative, C05: reduction, reconstruction, mass, norms)"""
import numpy as np
from mc.scen.common import make_mesh, make_space, masters, center
from mc.scen import labels as lb
from mc.scen.fem import Local, gauss, grid, Jmat
from mc.scen.ct import Rec

CHAIN3 = [[f'{k}-f' for k in range(4)]]
CHAIN2 = [[f'{k}-f-{o}' for k in range(3)] for o in 'io']


def cochain(seed, n):
    """a fixed vector without symmetry, entries of size O(1)"""
    i = np.arange(1, n + 1)
    return np.round(np.sin(1.7 * i + 0.9 * seed) * 3 + (i * 37 + seed * 11) % 7 - 3, 3)


# smooth potentials / fields, with their exact derivatives: name -> (field(t), d field(t))
def fields(d, k, o=''):
    s, c, pi = np.sin, np.cos, np.pi
    if d == 3:
        if k == 0:
            f = [lambda t, x, y, z: s(x + 2 * y - z) + (1 + t) * x * y * z]
            g = [lambda t, x, y, z: c(x + 2 * y - z) + (1 + t) * y * z,
                 lambda t, x, y, z: 2 * c(x + 2 * y - z) + (1 + t) * x * z,
                 lambda t, x, y, z: -c(x + 2 * y - z) + (1 + t) * x * y]
        elif k == 1:
            f = [lambda t, x, y, z: s(y) * z + t * y, lambda t, x, y, z: c(z) + x ** 2 - t * z * x,
                 lambda t, x, y, z: s(x + y) + 2 * z * y]
            g = [lambda t, x, y, z: c(x + y) + 2 * z + s(z) + t * x, lambda t, x, y, z: s(y) - c(x + y),
                 lambda t, x, y, z: 2 * x - t * z - c(y) * z - t]
        elif k == 2:
            f = [lambda t, x, y, z: s(x) * y + t * x * z, lambda t, x, y, z: c(y + z) + x,
                 lambda t, x, y, z: z ** 2 * x + y - t * z]
            g = [lambda t, x, y, z: c(x) * y + t * z - s(y + z) + 2 * z * x - t]
        else:
            f, g = [lambda t, x, y, z: s(x + y) * z + t * x], None
        return f, g
    if k == 0:
        f = [lambda t, x, y: s(x + 2 * y) + (1 + t) * x * y ** 2]
        dx = lambda t, x, y: c(x + 2 * y) + (1 + t) * y ** 2
        dy = lambda t, x, y: 2 * c(x + 2 * y) + 2 * (1 + t) * x * y
        g = [dx, dy] if o == 'i' else [dy, lambda t, x, y: -dx(t, x, y)]
    elif k == 1:
        f = [lambda t, x, y: s(y) * x + t * y, lambda t, x, y: c(x) * y + x ** 2]
        g = [lambda t, x, y: -s(x) * y + 2 * x - c(y) * x - t] if o == 'i' else \
            [lambda t, x, y: s(y) + c(x)]
    else:
        f, g = [lambda t, x, y: s(x + y) + t * x], None
    return f, g


def mono(d, e):
    return lambda t, *x: np.prod([x[a] ** e[a] for a in range(d)], axis=0) + 0. * x[0]


def at(fs, t):
    return [lambda *x, f=f: f(t, *x) for f in fs]


def setup(spec, part, p):
    mesh = make_mesh(spec, part)
    d = mesh.ndim
    space = make_space(d, p)
    return mesh, d, space, masters(d).FormCaller(mesh, space)


def arity(d, f):
    # the library looks at the number of declared arguments
    if d == 3:
        return lambda t, x, y, z: f(t, x, y, z)
    return lambda t, x, y: f(t, x, y)


def put(F, f, fs, t):
    fs = [arity(f.mesh.ndim, g) for g in fs]
    f.CF = F('scalar' if len(fs) == 1 else 'vector', fs[0] if len(fs) == 1 else fs)
    f.CF.current_time = t


def dense(M):
    return M.toarray() if hasattr(M, 'toarray') else np.asarray(M)


# ------------------------------------------------------------------------------------------------ C04
def derivative(spec, part, p, tol, hyb, curved_ok=True):
    mesh, d, space, F = setup(spec, part, p)
    r = Rec()
    out = {}
    for chain in (CHAIN3 if d == 3 else CHAIN2):
        forms = [F(ID, hybrid=hyb) for ID in chain]
        loc = [Local(f, ID, d) for f, ID in zip(forms, chain)]
        Es = []
        for k in range(len(chain) - 1):
            f, ID = forms[k], chain[k]
            E = f.matrices.incidence
            ref = loc[k].incidence(loc[k + 1])
            for order in (list(mesh.elements), list(mesh.elements)[::-1]):
                for i in order:
                    e = dense(E[i])
                    r.n += 1
                    if e.shape != ref.shape or not np.array_equal(e, ref):
                        r.bad.append(('incidence', f'{ID} hybrid={hyb} p={p} element {i}: incidence matrix is not the '
                                                   f'topological one: {np.argwhere(e != ref)[:3] if e.shape == ref.shape else e.shape}'))
                    c2 = dense(f.coboundary.incidence_matrix[i])
                    if not np.array_equal(c2, ref):
                        r.bad.append(('incidence', f'{ID}: coboundary.incidence_matrix differs in element {i}'))
            Es.append({i: dense(E[i]) for i in mesh.elements})
            if k:
                for i in mesh.elements:
                    r.n += 1
                    if np.any(Es[k][i] @ Es[k - 1][i]):
                        r.bad.append(('dd', f'{chain[k]} after {chain[k-1]}: d(d(.)) is not zero in element {i}'))
            # coboundary of every unit cochain (all columns at once) and of a generic one; twice = zero
            f.cochain.local = {i: cochain(i + 3, loc[k].labels.__len__()) for i in mesh.elements}
            df = f.coboundary()
            if (df.k, df.whether.hybrid) != (k + 1, hyb) or df.mesh is not mesh or df.space is not space or \
                    (d == 2 and df.orientation != f.orientation):
                r.bad.append(('coboundary-kind', f'd({ID}) is a {df}'))
            for i in mesh.elements:
                r.eq(df.cochain.local[i], ref @ f.cochain.local[i], 'coboundary', f'{ID} element {i}', tol=1e-12,
                     scale=20.)
                r.eq(f.cochain.local[i], cochain(i + 3, len(loc[k].labels)), 'coboundary-input', f'{ID} element {i}')
            if k + 1 < len(chain) - 1:
                ddf = df.coboundary()
                for i in mesh.elements:
                    r.eq(ddf.cochain.local[i], 0, 'dd', f'd(d({ID})) element {i}', tol=1e-11, scale=20.)
        # commuting diagram, at several times, on the same objects
        qd = [13] * d
        for t in (0., 0.7, 0.):
            for k in range(len(chain)):
                o = chain[k][-1]
                fs, g = fields(d, k, o)
                f = forms[k]
                put(F, f, fs, t)
                kw = {} if k == 0 else dict(quad_degree=qd)
                f.discretize(**kw)
                if g is None:
                    continue
                h = forms[k + 1]
                put(F, h, g, t)
                h.discretize(quad_degree=qd)
                df = f.coboundary()
                for i in mesh.elements:
                    sc = max(np.max(np.abs(h.cochain.local[i])), np.max(np.abs(f.cochain.local[i])))
                    r.eq(df.cochain.local[i], h.cochain.local[i], 'commute', f'{chain[k]} p={p} t={t} element {i}',
                         tol=tol, scale=sc)
                # changing the argument afterwards must not change the already computed derivative
                keep = {i: df.cochain.local[i].copy() for i in mesh.elements}
                put(F, f, fs, t + 1)
                f.discretize(**kw)
                for i in mesh.elements:
                    r.eq(df.cochain.local[i], keep[i], 'aliasing', f'd({chain[k]}) element {i}')
        # polynomial fields: exact also with the default quadrature, on affine axis-aligned meshes
        if spec_is_box(mesh):
            for k in range(len(chain) - 1):
                o = chain[k][-1]
                fs, g, deg = polys(d, k, o, p)
                f, h = forms[k], forms[k + 1]
                put(F, f, fs, 0.3)
                f.discretize()
                put(F, h, g, 0.3)
                h.discretize()
                df = f.coboundary()
                for i in mesh.elements:
                    sc = max(np.max(np.abs(h.cochain.local[i])), np.max(np.abs(f.cochain.local[i])))
                    r.eq(df.cochain.local[i], h.cochain.local[i], 'commute-default', f'{chain[k]} p={p} element {i}',
                         tol=1e-10, scale=sc)
        out[chain[0]] = {center(mesh, i): [Es[k][i].tobytes() for k in range(len(Es))] for i in mesh.elements}
    return r.out()


def polys(d, k, o, p):
    """polynomial field whose degree is the degree of the space in each direction, with its derivative"""
    P = list(p) if isinstance(p, (tuple, list)) else [p] * d

    def m(e, cf=1.):
        return lambda t, *x: cf * np.prod([x[a] ** e[a] for a in range(d)], axis=0) * (1 + t) + 0 * x[0]

    def dm(e, a, cf=1.):
        e2 = list(e)
        if e[a] == 0:
            return lambda t, *x: 0 * x[0]
        e2[a] -= 1
        return m(e2, cf * e[a])

    def add(*fs):
        return lambda t, *x: sum(f(t, *x) for f in fs)

    def neg(f):
        return lambda t, *x: -f(t, *x)
    if k == 0:
        e = list(P)
        fs = [m(e)]
        D = [dm(e, a) for a in range(d)]
        if d == 2 and o == 'o':
            D = [D[1], neg(D[0])]
        return fs, D, e
    if k == 1:
        es = [[max(0, P[b] - 1) if (b == a) == (d == 3 or o == 'i') else P[b] for b in range(d)] for a in range(d)]
        fs = [m(es[a], a + 1.) for a in range(d)]
        dd = lambda a, b: dm(es[b], a, b + 1.)              # d_a v_b
        if d == 3:
            return fs, [add(dd((c + 1) % 3, (c + 2) % 3), neg(dd((c + 2) % 3, (c + 1) % 3))) for c in range(3)], es
        if o == 'i':
            return fs, [add(dd(0, 1), neg(dd(1, 0)))], es
        return fs, [add(dd(0, 0), dd(1, 1))], es
    es = [[P[b] if b == a else max(0, P[b] - 1) for b in range(d)] for a in range(d)]
    fs = [m(es[a], a + 1.) for a in range(d)]
    return fs, [add(*[dm(es[a], a, a + 1.) for a in range(3)])], es


def spec_is_box(mesh):
    """all elements axis-aligned boxes (decided from the Jacobian, not from the library's classification)"""
    from root.config.main import COMM
    ok = True
    d = mesh.ndim
    pts = grid([np.array([-0.7, 0.1, 0.8])] * d)
    for i in mesh.elements:
        J = Jmat(mesh.elements[i], pts, d)
        s = np.max(np.abs(J))
        off = J[~np.eye(d, dtype=bool)]
        ok = ok and np.max(np.abs(off)) < 1e-12 * s and np.max(np.ptp(J, axis=-1)) < 1e-12 * s
    return all(COMM.allgather(ok))


# ------------------------------------------------------------------------------------------------ C05
def reduction(spec, part, p, tol, hyb, p2=None):
    mesh, d, space, F = setup(spec, part, p)
    r = Rec()
    from root.config.main import COMM
    box = spec_is_box(mesh)
    kinds = [f'{k}-f' for k in range(4)] if d == 3 else [f'{k}-f-{o}' for k in range(3) for o in 'io']
    one = [np.array([-0.95, -0.3, 0.2, 1.]), np.array([-1., 0.45, 0.7]), np.array([-0.6, 0.33])][:d]
    for ID in kinds:
        f = F(ID, hybrid=hyb)
        L = Local(f, ID, d)
        k, nc, nd = L.k, L.nc, len(L.labels)
        E = mesh.elements
        # -- reduction: history of (time, quadrature) on the same object
        fs, _ = fields(d, k, ID[-1])
        fs2 = [lambda t, *x, g=g: 1. + 0.5 * g(t, *x) for g in fs]
        exact = {}
        for n_, (q, t, fn) in enumerate([(None, 0., fs), (9, 0., fs), (None, 0.4, fs), (10, 0.4, fs2), (9, 0., fs2)]):
            put(F, f, fn, t)
            kw = {} if (k == 0 or q is None) else dict(quad_degree=[q] * d)
            f.discretize(**kw)
            if q is None and k:
                continue
            for i in E:
                key = (i, t, fn is fs)
                if key not in exact:
                    exact[key] = L.reduce(E[i], at(fn, t), n=12)
                ref = exact[key]
                r.eq(f.cochain.local[i], ref, 'reduction', f'{ID} p={p} element {i} step {n_}', tol=tol,
                     scale=np.max(np.abs(ref)) + 1e-4)
        # update_cochain=False leaves the cochain alone
        keep = {i: f.cochain.local[i].copy() for i in E}
        put(F, f, fs, 2.)
        _, cl = f.discretize(update_cochain=False)
        for i in E:
            r.eq(f.cochain.local[i], keep[i], 'reduction-update', f'{ID} element {i}')
        # -- reconstruction of a generic cochain
        c = {i: cochain(sum(int(abs(x) * 1000) for x in center(mesh, i)) % 97, nd) for i in E}
        f.cochain.local = c
        rec(mesh, f, L, ID, c, one, r, tol)
        # the representations of a cochain agree
        arr = f.cochain.array
        if len(E):
            for n_, i in enumerate(E.indices):
                r.eq(arr[n_], c[i], 'cochain-array', f'{ID} element {i}')
        ewc = f.cochain.EWC
        for i in E:
            r.eq(dense(ewc[i]).ravel('F') if hasattr(ewc[i], 'toarray') else ewc[i], c[i], 'cochain-EWC', f'{ID} element {i}')
        # -- mass matrices
        M = f.matrices.mass
        nq = [x + (1 if box else 2) for x in P_(p, d)]
        Ms = {}
        for order in (list(E), list(E)[::-1]):
            for i in order:
                if i not in Ms:
                    Ms[i] = L.mass(E[i], nq)
                m = dense(M[i])
                r.eq(m, Ms[i], 'mass', f'{ID} p={p} hybrid={hyb} element {i}', tol=1e-8, scale=np.max(np.abs(Ms[i])))
                r.eq(m, m.T, 'mass-symmetry', f'{ID} element {i}', tol=1e-10, scale=np.max(np.abs(m)))
        if box:
            for i in E:
                hi = L.mass(E[i], [x + 4 for x in P_(p, d)])
                r.eq(dense(M[i]), hi, 'mass-exact', f'{ID} p={p} element {i}', tol=1e-9, scale=np.max(np.abs(hi)))
        # -- inner products and norms, on meshes where the integrals are exact polynomials
        g = F(ID, hybrid=hyb)
        c2 = {i: cochain(5 + sum(int(abs(x) * 1000) for x in center(mesh, i)) % 89, nd) for i in E}
        g.cochain.local = c2
        if box:
            ff = COMM.allreduce(sum(c[i] @ Ms[i] @ c[i] for i in E))
            fg = COMM.allreduce(sum(c[i] @ Ms[i] @ c2[i] for i in E))
            dd = COMM.allreduce(sum((c[i] - c2[i]) @ Ms[i] @ (c[i] - c2[i]) for i in E))
            num(r, f.do.compute_L2_energy_with(), ff, 'energy', f'{ID} energy')
            num(r, f.do.compute_L2_energy_with(g), fg, 'energy', f'{ID} energy with another form')
            num(r, f.do.compute_L2_energy_with(g, M=M), fg, 'energy', f'{ID} energy with given M')
            num(r, f.do.compute_Ln_energy(n=2), ff, 'energy', f'{ID} Ln energy')
            if d == 2 or k in (0, 3):
                for v in (True, False):
                    num(r, f.do.compute_Ln_energy(n=2, vectorized=v), ff, 'energy', f'{ID} Ln energy vectorized={v}')
                    e4 = power(mesh, L, c, 4, nq)
                    num(r, f.do.compute_Ln_energy(n=4, quad_degree=[3 * x + 1 for x in P_(p, d)], vectorized=v), e4,
                        'energy', f'{ID} L4 energy vectorized={v}')
            if d == 3 and k in (1, 2):
                e4 = power(mesh, L, c, 4, nq)
                num(r, f.do.compute_Ln_energy(n=4, quad_degree=[3 * x + 1 for x in P_(p, d)]), e4, 'energy', f'{ID} L4 energy')
            num(r, f.do.compute_Ln_norm(n=2), ff ** .5, 'norm', f'{ID} norm')
            if d == 3:
                num(r, f.do.compute_Ln_diff_from(g), dd ** .5, 'norm', f'{ID} norm of the difference')
            if d == 3:
                num(r, (f - g).do.compute_Ln_norm(n=2), dd ** .5, 'norm', f'{ID} norm of f-g')
        inner = f.operators.inner(g)
        for i in E:
            r.eq(dense(inner[i]), Ms[i] if box else L.mass(E[i], [x + 1 for x in P_(p, d)]) if d == 3 else dense(inner[i]),
                 'inner', f'{ID} element {i}', tol=1e-8, scale=np.max(np.abs(Ms[i])))
        # -- errors of an exactly represented field are zero, of a shifted field are the exact integral
        if box and k <= d:
            if k == d:
                es = [[max(0, x - 1) for x in P_(p, d)]]
                pf = [mono(d, es[0])]
            else:
                pf = polys(d, k, ID[-1], p)[0]
            put(F, f, pf, 0.2)
            f.discretize()
            for i in E:
                ref = L.reduce(E[i], at(pf, 0.2), n=10)
                r.eq(f.cochain.local[i], ref, 'reduction-default', f'{ID} p={p} element {i}', tol=1e-10,
                     scale=np.max(np.abs(ref)) + 1e-300)
            xyz, val = f.reconstruct(*one, ravel=True)
            for i in E:
                X = [np.asarray(x) for x in xyz[i]]
                for a in range(nc):
                    w = pf[a](0.2, *X)
                    r.eq(val[i][a], w, 'exact-recovery', f'{ID} p={p} element {i} component {a}', tol=1e-9,
                         scale=1 + np.max(np.abs(w)))
            num(r, f.error.L(n=2), 0., 'error', f'{ID} L2 error of an exactly represented field', 1e-7)
            sh = [lambda t, *x, q=q, a=a: q(t, *x) + 0.5 + 0.25 * a for a, q in enumerate(pf)]
            put(F, f, sh, 0.2)
            vol = COMM.allreduce(sum(float(np.linalg.det(Jmat(E[i], grid([np.zeros(1)] * d), d)[..., 0])) * 2 ** d for i in E))
            for n in (1, 2, 3, 4):
                want = (vol * sum((0.5 + 0.25 * a) ** n for a in range(nc))) ** (1 / n)
                num(r, f.error.L(n=n), want, 'error', f'{ID} L{n} error of a constant offset', 1e-8)
            sh2 = [lambda t, *x, q=q: q(t, *x) - 0.5 for q in pf]
            put(F, f, sh2, 0.2)
            num(r, f.error.L(n=2), (vol * nc * .25) ** .5, 'error', f'{ID} L2 error of a negative offset', 1e-8)
            put(F, f, sh, 0.2)
            num(r, f.error.L(n=2, upon=True), 0., 'error', f'{ID} shifted L2 error of a constant offset', 1e-7)
            if k < d:
                _, dg, _ = polys(d, k, ID[-1], p)
                dg = [arity(d, lambda t, *x, q=q: q(t, *x) + 0.75) for q in dg]
                H = F('scalar' if len(dg) == 1 else 'vector', dg[0] if len(dg) == 1 else dg)
                want = vol * (sum((0.5 + 0.25 * a) ** 2 for a in range(nc)) + len(dg) * 0.75 ** 2)
                num(r, f.error.H(H), want ** .5, 'error', f'{ID} H error of constant offsets', 1e-8)
            if d == 3:
                num(r, f.error.L(n='infinity'), 0.5 + 0.25 * (nc - 1), 'error', f'{ID} L-infinity error', 1e-8)
    # -- inner products between different spaces on the same mesh
    if p2 is not None:
        F2 = masters(d).FormCaller(mesh, make_space(d, p2))
        for ID in kinds:
            f, g = F(ID, hybrid=hyb), F2(ID, hybrid=hyb)
            L, G = Local(f, ID, d), Local(g, ID, d)
            mx = [max(a, b) for a, b in zip(P_(p, d), P_(p2, d))]
            inner = f.operators.inner(g)
            for i in mesh.elements:
                ref = L.mass(mesh.elements[i], [m + 1 for m in mx], G).T
                m = dense(inner[i])
                if d == 2 and not box:
                    continue                   # another quadrature rule, not exact on curved elements
                if m.shape != ref.shape:
                    r.bad.append(('inner', f'{ID}: inner product matrix between degrees {p} and {p2} has shape {m.shape}'))
                else:
                    r.eq(m, ref, 'inner', f'{ID} between degrees {p} and {p2} element {i}', tol=1e-8,
                         scale=np.max(np.abs(ref)))
            if box:
                f.cochain.local = {i: cochain(1 + i, len(L.labels)) for i in mesh.elements}
                g.cochain.local = {i: cochain(2 + i, len(G.labels)) for i in mesh.elements}
                want = COMM.allreduce(sum(f.cochain.local[i] @ L.mass(mesh.elements[i], [m + 1 for m in mx], G)
                                          @ g.cochain.local[i] for i in mesh.elements))
                try:
                    got = f.do.compute_L2_energy_with(g)
                except Exception as e:
                    r.bad.append(('energy', f'{ID}: L2 energy with a form of another degree raises {e!r}'))
                else:
                    num(r, got, want, 'energy', f'{ID}: L2 energy between degrees {p} and {p2}')
    return r.out()


def P_(p, d):
    return [int(x) for x in (p if isinstance(p, (tuple, list)) else [p] * d)]


def num(r, a, b, key, msg, tol=1e-9):
    r.n += 1
    if not abs(a - b) <= tol * max(1., abs(b)):
        r.bad.append((key, f'{msg}: {a} instead of {b}'))


def power(mesh, L, c, n, nq):
    from root.config.main import COMM
    d = L.d
    qs = [gauss(3 * x + 2) for x in L.p]
    axes = [q[0] for q in qs]
    w = np.ones(1)
    for a in range(d):
        w = (qs[a][1][:, None] * w[None, :]).ravel() if a else qs[a][1].copy()
    tot = 0.
    for i in mesh.elements:
        J = Jmat(mesh.elements[i], grid(axes), d)
        det = np.linalg.det(np.moveaxis(J, -1, 0))
        v = np.einsum('anm,n->am', L.physical(axes, J), c[i])
        tot += np.sum(np.sum(v ** n, axis=0) * det * w)
    return COMM.allreduce(tot)


def rec(mesh, f, L, ID, c, one, r, tol):
    d, nc = L.d, L.nc
    E = mesh.elements
    pts = grid(one)
    want, X = {}, {}
    for i in E:
        J = Jmat(E[i], pts, d)
        want[i] = np.einsum('anm,n->am', L.physical(one, J), c[i])
        X[i] = E[i].coordinate_transformation.mapping(*pts)
    shape = [len(o) for o in one]

    def cmp(i, xyz, val, how, shp):
        for a in range(d):
            r.eq(np.asarray(xyz[a]).ravel('F') if shp else xyz[a], X[i][a], 'reconstruct', f'{ID} {how} element {i} point',
                 scale=1.)
        for a in range(nc):
            v = np.asarray(val[a])
            if shp and list(v.shape) != shape:
                r.bad.append(('reconstruct', f'{ID} {how} element {i}: shape {v.shape}'))
                continue
            r.eq(v.ravel('F') if shp else v, want[i][a], 'reconstruct', f'{ID} {how} element {i} component {a}', tol=1e-8,
                 scale=np.max(np.abs(want[i])))
    for rv in (True, False):
        xyz, val = f.reconstruct(*one, ravel=rv)
        if sorted(val) != sorted(E.indices):
            r.bad.append(('reconstruct', f'{ID}: values for elements {sorted(val)} instead of {sorted(E.indices)}'))
            continue
        for i in E:
            cmp(i, xyz[i], val[i], f'ravel={rv}', not rv)
    for i in list(E)[:2]:
        xyz, val = f.reconstruct(*one, ravel=True, element_range=i)
        if list(val) != [i]:
            r.bad.append(('reconstruct', f'{ID}: element_range={i} gives {list(val)}'))
        else:
            cmp(i, xyz[i], val[i], 'element_range', False)
    if d == 3:
        names = list(mesh.domain.regions.names)
        for regs in ('all', names[0], names[-1:], names[::-1]):
            want_in = names if regs == 'all' else [regs] if isinstance(regs, str) else regs
            xyz, val = f.reconstruct(*one, ravel=True, regions=regs)
            exp = [i for i in E if mesh.do.find.region_name_of_element(i) in want_in]
            if sorted(val) != sorted(exp):
                r.bad.append(('reconstruct', f'{ID}: regions={regs} gives elements {sorted(val)}'))
            else:
                for i in exp:
                    cmp(i, xyz[i], val[i], f'regions={regs}', False)
    if d == 2 or L.k in (0, 3):
        v = f.reconstruct(*one, ravel=True, vectorized=True, value_only=True)
        if len(E) == 0:
            if any(x is not None for x in v):
                r.bad.append(('reconstruct', f'{ID}: vectorized without elements gives {v}'))
        else:
            for a in range(nc):
                for n_, i in enumerate(E.indices):
                    r.eq(v[a][n_], want[i][a], 'reconstruct', f'{ID} vectorized element {i} component {a}', tol=1e-8,
                         scale=np.max(np.abs(want[i])))
    RM = f.do.make_reconstruction_matrix_on_grid(*one)
    for i in E:
        mats = RM[i] if nc > 1 else ([RM[i]] if not isinstance(RM[i], (list, tuple)) else RM[i])
        for a in range(nc):
            r.eq(mats[a] @ c[i], want[i][a], 'reconstruct', f'{ID} reconstruction matrix element {i} component {a}',
                 tol=1e-8, scale=np.max(np.abs(want[i])))


def field_history(specs, p, seq):
    """reconstructions on region-wise grids, on several meshes in a row, must be those of that very mesh"""
    r = Rec()
    objs = []
    from root.config.main import RANK
    for spec in specs:
        mesh, d, space, F = setup(spec, None, p)
        fs = {}
        for ID in ([f'{k}-f' for k in range(4)] if d == 3 else [f'{k}-f-{o}' for k in range(3) for o in 'io']):
            f = F(ID, hybrid=True)
            L = Local(f, ID, d)
            f.cochain.local = {i: cochain(sum(int(abs(x) * 1000) for x in center(mesh, i)) % 97, len(L.labels))
                               for i in mesh.elements}
            fs[ID] = (f, L)
        objs.append((mesh, d, fs))
    own = [np.array(x) for x in ([0.1, 0.4, 0.7], [0.2, 0.6], [0.15, 0.8])]       # arrays the caller keeps and modifies
    for step, (m, g) in enumerate(seq):
        mesh, d, fs = objs[m]
        gr = [[0.05, 0.35, 0.6, 0.9], [0.1, 0.45, 0.8], [0.2, 0.7, 0.95]][:d] if g == 0 else \
            [[-0.9, 0.1, 0.8], [0., 0.3], [-0.2, 0.15, 0.5, 0.97]][:d] if g == 1 else \
            [[0., 0.5, 1.], [0., 0.25, 1.], [0., 1.]][:d]
        if g == 3:
            for a in own:
                a += 0.05
            gr = own[:d]
        ur = [np.array(x, float) if min(x) >= 0 else (np.array(x) + 1) / 2 for x in gr]
        for ID, (f, L) in fs.items():
            try:
                df = f.reconstruct.discrete_field(gr)
            except Exception as e:
                r.bad.append(('discrete-field', f'step {step} of {seq}: {ID} grid {g} on mesh {m} raises {e!r}'))
                continue
            V, X = df.values, df.coordinates
            for rn in V:
                check_region(mesh, L, f, rn, ur, X[rn], V[rn], r, f'step {step} of {seq}: {ID} region {rn}')
    return r.out()


def check_region(mesh, L, f, rn, ur, X, V, r, msg):
    d = mesh.ndim
    interp = mesh.domain.regions[rn].interpolation
    rst = np.meshgrid(*ur, indexing='ij')
    xyz = interp.mapping(*rst) if hasattr(interp, 'mapping') else interp(*rst)
    for a in range(d):
        r.eq(X[a], xyz[a], 'discrete-field', msg + f' coordinate {a}', scale=1.)
    spac = mesh.elements.spacing[rn]
    lay = mesh.elements.layout[rn]
    num = mesh.___PRIVATE_generate_element_global_numbering___(number_what=rn)
    local = set(mesh.elements.indices)
    loc = []
    for a in range(d):
        s = np.asarray(spac[a], float)
        e = np.clip(np.searchsorted(s, ur[a], side='right') - 1, 0, len(s) - 2)
        loc.append((e, (ur[a] - s[e]) * 2 / (s[e + 1] - s[e]) - 1))
    for ix in np.ndindex(*[len(u) for u in ur]):
        el = int(num[tuple(loc[a][0][ix[a]] for a in range(d))])
        if el not in local:
            continue
        axes = [np.array([loc[a][1][ix[a]]]) for a in range(d)]
        J = Jmat(mesh.elements[el], axes, d)
        w = np.einsum('anm,n->am', L.physical(axes, J), f.cochain.local[el])[:, 0]
        got = np.array([V[a][ix] for a in range(L.nc)])
        r.eq(got, w, 'discrete-field', msg + f' grid point {ix}', tol=1e-7, scale=np.max(np.abs(w)) + 1e-3)
