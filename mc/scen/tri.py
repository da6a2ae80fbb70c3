"""C17: unstructured triangular meshes: connectivity, numbering, incidence, mass, reduction, reconstruction, fields, exports,
boundary values and small programs against a geometry-only oracle (own edges, own quadrature, own dense algebra)"""
import itertools
import os
import shutil
import tempfile
import numpy as np
from mc.scen import fem
from mc.scen.ct import Rec

ROOT = os.environ.get('MC_REPO', '/repo')


# ---- keeping the library's mesh files out of the repository ----------------------------------------------
class _Reader:
    def __init__(self, real, moved):
        self._r, self._m = real, moved

    def SetFileName(self, name):
        self._r.SetFileName(self._m.get(os.path.abspath(name), name))

    def __getattr__(self, k):
        return getattr(self._r, k)


class Scratch:
    """files written below the repository land in a scratch directory and are read back from there"""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='mifem-mc-tri-')
        self.moved = {}
        import sys
        import vtk
        import pyevtk.hl as hl
        self.hl, self.vtk = hl, vtk
        self.w, self.r = hl.unstructuredGridToVTK, vtk.vtkXMLUnstructuredGridReader

        def write(path, *a, **k):
            full = os.path.abspath(path)
            new = os.path.join(self.dir, f'{len(self.moved)}_' + os.path.basename(full))
            self.moved[full + '.vtu'] = new + '.vtu'
            return self.w(new, *a, **k)
        hl.unstructuredGridToVTK = write
        vtk.vtkXMLUnstructuredGridReader = lambda: _Reader(self.r(), self.moved)
        self.patched = []
        for m in list(sys.modules.values()):
            if getattr(m, 'unstructuredGridToVTK', None) is self.w and m is not hl:
                m.unstructuredGridToVTK = write
                self.patched.append(m)
        return self

    def __exit__(self, *a):
        import sys
        new = self.hl.unstructuredGridToVTK
        for m in list(sys.modules.values()):
            if getattr(m, 'unstructuredGridToVTK', None) is new:
                m.unstructuredGridToVTK = self.w
        self.hl.unstructuredGridToVTK, self.vtk.vtkXMLUnstructuredGridReader = self.w, self.r
        shutil.rmtree(self.dir, ignore_errors=True)


def world():
    from root.config.main import COMM, RANK, SIZE
    return COMM, RANK, SIZE


def bnds(kind):
    if kind == 'wall':
        return {'Wall': lambda x, y: True}
    if kind == 'unit':
        return {'Upper': lambda x, y: x == 0, 'Down': lambda x, y: x == 1,
                'Left': lambda x, y: y == 0, 'Right': lambda x, y: y == 1}
    if kind == 'half':                       # two boundaries that split the outer edges of a fan by side
        return {'Neg': lambda x, y: x <= 1e-12, 'Pos': lambda x, y: x >= -1e-12}
    if kind.startswith('sq'):                # the square [-d/2, d/2]^2 of the library
        h = float(kind[2:]) / 2
        return {'Upper': lambda x, y: x == -h, 'Down': lambda x, y: x == h, 'Left': lambda x, y: y == -h, 'Right': lambda x, y: y == h}
    raise KeyError(kind)


def call(spec, p, S):
    """the form caller of a mesh; spec = ('cells', points, cells, boundaries) or ('id', ID, kwargs, boundaries)"""
    COMM, RANK, _ = world()
    from objects.miUsGrid.triangular import master as mm
    import sys
    w = S.hl.unstructuredGridToVTK
    for m in list(sys.modules.values()):
        if getattr(m, 'unstructuredGridToVTK', None) is S.w and m is not S.hl:
            m.unstructuredGridToVTK = w
    if spec[0] == 'id':
        return mm.Call(spec[1], p, **spec[2])
    pts, cells = np.array(spec[1], float), np.array(spec[2], int)
    path = os.path.join(S.dir, 'mesh')
    if RANK == 0:
        S.w(path, pts[:, 0].copy(), pts[:, 1].copy(), np.zeros(len(pts)), connectivity=cells.ravel(),
            offsets=np.arange(3, 3 * len(cells) + 3, 3), cell_types=np.ones(len(cells)) * 5)
    return mm.Call(path + '.vtu', p, boundaries=bnds(spec[3]))


def source(spec):
    """points and cells the mesh must have (None when only the library knows them)"""
    if spec[0] == 'cells':
        return np.array(spec[1], float), [tuple(c) for c in spec[2]]
    return None, None


# ---- own geometry -----------------------------------------------------------------------------------------
class Tri:
    """one degree-p triangle with vertices v0 (singular), v1, v2 (counterclockwise)"""

    def __init__(self, v, p, nodes):
        self.v = [np.array(a, float) for a in v]
        self.p, self.nodes = p, np.asarray(nodes, float)

    def at(self, xi, et):
        r, s = (np.asarray(xi) + 1) / 2, (np.asarray(et) + 1) / 2
        a, b, c = self.v
        return [a[k] + s * ((1 - r) * (c[k] - a[k]) + r * (b[k] - a[k])) for k in (0, 1)]

    def J(self, xi, et):
        r, s = (np.asarray(xi) + 1) / 2, (np.asarray(et) + 1) / 2
        a, b, c = self.v
        return np.array([[.5 * s * (b[k] - c[k]), .5 * ((1 - r) * (c[k] - a[k]) + r * (b[k] - a[k]))] for k in (0, 1)])

    def loc(self, k):
        """reference entities of the local dofs, in the documented local order"""
        p = self.p
        if k == 0:
            return [(0, 0)] + [(i, j) for j in range(1, p + 1) for i in range(p + 1)]
        dx = [('x', i, j) for j in range(1, p + 1) for i in range(p)]
        dy = [('y', i, j) for j in range(p) for i in range(p + 1)]
        if k == '1i':
            return dx + dy
        if k == '1o':
            return dy + dx
        return [(i, j) for j in range(p) for i in range(p)]

    def ends(self, e):
        n = self.nodes
        if e[0] == 'x':
            return (n[e[1]], n[e[2]]), (n[e[1] + 1], n[e[2]])
        return (n[e[1]], n[e[2]]), (n[e[1]], n[e[2] + 1])

    def entity(self, k):
        """physical key of every local dof"""
        def rd(q):
            return tuple(np.round(q, 9) + 0.)
        if k == 0:
            return [rd(np.array(self.at(self.nodes[i], self.nodes[j])).ravel()) for i, j in self.loc(0)]
        if k == 2:
            return [(rd(np.array(self.at(0, 0))),) + e for e in self.loc(2)]
        return [frozenset(rd(np.array(self.at(*q)).ravel()) for q in self.ends(e)) for e in self.loc(k)]

    def reduce(self, F, k, n=8):
        """exact dofs of polynomial (tuples of) functions, positive local orientation"""
        x, w = fem.gauss(n)
        out = []
        if k == 0:
            return np.array([float(F[0](*self.at(self.nodes[i], self.nodes[j]))) for i, j in self.loc(0)])
        if k == 2:
            for i, j in self.loc(2):
                a, b = self.nodes[i], self.nodes[i + 1]
                c, d = self.nodes[j], self.nodes[j + 1]
                X, Y = np.meshgrid(.5 * (b - a) * x + .5 * (a + b), .5 * (d - c) * x + .5 * (c + d), indexing='ij')
                dj = np.linalg.det(np.moveaxis(self.J(X, Y), (0, 1), (-2, -1)))
                out.append(np.sum(F[0](*self.at(X, Y)) * dj * w[:, None] * w[None, :]) * .25 * (b - a) * (d - c))
            return np.array(out)
        for e in self.loc(k):
            A, B = [np.array(self.at(*q)).ravel() for q in self.ends(e)]
            t = .5 * (x + 1)
            q = [A[m] + t * (B[m] - A[m]) for m in (0, 1)]
            u, v = [np.broadcast_to(f(*q), t.shape) for f in F]
            d = B - A
            if k == '1i':
                g = u * d[0] + v * d[1]
            elif e[0] == 'y':
                g = u * d[1] - v * d[0]
            else:
                g = v * d[0] - u * d[1]
            out.append(.5 * np.sum(w * g))
        return np.array(out)

    def basis(self, k, axes):
        """physical basis values on the grid of axes: list over components of (dofs, points)"""
        xi, et = axes
        p, n = self.p, self.nodes
        lx, ly, ex, ey = fem.lagrange(n, xi), fem.lagrange(n, et), fem.edge(n, xi), fem.edge(n, et)

        def T(a, b):
            return np.einsum('m,n->nm', a, b).ravel()
        X, Y = fem.grid(axes)
        J = self.J(X, Y)
        det = J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0]
        if k == 0:
            return [np.array([T(np.sum(lx, 0), ly[0])] + [T(lx[i], ly[j]) for i, j in self.loc(0)[1:]])]
        if k == 2:
            return [np.array([T(ex[i], ey[j]) / det for i, j in self.loc(2)])]
        a, b = [], []
        for c, i, j in self.loc(k):
            val = T(ex[i], ly[j]) if c == 'x' else T(lx[i], ey[j])
            if k == '1i':                     # covariant: dx along xi, dy along eta
                f, g = (val, 0 * val) if c == 'x' else (0 * val, val)
                a.append((J[1, 1] * f - J[1, 0] * g) / det)
                b.append((-J[0, 1] * f + J[0, 0] * g) / det)
            else:                             # contravariant: flux through dy is along xi, through dx along eta
                f, g = (0 * val, val) if c == 'x' else (val, 0 * val)
                a.append((J[0, 0] * f + J[0, 1] * g) / det)
                b.append((J[1, 0] * f + J[1, 1] * g) / det)
        return [np.array(a), np.array(b)]

    def mass(self, k, n, k2=None, other=None):
        x, w = fem.gauss(n)
        A = self.basis(k, [x, x])
        B = A if other is None else other.basis(k2, [x, x])
        X, Y = fem.grid([x, x])
        J = self.J(X, Y)
        W = np.outer(w, w).ravel() * (J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0])
        return sum(np.einsum('im,jm,m->ij', a, b, W) for a, b in zip(A, B))

    def incidence(self, k):
        i0 = {e: m for m, e in enumerate(self.loc(0))}
        p = self.p

        def at0(i, j):
            return 0 if j == 0 else i0[(i, j)]
        if k in ('0i', '0o'):
            rows = self.loc('1' + k[1])
            E = np.zeros((len(rows), len(i0)))
            for m, (c, i, j) in enumerate(rows):
                a, b = (at0(i, j), at0(i + 1, j)) if c == 'x' else (at0(i, j), at0(i, j + 1))
                s = -1 if k == '0o' and c == 'x' else 1         # curl f . left normal = - df/dl, . right normal = + df/dl
                E[m, b] += s
                E[m, a] -= s
            return E
        i1 = {e: m for m, e in enumerate(self.loc(k))}
        E = np.zeros((p * p, len(i1)))
        for m, (i, j) in enumerate(self.loc(2)):
            for e, si, so in ((('x', i, j), 1, -1), (('y', i + 1, j), 1, 1), (('x', i, j + 1), -1, 1), (('y', i, j), -1, -1)):
                if e in i1:                                     # the edges at the singular vertex have no length
                    E[m, i1[e]] += si if k == '1i' else so
        return E


def polys(deg):
    """generic polynomials of (x, y): scalars, vectors and their derivatives"""
    c = [0.7, -1.3, 0.9, 0.4, -0.8, 1.1, 0.6, -0.5, 0.3, 0.2]
    mons = [(i, j) for n in range(deg + 1) for i in range(n + 1) for j in [n - i]]

    def f(sh):
        co = {m: c[(k * 3 + sh) % len(c)] for k, m in enumerate(mons)}
        return co

    def ev(co):
        return lambda x, y: sum(v * x**i * y**j for (i, j), v in co.items()) + 0 * x

    def d(co, k):
        out = {}
        for (i, j), v in co.items():
            if (i, j)[k]:
                q = (i - 1, j) if k == 0 else (i, j - 1)
                out[q] = out.get(q, 0) + v * (i, j)[k]
        return out
    return f, ev, d


KIND = {'0-f-i': 0, '0-f-o': 0, '1-f-i': '1i', '1-f-o': '1o', '2-f-i': 2, '2-f-o': 2}


# ---- connectivity ------------------------------------------------------------------------------------------
def gather(d):
    COMM, _, _ = world()
    out = {}
    for x in COMM.allgather(d):
        out.update(x)
    return out


def connectivity(fc, spec, rec, name):
    """cells, orientation, element map, boundaries and distribution against the source and own edges; returns the cells"""
    COMM, RANK, SIZE = world()
    E = fc.mesh.elements
    pts, cells = source(spec)
    own = {e: tuple(int(v) for v in E.cells[e]) for e in E}
    xy = {int(i): tuple(float(a) for a in E.points[i]) for e in E for i in E.cells[e]}
    emap = {e: tuple(E.map[e]) for e in E}
    allc, allp, allm = gather(own), gather(xy), gather(emap)
    n = len(allc)
    key = lambda what: f'{what}'
    rec.n += 1
    rng = COMM.allgather(list(E.range))
    flat = [e for r in rng for e in r]
    if flat != list(range(n)) or [list(r) for r in E.distributions] != rng or E.num.global_cells != n or E.num.cells != len(rng[RANK]):
        rec.bad.append((key('distribution'), f'{name}: elements {rng} distributions {E.distributions} of {n}'))
    if max(len(r) for r in rng) - min(len(r) for r in rng) > 1:
        rec.bad.append((key('distribution'), f'{name}: unbalanced {rng}'))
    for e in range(n):
        r = E.do.find.rank_of_element(e)
        rec.n += 1
        if r is None or e not in rng[r]:
            rec.bad.append((key('rank_of_element'), f'{name}: element {e} said to be in rank {r} of {rng}'))
    if cells is not None:
        if len(cells) != n:
            rec.bad.append((key('cells'), f'{name}: {n} cells instead of {len(cells)}'))
        for e, c in enumerate(cells):
            rec.n += 1
            if allc[e][0] != c[0] or set(allc[e]) != set(c):
                rec.bad.append((key('cells'), f'{name}: cell {e} is {allc[e]} of {c}'))
            for i in allc[e]:
                rec.eq(allp[i], pts[i], key('points'), f'{name}: point {i}', tol=1e-12, scale=1.)
    V = {}
    for e, c in allc.items():
        a, b, d = [np.array(allp[i]) for i in c]
        rec.n += 1
        area = ((b[0] - a[0]) * (d[1] - a[1]) - (b[1] - a[1]) * (d[0] - a[0])) / 2
        if not area > 0:
            rec.bad.append((key('orientation'), f'{name}: cell {e} is not counterclockwise'))
        V[e] = [a, b, d]
        if e in own:
            el = E[e]
            rec.eq(el.area, area, key('area'), f'{name}: area of {e}', tol=1e-7)
            rec.eq(el.edge_lengths, [np.linalg.norm(b - a), np.linalg.norm(d - a), np.linalg.norm(d - b)], key('lengths'), f'{name}: {e}', tol=1e-12)
            ang = []
            for x, y, z in ((a, b, d), (b, d, a), (d, a, b)):
                u, v = y - x, z - x
                ang.append(np.degrees(np.arccos(np.clip(u @ v / np.linalg.norm(u) / np.linalg.norm(v), -1, 1))))
            rec.eq(el.angles, ang, key('angles'), f'{name}: {e}', tol=1e-7)
    tot = sum(((v[1] - v[0])[0] * (v[2] - v[0])[1] - (v[1] - v[0])[1] * (v[2] - v[0])[0]) / 2 for v in V.values())
    rec.eq(fc.mesh.domain.area, tot, key('domain area'), name, tol=1e-8)
    # edges: 0: v0->v1, 1: v0->v2, 2: v2->v1
    edges = {}
    for e, (a, b, d) in allc.items():
        for m, q in enumerate(((a, b), (a, d), (d, b))):
            edges.setdefault(frozenset(q), []).append((e, m, q))
    cond = bnds(spec[3])
    roe = fc.mesh.boundaries.range_of_element_edge
    if list(fc.mesh.boundaries.names) != list(cond):
        rec.bad.append((key('boundary names'), f'{name}: {fc.mesh.boundaries.names}'))
    outer = {b: [] for b in cond}
    for q, L in edges.items():
        rec.n += 1
        if len(L) == 2:
            (e, m, s), (f, k, t) = L
            sg = '+' if s == t else '-'
            if allm[e][m] != f'{f}{sg}{k}' or allm[f][k] != f'{e}{sg}{m}':
                rec.bad.append((key('element map'), f'{name}: edge {m} of {e} = edge {k} of {f} ({sg}): map says {allm[e][m]} and {allm[f][k]}'))
        elif len(L) == 1:
            e, m, s = L[0]
            want = [b for b, fn in cond.items() if all(fn(*allp[i]) for i in s)]
            if len(want) == 1:
                outer[want[0]].append((e, m))
                if allm[e][m] != want[0]:
                    rec.bad.append((key('boundary'), f'{name}: edge {m} of {e} is on {want} but mapped to {allm[e][m]}'))
    for b in cond:
        mine = sorted((int(e), int(m)) for e, m in roe[b])
        if mine != sorted((e, m) for e, m in outer[b] if e in own):
            rec.bad.append((key('range of boundary'), f'{name}: {b}: {mine} instead of {outer[b]}'))
    return allc, V, outer


def mapping(fc, V, rec, name):
    """coordinate transformations, element by element and cached for all elements"""
    E = fc.mesh.elements
    X, Y = [np.array(a) for a in ([-.9, -.2, .3, .95, .0], [-.8, .5, -.1, .9, .25])]
    CT = E.coordinate_transformation
    J_ = CT.Jacobian_matrix(X, Y)
    iJ_ = CT.inverse_Jacobian_matrix(X, Y)
    C = dict(mapping=CT.mapping(X, Y), Jacobian_matrix=J_, Jacobian=CT.Jacobian(X, Y), metric=CT.metric(X, Y), inverse_Jacobian_matrix=iJ_,
             inverse_Jacobian=CT.inverse_Jacobian(X, Y), metric_matrix=CT.metric_matrix(X, Y), inverse_metric_matrix=CT.inverse_metric_matrix(X, Y))
    D = dict(Jacobian=CT.Jacobian(X, Y, itmD=J_), metric=CT.metric(X, Y, itmD=CT.Jacobian(X, Y)), inverse_Jacobian_matrix=CT.inverse_Jacobian_matrix(X, Y, itmD=J_),
             inverse_Jacobian=CT.inverse_Jacobian(X, Y, itmD=iJ_), metric_matrix=CT.metric_matrix(X, Y, itmD=J_),
             inverse_metric_matrix=CT.inverse_metric_matrix(X, Y, itmD=iJ_))
    for e in E:
        T = Tri(V[e], 1, [-1, 1])
        J = T.J(X, Y)
        det = J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0]
        iJ = np.array([[J[1, 1], -J[0, 1]], [-J[1, 0], J[0, 0]]]) / det
        want = dict(mapping=np.array(T.at(X, Y)), Jacobian_matrix=J, Jacobian=det, metric=det**2, inverse_Jacobian_matrix=iJ, inverse_Jacobian=1 / det,
                    metric_matrix=np.einsum('kim,kjm->ijm', J, J), inverse_metric_matrix=np.einsum('ikm,jkm->ijm', iJ, iJ))
        ect = E[e].coordinate_transformation
        for k, w in want.items():
            rec.eq(np.array(getattr(ect, k)(X, Y)), w, f'ct {k}', f'{name}: element {e}')
            for how, src in (('cached', C), ('with intermediate data', D)):
                if k in src:
                    try:
                        rec.eq(np.array(src[k][e]), w, f'ct {k}', f'{name}: element {e}, {how}')
                    except TypeError as err:
                        rec.bad.append((f'ct {k}', f'{name}: element {e}, {how}: TypeError {err}'))


# ---- forms -----------------------------------------------------------------------------------------------
def signs(fc, ID, T, rec, name):
    """+-1 of every local dof of a 1-form relative to the positive local orientation, measured by discretizing a field"""
    F = [lambda x, y: 1.3 + 0.7 * x - 0.45 * y, lambda x, y: -0.6 + 0.35 * x + 0.85 * y]
    v = fc('vector', [lambda t, x, y: F[0](x, y), lambda t, x, y: F[1](x, y)])
    f = fc(ID)
    f.CF = v
    v.current_time = 0
    f.discretize()
    S = {}
    for e, tr in T.items():
        w = tr.reduce(F, KIND[ID], 3)
        c = f.cochain.local[e]
        S[e] = np.where(np.abs(c - w) <= np.abs(c + w), 1., -1.)
        rec.eq(c, S[e] * w, f'{ID} orientation', f'{name}: element {e}', scale=np.max(np.abs(w)))
    return S, f


def numbering(fc, f, ID, T, V, rec, name):
    """gathering matrix: contiguous, and equal exactly for equal geometric entities"""
    COMM, RANK, _ = world()
    gm = f.numbering.gathering
    k = KIND[ID]
    mine = {e: [int(x) for x in gm[e].full_vector] for e in T}
    ents = {e: t.entity(k) for e, t in T.items()}
    A, B = gather(mine), gather(ents)
    N = set(x for v in A.values() for x in v)
    tot = f.num.GLOBAL_dofs
    rec.n += 1
    if N != set(range(tot)) or gm.global_num_dofs != tot:
        rec.bad.append((f'{ID} numbering', f'{name}: {len(N)} dofs, {tot} announced'))
    d2e, e2d = {}, {}
    for e in A:
        if len(A[e]) != len(B[e]):
            rec.bad.append((f'{ID} numbering', f'{name}: element {e} has {len(A[e])} dofs'))
            return A
        for x, g in zip(A[e], B[e]):
            rec.n += 1
            if d2e.setdefault(x, g) != g or e2d.setdefault(g, x) != x:
                rec.bad.append((f'{ID} numbering', f'{name}: element {e}: dof {x} at {g}: {d2e[x]}, {e2d[g]}'))
    if k != 2:
        n = f.space.p
        loc = T[next(iter(T))].loc(k) if T else []
        for m in (0, 1, 2):
            if not T:
                continue
            if k == 0:
                want = {0: [(n, j) for j in range(n + 1)], 1: [(0, j) for j in range(n + 1)], 2: [(i, n) for i in range(n + 1)]}[m]
                want = [0 if j == 0 else loc.index((i, j)) for i, j in want]
            else:
                want = {0: [('y', n, j) for j in range(n)], 1: [('y', 0, j) for j in range(n)], 2: [('x', i, n) for i in range(n)]}[m]
                want = [loc.index(q) for q in want]
            got = [int(x) for x in f.numbering.do.find.local_dofs_on_element_edge(m)]
            got2 = [int(x) for x in f.numbering.do.find.local_dofs_on_element_edge('DUR'[m])]
            rec.n += 1
            if got != want or got2 != want:
                rec.bad.append((f'{ID} edge dofs', f'{name}: edge {m}: {got} {got2} instead of {want}'))
            for e in T:
                if [int(x) for x in f.numbering.do.find.dofs_on_element_edge(e, m)] != [A[e][i] for i in want]:
                    rec.bad.append((f'{ID} edge dofs', f'{name}: edge {m} of element {e}'))
    return A


def mat(M, e):
    m = M[e]
    return m.toarray() if hasattr(m, 'toarray') else np.asarray(m)


def forms(spec, ps, what=('ct', 'num', 'inc', 'mass', 'red', 'rec'), deg=2):
    """all form kinds of one mesh for the degrees ps"""
    rec = Rec()
    COMM, RANK, SIZE = world()
    with Scratch() as S:
        for p in ps:
            name = f'p={p}'
            fc = call(spec, p, S)
            cells, V, outer = connectivity(fc, spec, rec, name)
            if 'ct' in what and p == ps[0]:
                mapping(fc, V, rec, name)
            one(fc, p, V, rec, what, name, deg)
    return rec.out()


def one(fc, p, V, rec, what, name, deg):
    COMM, RANK, SIZE = world()
    nodes = np.asarray(fc.space.nodes, float)
    T = {e: Tri(V[e], p, nodes) for e in fc.mesh.elements}
    mk, ev, dd = polys(deg)
    Sg = {}
    for ID in KIND:
        k = KIND[ID]
        if k in ('1i', '1o'):
            Sg[ID], _ = signs(fc, ID, T, rec, name)
        else:
            Sg[ID] = {e: np.ones(len(t.loc(k))) for e, t in T.items()}
    for ID in KIND:
        k = KIND[ID]
        f = fc(ID)
        A = None
        if 'num' in what:
            A = numbering(fc, f, ID, T, V, rec, name)
            if k in ('1i', '1o'):                              # the two elements at an edge agree on the direction of its dofs
                mine = {e: [(d, tuple(v)) for d, v in zip(A[e], dirs(t, k, Sg[ID][e]))] for e, t in T.items()}
                seen = {}
                for e, L in sorted(gather(mine).items()):
                    for d, v in L:
                        rec.n += 1
                        w = seen.setdefault(d, v)
                        if np.dot(w, v) < 0:
                            rec.bad.append((f'{ID} orientation', f'{name}: element {e} and its neighbour disagree on the direction of dof {d}'))
        if 'inc' in what and k != 2:
            key = ID[0] + ID[-1]
            nxt = f'{int(ID[0]) + 1}-f-{ID[-1]}'
            E = f.coboundary.incidence_matrix
            E2 = f.matrices.incidence
            for e, t in T.items():
                W = Sg[nxt][e][:, None] * t.incidence(key) * Sg[ID][e][None, :]
                rec.eq(mat(E, e), W, f'{ID} incidence', f'{name}: element {e}', tol=0.)
                rec.eq(mat(E2, e), W, f'{ID} incidence', f'{name}: matrices, element {e}', tol=0.)
        if 'mass' in what:
            M = f.matrices.mass
            for e, t in T.items():
                W = t.mass(k, p + 2) if k == 2 else t.mass(k, p + 4)
                W = W * Sg[ID][e][:, None] * Sg[ID][e][None, :]
                rec.eq(mat(M, e), W, f'{ID} mass', f'{name}: element {e}', scale=np.max(np.abs(W)))
            if A is not None:
                M.gathering_matrices = (f, f)
                a = M.assembled
                D = COMM.allreduce(a.M.toarray())
                n = f.num.GLOBAL_dofs
                W = np.zeros((n, n))
                for e, t in T.items():
                    W[np.ix_(A[e], A[e])] += (t.mass(k, p + 2 if k == 2 else p + 4)) * Sg[ID][e][:, None] * Sg[ID][e][None, :]
                W = COMM.allreduce(W)
                rec.eq(D, W, f'{ID} assembled mass', name, scale=np.max(np.abs(W)))
            for q in {max(1, p - 1), p + 1} - {p}:             # inner product with a form of another degree
                from objects.miUsGrid.triangular.space import main as sm
                g = type(f)(fc.mesh, sm.miUsGrid_TriangularFunctionSpace(q))
                IP = f.operators.inner(g)
                for e, t in T.items():
                    o = Tri(V[e], q, g.space.nodes)
                    sg = np.ones(len(o.loc(k)))
                    if k in ('1i', '1o'):
                        sg = regroup(t, o, k, Sg[ID][e])
                    W = t.mass(k, p + 2, k, o) * Sg[ID][e][:, None] * sg[None, :]
                    if q <= p or k == 2:
                        rec.eq(mat(IP, e), W, f'{ID} inner', f'{name}: with degree {q}, element {e}', scale=np.max(np.abs(W)))
        if 'red' in what:
            reduction(fc, f, ID, T, Sg, rec, name, mk, ev, dd, p, deg, A)
        if 'rec' in what:
            reconstruction(fc, f, ID, T, Sg[ID], rec, name, p)


def dirs(t, k, s):
    out = []
    for e, g in zip(t.loc(k), s):
        a, b = [np.array(t.at(*q)).ravel() for q in t.ends(e)]
        d = (b - a) * g
        out.append(d if k == '1i' else (np.array([d[1], -d[0]]) if e[0] == 'y' else np.array([-d[1], d[0]])))
    return out


def regroup(t, o, k, s):
    """signs of the dofs of another degree: those of the edges of the triangle are inherited, the inner ones are +"""
    sd = {}
    for e, g in zip(t.loc(k), s):
        if e[0] == 'x' and e[2] == t.p:
            sd[2] = g
        if e[0] == 'y' and e[1] in (0, t.p):
            sd[1 if e[1] == 0 else 0] = g
    out = []
    for e in o.loc(k):
        if e[0] == 'x' and e[2] == o.p:
            out.append(sd[2])
        elif e[0] == 'y' and e[1] in (0, o.p):
            out.append(sd[1 if e[1] == 0 else 0])
        else:
            out.append(1.)
    return np.array(out)


def field(fc, co, ev, tt=1.):
    """time-dependent field (1 + tt t) * polynomial(s)"""
    if isinstance(co, dict):
        g = ev(co)
        return fc('scalar', lambda t, x, y: (1 + tt * t) * g(x, y))
    g = [ev(c) for c in co]
    return fc('vector', [lambda t, x, y: (1 + tt * t) * g[0](x, y), lambda t, x, y: (1 + tt * t) * g[1](x, y)])


def reduction(fc, f, ID, T, Sg, rec, name, mk, ev, dd, p, deg, A):
    COMM, RANK, SIZE = world()
    k = KIND[ID]
    S = Sg[ID]
    for sh in (0, 1):
        a, b = mk(sh), mk(sh + 2)
        co = [a] if k in (0, 2) else [a, b]
        cf = field(fc, a if k in (0, 2) else (a, b), ev)
        f.CF = cf
        for t in (0., .5, 0.):
            cf.current_time = t
            f.discretize()
            for e, tr in T.items():
                W = (1 + t) * S[e] * tr.reduce([ev(c) for c in co], k)
                rec.eq(f.cochain.local[e], W, f'{ID} discretize', f'{name}: element {e} at t={t}', scale=max(1e-300, np.max(np.abs(W))))
        if k == 2:                                             # a caller's quadrature degree list is the caller's
            qd = [p + 1, p + 1]
            f.discretize(update_cochain=False, quad_degree=qd)
            qd[0] = qd[1] = p + 3
            _, L = f.discretize(update_cochain=False, quad_degree=qd)
            for e, tr in T.items():
                rec.eq(L[e], tr.reduce([ev(c) for c in co], k), f'{ID} discretize', f'{name}: quad_degree reused, element {e}')
        elif k != 0:
            qd = [p + 2, p + 2]
            f.discretize(update_cochain=False, quad_degree=qd)
            qd[0] = qd[1] = p + 3
            _, L = f.discretize(update_cochain=False, quad_degree=qd)
            for e, tr in T.items():
                rec.eq(L[e], S[e] * tr.reduce([ev(c) for c in co], k), f'{ID} discretize', f'{name}: quad_degree reused, element {e}')
        if k == 2:
            continue
        # d commutes with the reduction
        nxt = f'{int(ID[0]) + 1}-f-{ID[-1]}'
        if k == 0:
            D = [dd(a, 0), dd(a, 1)] if ID[-1] == 'i' else [dd(a, 1), {m: -v for m, v in dd(a, 0).items()}]
        elif ID[-1] == 'i':
            D = [add(dd(b, 0), dd(a, 1), -1)]
        else:
            D = [add(dd(a, 0), dd(b, 1), 1)]
        g = f.coboundary()
        for e, tr in T.items():
            W = Sg[nxt][e] * tr.reduce([ev(c) for c in D], KIND[nxt])
            rec.eq(g.cochain.local[e], W, f'{ID} coboundary', f'{name}: element {e}', scale=max(1., np.max(np.abs(f.cochain.local[e]))))
        rec.n += 1
        if g.__class__ is not fc(nxt).__class__:
            rec.bad.append((f'{ID} coboundary', f'{name}: is a {g.__class__.__name__}'))
        if k == 0:
            h = g.coboundary()
            for e in T:
                rec.eq(h.cochain.local[e], 0., f'{ID} dd', f'{name}: element {e}', scale=max(1., np.max(np.abs(f.cochain.local[e]))))
    # global vector and back, sum and difference
    if A is not None:
        base = {e: f.cochain.local[e].copy() for e in T}
        try:
            G = f.cochain.globe
            v = COMM.allreduce(G.V.toarray().ravel()) if not G.whether.master_dominating else COMM.bcast(G.V.toarray().ravel() if RANK == 0 else None, root=0)
            for e in T:
                rec.eq(v[A[e]], base[e], f'{ID} globe', f'{name}: element {e}', scale=max(1e-300, np.max(np.abs(base[e]))))
            h = fc(ID)
            h.cochain.globe = G
            for e in T:
                rec.eq(h.cochain.local[e], base[e], f'{ID} globe', f'{name}: set, element {e}', scale=max(1e-300, np.max(np.abs(base[e]))))
        except AttributeError as err:
            rec.bad.append((f'{ID} globe', f'{name}: AttributeError {err}'))
        h = fc(ID)
        h.cochain.local = {e: 2. * base[e] + 1. for e in T}
        ad, su = f + h, h - f
        for e in T:
            rec.eq(ad.cochain.local[e], 3 * base[e] + 1, f'{ID} sum', f'{name}: element {e}')
            rec.eq(su.cochain.local[e], base[e] + 1, f'{ID} difference', f'{name}: element {e}')
            rec.eq(f.cochain.local[e], base[e], f'{ID} sum', f'{name}: operand of element {e}')
            rec.eq(f.cochain.EWC[e].toarray().ravel(), base[e], f'{ID} EWC', f'{name}: element {e}')


def add(a, b, s):
    out = dict(a)
    for m, v in b.items():
        out[m] = out.get(m, 0) + s * v
    return out


def reconstruction(fc, f, ID, T, S, rec, name, p):
    """values of the reconstructed form, its matrices, norms and errors for cochain vectors that depend on the dof"""
    COMM, RANK, SIZE = world()
    k = KIND[ID]
    A = f.numbering.gathering
    loc = {e: np.array([((7 * int(d)) % 11 - 5) / 5. for d in A[e].full_vector]) for e in T}
    f.cochain.local = loc
    nc = 1 if k in (0, 2) else 2
    for axes in ([np.array([-.9, .1, .75]), np.array([-.6, .35])], [np.array([-.2]), np.array([-.5, 0., 1.])]):
        xy, val = f.reconstruct(*axes)
        xr, vr = f.reconstruct(*axes, ravel=True)
        RM = f.do.make_reconstruction_matrix_on_grid(*axes)
        sh = [len(a) for a in axes]
        X, Y = fem.grid(axes)
        for e, t in T.items():
            P = [b * S[e][:, None] for b in t.basis(k, axes)]
            W = [loc[e] @ b for b in P]
            sc = max(np.max(np.abs(w)) for w in W) or 1.
            C = t.at(X, Y)
            one = f.reconstruct(*axes, element_range=int(e), value_only=True)
            for c in range(nc):
                rec.eq(vr[e][c], W[c], f'{ID} reconstruct', f'{name}: element {e}', scale=sc)
                rec.eq(val[e][c], W[c].reshape(sh, order='F'), f'{ID} reconstruct', f'{name}: element {e}, grid', scale=sc)
                rec.eq(one[e][c], W[c].reshape(sh, order='F'), f'{ID} reconstruct', f'{name}: only element {e}', scale=sc)
                m = RM[e] if nc == 1 else RM[e][c]
                rec.eq(m, P[c].T, f'{ID} reconstruction matrix', f'{name}: element {e}', scale=np.max(np.abs(P[c])))
            for c in (0, 1):
                rec.eq(xr[e][c], C[c], f'{ID} reconstruct', f'{name}: coordinates, element {e}')
                rec.eq(xy[e][c], C[c].reshape(sh, order='F'), f'{ID} reconstruct', f'{name}: coordinates, element {e}')
    # norms and errors with the rules the callers choose (the same list object, changed in between)
    qd = [p + 1, p + 1]
    for n in (p + 1, p + 3, p + 2):
        qd[0] = qd[1] = n
        x, w = fem.gauss(n + 1)
        X, Y = fem.grid([x, x])
        W2 = np.outer(w, w).ravel()
        en, er = 0., 0.
        F = [lambda x, y: .3 + x - .5 * y, lambda x, y: -.2 + .4 * x + y][:nc]
        for e, t in T.items():
            J = t.J(X, Y)
            dj = (J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0]) * W2
            B = [loc[e] @ (b * S[e][:, None]) for b in t.basis(k, [x, x])]
            en += sum(np.sum(b**2 * dj) for b in B)
            er += sum(np.sum(np.abs(b - g(*t.at(X, Y)))**2 * dj) for b, g in zip(B, F))
        en, er = COMM.allreduce(en), COMM.allreduce(er)
        rec.eq(f.do.compute_Ln_energy(2, quad_degree=qd), en, f'{ID} energy', f'{name}: rule {n}')
        rec.eq(f.do.compute_Ln_norm(2, quad_degree=qd), en**.5, f'{ID} norm', f'{name}: rule {n}')
        cf = fc('scalar', lambda t, x, y: F[0](x, y) + 0 * t) if nc == 1 else fc('vector', [lambda t, x, y: F[0](x, y), lambda t, x, y: F[1](x, y)])
        f.CF = cf
        cf.current_time = 0
        rec.eq(f.error.L(quad_degree=qd), er**.5, f'{ID} error', f'{name}: rule {n}')
    en = COMM.allreduce(sum(loc[e] @ (t.mass(k, p + 2) * S[e][:, None] * S[e][None, :]) @ loc[e] for e, t in T.items()) if T else 0.)
    rec.eq(f.do.compute_L2_energy_with(), en, f'{ID} L2 energy', name)


# ---- boundary values ---------------------------------------------------------------------------------------
def boundary(spec, p, hist):
    """histories of (form, boundaries) assignments; interpreted local dofs and values are those of the last assignment.
    hist = sequence of (kind, boundaries or None, interpret?, drop?)"""
    import gc
    rec = Rec()
    with Scratch() as S:
        fc = call(spec, p, S)
        cells, V, outer = connectivity(fc, spec, rec, f'p={p}')
        nodes = np.asarray(fc.space.nodes, float)
        T = {e: Tri(V[e], p, nodes) for e in fc.mesh.elements}
        Sg = {ID: signs(fc, ID, T, rec, '')[0] for ID in ('1-f-i', '1-f-o')}
        F = [lambda x, y: 1.5 + .5 * x - .7 * y, lambda x, y: -.3 + .9 * x + .25 * y]
        sc = fc('scalar', lambda t, x, y: F[0](x, y) + t)
        ve = fc('vector', [lambda t, x, y: F[0](x, y), lambda t, x, y: F[1](x, y)])
        sc.current_time = ve.current_time = 0
        alive = {}
        for n, (ID, bs, itp, drop) in enumerate(hist):
            if ID not in alive:
                alive[ID] = fc(ID)
                if ID in ('0-f-i', '0-f-o'):
                    alive[ID].BC.CF = sc
                else:
                    alive[ID].BC.CF = ve
            f = alive[ID]
            f.BC.boundaries = bs
            if itp:
                L = f.BC.interpret.local
                k = KIND[ID]
                want = {}
                for b in bs:
                    for e, m in outer[b]:
                        if e in T:
                            want.setdefault(e, []).extend(edge_dofs(T[e], k, m))
                rec.n += 1
                got = {int(e): sorted(set(int(x) for x in L.dofs[e])) for e in L.dofs}
                if got != {e: sorted(set(v)) for e, v in want.items()}:
                    rec.bad.append((f'{ID} boundary dofs', f'step {n} of {hist}: {got} instead of {want}'))
                elif True:
                    for e in got:
                        full = T[e].reduce(F, k) * (Sg[ID][e] if k in ('1i', '1o') else 1.)
                        rec.eq(L.cochains[e], full[[int(x) for x in L.dofs[e]]], f'{ID} boundary values', f'step {n} of {hist}: element {e}')
                del L
            if drop:
                del f, alive[ID]
                gc.collect()
    return rec.out()


def edge_dofs(t, k, m):
    n = t.p
    loc = t.loc(k)
    if k == 0:
        q = {0: [(n, j) for j in range(n + 1)], 1: [(0, j) for j in range(n + 1)], 2: [(i, n) for i in range(n + 1)]}[m]
        return [0 if j == 0 else loc.index((i, j)) for i, j in q]
    q = {0: [('y', n, j) for j in range(n)], 1: [('y', 0, j) for j in range(n)], 2: [('x', i, n) for i in range(n)]}[m]
    return [loc.index(x) for x in q]


# ---- trilinear term -----------------------------------------------------------------------------------------
def cross(spec, p, combos=(('0-f-o', '1-f-o', '1-f-o'), ('0-f-i', '1-f-i', '1-f-i'), ('0-f-o', '1-f-o', '1-f-i'), ('0-f-i', '1-f-i', '1-f-o'))):
    """(w x u, e) for all combinations of orientations, as array and as matrices"""
    rec = Rec()
    with Scratch() as S:
        fc = call(spec, p, S)
        cells, V, outer = connectivity(fc, spec, rec, f'p={p}')
        nodes = np.asarray(fc.space.nodes, float)
        T = {e: Tri(V[e], p, nodes) for e in fc.mesh.elements}
        Sg = {ID: signs(fc, ID, T, rec, '')[0] for ID in ('1-f-i', '1-f-o')}
        for w, u, g in combos:
            f = [fc(x) for x in (w, u, g)]
            for m, h in enumerate(f):
                h.numbering.gathering
                h.cochain.local = {e: np.cos(1. + m + np.arange(len(T[e].loc(KIND[(w, u, g)[m]]))) * (e + 1)) for e in T}
            out = {o: f[0].do.cross_inner(f[1], f[2], output=o) for o in ('MDM', '2-M-0', '2-M-1')}
            n = 2 * p + 2
            x, q = fem.gauss(n)
            X, Y = fem.grid([x, x])
            for e, t in T.items():
                J = t.J(X, Y)
                W = np.outer(q, q).ravel() * (J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0])
                B = [t.basis(KIND[i], [x, x]) for i in (w, u, g)]
                A = -np.einsum('im,jm,km,m->ijk', B[0][0], B[1][1], B[2][0], W) + np.einsum('im,jm,km,m->ijk', B[0][0], B[1][0], B[2][1], W)
                A = A * Sg[u][e][None, :, None] * Sg[g][e][None, None, :]
                rec.eq(np.asarray(out['MDM'][e]), A, f'cross {w} {u} {g}', f'p={p}: element {e}', scale=np.max(np.abs(A)))
                rec.eq(mat(out['2-M-1'], e), np.einsum('ijk,i->kj', A, f[0].cochain.local[e]), f'cross {w} {u} {g}', f'p={p}: 2-M-1 element {e}', scale=np.max(np.abs(A)))
                rec.eq(mat(out['2-M-0'], e), np.einsum('ijk,j->ki', A, f[1].cochain.local[e]), f'cross {w} {u} {g}', f'p={p}: 2-M-0 element {e}', scale=np.max(np.abs(A)))
    return rec.out()


# ---- fields ------------------------------------------------------------------------------------------------
def fields(spec, deg=2):
    rec = Rec()
    mk, ev, dd = polys(deg)
    with Scratch() as S:
        fc = call(spec, 1, S)
        cells, V, outer = connectivity(fc, spec, rec, '')
        E = fc.mesh.elements
        xi, et = np.array([-.7, .2, .9, .1]), np.array([-.5, .45, .8, -.95])
        a, b, c, d = mk(0), mk(1), mk(2), mk(5)
        s, r = field(fc, a, ev), field(fc, d, ev, 2.)
        v, z = field(fc, (b, c), ev), field(fc, (c, d), ev, -1.)
        A, B, C, D = ev(a), ev(b), ev(c), ev(d)

        def g(co, k):
            return ev(dd(co, k))
        tests = {
            'scalar': (lambda: s, lambda t, x, y: [(1 + t) * A(x, y)]),
            'vector': (lambda: v, lambda t, x, y: [(1 + t) * B(x, y), (1 + t) * C(x, y)]),
            'grad': (lambda: s.numerical.grad, lambda t, x, y: [(1 + t) * g(a, 0)(x, y), (1 + t) * g(a, 1)(x, y)]),
            'curl': (lambda: s.numerical.curl, lambda t, x, y: [(1 + t) * g(a, 1)(x, y), -(1 + t) * g(a, 0)(x, y)]),
            'dt': (lambda: s.numerical.time_derivative, lambda t, x, y: [A(x, y)]),
            'vdt': (lambda: z.numerical.time_derivative, lambda t, x, y: [-C(x, y), -D(x, y)]),
            'div': (lambda: v.numerical.div, lambda t, x, y: [(1 + t) * (g(b, 0)(x, y) + g(c, 1)(x, y))]),
            'rot': (lambda: v.numerical.rot, lambda t, x, y: [(1 + t) * (g(c, 0)(x, y) - g(b, 1)(x, y))]),
            'cross': (lambda: s.do.cross_product(z), lambda t, x, y: [-(1 + t) * (1 - t) * A(x, y) * D(x, y), (1 + t) * (1 - t) * A(x, y) * C(x, y)]),
            'inner': (lambda: s.do.inner_product(r), lambda t, x, y: [(1 + t) * (1 + 2 * t) * A(x, y) * D(x, y)]),
            'vinner': (lambda: v.do.inner_product(z), lambda t, x, y: [(1 + t) * (1 - t) * (B(x, y) * C(x, y) + C(x, y) * D(x, y))]),
        }
        for n, (mkf, want) in tests.items():
            F = mkf()
            for t in (0., .7, .3, 0.):
                F.current_time = t
                for how in (None, list(E), [e for e in E][:1]):
                    xy, val = F.reconstruct(xi, et, i=how)
                    for e in (E if how is None else how):
                        T = Tri(V[e], 1, [-1, 1])
                        q = T.at(xi, et)
                        w = want(t, *q)
                        rec.n += 1
                        if len(val[e]) != len(w):
                            rec.bad.append((f'field {n}', f'{len(val[e])} components instead of {len(w)}'))
                            continue
                        for m in range(len(w)):
                            rec.eq(val[e][m], w[m], f'field {n}', f'component {m}, element {e}, t={t}', tol=2e-6, scale=max(1., np.max(np.abs(w[m]))))
                            rec.eq(xy[e][m % 2], q[m % 2], f'field {n}', f'coordinates, element {e}')
            # two-dimensional arrays keep their shape, raveled ones are column-major
            X2, Y2 = np.meshgrid(xi, np.sort(et)[:3], indexing='ij')
            F.current_time = .4
            xy, val = F.reconstruct(X2, Y2)
            x2, v2 = F.reconstruct(X2, Y2, ravel=True)
            for e in E:
                q = Tri(V[e], 1, [-1, 1]).at(X2, Y2)
                w = want(.4, *q)
                for m in range(min(len(w), len(val[e]))):
                    rec.eq(val[e][m], w[m], f'field {n}', f'grid, element {e}', tol=2e-6, scale=max(1., np.max(np.abs(w[m]))))
                    rec.eq(v2[e][m], w[m].ravel('F'), f'field {n}', f'raveled grid, element {e}', tol=2e-6, scale=max(1., np.max(np.abs(w[m]))))
    return rec.out()


# ---- exports -------------------------------------------------------------------------------------------------
def exports(spec, p):
    """data of the exported meshes: points, connections and values against own evaluation"""
    rec = Rec()
    COMM, RANK, SIZE = world()
    with Scratch() as S:
        fc = call(spec, p, S)
        cells, V, outer = connectivity(fc, spec, rec, '')
        F = [lambda x, y: 1.5 + .5 * x - .7 * y, lambda x, y: -.3 + .9 * x + .25 * y]
        sc = fc('scalar', lambda t, x, y: F[0](x, y) + t)
        ve = fc('vector', [lambda t, x, y: F[0](x, y), lambda t, x, y: F[1](x, y)])
        sc.current_time = ve.current_time = 0
        n = len(V)
        for src in ('0-f-o', '0-f-i', '1-f-o', '1-f-i', '2-f-o', 'scalar', 'vector'):
            if src in ('scalar', 'vector'):
                f = sc if src == 'scalar' else ve
            else:
                f = fc(src)
                f.CF = sc if KIND[src] in (0, 2) else ve
                f.discretize()
            for q in (1, 2, 3):
                out = f.export.vtk.triangle_and_quad(p=q, data_only=True)
                if RANK:
                    rec.n += 1
                    continue
                (x, y, z), con, off, typ, data = out
                key = f'export {src}'
                val = list(data.values())[0]
                val = val[:2] if isinstance(val, tuple) else [val]
                # forms are sampled close to, not at, the singular vertex; 1- and 2-forms of degree 1 are not exact for linears
                exact = src == 'scalar' or KIND.get(src) == 0
                P = np.array([x, y]).T
                rec.eq(z, 0., key, 'z')
                rec.n += 1
                if len(set(map(tuple, np.round(P, 7)))) != len(P):
                    rec.bad.append((key, f'degree {q}: equal points'))
                area, start = 0., 0
                tot = {}
                for ci, (en, ty) in enumerate(zip(off, typ)):
                    ids = con[start:en]
                    start = en
                    rec.n += 1
                    if len(ids) != {5: 3, 9: 4}[int(ty)]:
                        rec.bad.append((key, f'degree {q}: cell {ci} of type {ty} has {len(ids)} points'))
                    g = P[ids]
                    ar = .5 * np.sum(g[:, 0] * np.roll(g[:, 1], -1) - np.roll(g[:, 0], -1) * g[:, 1])
                    if not ar > 0:
                        rec.bad.append((key, f'degree {q}: cell {ci} is not counterclockwise'))
                    tot[ci // (q * q)] = tot.get(ci // (q * q), 0) + ar
                if start != len(con) or len(off) != n * q * q:
                    rec.bad.append((key, f'degree {q}: {len(off)} cells, {start} of {len(con)} connections'))
                for e, v in V.items():
                    a = ((v[1] - v[0])[0] * (v[2] - v[0])[1] - (v[1] - v[0])[1] * (v[2] - v[0])[0]) / 2
                    rec.eq(tot.get(e, 0), a, key, f'degree {q}: area of the cells of element {e}', tol=.06 if not exact else 1e-9)
                if exact or p > 2:
                    for m, w in enumerate(val):
                        rec.eq(w, F[m](x, y), key, f'degree {q}: component {m}', tol=1e-9 if exact or KIND.get(src) in ('1o', '1i') else 1e-7, scale=1.)
            if src in ('scalar', 'vector') or not hasattr(f.export.vtk, 'quadratic_triangle'):
                continue
            out = f.export.vtk.quadratic_triangle(data_only=True)
            if RANK:
                continue
            (x, y, z), con, data = out
            con = np.reshape(con, (-1, 6))
            for e, v in V.items():
                P = np.array([x, y]).T[con[e]]
                # corners then the middles of the sides between them
                rec.eq(P[3:], [(P[0] + P[1]) / 2, (P[1] + P[2]) / 2, (P[2] + P[0]) / 2], f'export {src}', f'quadratic cell {e}', tol=.02, scale=1.)
                rec.eq(np.sort(P[:3], 0), np.sort(np.array(v), 0), f'export {src}', f'corners of quadratic cell {e}', tol=.02 if KIND[src] != 0 else 1e-9, scale=1.)
            if KIND[src] == 0:
                rec.eq(list(data.values())[0], F[0](x, y), f'export {src}', 'quadratic: values')
    return rec.out()


# ---- a program: mixed Poisson / Stokes with strong boundary values ---------------------------------------------
def program(spec, p, bs, kind):
    """assembled, constrained and solved by the library; compared with the dense solution of own matrices"""
    rec = Rec()
    COMM, RANK, SIZE = world()
    with Scratch() as S:
        fc = call(spec, p, S)
        from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
        from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
        from tools.elementwiseCache.dataStructures.objects.columnVector.main import EWC_ColumnVector
        from tools.miLinearAlgebra.linearSystem.main import LinearSystem
        cells, V, outer = connectivity(fc, spec, rec, '')
        nodes = np.asarray(fc.space.nodes, float)
        T = {e: Tri(V[e], p, nodes) for e in fc.mesh.elements}
        S1 = signs(fc, '1-f-o', T, rec, '')[0]
        F = [lambda x, y: .5 + .5 * x - .7 * y, lambda x, y: -.3 + .9 * x + .25 * y]
        ve = fc('vector', [lambda t, x, y: F[0](x, y) * (1 + t), lambda t, x, y: F[1](x, y) * (1 + t)])
        w, u, q, b = fc('0-f-o'), fc('1-f-o'), fc('2-f-o'), fc('1-f-o')
        b.CF = ve
        u.BC.CF = ve
        ve.current_time = 1.
        u.BC.boundaries = list(bs)
        b.discretize()
        M0, M1, M2 = w.matrices.mass, u.matrices.mass, q.matrices.mass
        E10, E21 = w.matrices.incidence, u.matrices.incidence
        if kind == 'poisson':
            fs = (u, q)
            A = bmat(([M1, E21.T @ M2], [M2 @ E21, None]))
            r = concatenate([M1 @ b, EWC_ColumnVector(q.mesh.elements, q.num.basis)])
        else:
            fs = (w, u, q)
            A = bmat(([M0, - E10.T @ M1, None], [M1 @ E10, None, -E21.T @ M2], [None, M2 @ E21, None]))
            r = concatenate([EWC_ColumnVector(w.mesh.elements, w.num.basis), M1 @ b, EWC_ColumnVector(q.mesh.elements, q.num.basis)])
        A.gathering_matrices = (list(fs), list(fs))
        r.gathering_matrix = fs
        LS = LinearSystem(A, r)
        iu = fs.index(u)
        LS.customize.apply_strong_BC(iu, iu, u)
        # dense
        ns = [f.num.GLOBAL_dofs for f in fs]
        off = dict(zip((id(f) for f in fs), np.cumsum([0] + ns[:-1])))
        N = sum(ns)
        D, R = np.zeros((N, N)), np.zeros(N)
        idx = {f: {e: [int(x) + off[id(f)] for x in f.numbering.gathering[e].full_vector] for e in T} for f in fs}
        for e, t in T.items():
            m1 = t.mass('1o', p + 3) * S1[e][:, None] * S1[e][None, :]
            m2 = t.mass(2, p + 2)
            e21 = t.incidence('1o') * S1[e][None, :]
            e10 = S1[e][:, None] * t.incidence('0o')
            U, Q = idx[u][e], idx[q][e]
            bb = 2 * S1[e] * t.reduce(F, '1o')
            R[U] += m1 @ bb
            D[np.ix_(Q, U)] += m2 @ e21
            if kind == 'poisson':
                D[np.ix_(U, U)] += m1
                D[np.ix_(U, Q)] += e21.T @ m2
            else:
                Wd = idx[w][e]
                D[np.ix_(Wd, Wd)] += t.mass(0, p + 3)
                D[np.ix_(Wd, U)] -= e10.T @ m1
                D[np.ix_(U, Wd)] += m1 @ e10
                D[np.ix_(U, Q)] -= e21.T @ m2
        D, R = COMM.allreduce(D), COMM.allreduce(R)
        fix = {}
        for bn in bs:
            for e, m in outer[bn]:
                if e in T:
                    full = 2 * S1[e] * T[e].reduce(F, '1o')
                    for x in edge_dofs(T[e], '1o', m):
                        fix[idx[u][e][x]] = full[x]
        fix = gather(fix)
        for d, val in fix.items():
            D[d] = 0.
            D[d, d] = 1.
            R[d] = val
        if np.linalg.matrix_rank(D) < N:            # the property is about the equations, not about solvable ones only
            rec.n += 1
            return rec.out()
        X = np.linalg.solve(D, R)
        LS.solve('direct')()[0].do.distributed_to(*fs)
        for f in fs:
            for e in T:
                rec.eq(f.cochain.local[e], X[idx[f][e]], f'program {kind}', f'{f.__class__.__name__} in element {e}, boundaries {bs}', tol=1e-6,
                       scale=max(1., np.max(np.abs(X))))
        div = u.coboundary()
        for e in T:
            rec.eq(div.cochain.local[e], 0., f'program {kind}', f'divergence in element {e}', tol=1e-8, scale=max(1., np.max(np.abs(X))))
    return rec.out()


def many(specs, ps, what, deg=2):
    """several meshes in one execution"""
    rec = Rec()
    for n, spec in enumerate(specs):
        o = forms(spec, ps, what, deg)
        rec.n += o['states']
        rec.bad += [(k, f'mesh {spec[2] if spec[0] == "cells" else spec[1:3]}: {m}') for k, m in o['bad']]
    return rec.out()


def bhist(spec, p, kinds, bss, depth):
    """all histories of set / interpret / drop operations on the boundary conditions of several forms"""
    rec = Rec()
    with Scratch() as S:
        fc = call(spec, p, S)
        cells, V, outer = connectivity(fc, spec, rec, f'p={p}')
        nodes = np.asarray(fc.space.nodes, float)
        T = {e: Tri(V[e], p, nodes) for e in fc.mesh.elements}
        want = {}
        for K in kinds:
            for b in bss:
                w = {}
                for x in b:
                    for e, m in outer[x]:
                        if e in T:
                            w.setdefault(e, set()).update(int(d) for d in edge_dofs(T[e], KIND[K], m))
                want[K, b] = w
        ops = [('set', K, b) for K in kinds for b in bss] + [(o, K, None) for K in kinds for o in ('get', 'drop')]
        for n in range(2, depth + 1):
            for h in itertools.product(ops, repeat=n):
                if h[0][0] != 'set' or h[-1][0] != 'get':
                    continue
                _hist(fc, h, want, rec)
    return rec.out()


def _hist(fc, h, want, rec):
    live, cur = {}, {}
    for o, K, b in h:
        if o == 'set':
            if K not in live:
                live[K] = fc(K)
            live[K].BC.boundaries = b
            cur[K] = b
        elif o == 'drop':
            live.pop(K, None)
            cur.pop(K, None)
        elif K in cur:
            D = live[K].BC.interpret.local.dofs
            rec.n += 1
            got = {int(e): set(int(x) for x in D[e]) for e in D}
            if got != want[K, cur[K]]:
                rec.bad.append((f'{K} boundary dofs', f'history {h}: {got} instead of {want[K, cur[K]]}'))
            del D, got


def manycross(specs, p):
    rec = Rec()
    for spec in specs:
        o = cross(spec, p)
        rec.n += o['states']
        rec.bad += [(k, f'mesh {spec[2]}: {m}') for k, m in o['bad']]
    return rec.out()
