"""independent finite-element oracle: Lobatto-nodal / edge bases, pull-backs, reductions, from first principles"""
import numpy as np
from mc.scen import labels as lb


def lagrange(nodes, x):
    """values of the Lagrange polynomials of `nodes` at x -> (len(nodes), len(x))"""
    nodes, x = np.asarray(nodes, float), np.asarray(x, float)
    out = np.ones((len(nodes), len(x)))
    for i in range(len(nodes)):
        for j in range(len(nodes)):
            if j != i:
                out[i] *= (x - nodes[j]) / (nodes[i] - nodes[j])
    return out


def dlagrange(nodes, x):
    nodes, x = np.asarray(nodes, float), np.asarray(x, float)
    n = len(nodes)
    out = np.zeros((n, len(x)))
    for i in range(n):
        for m in range(n):
            if m == i:
                continue
            t = np.full(len(x), 1 / (nodes[i] - nodes[m]))
            for j in range(n):
                if j not in (i, m):
                    t = t * (x - nodes[j]) / (nodes[i] - nodes[j])
            out[i] += t
    return out


def edge(nodes, x):
    """edge polynomials: integral over segment j of e_i is delta_ij -> (len(nodes)-1, len(x))"""
    d = dlagrange(nodes, x)
    return -np.cumsum(d, axis=0)[:-1]


def gauss(n):
    return np.polynomial.legendre.leggauss(n)


def grid(axes):
    """points of meshgrid(*axes) in Fortran order"""
    return [g.ravel('F') for g in np.meshgrid(*axes, indexing='ij')]


class Local:
    """one kind of standard form on the reference element"""

    def __init__(self, f, ID, d):
        self.d, self.p = d, list(f.space.p)
        self.nodes = [np.asarray(n, float) for n in f.space.nodes]
        fam = ID.split('-')
        self.k = int(fam[0])
        self.kk = self.k if d == 3 or self.k != 1 else '1' + fam[2]
        self.labels = lb.standard(d, self.kk, self.p, f.numbering.local)
        self.nc = 1 if self.k in (0, d) else d

    def basis(self, axes):
        """list over components of (num dofs, num points): reference-basis at the tensor grid (Fortran order)"""
        d = self.d
        V = [{'n': lagrange(self.nodes[a], axes[a]), 'e': edge(self.nodes[a], axes[a])} for a in range(d)]
        npts = int(np.prod([len(a) for a in axes]))
        out = [np.zeros((len(self.labels), npts)) for _ in range(self.nc)]
        for n, (c, ents) in enumerate(self.labels):
            v = np.ones(1)
            for a in range(d):
                t, i = ents[a]
                v = (V[a][t][i][:, None] * v[None, :]).ravel() if a else V[a][t][i].copy()
            out[c][n] = v
        return out

    def pull(self, J):
        """matrix P (ncomp, ncomp, pts): physical components = P @ reference components;  J (d,d,pts)"""
        d = self.d
        M = np.moveaxis(J, -1, 0)
        if self.k == 0:
            return np.ones((1, 1, J.shape[-1]))
        det = np.linalg.det(M)
        if self.k == d:
            return (1 / det)[None, None, :]
        if self.kk in (1, '1i'):
            return np.moveaxis(np.swapaxes(np.linalg.inv(M), 1, 2), 0, -1)
        return np.moveaxis(M / det[:, None, None], 0, -1)

    def physical(self, axes, J):
        """(ncomp, ndofs, pts) physical components of every basis function"""
        B = np.array(self.basis(axes))
        return np.einsum('abm,bnm->anm', self.pull(J), B)

    def mass(self, element, n, other=None):
        qs = [gauss(m) for m in n]
        axes = [q[0] for q in qs]
        w = np.ones(1)
        for a in range(self.d):
            w = (qs[a][1][:, None] * w[None, :]).ravel() if a else qs[a][1].copy()
        J = Jmat(element, grid(axes), self.d)
        det = np.linalg.det(np.moveaxis(J, -1, 0))
        A = self.physical(axes, J)
        B = A if other is None else other.physical(axes, J)
        return np.einsum('anm,abm,m->nb'.replace('abm', 'abm'), A, B, w * det)

    def reduce(self, element, func, n=14):
        """exact-quadrature degrees of freedom of the physical field `func` (tuple of callables of x,y[,z])"""
        d = self.d
        qx, qw = gauss(n)
        # group labels by component and types: build, per label, quadrature points
        P = [[] for _ in range(d)]
        W = []
        for c, ents in self.labels:
            ax, wt = [], []
            for a in range(d):
                t, i = ents[a]
                if t == 'n':
                    ax.append(np.array([self.nodes[a][i]]))
                    wt.append(np.array([1.]))
                else:
                    lo, hi = self.nodes[a][i], self.nodes[a][i + 1]
                    ax.append((qx + 1) * (hi - lo) / 2 + lo)
                    wt.append(qw * (hi - lo) / 2)
            g = grid(ax)
            w = np.ones(1)
            for a in range(d):
                w = (wt[a][:, None] * w[None, :]).ravel() if a else wt[a].copy()
            for a in range(d):
                P[a].append(g[a])
            W.append(w)
        cuts = np.cumsum([0] + [len(w) for w in W])
        P = [np.concatenate(x) for x in P]
        xyz = element.coordinate_transformation.mapping(*P)
        F = [np.asarray(fn(*xyz)) + 0 * P[0] for fn in func]
        if self.k == 0:
            V = [F[0]]
        else:
            J = Jmat(element, P, d)
            if self.k == d:
                V = [F[0] * np.linalg.det(np.moveaxis(J, -1, 0))]
            elif self.kk in (1, '1i'):
                V = [sum(F[b] * J[b, a] for b in range(d)) for a in range(d)]
            elif d == 3:
                V = [sum(F[b] * np.cross(J[:, (a + 1) % 3], J[:, (a + 2) % 3], axis=0)[b] for b in range(3))
                     for a in range(3)]
            else:
                V = [F[0] * J[1, 1] - F[1] * J[0, 1], -F[0] * J[1, 0] + F[1] * J[0, 0]]
        out = np.empty(len(self.labels))
        for n_, (c, ents) in enumerate(self.labels):
            s = slice(cuts[n_], cuts[n_ + 1])
            out[n_] = np.sum(V[c][s] * W[n_])
        return out

    def incidence(self, nxt):
        """incidence matrix to the next form, from the topology of the reference grid (integers)"""
        d = self.d
        idx = {lab: n for n, lab in enumerate(self.labels)}
        E = np.zeros((len(nxt.labels), len(self.labels)), dtype=int)

        def ends(ents, a):
            i = ents[a][1]
            lo, hi = list(ents), list(ents)
            lo[a], hi[a] = ('n', i), ('n', i + 1)
            return tuple(lo), tuple(hi)
        for r, (c, ents) in enumerate(nxt.labels):
            if d == 3:
                if self.k == 0:
                    terms = [(1, c, 0)]
                elif self.k == 1:
                    a, b = (c + 1) % 3, (c + 2) % 3
                    terms = [(1, a, b), (-1, b, a)]         # (curl)_c = d_a v_b - d_b v_a
                else:
                    terms = [(1, a, a) for a in range(3)]
            elif self.k == 0:
                terms = [(1, c, 0)] if nxt.kk == '1i' else [[(1, 1, 0)], [(-1, 0, 0)]][c]
            elif self.kk == '1i':
                terms = [(1, 0, 1), (-1, 1, 0)]              # d_x v - d_y u
            else:
                terms = [(1, 0, 0), (1, 1, 1)]               # d_x u + d_y v
            for s, a, cc in terms:
                lo, hi = ends(ents, a)
                E[r, idx[cc, hi]] += s
                E[r, idx[cc, lo]] -= s
        return E


def Jmat(element, pts, d):
    J = element.coordinate_transformation.Jacobian_matrix(*pts)
    out = np.zeros((d, d, len(pts[0])))
    for i in range(d):
        for j in range(d):
            out[i, j] = J[i][j]
    return out
