"""C21: trilinear element-wise terms (cross products, curl of a cross product), multi-dimensional element-wise matrices,
nonlinear systems: everything against a dense trilinear integral and a dense Newton iteration built from first principles"""
import itertools
import numpy as np
from mc.scen import common as cm
from mc.scen import fem
from mc.scen.ct import Rec

EPS3 = {(0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1, (0, 2, 1): -1, (2, 1, 0): -1, (1, 0, 2): -1}

# op -> (kinds of self, other, test; method; outputs)
OPS = {
    '122': (('1-f', '2-f', '2-f'), 'cross_product_2f__ip_2f', ('2-M-1', '2-M-0', 'MDM')),
    '111': (('1-f', '1-f', '1-f'), 'cross_product_1f__ip_1f', ('2-M-1', '2-M-0')),
    '222': (('2-f', '2-f', '2-f'), 'cross_product_2f__ip_2f', ('2-M-1', '2-M-0', 'MDM')),
    '221': (('2-f', '2-f', '1-f'), 'cross_product_2f__ip_1f', ('2-M-1', 'MDM')),
    '212': (('2-f', '1-f', '2-f'), 'cross_product_1f__ip_2f', ('2-M-1', '2-M-0', 'MDM')),
    'curl': (('2-f', '2-f', '2-f'), 'inner_curl__cross_product_2f', ('2-M-1', '2-M-0', 'MDM')),
    'o011': (('0-f-o', '1-f-o', '1-f-o'), 'cross_product_1f__ip_1f', ('2-M-1', '2-M-0', 'MDM')),
    'i011': (('0-f-i', '1-f-i', '1-f-i'), 'cross_product_1f__ip_1f', ('2-M-1',)),
    'i211': (('2-f-i', '1-f-i', '1-f-i'), 'cross_product_1f__ip_1f', ('2-M-1',)),
}


def comm():
    from root.config.main import COMM
    return COMM


def quad_axes(d, n):
    q = [fem.gauss(k) for k in n]
    w = np.ones(1)
    for a in range(d):
        w = (q[a][1][:, None] * w[None, :]).ravel() if a else q[a][1].copy()
    return [x[0] for x in q], w


def trilinear(op, L, element, n):
    """dense T[i, j, k] = integral of (w_i x u_j) . e_k over the element (of curl(w_i x u_j) . e_k for 'curl')"""
    d = L[0].d
    axes, w = quad_axes(d, n)
    J = fem.Jmat(element, fem.grid(axes), d)
    W = w * np.linalg.det(np.moveaxis(J, -1, 0))
    A, B, C = [f.physical(axes, J) for f in L]
    if d == 2:
        return -np.einsum('im,jm,km,m->ijk', A[0], B[1], C[0], W, optimize=True) + \
            np.einsum('im,jm,km,m->ijk', A[0], B[0], C[1], W, optimize=True)
    if op != 'curl':
        T = 0
        for (a, b, c), s in EPS3.items():
            T = T + s * np.einsum('im,jm,km,m->ijk', A[a], B[b], C[c], W, optimize=True)
        return T
    # curl of the interpolant of w x u on the Gauss grid (exact: its degree is below the number of points)
    X = np.zeros((3, A.shape[1], B.shape[1], A.shape[2]))
    for (a, b, c), s in EPS3.items():
        X[c] += s * np.einsum('im,jm->ijm', A[a], B[b])
    D = []
    for a in range(3):
        M = [np.eye(len(x)) for x in axes]
        M[a] = fem.dlagrange(axes[a], axes[a]).T            # value of derivative at point from nodal values
        D.append(np.kron(M[2], np.kron(M[1], M[0])))        # Fortran order
    iJ = np.moveaxis(np.linalg.inv(np.moveaxis(J, -1, 0)), 0, -1)      # iJ[a, b] = d xi_a / d x_b
    G = [[sum(iJ[a, b] * (X[c] @ D[a].T) for a in range(3)) for c in range(3)] for b in range(3)]  # G[b][c] = d_b X_c
    curl = [G[1][2] - G[2][1], G[2][0] - G[0][2], G[0][1] - G[1][0]]
    return sum(np.einsum('ijm,km,m->ijk', curl[c], C[c], W, optimize=True) for c in range(3))


def cochain(f, mesh, n, seed):
    """distinct small integers per element and local dof"""
    return {i: np.array([((seed * 31 + i * 17 + k * k * 5 + 3 * k) % 13) - 6. for k in range(n)]) for i in mesh.elements}


def contract(T, known):
    """contract axis a of T with known[a]"""
    for a in sorted(known, reverse=True):
        T = np.tensordot(T, known[a], axes=([a], [0]))
    return T


def dense(M):
    return M.toarray() if hasattr(M, 'toarray') else np.asarray(M)


def forms(op, mesh, ps, hybrid):
    d = mesh.ndim
    out = []
    for kind, p in zip(OPS[op][0], ps):
        out.append(cm.masters(d).FormCaller(mesh, cm.make_space(d, list(p)))(kind, hybrid=hybrid))
    return out


def operator(op, spec, part, ps, qd, hybrid=False, onehot=False):
    mesh = cm.make_mesh(spec, part)
    d = mesh.ndim
    r = Rec()
    kinds, method, outputs = OPS[op]
    F = forms(op, mesh, ps, hybrid)
    L = [fem.Local(f, k, d) for f, k in zip(F, kinds)]
    pm = [max(p[a] for p in ps) for a in range(d)]
    n = [2 * x + 2 for x in pm] if qd is None else [q + 1 for q in qd]
    T = {i: trilinear(op, L, mesh.elements[i], n) for i in mesh.elements}
    nb = [len(x.labels) for x in L]
    val = [cochain(f, mesh, k, 1 + a) for a, (f, k) in enumerate(zip(F, nb))]
    for f, v in zip(F, val):
        f.cochain.local = {i: v[i].copy() for i in v}
    sc = max([float(np.max(np.abs(t))) for t in T.values()], default=1.)
    S = 40 * max(nb) * sc
    kw = {} if qd is None else dict(quad_degree=list(qd))
    call = lambda out, **k: getattr(F[0].special, method)(F[1], F[2], output=out, **kw, **k)
    objs = {out: call(out) for out in outputs}
    if op == '222':
        objs['2-M-0'] = call('2-M-0', cache={'nothing': None})
        if 'MDM' in objs:
            objs['cached'] = call('2-M-0', cache={'3D_matrix': {i: T[i] for i in T}})

    def matrices(v, tag):
        for i in mesh.elements:
            for out, (a, rows, cols) in {'2-M-1': (0, 2, 1), '2-M-0': (1, 2, 0), 'cached': (1, 2, 0)}.items():
                if out in objs:
                    want = contract(T[i], {a: v[a][i]})          # axes (cols, rows) in T order
                    r.eq(dense(objs[out][i]), want.T, 'output', f'{op} {out} element {i} {tag}', scale=S)
    matrices(val, 'first cochain')
    new = [cochain(f, mesh, k, 11 + a) for a, (f, k) in enumerate(zip(F, nb))]
    if 'MDM' in objs:
        mdms(op, mesh, r, objs['MDM'], F, T, val, new, nb, S, sc, onehot, hybrid)
    for f, v in zip(F, new):
        f.cochain.local = {i: v[i].copy() for i in v}
    matrices(new, 'after the cochain changed')
    return r.out()


def mdms(op, mesh, r, M, F, T, val, new, nb, S, sc, onehot, hybrid):
    from root.config.main import COMM
    els = list(mesh.elements.indices)
    [f.numbering.gathering for f in F]                     # collective
    if [id(f) for f in M.correspondence] != [id(f) for f in F]:
        r.bad.append(('correspondence', op))
    if not M.whether.inhomogeneous:
        r.bad.append(('inhomogeneous', f'{op}: three different forms'))
    variants = {'M': (M, 1), '-M': (-M, -1), '2*M': (2 * M, 2), 'M*-0.5': (M * -0.5, -0.5), '-(3*M)': (-(3 * M), -3),
                '0.25*(-M)*4': (0.25 * (-M) * 4, -1)}
    for nm, (m, s) in variants.items():
        if [id(f) for f in m.correspondence] != [id(f) for f in F] or m.ndim != 3 or len(m) != len(els):
            r.bad.append(('correspondence', f'{op} {nm}'))
        for i in els + els[::-1]:
            r.eq(m[i], s * T[i], 'MDM', f'{op} {nm} element {i}', scale=sc)
    sh = [f.shadow for f in F]
    alt = [f.shadow for f in F]
    for f, v in zip(sh, new):
        f.cochain.local = {i: v[i].copy() for i in v}
    for a, f in enumerate(alt):
        f.cochain.local = {i: new[a][i] - 2 * val[a][i] for i in els}
    V3 = [{i: new[a][i] - 2 * val[a][i] for i in els} for a in range(3)]
    who = {'own': (F, val), 'shadow': (sh, new), 'other shadow': (alt, V3)}
    for nm, (m, s) in variants.items() if not onehot else [('M', variants['M'])]:
        # eliminate one, two, three axes
        for wn, (G, X) in who.items():
            for a in range(3):
                m2 = m.do.eliminate(a, G[a])
                rest = [x for x in range(3) if x != a]
                if [id(f) for f in m2.correspondence] != [id(F[x]) for x in rest]:
                    r.bad.append(('eliminate', f'{op} {nm}: correspondence after eliminating axis {a}'))
                for i in els:
                    r.eq(m2[i], s * contract(T[i], {a: X[a][i]}), 'eliminate', f'{op} {nm} axis {a} {wn} {i}', scale=S)
                for tr in (False, True):
                    sp = m2.do.sparse_matrix(transpose=tr)
                    for i in els:
                        w = s * contract(T[i], {a: X[a][i]})
                        r.eq(dense(sp[i]), w.T if tr else w, 'sparse', f'{op} {nm} axis {a} {wn} transpose {tr} {i}', scale=S)
                    gm = sp.gathering_matrices
                    for q, x in zip(gm, rest[::-1] if tr else rest):
                        for i in els:
                            g = np.asarray(F[x].numbering.gathering[i].full_vector)
                            if not np.array_equal(np.asarray(q[i].full_vector if hasattr(q[i], 'full_vector') else q[i]), g):
                                r.bad.append(('sparse', f'{op} axis {a} transpose {tr}: gathering of element {i}'))
                for b in range(2):
                    m1 = m2.do.eliminate(b, G[rest[b]])
                    for i in els:
                        r.eq(m1[i], s * contract(T[i], {a: X[a][i], rest[b]: X[rest[b]][i]}), 'eliminate',
                             f'{op} {nm} axes {a} {rest[b]} {i}', scale=S * 40)
        # evaluate: every choice of two or three known forms, every order, every source
        for k in (2, 3):
            for sub in itertools.permutations(range(3), k):
                for src in (itertools.product(who, repeat=k) if nm == 'M' else [('own', 'shadow', 'other shadow')[:k]]):
                    pairs = [(F[a], who[w][0][a]) for a, w in zip(sub, src)]
                    K = {a: who[w][1][a] for a, w in zip(sub, src)}
                    got = m.do.evaluate(pairs)
                    want = {i: s * contract(T[i], {a: K[a][i] for a in K}) for i in els}
                    if k == 3:
                        tot = sum(COMM.allgather(float(sum(want.values())) if els else 0.))
                        mag = sum(COMM.allgather(float(sum(np.abs(np.asarray(v)) for v in want.values())) if els else 0.))
                        r.eq(got, tot, 'evaluate', f'{op} {nm} all known {sub} {src}', scale=max(mag, S * 1600 * mesh.elements.global_num))
                    else:
                        for i in els:
                            r.eq(dense(got[i])[:, 0], want[i], 'evaluate', f'{op} {nm} {sub} {src} {i}', scale=S * 40)
        # derivatives
        for t, u, o in itertools.permutations(range(3)):
            for wn, (G, X) in who.items():
                known = [(F[o], G[o]), ('unrelated', None)] if t < u else [(F[o], G[o])]
                D = m.do.derivative_contribution_to(F[t], (F[u], G[u]), *known)
                for i in els:
                    w = s * contract(T[i], {o: X[o][i]})        # axes in order of the remaining (sorted) slots
                    w = w if t < u else w.T
                    r.eq(dense(D[i]), w, 'derivative', f'{op} {nm} test {t} unknown {u} {wn} {i}', scale=S)
        other = cm.masters(mesh.ndim).FormCaller(mesh, F[0].space)(OPS[op][0][0], hybrid=hybrid)
        if m.do.derivative_contribution_to(F[2], (other, other), (F[0], F[0]), (F[1], F[1])) is not None:
            r.bad.append(('derivative', f'{op}: derivative to a form that does not occur is not None'))
        # vectors that follow the cochains in real time
        for a in range(3):
            vec = m.do.reduce_to_vector(F[a])
            rest = [x for x in range(3) if x != a]
            for X in (val, new, val):
                for x in rest:
                    F[x].cochain.local = {i: X[x][i].copy() for i in els}
                for i in els:
                    r.eq(dense(vec[i])[:, 0], s * contract(T[i], {x: X[x][i] for x in rest}), 'reduce',
                         f'{op} {nm} to slot {a} element {i}', scale=S * 40)
    if onehot:
        # every triple of basis cochains
        for ijk in itertools.product(*[range(n) for n in nb]):
            for a in range(3):
                sh[a].cochain.local = {i: np.eye(nb[a])[ijk[a]] for i in els}
            got = M.do.evaluate([(F[a], sh[a]) for a in (1, 2, 0)])
            tot = sum(comm().allgather(float(sum(T[i][ijk] for i in els))))
            r.eq(got, tot, 'evaluate', f'{op} basis triple {ijk}', scale=sc * mesh.elements.global_num)


# ---- the same form in two slots, histories of operators -------------------------------------------------------------
def repeated(op, spec, part, ps):
    """(w x w, e): the same form in the first two slots (only where both have the same kind)"""
    mesh = cm.make_mesh(spec, part)
    d = mesh.ndim
    r = Rec()
    kinds, method, outputs = OPS[op]
    w, e = forms(op, mesh, ps, False)[0::2]
    u = w
    L = [fem.Local(w, kinds[0], d), fem.Local(w, kinds[1], d), fem.Local(e, kinds[2], d)]
    T = {i: trilinear(op, L, mesh.elements[i], [2 * max(p[a] for p in ps) + 2 for a in range(d)]) for i in mesh.elements}
    v = cochain(w, mesh, len(L[0].labels), 3)
    w.cochain.local = v
    M = getattr(w.special, method)(u, e, output='MDM')
    if M.whether.inhomogeneous:
        r.bad.append(('inhomogeneous', f'{op}: a repeated form is called inhomogeneous'))
    vec = M.do.reduce_to_vector(e)
    for seed in (3, 5):
        v = cochain(w, mesh, len(L[0].labels), seed)
        w.cochain.local = v
        for i in mesh.elements:
            r.eq(dense(vec[i])[:, 0], contract(T[i], {0: v[i], 1: v[i]}), 'reduce', f'{op} (w x w, e) element {i}',
                 scale=40 * 40 * 40 * float(np.max(np.abs(T[i])) + 1e-300))
    return r.out()


def curl_self(spec, part, ps, qd):
    """< curl(u) x u, e >"""
    mesh = cm.make_mesh(spec, part)
    r = Rec()
    FC = [cm.masters(3).FormCaller(mesh, cm.make_space(3, list(p))) for p in ps]
    u, e, w = FC[0]('1-f', hybrid=False), FC[1]('2-f', hybrid=False), FC[0]('2-f', hybrid=False)
    Lu, Le, Lw = fem.Local(u, '1-f', 3), fem.Local(e, '2-f', 3), fem.Local(w, '2-f', 3)
    E = Lu.incidence(Lw)
    kw = {} if qd is None else dict(quad_degree=list(qd))
    n = [2 * max(p[a] for p in ps) + 3 for a in range(3)] if qd is None else [q + 1 for q in qd]
    vec = u.special.curl_self_cross_product_self__ip_2f(e, **kw)
    T = {i: trilinear('122', [Lw, Lu, Le], mesh.elements[i], n) for i in mesh.elements}
    for seed in (1, 2):
        v = cochain(u, mesh, len(Lu.labels), seed)
        u.cochain.local = v
        for i in mesh.elements:
            x = E @ v[i]
            r.eq(dense(vec[i])[:, 0], contract(T[i], {0: x, 1: v[i]}), 'curl-self', f'element {i}',
                 scale=float(np.max(np.abs(T[i]))) * np.sum(np.abs(x)) * np.sum(np.abs(v[i])) + 1e-300)
    return r.out()


def lifetimes(op, specs, seq, keep):
    """create, evaluate and drop worlds one after another: no operator may remember one that is gone"""
    import gc
    r = Rec()
    kinds, method, outputs = OPS[op]
    kept = []
    for step, k in enumerate(seq):
        spec, ps = specs[k]
        mesh = cm.make_mesh(spec)
        d = mesh.ndim
        F = forms(op, mesh, ps, False)
        L = [fem.Local(f, kd, d) for f, kd in zip(F, kinds)]
        n = [2 * max(p[a] for p in ps) + 2 for a in range(d)]
        for rep in range(2):
            for out in outputs:
                nb = [len(x.labels) for x in L]
                val = [cochain(f, mesh, q, a + step + rep) for a, (f, q) in enumerate(zip(F, nb))]
                for f, v in zip(F, val):
                    f.cochain.local = v
                M = getattr(F[0].special, method)(F[1], F[2], output=out)
                for i in list(mesh.elements.indices)[:2]:
                    T = trilinear(op, L, mesh.elements[i], n)
                    if out != 'MDM':
                        a = 0 if out == '2-M-1' else 1
                        T = contract(T, {a: val[a][i]}).T
                    try:
                        r.eq(dense(M[i]), T, 'lifetime', f'{op} {out} step {step} of {seq}, element {i}',
                             scale=1e-300 + float(np.max(np.abs(T))))
                    except Exception as x:
                        r.bad.append(('lifetime', f'{op} {out} step {step} of {seq}: {x!r}'))
                del M
            if keep:
                F2 = forms(op, mesh, ps, False)         # other forms of the same mesh, old ones dropped
                F = F2
                L = [fem.Local(f, kd, d) for f, kd in zip(F, kinds)]
                gc.collect()
        del mesh, F, L, f
        if keep:
            del F2
        gc.collect()
    return r.out()


# ---- nonlinear systems --------------------------------------------------------------------------------------------------
class Dense:
    """the nonlinear system assembled densely on every rank from the element-wise oracles of all ranks"""

    def __init__(self, mesh, tests, unknowns):
        self.mesh, self.tests, self.unknowns = mesh, tests, unknowns
        self.C = comm()
        self.G = {}
        for f in list(tests) + list(unknowns):
            gm = f.numbering.gathering                       # collective: touched by every rank
            loc = {i: [int(x) for x in gm[i].full_vector] for i in mesh.elements}
            self.G[id(f)] = self._all(loc)
        self.off_t = np.cumsum([0] + [1 + max(max(v) for v in self.G[id(f)].values()) for f in tests])
        self.off_u = np.cumsum([0] + [1 + max(max(v) for v in self.G[id(f)].values()) for f in unknowns])
        self.A = np.zeros((self.off_t[-1], self.off_u[-1]))
        self.b = np.zeros(self.off_t[-1])
        self.T = []
        self.fixed = []

    def _all(self, loc):
        out = {}
        for q in self.C.allgather(loc):
            out.update(q)
        return out

    def linear(self, i, j, local):
        for e, M in self._all(local).items():
            self.A[np.ix_(self.rows(i, e), self.cols(j, e))] += M

    def rows(self, i, e):
        return [self.off_t[i] + x for x in self.G[id(self.tests[i])][e]]

    def cols(self, j, e):
        return [self.off_u[j] + x for x in self.G[id(self.unknowns[j])][e]]

    def rhs(self, i, local):
        for e, v in self._all(local).items():
            np.add.at(self.b, self.rows(i, e), v)

    def term(self, i, j, k, local, slots):
        """slots: (slot of test, slot of unknown j, slot of unknown k) in the axes of the local arrays"""
        self.T.append((i, j, k, {e: np.moveaxis(t, slots, (0, 1, 2)) for e, t in self._all(local).items()}))

    def F(self, x):
        f = self.A @ x - self.b
        for i, j, k, T in self.T:
            for e, t in T.items():
                np.add.at(f, self.rows(i, e), np.einsum('abc,b,c->a', t, x[self.cols(j, e)], x[self.cols(k, e)]))
        return f

    def J(self, x):
        J = self.A.copy()
        for i, j, k, T in self.T:
            for e, t in T.items():
                r, cj, ck = self.rows(i, e), self.cols(j, e), self.cols(k, e)
                J[np.ix_(r, cj)] += np.einsum('abc,c->ab', t, x[ck])
                J[np.ix_(r, ck)] += np.einsum('abc,b->ac', t, x[cj])
        return J

    def newton(self, x, n):
        """iterates and norms of the corrections"""
        X, B = [x.copy()], []
        for _ in range(n):
            f, J = -self.F(x), self.J(x)
            for d in self.fixed:
                J[d] = 0
                J[d, d] = 1
                f[d] = 0
            dx = np.linalg.solve(J, f)
            x = x + dx
            X.append(x.copy())
            B.append(float(np.linalg.norm(dx)))
        return X, B


def build(world, mesh, ps):
    """-> (unknowns, tests, A, nonlinear, b, Dense).  Every world is a small coupled system"""
    d = mesh.ndim
    FC = [cm.masters(d).FormCaller(mesh, cm.make_space(d, list(p))) for p in ps]
    els = list(mesh.elements.indices)
    kinds = {'ns2': ['1-f-o', '0-f-o', '2-f-o'], 'uw2': ['1-f-o', '0-f-o'], 'uw2n': ['1-f-o', '0-f-o'],
             'uw3': ['2-f', '1-f'], 'wu3': ['2-f', '1-f'], 'mhd3': ['2-f', '1-f', '2-f'], 'lin2': ['1-f-o', '0-f-o']}[world]
    U = [FC[a % len(FC)](k, hybrid=False) for a, k in enumerate(kinds)]
    V = [FC[a % len(FC)](k, hybrid=False) for a, k in enumerate(kinds)]
    L = [fem.Local(f, k, d) for f, k in zip(U, kinds)]
    n = [2 * max(p[a] for p in ps) + 4 for a in range(d)]
    D = Dense(mesh, V, U)
    mass = [{i: l.mass(mesh.elements[i], n) for i in els} for l in L]
    N = len(U)
    A = [[None] * N for _ in range(N)]
    b = [None] * N
    B = [None] * N

    def tri(op, s):
        return {i: trilinear(op, s, mesh.elements[i], n) for i in els}

    def scaled(t, s):
        return {i: s * t[i] for i in t}
    size = 0.05 if d == 2 else 0.001
    loads = [{i: np.array([size * (((k * 7 + i * 3 + a) % 5) - 2) for k in range(len(L[a].labels))]) for i in els} for a in range(N)]
    from tools.elementwiseCache.dataStructures.objects.columnVector.main import EWC_ColumnVector

    def load(a):
        D.rhs(a, loads[a])
        from scipy.sparse import csc_matrix
        return EWC_ColumnVector(mesh.elements, lambda i: csc_matrix(loads[a][i][:, None]), 'no_cache')
    M = [u.matrices.mass for u in U]
    if world in ('ns2', 'uw2', 'uw2n', 'lin2'):
        u, w = U[0], U[1]
        T = tri('o011', [L[1], L[0], L[0]])
        E10 = L[1].incidence(L[0])
        A[0][0] = 4 * M[0]
        D.linear(0, 0, scaled(mass[0], 4))
        A[1][0] = w.matrices.incidence.T @ M[0]
        D.linear(1, 0, {i: E10.T @ mass[0][i] for i in els})
        A[1][1] = -M[1]
        D.linear(1, 1, scaled(mass[1], -1))
        b[0] = load(0)
        if world != 'lin2':
            MD = w.special.cross_product_1f__ip_1f(u, V[0], output='MDM')
        if world == 'ns2':
            E21 = L[0].incidence(L[2])
            A[0][2] = -(u.matrices.incidence.T @ M[2])
            D.linear(0, 2, {i: -E21.T @ mass[2][i] for i in els})
            A[2][0] = u.matrices.incidence
            D.linear(2, 0, {i: E21 for i in els})
            B[0] = 0.25 * MD
            D.term(0, 0, 1, scaled(T, 0.25), (2, 1, 0))
        elif world == 'uw2':
            B[0] = MD
            D.term(0, 0, 1, T, (2, 1, 0))
            b[1] = load(1)
        elif world == 'uw2n':
            MD2 = w.special.cross_product_1f__ip_1f(u, V[0], output='MDM')
            B[0] = [MD, -MD2, 2 * MD2]
            D.term(0, 0, 1, scaled(T, 2), (2, 1, 0))
            b[1] = load(1)
        else:
            b[1] = load(1)
    elif world in ('uw3', 'wu3'):
        u, w = U
        A[0][0], A[1][1] = M[0], M[1]
        D.linear(0, 0, mass[0])
        D.linear(1, 1, mass[1])
        E = L[1].incidence(L[0])
        A[1][0] = -(w.matrices.incidence.T @ M[0])
        D.linear(1, 0, {i: -E.T @ mass[0][i] for i in els})
        b = [load(0), load(1)]
        if world == 'uw3':
            B[0] = w.special.cross_product_2f__ip_2f(u, V[0], output='MDM')
            D.term(0, 0, 1, tri('122', [L[1], L[0], L[0]]), (2, 1, 0))
        else:
            B[0] = [u.special.cross_product_1f__ip_2f(w, V[0], output='MDM') * 3]
            D.term(0, 0, 1, scaled(tri('212', [L[0], L[1], L[0]]), 3), (2, 0, 1))
    elif world == 'mhd3':
        u, w, H = U
        for a in range(3):
            A[a][a] = M[a]
            D.linear(a, a, mass[a])
            b[a] = load(a)
        B[0] = [w.special.cross_product_2f__ip_2f(u, V[0], output='MDM'),
                -u.special.cross_product_2f__ip_2f(H, V[0], output='MDM')]
        D.term(0, 0, 1, tri('122', [L[1], L[0], L[0]]), (2, 1, 0))
        D.term(0, 0, 2, scaled(tri('222', [L[0], L[2], L[0]]), -1), (2, 0, 1))
        B[1] = u.special.cross_product_2f__ip_1f(H, V[1], output='MDM')
        D.term(1, 0, 2, tri('221', [L[0], L[2], L[1]]), (2, 0, 1))
        B[2] = 0.5 * u.special.inner_curl__cross_product_2f(H, V[2], output='MDM')
        D.term(2, 0, 2, scaled(tri('curl', [L[0], L[2], L[2]]), 0.5), (2, 0, 1))
    return U, V, A, B, b, D


def start(D, kind):
    n = D.off_u[-1]
    if kind == 'zero':
        return np.zeros(n)
    return np.array([0.01 * (((3 * k + k * k) % 7) - 3) for k in range(n)])


def newton(world, spec, part, ps, x0s, custom, chain, given):
    from root.config.main import COMM
    from tools.miLinearAlgebra.nonlinearSystem.main import NonLinearSystem
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector
    mesh = cm.make_mesh(spec, part)
    r = Rec()
    U, V, A, B, b, D = build(world, mesh, ps)
    if given == 'tuples':
        A, B, b = tuple(tuple(x) for x in A), tuple(B), tuple(b)
    elif given == 'zeros':
        A = [[0 if x is None else x for x in q] for q in A]
        B = [0 if x is None else x for x in B]
        b = [0 if x is None else x for x in b]
    nLS = NonLinearSystem(V, A, B, U, b)
    N = D.off_u[-1]
    r.eq([nLS.num.equations, nLS.num.dofs], [D.off_t[-1], N], 'num', world)
    if chain != 'silly':
        nLS.chain_method = chain
    els = list(mesh.elements.indices)
    values = {}
    if custom == 'no':
        pass
    elif custom[0] == 'dof':
        for q in custom[1]:
            nLS.customize.set_no_evaluation(q)
            D.fixed.append(q % N)
    elif custom[0] == 'value':
        for q, v in custom[1]:
            nLS.customize.set_fixed_solution(q, v)
            D.fixed.append(q % N)
            values[q % N] = v
    elif custom[0] == 'strong':
        blk, bns = custom[1:]
        f = U[blk]
        f.BC.boundaries = list(bns)
        mesh.elements.map
        nLS.customize.apply_strong_BC(blk, blk, f)
        mine = set()
        for e in els:
            for s in range(2 * mesh.ndim):
                where = mesh.elements.map[e][s]
                if isinstance(where, str) and where in bns:
                    for k in f.numbering.do.find.local_dofs_on_element_side('NSWEBF'[s]) if mesh.ndim == 3 else \
                            f.numbering.do.find.local_dofs_on_element_edge('UDLR'[s]):
                        mine.add(D.cols(blk, e)[int(k)])
        for q in COMM.allgather(mine):
            mine |= q
        D.fixed += sorted(mine)
        if not mine:
            r.bad.append(('vacuous', 'no boundary dof'))

    def as_forms(x):
        """distribute a global (silly) vector to the unknowns"""
        for j, f in enumerate(U):
            f.cochain.local = {e: x[D.cols(j, e)] for e in els}

    def x0(kind):
        v = start(D, kind)
        as_forms(v)
        if chain == 'silly' and kind != 'zero':
            return LocallyFullVector(v.copy()), v
        if kind == 'zero':
            return 0, v
        return LocallyFullVector(tuple(U), chain_method=chain), v
    count = 0
    for kind in x0s:
        v = start(D, kind)
        for q, val in values.items():
            v[q] = val
        X, BT = D.newton(v, 12)
        for maxiter in ('1', '2', '3', 1, 2, 12):
            given_x0, _ = x0(kind)
            atol = 1e-9
            res = nLS.solve(given_x0, atol=atol, maxiter=maxiter, LS_solver_para='direct')
            n = int(maxiter)
            if isinstance(maxiter, int):
                n = next((k + 1 for k, q in enumerate(BT) if q < atol), 99)
                n = min(n, maxiter)
            tag = f'{world} from {kind}, maxiter {maxiter!r}, {custom} {chain} {given}'
            out, info, beta, it, msg = res
            if info != -1 and (BT[min(n, 12) - 1] > 1e-10 or maxiter != 12):
                # near the tolerance the last correction is rounding noise
                r.eq(it, n, 'iterations', tag, scale=1.)
            r.eq(beta, BT[it - 1], 'beta', tag, tol=1e-6, scale=max(BT[it - 1], 1e-3 * max(BT)))
            if isinstance(maxiter, int):
                want = 0 if beta < atol else it
                if info == -1:
                    if not (it > 1 and BT[it - 1] > BT[it - 2]):
                        r.bad.append(('info', f'{tag}: divergence reported while the correction decreased'))
                elif info != want:
                    r.bad.append(('info', f'{tag}: info {info} after {it} iterations with beta {beta}'))
            out.do.distributed_to(*U, chain_method=chain) if chain != 'silly' else out.do.distributed_to(*U)
            xs = X[it]
            sc = max(1., float(np.max(np.abs(xs))))
            for j, f in enumerate(U):
                for e in els:
                    r.eq(f.cochain.local[e], xs[D.cols(j, e)], 'iterate', f'{tag}: unknown {j} element {e}', tol=1e-6, scale=sc)
            full = np.zeros(N)
            for q in COMM.allgather({(j, e): np.asarray(f.cochain.local[e]) for j, f in enumerate(U) for e in els}):
                for (j, e), w in q.items():
                    full[D.cols(j, e)] = w
            for q in D.fixed:
                r.eq(full[q], v[q], 'fixed', f'{tag}: imposed dof {q}', scale=1., tol=1e-10)
            if info == 0 and isinstance(maxiter, int):
                F = D.F(full)
                F[D.fixed] = 0
                count += 1
                r.eq(F, np.zeros(N), 'root', tag, scale=1., tol=1e-8)
    if not count and world != 'none':
        r.bad.append(('vacuous', f'{world} {custom}: no run converged: {BT}'))
    return r.out(converged=count)


def residual(world, spec, part, ps):
    """the residual vectors of the system for several states, without solving"""
    from tools.miLinearAlgebra.nonlinearSystem.main import NonLinearSystem
    mesh = cm.make_mesh(spec, part)
    r = Rec()
    U, V, A, B, b, D = build(world, mesh, ps)
    nLS = NonLinearSystem(V, A, B, U, b)
    sh = [u.shadow for u in U]
    els = list(mesh.elements.indices)
    from root.config.main import COMM
    for kind in ('zero', 'some'):
        x = start(D, kind)
        for neg in (False, True):
            for S in (sh, U):
                for j, f in enumerate(S):
                    f.cochain.local = {e: x[D.cols(j, e)] for e in els}
                f = nLS.do.evaluate_f(S, neg=neg)
                F = np.zeros(len(D.b))
                for i in range(len(V)):
                    for q in COMM.allgather({e: dense(f[i][e])[:, 0] for e in els}):
                        for e, w in q.items():
                            np.add.at(F, D.rows(i, e), w)
                r.eq(F, (-1 if neg else 1) * D.F(x), 'residual', f'{world} {kind} neg={neg}', scale=1.)
    return r.out()


def stopping():
    """the stopping rule over a grid of histories of corrections: success is reported exactly below the tolerance"""
    from tools.miLinearAlgebra.nonlinearSystem.solve.NewtonRaphson.helpers.stop_criterion import nLS_stop_criterion
    r = Rec()
    vals = [0., 1e-12, 1e-5, 0.5, 1., 2., 9., 30., 1e6, 2e7, 1e9]
    for n in (1, 2, 3):
        for beta in itertools.product(vals, repeat=n):
            for atol in (1e-6, 1e-4, 1):
                for it in (n, n + 4):
                    for mx in (1, 2, 3, 7, 50, '1', '3', '7'):
                        r.n += 1
                        J, stop, info, why = nLS_stop_criterion(list(beta), atol, it, mx)
                        low, end = beta[-1] < atol, it >= int(mx)
                        if isinstance(mx, str):
                            ok = stop == end and (info != 0 or low)
                        elif low:
                            ok = stop and info == 0
                        elif end:
                            ok = stop and info not in (0, None)
                        else:
                            ok = (not stop) or (info == -1 and n > 1 and beta[-1] > beta[-2])
                        if stop and info is None or (stop and not (info == 0 or info == -1 or info == it)):
                            ok = False
                        if not ok:
                            r.bad.append(('stopping', f'{beta} atol {atol} iteration {it} maxiter {mx!r}: {J, stop, info, why}'))
    return r.out()


def reborn(op, spec, ps, p2, slot, rounds=14):
    """one of the three forms dies and another form (of another degree) is born, if possible at the very same address"""
    import gc
    mesh = cm.make_mesh(spec)
    d = mesh.ndim
    r = Rec()
    kinds, method, outputs = OPS[op]
    FC = cm.masters(d).FormCaller(mesh, cm.make_space(d, list(p2)))
    n = [2 * max(p[a] for p in list(ps) + [p2]) + 2 for a in range(d)]
    hits, want = 0, {}
    for _ in range(rounds):
        F = forms(op, mesh, ps, False)
        getattr(F[0].special, method)(F[1], F[2], output='MDM')[list(mesh.elements.indices)[0]]
        old = id(F[slot])
        F[slot] = f = None
        gc.collect()
        for _ in range(8):
            f = None
            gc.collect()
            f = FC(kinds[slot], hybrid=False)
            if id(f) == old:
                break
        hits += id(f) == old
        F[slot] = f
        L = [fem.Local(x, k, d) for x, k in zip(F, kinds)]
        M = getattr(F[0].special, method)(F[1], F[2], output='MDM')
        for i in mesh.elements:
            if i not in want:
                want[i] = trilinear(op, L, mesh.elements[i], n)
            try:
                r.eq(M[i], want[i], 'reborn', f'{op} slot {slot} element {i}', scale=float(np.max(np.abs(want[i]))))
            except Exception as x:
                r.bad.append(('reborn', f'{op} slot {slot} element {i}: {x!r}'))
        del M, F, f, L
    return r.out(reborn=hits)
