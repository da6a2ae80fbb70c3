"""C18: trace / selective matrices, algebraic dual forms, hybrid pairings (3D), trace matrices (2D)"""
import numpy as np
from mc.scen import labels as lb
from mc.scen.bc import Oracle
from mc.scen.common import center
from mc.scen.ct import Rec
from mc.scen.fem import Local, Jmat, gauss, lagrange, edge
from mc.scen.std import dense, cochain, setup, spec_is_box, put, arity

SIDES = {3: 'NSWEBF', 2: 'UDLR'}


def seed_of(mesh, i):
    return sum(int(abs(x) * 1000) * (j + 1) for j, x in enumerate(center(mesh, i))) % 97


# ---------------------------------------------------------------------------------------------- structure of the matrices
def incid(rows, cols, strip, signed):
    """expected 0/+-1 matrix: row label (c, ents, side) picks the column with the label strip(row label)"""
    ix = {lab: n for n, lab in enumerate(cols)}
    M = np.zeros((len(rows), len(cols)))
    for n, lab in enumerate(rows):
        s = -1. if signed and lab[2] in 'NWBUL' else 1.
        M[n, ix[strip(lab)]] = s
    return M


def same(r, got, want, key, msg):
    got = dense(got)
    r.n += 1
    if got.shape != want.shape:
        r.bad.append((key, f'{msg}: shape {got.shape} instead of {want.shape}'))
    elif np.any(got != want):
        w = np.argwhere(got != want)
        r.bad.append((key, f'{msg}: {len(w)} wrong entries, first {tuple(w[0])}: {got[tuple(w[0])]} instead of {want[tuple(w[0])]}'))


def structure(spec, part, p):
    mesh, d, space, F = setup(spec, part, p)
    r = Rec()
    sides = SIDES[d]
    if d == 2:
        for o in 'o':
            t = F('1-t-o', hybrid=True)
            f = F('1-f-o', hybrid=True)
            L = lb.form_labels(f, '1-f-o', True)[0]
            Lt = lb.form_labels(t, '1-t-o', True)[0]
            comp = {ents: c for c, ents in L}
            W = incid(Lt, L, lambda x: (comp[x[1]], x[1]), True)
            for T, nm in ((t.matrices.trace, 'matrices.trace'), (t.coboundary.trace_matrix, 'coboundary.trace_matrix')):
                for i in mesh.elements:
                    same(r, T[i], W, 'trace-matrix', f'2D {nm} p={p} element {i}')
        return r.out()
    for k in range(3):
        f = F(f'{k}-f', hybrid=True)
        L = lb.form_labels(f, f'{k}-f', True)[0]
        comp = {ents: c for c, ents in L}
        strip = lambda x: (comp[x[1]], x[1])
        for hyb in (True, False):
            if not hyb and k < 2:
                continue
            t = F(f'{k}-t', hybrid=hyb)
            if hyb:
                Lt = lb.form_labels(t, f'{k}-t', True)[0]
            else:
                Lt0 = lb.form_labels(t, f'{k}-t', False)[0]
                Lt = [lab + ([s for s in sides if lab[1][lb.AX[s]] ==
                              ('n', list(space.p)[lb.AX[s]] if s in lb.HI else 0)][0],) for lab in Lt0]
            W = incid(Lt, L, strip, True)
            S = np.abs(W)
            for i in mesh.elements:
                same(r, t.matrices.trace[i], W, 'trace-matrix', f'{k}-t hybrid={hyb} p={p} element {i}')
                same(r, t.matrices.selective[i], S, 'selective-matrix', f'{k}-t hybrid={hyb} p={p} element {i}')
            if hyb:
                a = F(f'{k}-adt')
                for i in mesh.elements:
                    same(r, a.matrices.trace[i], W, 'trace-matrix', f'{k}-adt p={p} element {i}')
                    same(r, a.coboundary.trace_matrix[i], W, 'trace-matrix', f'{k}-adt coboundary p={p} element {i}')
        if k < 2:
            e = F(f'{k}-e')
            Le = lb.form_labels(e, f'{k}-e', True)[0]
            W = incid(Le, L, strip, False)
            for i in mesh.elements:
                same(r, e.matrices.selective[i], W, 'selective-matrix', f'{k}-e p={p} element {i}')
                same(r, e.matrices.complement[i], np.zeros((len(Lt) if k == 2 else a.num.basis, len(Le))),
                     'complement-matrix', f'{k}-e p={p} element {i}')
    return r.out()


# ----------------------------------------------------------------------------------- the trace of the cochain of a field
def smooth(d, k, per=False):
    s, c = np.sin, np.cos
    if per:
        q = 2 * np.pi
        v = [lambda t, x, y, z: s(q * y) * c(q * z) + t + .3 * s(q * x), lambda t, x, y, z: c(q * z) + .2 * s(q * x) - t,
             lambda t, x, y, z: s(q * (x + y)) + .4 * c(q * z) - t]
        return v if k in (1, 2) else v[:1]
    if d == 3:
        v = [lambda t, x, y, z: s(y) * z + t * x * y + .3, lambda t, x, y, z: c(z) + x ** 2 - t * z * x,
             lambda t, x, y, z: s(x + y) + 2 * z * y - t]
        return v if k in (1, 2) else v[:1]
    v = [lambda t, x, y: s(y) * x + t * y + .2, lambda t, x, y: c(x) * y + x ** 2 - t]
    return v


def commute(spec, part, p, tol, per=False):
    """S (cochain of the form of a field) == cochain of the trace form of the same field; both against own reductions"""
    mesh, d, space, F = setup(spec, part, p)
    r = Rec()
    for tm in (0., .7):
        if True:                          # (2D trace forms do not discretize)
            kinds = [(f'{k}-f', f'{k}-t', 'selective') for k in range(3)] + [('0-f', '0-e', 'selective')]
        for fID, tID, nm in kinds:
            f = F(fID, hybrid=True)
            t = lb.make_form(F, tID, True)
            k = int(fID[0])
            fs = smooth(d, k, per)
            qd = dict(quad_degree=[int(x) + 6 for x in space.p]) if k else {}
            put(F, f, fs, tm)
            try:
                f.discretize(**qd)
                f_c = {i: f.cochain.local[i] for i in mesh.elements}
            except TypeError:
                f.discretize()
                f_c = {i: f.cochain.local[i] for i in mesh.elements}
            L = Local(f, fID, d)
            put(F, t, fs, tm)
            try:
                t.discretize(**qd)
            except TypeError:
                t.discretize()
            M = getattr(t.matrices, nm)
            sel = np.abs(dense(M[next(iter(mesh.elements))])) if len(mesh.elements) else None
            for i in mesh.elements:
                own = L.reduce(mesh.elements[i], [lambda *x, g=g: g(tm, *x) for g in fs], 12)
                sc = np.max(np.abs(own)) + 1e-9
                r.eq(sel @ f_c[i], t.cochain.local[i], 'commute', f'{tID} p={p} t={tm} element {i}: trace of the cochain', tol, sc)
                r.eq(t.cochain.local[i], sel @ own, 'trace-reduction', f'{tID} p={p} t={tm} element {i}', tol, sc)
    return r.out()


# -------------------------------------------------------------------------------------------------------------- dual forms
def side_mass(mesh, i, s, k, labs, p, nodes, nq):
    """mass matrix of the trace dofs on side s of element i, by own quadrature on that side"""
    ax = lb.AX[s]
    fr = [a for a in range(3) if a != ax]
    q = [gauss(n) for n in nq]
    A, B = np.meshgrid(q[fr[0]][0], q[fr[1]][0], indexing='ij')
    w = np.outer(q[fr[0]][1], q[fr[1]][1]).ravel()
    P = [None] * 3
    P[fr[0]], P[fr[1]], P[ax] = A.ravel(), B.ravel(), np.full(A.size, 1. if s in lb.HI else -1.)
    J = Jmat(mesh.elements[i], P, 3)
    T = [J[:, fr[0]], J[:, fr[1]]]
    G = np.array([[np.sum(a * b, axis=0) for b in T] for a in T])       # 2, 2, pts
    g = G[0, 0] * G[1, 1] - G[0, 1] ** 2
    ev = {'n': [lagrange(nodes[a], P[a]) for a in range(3)], 'e': [edge(nodes[a], P[a]) for a in range(3)]}
    V = np.zeros((len(labs), 2, len(w)))
    for n, (c, ents, _) in enumerate(labs):
        v = np.ones(len(w))
        for a in fr:
            v = v * ev[ents[a][0]][a][ents[a][1]]
        V[n, fr.index(c) if k == 1 else 0] = v
    sg = np.sqrt(g)
    if k == 0:
        return np.einsum('nm,om,m->no', V[:, 0], V[:, 0], w * sg)
    if k == 2:
        return np.einsum('nm,om,m->no', V[:, 0], V[:, 0], w / sg)
    iG = np.array([[G[1, 1], -G[0, 1]], [-G[0, 1], G[0, 0]]]) / g
    return np.einsum('nam,abm,obm,m->no', V, iG, V, w * sg)


def duals(spec, part, p, tol, hist=()):
    from root.config.main import COMM, RANK
    from scipy import sparse as sp
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector
    from tools.miLinearAlgebra.dataStructures.vectors.distributed.main import DistributedVector
    mesh, d, space, F = setup(spec, part, p)
    r = Rec()
    E = mesh.elements
    box = spec_is_box(mesh)
    P = [int(x) for x in space.p]
    nq = [x + (1 if box else 2) for x in P]
    nodes = [np.asarray(n, float) for n in space.nodes]
    for ID in [f'{k}-adf' for k in range(4)] + [f'{k}-adt' for k in range(3)]:
        k = int(ID[0])
        a = F(ID)
        tr = ID.endswith('t')
        f = a.prime
        pID = f'{k}-t' if tr else f'{k}-f'
        labs = lb.form_labels(f, pID, True)[0]
        n = len(labs)
        Ms = {}
        if not tr:
            L = Local(f, pID, 3)
            for i in E:
                Ms[i] = L.mass(E[i], nq)
        else:
            for i in E:
                best = None
                for extra in ((1,) if box else (1, 2, 3, 4)):      # the number of quadrature points is not specified
                    M = np.zeros((n, n))
                    for s in SIDES[3]:
                        ix = [j for j, lab in enumerate(labs) if lab[2] == s]
                        M[np.ix_(ix, ix)] = side_mass(mesh, i, s, k, [labs[j] for j in ix], P, nodes, [x + extra for x in P])
                    e = np.max(np.abs(M - dense(a.mass_matrix[i])))
                    if best is None or e < best:
                        best, Ms[i] = e, M
        for order in (list(E), list(E)[::-1]):
            for i in order:
                sc = np.max(np.abs(Ms[i]))
                r.eq(dense(a.mass_matrix[i]), Ms[i], 'dual-mass', f'{ID} p={p} element {i}', tol, sc)
                r.eq(dense(a.inverse_mass_matrix[i]) @ Ms[i], np.eye(n), 'dual-inverse-mass', f'{ID} p={p} element {i}', 1e-6, 1.)
        if a.num.basis != n or a.num.global_dofs != f.num.global_dofs:
            r.bad.append(('dual-num', f'{ID}: {a.num.basis} {a.num.global_dofs}'))

        def put_prime(o):
            f.cochain.local = {i: cochain(seed_of(mesh, i) + o, n) for i in E} if not tr else single(o)

        gm = f.numbering.gathering
        N = f.num.global_dofs

        def single(o):
            g = cochain(o + 3, N)
            return {i: g[np.asarray(gm[i].full_vector)] for i in E}

        def shows(o, tag, table):
            c = a.cochain
            if sorted(c) != sorted(E.indices) or len(c) != len(E) or any(i not in c for i in E) or \
                    sorted(c.local) != sorted(E.indices) or len(c.local) != len(E):
                r.bad.append(('dual-cochain', f'{ID} {tag}: elements {sorted(c)}'))
            x = c.EWC if hasattr(c, 'EWC') else None
            for i in E:
                w = Ms[i] @ table[i]
                sc = np.max(np.abs(w)) + 1e-300
                r.eq(c.local[i], w, 'dual-cochain', f'{ID} {tag} element {i}', tol, sc)
                r.eq(c[i], w, 'dual-cochain', f'{ID} {tag} element {i} []', tol, sc)
                if x is not None:
                    r.eq(dense(x[i]).ravel(), w, 'dual-cochain', f'{ID} {tag} element {i} EWC', tol, sc)

        def is_prime(table, tag):
            for i in E:
                r.eq(f.cochain.local[i], table[i], 'dual-set', f'{ID} {tag} element {i}: prime', 1e-7,
                     np.max(np.abs(table[i])) + 1e-300)
        put_prime(0)
        t0 = {i: np.array(f.cochain.local[i]) for i in E}
        shows(0, 'first', t0)
        put_prime(5)
        t1 = {i: np.array(f.cochain.local[i]) for i in E}
        shows(5, 'after the prime changed', t1)
        a.cochain.local = {i: Ms[i] @ t0[i] for i in E}
        is_prime(t0, 'set local')
        shows(0, 'after setting it', t0)
        # whole vectors of the dual: values are free per global dof; hybrid trace dofs are shared
        for o in range(2):
            g = cochain(11 + o, N)
            if o:
                g[::3] = 0.
            tab = {i: np.linalg.solve(Ms[i], g[np.asarray(gm[i].full_vector)]) for i in E}
            try:
                a.cochain.globe = LocallyFullVector(g.copy())
            except Exception as ex:
                r.bad.append(('dual-set', f'{ID} globe from a locally full vector: {ex!r}'))
            else:
                is_prime(tab, f'locally full vector {o}')
            for how in ('master', 'owner', 'split'):
                size = COMM.Get_size()
                v = np.zeros(N)
                if how == 'master':
                    v = g.copy() if RANK == 0 else v
                elif how == 'owner':
                    v[RANK::size] = g[RANK::size]
                else:                       # contiguous, the first rank empty when there are several
                    cut = np.linspace(0, N, size).astype(int) if size > 1 else np.array([0, N])
                    if size == 1:
                        v = g.copy()
                    elif RANK > 0:
                        v[cut[RANK - 1]:cut[RANK]] = g[cut[RANK - 1]:cut[RANK]]
                D = DistributedVector(sp.csc_matrix(v.reshape(-1, 1)))
                # dirty the allocator: entries which are not stored must be zero
                junk = [np.full(N, 7.5e3) for _ in range(4)]
                del junk
                try:
                    a.cochain.globe = D
                except Exception as ex:
                    r.bad.append(('dual-set', f'{ID} globe from a distributed vector ({how}): {ex!r}'[:300]))
                else:
                    is_prime(tab, f'distributed vector {how} {o}')
        # the discrete error of the dual is that of its prime
    if box:
        cobound(mesh, space, F, P, r)
    return r.out()


def dmono(e, a):
    """derivative along a of x^e: (factor, exponents)"""
    g = list(e)
    g[a] -= 1
    return (e[a], g) if e[a] > 0 else (0, [0, 0, 0])


def fn(c, e):
    return lambda t, x, y, z: (1 + .5 * t) * c * x ** e[0] * y ** e[1] * z ** e[2] + 0. * x * y * z


def total(*fs):
    return lambda t, x, y, z: sum(f(t, x, y, z) for f in fs)


def cobound(mesh, space, F, P, r):
    """dual gradient, curl, divergence of polynomial fields on boxes are the exact ones"""
    E = mesh.elements
    up = lambda a: [P[b] if b == a else P[b] - 1 for b in range(3)]
    dn = lambda a: [P[b] - 1 if b == a else P[b] for b in range(3)]
    D = lambda c, e, a: fn(c * dmono(e, a)[0], dmono(e, a)[1])
    s3 = [P[b] - 1 for b in range(3)]
    cs = [1., -2., 3.]
    es1 = [dn(a) for a in range(3)]
    es2 = [up(a) for a in range(3)]
    v1 = [fn(cs[a], es1[a]) for a in range(3)]
    v2 = [fn(cs[a], es2[a]) for a in range(3)]
    cases = [(3, 2, [fn(1., s3)], [D(1., s3, a) for a in range(3)]),
             (1, 0, v1, [total(*[D(cs[a], es1[a], a) for a in range(3)])])]
    curl = []
    for a in range(3):
        b, c = (a + 1) % 3, (a + 2) % 3
        curl.append(total(D(cs[c], es2[c], b), D(-cs[b], es2[b], c)))
    cases.append((2, 1, v2, curl))
    periodic = not len(mesh.boundaries.names)
    for k, kt, fs, dfs in cases:
        if periodic:                        # polynomials are not periodic
            continue
        for tm in (0., 1.):
            a, t = F(f'{k}-adf'), F(f'{kt}-adt')
            put(F, a.prime, fs, tm)
            a.prime.discretize()
            cf = F('scalar', fs[0]) if len(fs) == 1 else F('vector', fs)
            if kt == 1:
                cf = cf.components.T_perp
            t.prime.CF = cf
            t.prime.CF.current_time = tm
            t.prime.discretize()
            nx = a.coboundary(t)
            if nx.k != k - 1 or nx.prime.k != k - 1:
                r.bad.append(('dual-coboundary', f'of {k}-adf is of degree {nx.k}'))
                continue
            L = Local(nx.prime, f'{k-1}-f', 3)
            inc = np.asarray(L.incidence(Local(a.prime, f'{k}-f', 3)), float)
            for i in E:
                w = L.reduce(E[i], [lambda *x, g=g: g(tm, *x) for g in dfs], 8)
                r.eq(nx.prime.cochain.local[i], w, 'dual-coboundary', f'{k}-adf p={P} t={tm} element {i}', 1e-7,
                     np.max(np.abs(w)) + 1e-2)
                same(r, a.coboundary.incidence_matrix[i], inc, 'dual-incidence', f'{k}-adf element {i}')
            H = F('scalar', dfs[0]) if len(dfs) == 1 else F('vector', dfs)
            H.current_time = tm
            e = a.error.L()
            h = a.error.dH(t, H)
            r.n += 2
            if not abs(e) < 1e-7 or not abs(h) < 1e-6:
                r.bad.append(('dual-error', f'{k}-adf p={P} t={tm}: L {e} dH {h} of an exactly represented field'))
            # a constant offset in the derivative must be seen
            off = [arity(3, lambda t_, *x, q=q: q(t_, *x) + 0.75) for q in dfs]
            H2 = F('scalar', off[0]) if len(off) == 1 else F('vector', off)
            from root.config.main import COMM
            vol = COMM.allreduce(sum(8 * float(np.linalg.det(Jmat(E[i], [np.zeros(1)] * 3, 3)[..., 0])) for i in E))
            h = a.error.dH(t, H2, time=tm)
            want = (vol * len(off)) ** .5 * .75
            r.n += 1
            if not abs(h - want) < 1e-6 * want:
                r.bad.append(('dual-error', f'{k}-adf p={P} t={tm}: dH {h} instead of {want}'))


# ---------------------------------------------------------------------------------------------------------- hybrid pairing
def lin(o, n):
    def mk(c):
        return lambda t, x, y, z: (1 + t) * (1.1 + .3 * c + o) + (.4 - c) * x + (.7 + o * .2) * y - (.3 + .5 * c + t) * z
    return [mk(c) for c in range(n)]


def pairing(spec, part, p, k, subsets, fresh, tol=1e-8):
    """subsets: list of (tuple of Dirichlet boundary indices, time), done one after another on the same objects"""
    from root.config.main import COMM, RANK
    mesh, d, space, F = setup(spec, part, p)
    E = mesh.elements
    r = Rec()
    box = spec_is_box(mesh)
    f = t = e = None
    M = None
    bns = list(mesh.boundaries.names)
    for step, (sub, tm) in enumerate(subsets):
        Db = [bns[j] for j in sub]
        Nb = [b for b in bns if b not in Db]
        fs, gs = lin(0., 3 if k else 1), lin(.5, 3 if k == 1 else 1)
        if f is None or fresh:
            f, t = F(f'{k}-f', hybrid=True), F(f'{k}-adt')
            e = F(f'{k}-e') if k < 2 else None
            f.BC.CF = F('vector', fs) if k else F('scalar', fs[0])
            cf = F('vector', gs).components.T_perp if k == 1 else F('scalar', gs[0])
            t.prime.BC.CF = cf
            orc = Oracle(F, f'{k}-t', True, mesh, t.prime)
            Lf = Local(f, f'{k}-f', 3)
        if k < 2:
            f.BC.CF.current_time = tm
            t.prime.BC.CF.current_time = tm
        f.BC.boundaries = Nb
        t.BC.boundaries = Db
        tag = f'{k}-f step {step} Dirichlet {Db} t={tm}'
        try:
            if k == 2:
                T, D, b = f.special.hybrid_pairing(t, time=tm)
                C = eGM = None
            else:
                T, D, C, b, eGM = f.special.hybrid_pairing(t, e, time=tm)
        except Exception as ex:
            import traceback
            r.bad.append(('pairing-raises', f'{tag}: {traceback.format_exc()[-400:]}'))
            break
        if M is None or fresh:
            M = t.prime.matrices.mass_TEW
        fg, tg = f.numbering.gathering, t.prime.numbering.gathering
        Lt = lb.form_labels(t.prime, f'{k}-t', True)[0]
        rows = []
        for i in E:
            mp = mesh.elements.map[i]
            g = Lf.reduce(E[i], [lambda *x, q=q: q(tm, *x) for q in fs], 6)
            lam = np.full(len(Lt), np.nan)
            for s, w in zip(SIDES[3], mp):
                if isinstance(w, str) and w in Db:
                    ix = [j for j, lab in enumerate(Lt) if lab[2] == s]
                    if k == 1:
                        # T_perp = u x n with n along the positive axis; constant normals (boxes) only
                        if not box:
                            continue
                        a = lb.AX[s]
                        n = np.eye(3)[a]
                        Wf = [lambda *x, c=c: np.cross(np.array([q(tm, *x) + 0 * x[0] for q in gs]).T, n).T[c] for c in range(3)]
                        val = Local(f, '1-f', 3).reduce(E[i], Wf, 6)
                        vals = np.array([val[[m for m, lb_ in enumerate(Lf.labels) if lb_[1] == Lt[j][1]][0]] for j in ix])
                    else:
                        vals = orc.values(i, gs, tm, s, True)[ix]
                    te = mesh.trace.elements.map[i][SIDES[3].index(s)]
                    lam[ix] = dense(M[te]) @ vals
            rows.append(dict(c=tuple(np.round(center(mesh, i), 6)), i=i, map=list(mp), T=dense(T[i]), D=dense(D[i]), b=dense(b[i]).ravel(),
                             C=None if C is None else dense(C[i]), fg=np.asarray(fg[i].full_vector), tg=np.asarray(tg[i].full_vector),
                             eg=None if eGM is None else np.asarray(eGM[i].full_vector), g=g, lam=lam))
        allrows = COMM.gather(rows, root=0)
        if RANK == 0:
            judge_pairing([x for y in allrows for x in y], Lf.labels, Lt, k, Db, Nb, list(space.p), r, tag, tol)
    return r.out()


def judge_pairing(rows, L, Lt, k, Db, Nb, p, r, tag, tol):
    by = {x['i']: x for x in rows}
    nf = max(int(x['fg'].max()) for x in rows) + 1
    nt = max(int(x['tg'].max()) for x in rows) + 1
    ne = max(int(x['eg'].max()) for x in rows) + 1 if k < 2 else 0
    if nf != len(rows) * len(L):
        r.bad.append(('pairing-hybrid', f'{tag}: {nf} dofs for {len(rows)} elements'))
        return
    T, D, b, C = np.zeros((nt, nf)), np.zeros((nt, nt)), np.zeros(nt), np.zeros((nt, ne))
    for x in rows:
        np.add.at(T, np.ix_(x['tg'], x['fg']), x['T'])
        np.add.at(D, np.ix_(x['tg'], x['tg']), x['D'])
        np.add.at(b, x['tg'], x['b'])
        if k < 2:
            np.add.at(C, np.ix_(x['tg'], x['eg']), x['C'])
    # Dirichlet rows: exactly lambda = value
    onD = {}
    for x in rows:
        for n, lab in enumerate(Lt):
            w = x['map'][SIDES[3].index(lab[2])]
            if isinstance(w, str) and w in Db:
                onD[int(x['tg'][n])] = x['lam'][n]
    iD = sorted(onD)
    rest = [n for n in range(nt) if n not in onD]
    W = np.zeros((nt, nt))
    W[iD, iD] = 1.
    same(r, D, W, 'pairing-D', tag)
    if iD:
        if np.any(T[iD]) or (k < 2 and np.any(C[iD])):
            r.bad.append(('pairing-D', f'{tag}: Dirichlet rows of T or C are not empty'))
        w = np.array([onD[n] for n in iD])
        ok = ~np.isnan(w)
        if ok.any():
            r.eq(b[iD][ok], w[ok], 'pairing-values', f'{tag}: Dirichlet values', tol, np.max(np.abs(w[ok])) + 1e-300)
    # the other rows: continuity across the internal faces and u = g on the Neumann boundaries
    ix = {lab: n for n, lab in enumerate(L)}
    par = list(range(nf))

    def find(n):
        while par[n] != n:
            n = par[n]
        return n
    val = {}
    for x in rows:
        for s, w in zip(SIDES[3], x['map']):
            for n, lab in enumerate(L):
                if not lb.on_side(lab, s, p):
                    continue
                gi = int(x['fg'][n])
                if isinstance(w, str):
                    if w in Nb:
                        val[gi] = x['g'][n]
                else:
                    a, c = find(gi), find(int(by[w]['fg'][ix[lb.cross(lab, s, p)]]))
                    par[a] = c
    cls = {}
    for n in range(nf):
        cls.setdefault(find(n), []).append(n)
    u0 = np.zeros(nf)
    Z = []
    for c, ms in cls.items():
        v = [val[m] for m in ms if m in val]
        if v:
            u0[ms] = v[0]
        else:
            z = np.zeros(nf)
            z[ms] = 1.
            Z.append(z)
    Z = np.array(Z).T if Z else np.zeros((nf, 0))
    Tr, br, Cr = T[rest], b[rest], C[rest]
    if k < 2 and not np.any(C):             # every edge touches a Dirichlet boundary: there are no edge unknowns
        ne, C, Cr = 0, C[:, :0], Cr[:, :0]
    if k < 2:
        U, s, _ = np.linalg.svd(Cr, full_matrices=True) if Cr.size else (np.eye(len(rest)), np.zeros(0), None)
        rk = int(np.sum(s > 1e-9))
        Nl = U[:, rk:].T                       # left null space of C
        free = [j for j in range(ne) if not np.any(C[:, j])]
        if free:
            r.bad.append(('pairing-singular', f'{tag}: edge unknowns {free[:5]} occur in no equation'))
    else:
        Nl = np.eye(len(rest))
    sc = max(1., np.max(np.abs(br)) if br.size else 1.)
    nt_ = max(1e-7, tol)
    r.eq(Nl @ (Tr @ Z), 0., 'pairing-continuity', f'{tag}: a continuous function violates the pairing', 1e-9, 1.)
    r.eq(Nl @ (Tr @ u0 - br), 0., 'pairing-Neumann', f'{tag}: the Neumann data violate the pairing', nt_, sc)
    dim = nf - np.linalg.matrix_rank(Nl @ Tr) if len(rest) else nf
    r.n += 1
    if dim != Z.shape[1]:
        r.bad.append(('pairing-continuity', f'{tag}: {dim} free functions instead of the {Z.shape[1]} continuous ones'))
    I = np.eye(nf)
    A = np.block([[I, T.T, np.zeros((nf, ne))], [T, D, C], [np.zeros((ne, nf)), C.T, np.zeros((ne, ne))]])
    sv = np.linalg.svd(A, compute_uv=False)
    r.n += 1
    if not sv[-1] > 1e-8 * sv[0]:
        r.bad.append(('pairing-singular', f'{tag}: smallest singular value {sv[-1]:.2e} of {len(A)} unknowns'))
    else:
        # the solution of a minimization with arbitrary source is continuous, = g on Neumann
        rhs = np.concatenate([cochain(4, nf), b, np.zeros(ne)])
        u = np.linalg.solve(A, rhs)[:nf]
        for c, ms in cls.items():
            if np.ptp(u[ms]) > 1e-7 * (1 + np.max(np.abs(u))):
                r.bad.append(('pairing-continuity', f'{tag}: the solution jumps by {np.ptp(u[ms]):.2e}'))
                break
        for m, v in val.items():
            if abs(u[m] - v) > nt_ * (1 + abs(v)):
                r.bad.append(('pairing-Neumann', f'{tag}: the solution is {u[m]} instead of {v}'))
                break
