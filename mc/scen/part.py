"""C01: everything a user computes, as plain data that does not mention ranks or element numbers.

Each scenario returns, per rank, {'e': {(quantity, element centre): array}, 'g': {quantity: value known on every rank},
'dof': {quantity: {centre: global numbers}}, 'A': {quantity: (row dof key, col dof key, sparse local part)}}; the judge
merges the ranks and compares with the run on one rank."""
import numpy as np
from mc.scen.common import make_mesh, make_space, masters, center
from mc.scen.std import cochain, fields, put, dense

T0 = 0.3


class Out:
    def __init__(self, mesh):
        self.mesh = mesh
        self.c = {i: tuple(round(float(v), 5) + 0. for v in center(mesh, i)) for i in mesh.elements}
        self.e, self.g, self.dof, self.A = {}, {}, {}, {}

    def el(self, key, D, only=None):
        """element-wise data: D[i] for each local element"""
        for i in self.mesh.elements:
            if only is not None and i not in only:
                continue
            v = D[i] if not callable(D) else D(i)
            self.e[(key, self.c[i])] = np.array(dense(v), dtype=float)

    def glob(self, key, v):
        self.g[key] = v

    def num(self, key, f):
        """f: a form or a gathering matrix"""
        GM = f.numbering.gathering if hasattr(f, 'numbering') else f
        self.dof[key] = ({self.c[i]: np.array(GM[i].full_vector if hasattr(GM[i], 'full_vector') else GM[i], dtype=int)
                          for i in self.mesh.elements}, int(GM.global_num_dofs))

    def mat(self, key, row, col, M):
        self.A[key] = (row, col, M)

    def res(self):
        return dict(e=self.e, g=self.g, dof=self.dof, A=self.A, states=len(self.e) + len(self.g))


def start(spec, part, p):
    mesh = make_mesh(spec, part)
    d = mesh.ndim
    space = make_space(d, p)
    return mesh, d, masters(d).FormCaller(mesh, space), Out(mesh)


def by_centre(o, seed, n):
    """a cochain that depends on the place of the element only"""
    return {i: cochain(seed, n) * (1 + 0.1 * np.sin(7 * np.sum(np.array(o.c[i]) * np.arange(1, 1 + len(o.c[i])))))
            for i in o.mesh.elements}


def std_ids(d):
    return [f'{k}-f' for k in range(4)] if d == 3 else [f'{k}-f-{s}' for s in 'io' for k in range(3)]


def flds(mesh, k, s=''):
    """the field to discretize (single-valued on periodic meshes) and whether the form has a derivative"""
    d = mesh.ndim
    f, df = fields(d, k, s)
    if mesh.domain.whether.periodic:
        def mk(j):
            if d == 3:
                return lambda t, x, y, z: np.sin(2 * np.pi * (x + y) + j) + np.cos(2 * np.pi * z - j + t) + 0.3
            return lambda t, x, y: np.sin(2 * np.pi * (x + y) + j) + np.cos(2 * np.pi * x - j + t) + 0.3
        f = [mk(j) for j in range(1 if k in (0, d) else d)]
    return f, df


def kind(ID):
    q = ID.split('-')
    return int(q[0]), (q[2] if len(q) > 2 else '')


def forms(spec, part, p, hyb):
    """standard forms: reduction, reconstruction, norms, errors, derivative, inner products, numbering, global vectors"""
    mesh, d, F, o = start(spec, part, p)
    r = [np.array([-0.7, 0.2, 1.])[:3 if a == 0 else 2] for a in range(d)]
    fs = {}
    for ID in std_ids(d):
        k, s = kind(ID)
        f = F(ID, hybrid=hyb)
        fs[ID] = f
        fld, df = flds(mesh, k, s)
        put(F, f, fld, T0)
        f.discretize()
        o.num(ID, f)
        o.el(ID + '/local', f.cochain.local)
        xyz, v = f.reconstruct(*r)
        o.el(ID + '/xyz', lambda i: np.array(xyz[i]))
        o.el(ID + '/v', lambda i: np.array(v[i]))
        R = f.do.make_reconstruction_matrix_on_grid(*r)
        o.el(ID + '/RM', lambda i: np.vstack([dense(x) for x in R[i]]) if isinstance(R[i], (tuple, list)) else R[i])
        M = f.matrices.mass
        o.el(ID + '/mass', M)
        o.glob(ID + '/L2', float(f.error.L()))
        if d == 3:
            o.glob(ID + '/Linf', float(f.error.L(n='infinity')))
        if df is not None:
            o.el(ID + '/E', f.matrices.incidence)
            g = f.coboundary()
            o.el(ID + '/d', g.cochain.local)
            o.glob(ID + '/norm_d', float(f.do.compute_Ln_norm_of_coboundary()))
        o.glob(ID + '/Ln', [float(f.do.compute_Ln_norm(n=2)), float(f.do.compute_Ln_energy(n=2))])
        o.glob(ID + '/L2e', float(f.do.compute_L2_energy_with()))
        G = f.cochain.globe
        G = G.do.gather_V_to_core(clean_local=False)
        o.mat(ID + '/globe', ID, None, None if G is None else np.array(G).reshape(-1, 1))
        A = M.__class__(mesh.elements, M._DG_, M._KG_)
        A.gathering_matrices = (f, f)
        o.mat(ID + '/assembled', ID, ID, A.assembled.M)
        if df is not None:
            B = f.matrices.incidence
            # noinspection PyUnresolvedReferences
            g2 = F(f'{k + 1}-f' + ('-' + s if s else ''), hybrid=hyb)
            B = B.__class__(mesh.elements, B._DG_, B._KG_)
            B.gathering_matrices = (g2, f)
            o.mat(ID + '/E-assembled', g2.standard_properties.name and f'{k + 1}-f' + ('-' + s if s else ''), ID, B.assembled.M)
        h = f.__class__(mesh, f.space, hybrid=hyb) if d == 3 else F(ID, hybrid=hyb)
        h.cochain.local = by_centre(o, 1 + k, f.num.basis)
        # a general (discontinuous when hybrid) cochain
        o.glob(ID + '/h', [float(h.do.compute_Ln_norm(n=2))])
        put(F, h, fld, T0)
        o.glob(ID + '/h-error', [float(h.error.L(n=1)), float(h.error.L(upon=True))])
        if hyb or k == d:
            h2 = F(ID, hybrid=hyb)
            h2.cochain.globe = h.cochain.globe
            o.el(ID + '/globe-local', h2.cochain.local)
    return o.res()


def others(spec, part, p):
    """trace, edge and local trace forms, dual forms, boundary conditions"""
    mesh, d, F, o = start(spec, part, p)
    ids = ['0-t', '1-t', '2-t', '0-e', '1-e', '0-lt', '1-lt', '2-lt'] if d == 3 else ['1-t-o']
    for ID in ids:
        for hyb in (True, False):
            if ID.endswith('e') and hyb or d == 2 and not hyb:
                continue
            f = F(ID, hybrid=hyb) if not ID.endswith('-e') else F(ID)
            key = f'{ID}/{hyb}'
            o.num(key, f)
            k = int(ID[0])
            if d == 2 or ID in ('1-e', '1-t', '1-lt'):
                continue
            if ID == '2-t':
                put(F, f, flds(mesh, 2)[0], T0)
            else:
                put(F, f, flds(mesh, 0)[0], T0)
            f.discretize()
            o.el(key + '/local', f.cochain.local)
    for ID in std_ids(d):
        f = F(ID, hybrid=False)
        names = sorted(mesh.boundaries.names)
        o.glob('boundaries', names)
        k, s = kind(ID)
        if k == d or k == 0 and s == 'o' and False:
            continue
        for bn in names:
            f.BC.boundaries = [bn]
            itp = f.BC.interpret
            D = itp.local.dofs
            o.el(f'{ID}/bc/{bn}', lambda i: sorted(set(int(x) for x in D[i])), only=D)
    if d == 3:
        for k in range(4):
            f = F(f'{k}-f', hybrid=True)
            g = F(f'{k}-adf', f)
            put(F, f, flds(mesh, k)[0], T0)
            f.discretize()
            o.el(f'{k}-adf/mass', g.mass_matrix)
            g.prime.cochain.local = f.cochain.local
            o.el(f'{k}-adf/local', g.cochain.local)
    return o.res()


def system(spec, part, p, name):
    """a global system with strongly imposed boundary values, assembled and solved, for the given boundary"""
    from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
    from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
    from tools.miLinearAlgebra.linearSystem.main import LinearSystem
    mesh, d, F, o = start(spec, part, p)
    s = '' if d == 3 else '-o'
    u, q = F(f'{d - 1}-f{s}', hybrid=False), F(f'{d}-f{s}', hybrid=True)
    fld = flds(mesh, d)[0]
    src = F(f'{d}-f{s}', hybrid=True)
    put(F, src, fld, T0)
    src.discretize()
    names = sorted(mesh.boundaries.names)
    bn = [names[j % len(names)] for j in name] if names else []
    bn = sorted(set(bn))
    Mu, Mq, E = u.matrices.mass, q.matrices.mass, u.matrices.incidence
    A = bmat([[Mu, E.T @ Mq], [Mq @ E, 0.1 * Mq]])
    u.cochain.local = {i: np.zeros(u.num.basis) for i in mesh.elements}
    b = concatenate([u.cochain.EWC, Mq @ src.cochain.EWC])
    A.gathering_matrices = ([u, q], [u, q])
    b.gathering_matrix = [u, q]
    if bn:
        put(F, u, flds(mesh, d - 1, s.strip('-'))[0], T0)
        u.BC.CF = u.CF
        u.BC.CF.current_time = T0
        u.BC.boundaries = bn
        A.customize.identify_global_rows_according_to(0, u.BC.interpret)
        b.customize.set_entries_according_to(0, u.BC.interpret)
    GM = A.gathering_matrices[0]
    o.num('sys', GM)
    o.mat('A', 'sys', 'sys', A.assembled.M)
    o.mat('b', 'sys', None, b.assembled.V)
    LS = LinearSystem(A, b)
    x = LS.solve('direct')()
    o.glob('info', x[1] if len(x) > 1 else None)
    x0 = x[0]
    x0.do.distributed_to(u, q)
    o.el('u', u.cochain.local)
    o.el('q', q.cochain.local)
    o.num('u', u)
    if names:
        U = u.cochain.globe.do.gather_V_to_core()
        o.mat('u-globe', 'u', None, None if U is None else np.array(U).reshape(-1, 1))
    return o.res()


def misc(spec, part, p):
    """derived results: region-wise samples, partial cochains, nonlinear terms, projections, exported files"""
    import os
    import shutil
    import tempfile
    from root.config.main import COMM, RANK
    mesh, d, F, o = start(spec, part, p)
    grids = [[0.1, 0.35, 0.5, 0.9][:4 - a] for a in range(d)], [[-1, -0.2, 1.][:3 - (a == 1)] for a in range(d)], \
        {rn: [[0.0, 0.3 + 0.01 * len(rn), 1.]] * d for rn in mesh.domain.regions.names}
    fs = {}
    for ID in std_ids(d):
        k, s = kind(ID)
        f = F(ID, hybrid=True)
        fs[ID] = f
        put(F, f, flds(mesh, k, s)[0], T0)
        f.discretize()
        one = k in (0, d)
        for j, g in enumerate(grids):
            if one and not hasattr(f.reconstruct, 'discrete_scalar'):
                continue
            df = (f.reconstruct.discrete_scalar if one else f.reconstruct.discrete_vector)(g)
            for rn in df.regions:
                o.e[(f'{ID}/discrete{j}', rn)] = np.array([np.array(x) for x in list(df.coordinates[rn]) + list(df.values[rn])])
        o.glob(f'{ID}/dmax', float(f.do.compute_Ln_diff_from(fs[ID])) if hasattr(f.do, 'compute_Ln_diff_from') else 0.)
    if d == 3:
        u, w, e1, e2 = F('1-f', hybrid=True), F('1-f', hybrid=True), F('1-f', hybrid=True), F('2-f', hybrid=True)
        for j, f in enumerate((u, w)):
            f.cochain.local = by_centre(o, 3 + j, f.num.basis)
        v = F('2-f', hybrid=True)
        v.cochain.local = by_centre(o, 9, v.num.basis)
        o.el('1x1.1', w.special.cross_product_1f__ip_1f(u, e1))
        o.el('1x2.2', w.special.cross_product_2f__ip_2f(v, e2))
        o.el('2x2.2', v.special.cross_product_2f__ip_2f(v, e2))
        o.el('1to2', u.projection.to.standard_2form().cochain.local)
        for nm, f in (('1', u), ('2', v)):
            for j, g in enumerate(f.projection.to.vector_of_3_standard_0forms()):
                o.el(f'{nm}to0/{j}', g.cochain.local)
        r = [np.array([-0.5, 0.3])] * 3
        for nm, f in (('1', u), ('2', v)):
            xyz, Q, L = f.special.vortex_detection.Q_and_lambda2(*r)
            o.el(f'vortex{nm}', lambda i: np.concatenate([np.ravel(Q[i]), np.ravel(L[i])]))
        for ID in ('0-f', '1-f', '3-f'):
            tmp = COMM.bcast(tempfile.mkdtemp(prefix='mifem-mc-') if RANK == 0 else None, root=0)
            here = os.getcwd()
            try:
                os.chdir(tmp)
                fs[ID].export.field.to_file('x', numOfSamples=60)
                COMM.barrier()
                if RANK == 0:
                    out = {nm: np.loadtxt(os.path.join(tmp, nm)) for nm in sorted(os.listdir(tmp))}
                    for nm, a in out.items():
                        o.e[(f'{ID}/file', nm)] = a[np.lexsort(np.round(a[:, :3], 6).T)]
            finally:
                os.chdir(here)
                COMM.barrier()
                if RANK == 0:
                    shutil.rmtree(tmp, ignore_errors=True)
        m = [np.array(x) for x in ([0.1, 0.7],) * 3]
        for i in mesh.elements:
            rn, loc = mesh.do.find.region_name_and_local_indices_of_element(i)
            o.e[('where', o.c[i])] = np.array([sorted(mesh.domain.regions.names).index(rn)] + list(loc), float)
    else:
        i1, o1 = fs['1-f-i'], fs['1-f-o']
        for ID in ('0-f-i', '0-f-o', '2-f-i'):
            f = fs[ID]
            if hasattr(f, 'special') and hasattr(f.special, 'cross_product_1f__ip_1f'):
                x = i1 if ID.endswith('i') else o1
                o.el(f'{ID}x1.1', f.special.cross_product_1f__ip_1f(x, x))
    return o.res()
