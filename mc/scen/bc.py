"""C15: boundary conditions: selected dofs, values, strong imposition, histories of re-setting"""
import itertools
import numpy as np
from mc.scen import common as cm
from mc.scen import labels as lb
from mc.scen.ct import Rec
from mc.scen.fem import Local, Jmat, gauss, grid, lagrange
from mc.scen.std import dense, arity

SIDES = {3: 'NSWEBF', 2: 'UDLR'}


# ---- fields: one (tuple of component functions of t, x..) per number j; distinct j -> distinct fields ----------------
def field(d, j, n, per=False):
    def mk(c):
        a = 0.7 + 0.31 * j + 0.5 * c
        b = [0. if per else 1.3 - 0.2 * j + 0.1 * c, -0.4 + 0.15 * j - 0.3 * c, 0.9 - 0.35 * c + 0.05 * j]
        if d == 3:
            return lambda t, x, y, z: (1 + t) * a + b[0] * x + b[1] * y + (b[2] + t) * z
        return lambda t, x, y: (1 + t) * a + b[0] * x + (b[1] + t) * y
    return [mk(c) for c in range(n)]


def sides_on(mesh):
    """{boundary name: [(element, side)]} of the elements of this rank, from the element map"""
    out = {bn: [] for bn in mesh.boundaries.names}
    for e in mesh.elements:
        for s, w in zip(SIDES[mesh.ndim], mesh.elements.map[e]):
            if isinstance(w, str):
                out[w].append((e, s))
    return out


class Oracle:
    """values of the dofs of a form of kind ID in element e, for a field (functions of x..)"""

    def __init__(self, F, ID, hyb, mesh, f):
        self.mesh, self.d, self.ID, self.f = mesh, mesh.ndim, ID, f
        self.labels = lb.form_labels(f, ID, hyb)[0]
        self.k = int(ID.split('-')[0])
        self.memo = {}
        self.p = list(f.space.p)
        sID = {3: f'{self.k}-f'}.get(self.d, ID if '-f-' in ID else '1-f-o')
        self.sf = F(sID, hybrid=True)
        self.loc = Local(self.sf, sID, self.d)
        self.trace = not ID.split('-')[1] == 'f'
        self.index = {lab: n for n, lab in enumerate(self.loc.labels)}

    def dofs_of(self, s):
        return [n for n, lab in enumerate(self.labels) if lb.on_side(lab, s, self.p)]

    def values(self, e, fs, t, side, scalar):
        """values (all local dofs; nan where not on the side)"""
        key = (e, tuple(id(g) for g in fs), t, side, scalar)
        if key not in self.memo:
            self.memo[key] = self._values(e, fs, t, side, scalar), fs
        return self.memo[key][0]

    def _values(self, e, fs, t, side, scalar):
        el = self.mesh.elements[e]
        fx = [lambda *x, g=g: g(t, *x) for g in fs]
        out = np.full(len(self.labels), np.nan)
        if self.trace and self.k == 2 and scalar:
            return self.surface(el, fx[0], side)
        key = ('full', e, tuple(id(g) for g in fs), t)
        if key not in self.memo:
            self.memo[key] = self.loc.reduce(el, fx, 6), fs
        v = self.memo[key][0]
        for n in self.dofs_of(side):
            lab = self.labels[n]
            c = lab[0]
            if self.trace and (self.k == 2 or self.d == 2):
                c = lb.AX[side]
            out[n] = v[self.index[c, lab[1]]]
        return out

    def surface(self, el, fx, side):
        out = np.full(len(self.labels), np.nan)
        ax = lb.AX[side]
        qx, qw = gauss(6)
        fr = [a for a in range(3) if a != ax]
        for n in self.dofs_of(side):
            ents = self.labels[n][1]
            P, W = [None] * 3, []
            for a in fr:
                lo, hi = self.loc.nodes[a][ents[a][1]], self.loc.nodes[a][ents[a][1] + 1]
                W.append(qw * (hi - lo) / 2)
                P[a] = (qx + 1) * (hi - lo) / 2 + lo
            A, B = np.meshgrid(P[fr[0]], P[fr[1]], indexing='ij')
            w = np.outer(*W).ravel()
            P[fr[0]], P[fr[1]] = A.ravel(), B.ravel()
            P[ax] = np.full(len(w), 1. if side in lb.HI else -1.)
            J = Jmat(el, P, 3)
            dS = np.linalg.norm(np.cross(J[:, fr[0]], J[:, fr[1]], axis=0), axis=0)
            out[n] = np.sum(w * dS * fx(*el.coordinate_transformation.mapping(*P)))
        return out


    def integral(self, el, fn, t, side):
        out = np.zeros(len(self.labels))
        ax = lb.AX[side]
        qx, qw = gauss(8)
        fr = [a for a in range(3) if a != ax]
        A, B = np.meshgrid(qx, qx, indexing='ij')
        P = [None] * 3
        P[fr[0]], P[fr[1]], P[ax] = A.ravel(), B.ravel(), np.full(A.size, 1. if side in lb.HI else -1.)
        J = Jmat(el, P, 3)
        dS = np.linalg.norm(np.cross(J[:, fr[0]], J[:, fr[1]], axis=0), axis=0) * np.outer(qw, qw).ravel()
        F = fn(t, *el.coordinate_transformation.mapping(*P)) * dS
        La = [lagrange(self.loc.nodes[a], P[a]) for a in fr]
        for n in self.dofs_of(side):
            ents = self.labels[n][1]
            out[n] = np.sum(F * La[0][ents[fr[0]][1]] * La[1][ents[fr[1]][1]])
        return out


# kind -> list of (CF class, CF type, number of components)
CFS3 = {'0-f': [('scalar', 'standard'), ('scalar', 'boundary-wise')],
        '1-f': [('vector', 'standard')],
        '2-f': [('vector', 'standard'), ('vector', 'boundary-wise')],
        '0-t': [('scalar', 'standard'), ('scalar', 'trace-element-wise')],
        '1-t': [('vector', 'T_para')],
        '2-t': [('scalar', 'standard'), ('scalar', 'boundary-wise'), ('vector', 'standard'), ('vector', 'boundary-wise')],
        '0-lt': [('scalar', 'standard'), ('scalar', 'boundary-wise'), ('scalar', 'trace-element-wise')],
       
        '2-lt': [('scalar', 'standard'), ('scalar', 'boundary-wise')]}
CFS2 = {'1-f-o': [('vector', 'standard')]}


def make_cf(F, mesh, cls, ty, off, only=None):
    """a continuous field; returns (CF, {boundary: component functions})"""
    d = mesh.ndim
    n = 1 if cls == 'scalar' else d
    names = list(mesh.boundaries.names)
    perx = mesh.domain.whether.periodic
    if ty == 'boundary-wise':
        per = {bn: field(d, off + i, n, perx) for i, bn in enumerate(sorted(names))}
        body = {bn: [arity(d, g) for g in fs] if n > 1 else arity(d, fs[0]) for bn, fs in per.items() if only is None or bn in only}
        return F(cls, body, ftype='boundary-wise'), per
    fs = field(d, off, n, perx)
    per = {bn: fs for bn in names}
    if ty == 'trace-element-wise':
        body = {}
        for i in mesh.trace.elements:
            te = mesh.trace.elements[i]

            def fn(t, xi, et, sg, te=te):
                xyz = te.coordinate_transformation.mapping(*[np.asarray(a) for a in (xi, et, sg)], parse_3_1d_eps=True)
                return xyz, [fs[0](t, *xyz) + 0 * xyz[0]]
            body[i] = fn
        return F(cls, body, ftype=ty), per
    body = [arity(d, g) for g in fs]
    cf = F(cls, body[0] if n == 1 else body)
    if ty == 'T_para':
        cf.current_time = 0.
        cf = cf.components.T_para
    return cf, per


def check_dofs(r, orc, itp, on, bns, tag):
    want = {}
    for bn in bns:
        for e, s in on[bn]:
            want.setdefault(e, set()).update(orc.dofs_of(s))
    got = {e: set(int(x) for x in v) for e, v in itp.local.dofs.items()}
    r.n += 1
    if got != want:
        x = [e for e in set(got) | set(want) if got.get(e) != want.get(e)][:2]
        r.bad.append(('dofs', f'{tag}: elements {x}: selected {[sorted(got.get(e, ["none"]))[:12] for e in x]}, '
                              f'on the boundaries {[sorted(want.get(e, ["none"]))[:12] for e in x]}'))
        return False
    return True


def expected(orc, on, bns, per, t, scalar):
    """{element: {dof: set of admissible values}}"""
    out = {}
    for bn in bns:
        for e, s in on[bn]:
            v = orc.values(e, per[bn], t, s, scalar)
            for n in orc.dofs_of(s):
                out.setdefault(e, {}).setdefault(n, []).append(v[n])
    return out


def check_values(r, dofs, cochains, want, tag, tol):
    r.n += 1
    if set(cochains) != set(want):
        r.bad.append(('values', f'{tag}: values for elements {sorted(cochains)}, expected {sorted(want)}'))
        return
    sc = max([1.] + [abs(v) for w in want.values() for vs in w.values() for v in vs])
    for e in want:
        D, V = list(dofs[e]), np.ravel(np.asarray(cochains[e], float))
        if len(D) != len(V):
            r.bad.append(('values', f'{tag}: element {e}: {len(D)} dofs but {len(V)} values'))
            return
        for n, v in zip(D, V):
            if not min(abs(v - w) for w in want[e][int(n)]) <= tol * sc:
                r.bad.append(('values', f'{tag}: element {e} local dof {n}: value {v!r}, expected one of {want[e][int(n)]}'))
                return


def check_cochain_vector(r, vec, mesh, nb, want, tag, tol):
    sc = max([1.] + [abs(v) for w in want.values() for vs in w.values() for v in vs])
    for e in mesh.elements:
        v = np.ravel(dense(vec[e]))
        r.n += 1
        if len(v) != nb:
            r.bad.append(('boundary_cochain', f'{tag}: element {e}: length {len(v)} != {nb}'))
            return
        for n in range(nb):
            w = want.get(e, {}).get(n, [0.])
            if not min(abs(v[n] - x) for x in w) <= tol * sc:
                r.bad.append(('boundary_cochain', f'{tag}: element {e} local dof {n}: {v[n]!r}, expected one of {w}'))
                return


def check_integration(r, vec, orc, on, bns, per, t, tag):
    """integral over the selected sides of (basis function x boundary function)"""
    want = {}
    for bn in bns:
        for e, s in on[bn]:
            v = orc.integral(orc.mesh.elements[e], per[bn][0], t, s)
            want.setdefault(e, np.zeros(len(orc.labels)))
            want[e] += v
    for e in orc.mesh.elements:
        r.eq(np.ravel(dense(vec[e])), want.get(e, np.zeros(len(orc.labels))), 'boundary_integration',
             f'{tag}: element {e}', tol=1e-9, scale=10.)


def orderings(names, full):
    names = sorted(names)
    for m in range(len(names) + 1):
        for c in itertools.combinations(names, m):
            yield list(c)
            if full and 1 < m <= 3:
                for q in itertools.permutations(c):
                    if list(q) != list(c):
                        yield list(q)
            elif m > 1:
                yield list(c)[::-1]
            if m == 1:
                yield [c[0], c[0]]
                yield tuple(c)


def subsets(spec, part, p, kinds, tol, full=False):
    """every form kind x every subset of boundaries (with orders, repetitions) x CF types"""
    mesh = cm.make_mesh(spec, part)
    d = mesh.ndim
    space = cm.make_space(d, p)
    F = cm.masters(d).FormCaller(mesh, space)
    on = sides_on(mesh)
    names = list(mesh.boundaries.names)
    r = Rec()
    cfs = CFS3 if d == 3 else CFS2
    for ID, hyb in kinds:
        hyb = bool(hyb)
        f = lb.make_form(F, ID, hyb)
        orc = Oracle(F, ID, hyb, mesh, f) if not ID.endswith('-e') else None
        seq = list(orderings(names, full))
        for bns in seq:                                         # without a function: dofs only
            f.BC.boundaries = bns
            check_dofs(r, orc, f.BC.interpret, on, bns, f'{ID} hybrid={hyb} boundaries={bns}')
        f.BC.boundaries = 'all'
        check_dofs(r, orc, f.BC.interpret, on, names, f'{ID} hybrid={hyb} all boundaries')
        if names:
            f.BC.boundaries = names[0]
            check_dofs(r, orc, f.BC.interpret, on, names[:1], f'{ID} hybrid={hyb} {names[0]}')
        for j, (cls, ty) in enumerate(cfs.get(ID, [])):
            cf, per = make_cf(F, mesh, cls, ty, j)
            f.BC.CF = cf
            if mesh.domain.whether.periodic and ty in ('T_para', 'trace-element-wise'):
                continue                       # the library refuses trace-element functions on periodic boundaries
            bi = None
            vec = f.BC.interpret.boundary_cochain if ty == 'boundary-wise' and ID[2:] != 't' else None
            slow = ID[0] != '0' or ty not in ('standard', 'boundary-wise') if ID[2] == 't' else ID == '1-lt'
            lim = len(seq) if full and not slow else (5 if slow else 12) * (2 if full else 1)
            for n, bns in enumerate(seq[::-(-len(seq) // lim)] + seq[-1:]):
                t = (0., 1., 0.5)[n % 3] if ty != 'T_para' else 0.
                f.BC.CF.current_time = t
                f.BC.boundaries = bns
                tag = f'{ID} hybrid={hyb} {cls} {ty} boundaries={bns} t={t}'
                if ID == '0-lt' and not hyb and ty == 'boundary-wise' and tol < 1e-8 and not mesh.domain.whether.periodic:
                    if bi is None:
                        bi = f.BC.interpret.boundary_integration
                    check_integration(r, bi if n % 2 else f.BC.interpret.boundary_integration, orc, on, set(bns), per, t, tag)
                itp = f.BC.interpret.local
                want = expected(orc, on, bns, per, t, cls == 'scalar')
                if check_dofs(r, orc, f.BC.interpret, on, bns, tag):
                    check_values(r, itp.dofs, itp.cochains, want, tag, tol)
                    check_values(r, itp.dofs, f.BC.interpret.local.cochains, want, tag, tol)
                if vec is not None:
                    check_cochain_vector(r, vec, mesh, f.num.basis, want, tag, tol)
                    if n % 3 == 0 and not ID.endswith('-lt'):
                        check_cochain_vector(r, f.BC.interpret.boundary_cochain, mesh, f.num.basis, want, tag, tol)
            if ty == 'boundary-wise' and len(names) > 1:
                # functions given only on the selected boundaries
                cf, per = make_cf(F, mesh, cls, ty, j + 3, only=names[:1])
                f.BC.CF = cf
                f.BC.boundaries = names[:1]
                cf.current_time = 2.
                want = expected(orc, on, names[:1], per, 2., cls == 'scalar')
                itp = f.BC.interpret.local
                check_values(r, itp.dofs, itp.cochains, want, f'{ID} partial boundary-wise', tol)
            f.BC.CF = None
    return r.out()


# ---- histories -----------------------------------------------------------------------------------------------------
# A B 2 0: set boundaries ([A], [B], [A, B], []);  f g: set a new function;  t u: time;  V: evaluate the boundary cochain;
# L: evaluate the local interpretation;  o p: second form, set its boundaries (to [A], [B]) and interpret it
OPS = 'AB20fgtuVLop'


def hist_sequences(depth, first):
    """all operation sequences of this depth whose first operation is `first`, without neighbouring operations where the
       later one makes the earlier one unobservable by construction is NOT applied: stale caches live exactly there"""
    for seq in itertools.product(OPS, repeat=depth - 1):
        yield first + ''.join(seq)


def histories(spec, p, ID, hyb, ty, second, first, depth, adf=False):
    mesh = cm.make_mesh(spec, None)
    d = mesh.ndim
    space = cm.make_space(d, p)
    F = cm.masters(d).FormCaller(mesh, space)
    on = sides_on(mesh)
    A, B = sorted(mesh.boundaries.names)[:2]
    r = Rec()
    cls = 'scalar' if ID[0] == '0' else 'vector'
    cfs = {}
    for nm, off in (('f', 0), ('g', 4)):
        cfs[nm] = [None, make_cf(F, mesh, cls, ty, off)[1]]
    f0 = lb.make_form(F, ID, bool(hyb))
    orc = Oracle(F, ID, bool(hyb), mesh, f0)
    f2 = lb.make_form(F, *second)
    orc2 = Oracle(F, second[0], second[1], mesh, f2)
    names = {'A': [A], 'B': [B], '2': [A, B], '0': []}
    lists = {'A': lambda: [A], 'B': lambda: [B], '2': lambda: [A, B], '0': lambda: []}
    offs = {'f': 0, 'g': 4}
    exp = {}
    nseq = 0
    MM = {}
    for seq in hist_sequences(depth, first):
        nseq += 1
        if adf:
            a = F(ID[0] + '-adt')
            f, bc = a.prime, a.BC
            mmt = f.matrices.mass_TEW if not MM else MM['m']
            MM['m'] = mmt
        else:
            f = lb.make_form(F, ID, bool(hyb))
            bc, a = f.BC, None
        # initial state: boundary A, function f, time 0
        state = dict(b='A', cf='f', t=0.)
        per = {}

        def set_cf(nm):
            cf, pr = make_cf(F, mesh, cls, ty, offs[nm])
            cf.current_time = state['t']
            f.BC.CF = cf
            state['cf'] = nm
        set_cf('f')
        bc.boundaries = lists['A']()
        vec = f.BC.interpret.boundary_cochain if ty == 'boundary-wise' and not adf else None

        def want():
            key = (state['b'], state['cf'], state['t'])
            if key not in exp:
                exp[key] = expected(orc, on, names[state['b']], cfs[state['cf']][1], state['t'], cls == 'scalar')
            return exp[key]

        def ev_local(tag):
            itp = bc.interpret.local
            if not check_dofs(r, orc, bc.interpret, on, names[state['b']], tag):
                return
            w = want()
            if not adf:
                check_values(r, itp.dofs, itp.cochains, w, tag, 1e-9)
                return
            got = {}
            for e in itp.cochains:
                pos, out = 0, []
                D, V = list(itp.dofs[e]), np.asarray(itp.cochains[e], float)
                for s in [s for bn in names[state['b']] for (x, s) in on[bn] if x == e]:
                    n = len(orc.dofs_of(s))
                    te = mesh.trace.elements.map[e][SIDES[d].index(s)]
                    out.extend(np.linalg.solve(dense(MM['m'][te]), V[pos:pos + n]))
                    pos += n
                got[e] = out
            check_values(r, itp.dofs, got, w, tag, 1e-8)

        def ev_vec(tag):
            if vec is not None:
                check_cochain_vector(r, vec, mesh, f.num.basis, want(), tag, 1e-9)
        for i, o in enumerate(seq):
            tag = f'{ID} {ty} history {seq[:i+1]}'
            if o in names:
                bc.boundaries = lists[o]()
                state['b'] = o
            elif o in 'fg':
                set_cf(o)
            elif o in 'tu':
                state['t'] = {'t': 1., 'u': 0.}[o]
                f.BC.CF.current_time = state['t']
            elif o == 'V':
                ev_vec(tag)
            elif o == 'L':
                ev_local(tag)
            else:
                f2.BC.boundaries = lists[{'o': 'A', 'p': 'B'}[o]]()
                check_dofs(r, orc2, f2.BC.interpret, on, names[{'o': 'A', 'p': 'B'}[o]], tag + ' (second form)')
            if len(r.bad) > 30:
                return r.out(seqs=nseq)
        ev_vec(f'{ID} {ty} history {seq}|V')
        ev_local(f'{ID} {ty} history {seq}|L')
    return r.out(seqs=nseq)


# ---- strong imposition ------------------------------------------------------------------------------------------------
def gdense(M):
    from root.config.main import COMM
    return sum(COMM.allgather(np.asarray(dense(M.M if hasattr(M, 'M') else M.V), float)))


def gunion(dct):
    from root.config.main import COMM
    out = {}
    for x in COMM.allgather(dct):
        for k, v in x.items():
            out.setdefault(k, []).extend(v)
    return out


def selected_global(orc, f, on, bns, per, t, scalar):
    """{global dof: admissible values} over all ranks"""
    loc = {}
    GM = f.numbering.gathering
    w = expected(orc, on, bns, per, t, scalar) if per is not None else \
        {e: {n: [] for bn in bns for (x, s) in on[bn] if x == e for n in orc.dofs_of(s)}
         for e in {e for bn in bns for e, _ in on[bn]}}
    for e in w:
        v = GM[e].full_vector
        for n, vals in w[e].items():
            loc.setdefault(int(v[n]), []).extend(vals)
    return gunion(loc)


def check_system(r, A0, b0, A1, b1, rows, off, tag, tol, cols=None):
    """rows: {global row: values}; every other row unchanged; cols: {row: column} (default: the row itself)"""
    r.n += 1
    sel = np.zeros(A0.shape[0], bool)
    for g in rows:
        sel[g + off] = True
    dA = np.abs(A1 - A0).max(axis=1) if A0.size else np.zeros(0)
    wrong = [int(i) for i in np.flatnonzero(~sel) if dA[i] > 1e-12 * max(1, np.abs(A0).max())
             or abs(b1[i] - b0[i]) > 1e-12 * max(1, np.abs(b0).max())]
    if wrong:
        r.bad.append(('imposition-other-rows', f'{tag}: rows {wrong[:8]} do not belong to the boundary but were changed'))
        return
    for g, vals in rows.items():
        i = g + off
        j = i if cols is None else cols[g]
        row = A1[i].copy()
        dgn = row[j]
        row[j] = 0
        if np.abs(row).max() > 1e-12 * max(1, abs(dgn)) or not dgn > 0.5:
            r.bad.append(('imposition-row', f'{tag}: row {i} (selected dof) is not a multiple of unit row {j}: diagonal '
                                            f'{dgn}, largest other entry {np.abs(row).max()}'))
            return
        if vals and not min(abs(b1[i] / dgn - v) for v in vals) <= tol * max(1., max(abs(v) for v in vals)):
            r.bad.append(('imposition-value', f'{tag}: dof {i} is fixed to {b1[i]/dgn}, expected one of {vals[:3]}'))
            return


def impose(spec, part, p, ID, hyb, tol, nsub, fmt='csc'):
    from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
    from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
    from tools.miLinearAlgebra.linearSystem.main import LinearSystem
    from mc.scen.std import cochain
    mesh = cm.make_mesh(spec, part)
    d = mesh.ndim
    space = cm.make_space(d, p)
    F = cm.masters(d).FormCaller(mesh, space)
    on = sides_on(mesh)
    r = Rec()
    f = lb.make_form(F, ID, bool(hyb))
    orc = Oracle(F, ID, bool(hyb), mesh, f)
    f.cochain.local = {e: cochain(3, f.num.basis) for e in mesh.elements}
    M = f.matrices.mass
    cfs = (CFS3 if d == 3 else CFS2).get(ID, [])
    per, scalar = None, True
    if cfs:
        cls, ty = cfs[0]
        f.BC.CF, per = make_cf(F, mesh, cls, ty, 1)
        f.BC.CF.current_time = 1.
        scalar = cls == 'scalar'
    names = sorted(mesh.boundaries.names)
    subs = [list(c) for m in range(len(names) + 1) for c in itertools.combinations(names, m)]
    if len(subs) > nsub:
        k = len(subs) / nsub
        subs = [s for s in subs if len(s) <= 1] + [subs[int(i * k)] for i in range(nsub)] + [names]
    # one field, and two fields (second block is the same form again: block offsets)
    for nb in (1, 2):
        mats = [[M]] if nb == 1 else [[M, M], [None, M]]
        A = bmat(mats, format=fmt) if False else bmat(mats)
        b = concatenate([f.cochain.EWC] * nb)
        A.gathering_matrices = ([f] * nb, [f] * nb)
        b.gathering_matrix = [f] * nb
        LS = LinearSystem(A, b)
        n = f.num.global_dofs
        A0, b0 = gdense(LS.A.assembled), gdense(LS.b.assembled).ravel()
        for k, bns in enumerate(subs if nb == 1 else subs[::4] + [names]):
            tag = f'{ID} hybrid={bool(hyb)} {nb} block(s) boundaries={bns}'
            blk = nb - 1
            LS.customize.clear()
            rows = {}
            # one application, or one after another for every boundary
            for group in ([bns] if k % 2 == 0 or len(bns) < 2 else [[x] for x in bns]):
                f.BC.boundaries = group
                if per is not None:
                    LS.customize.apply_strong_BC(blk, blk, f if k % 3 else f.BC.interpret)
                else:
                    LS.A.customize.identify_global_rows_according_to(blk, f.BC.interpret)
                    LS.b.customize.set_constant_entries_according_to(blk, f.BC.interpret, 2.5)
            rows = selected_global(orc, f, on, bns, per, 1., scalar)
            if per is None:
                rows = {g: [2.5] for g in rows}
            A1, b1 = gdense(LS.A.assembled), gdense(LS.b.assembled).ravel()
            check_system(r, A0, b0, A1, b1, rows, blk * n, tag, tol)
        LS.customize.clear()
        A1, b1 = gdense(LS.A.assembled), gdense(LS.b.assembled).ravel()
        r.eq(A1, A0, 'clear', f'{ID}: cleared system differs', tol=1e-13)
        r.eq(b1, b0, 'clear', f'{ID}: cleared right-hand side differs', tol=1e-13)
    return r.out()


def impose_offdiag(spec, part, p, k, tol, nsub):
    """row block of a trace form, columns of the standard form: T u = given value on the boundaries"""
    from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
    from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
    from tools.miLinearAlgebra.linearSystem.main import LinearSystem
    from mc.scen.std import cochain
    mesh = cm.make_mesh(spec, part)
    d = mesh.ndim
    space = cm.make_space(d, p)
    F = cm.masters(d).FormCaller(mesh, space)
    on = sides_on(mesh)
    r = Rec()
    fID, tID = (f'{k}-f', f'{k}-t') if d == 3 else ('1-f-o', '1-t-o')
    f, t = F(fID, hybrid=True), F(tID, hybrid=True)
    of, ot = Oracle(F, fID, True, mesh, f), Oracle(F, tID, True, mesh, t)
    cls = 'scalar' if k == 0 else 'vector'
    f.BC.CF, per = make_cf(F, mesh, cls, 'standard', 2)
    f.BC.CF.current_time = 1.
    f.cochain.local = {e: cochain(3, f.num.basis) for e in mesh.elements}

    T = t.matrices.trace
    A = bmat([[f.matrices.mass, T.T], [T, None]])
    b = concatenate([f.cochain.EWC, T @ f.cochain.EWC])
    A.gathering_matrices = ([f, t], [f, t])
    b.gathering_matrix = [f, t]
    LS = LinearSystem(A, b)
    n = f.num.global_dofs
    A0, b0 = gdense(LS.A.assembled), gdense(LS.b.assembled).ravel()
    names = sorted(mesh.boundaries.names)
    subs = [list(c) for m in range(len(names) + 1) for c in itertools.combinations(names, m)]
    if len(subs) > nsub:
        kk = len(subs) / nsub
        subs = [subs[int(i * kk)] for i in range(nsub)] + [names, names[::-1]]
    for bns in subs:
        LS.customize.clear()
        f.BC.boundaries = bns
        t.BC.boundaries = list(bns)
        LS.customize.apply_strong_BC(1, 0, t, f)
        rows, cols = {}, {}
        lf = {lab: m for m, lab in enumerate(of.labels)}
        for bn in bns:
            for e, s in on[bn]:
                v = of.values(e, per[bn], 1., s, cls == 'scalar')
                gf, gt = f.numbering.gathering[e].full_vector, t.numbering.gathering[e].full_vector
                for m in ot.dofs_of(s):
                    lab = ot.labels[m]
                    c = lb.AX[s] if (k == 2 or d == 2) else lab[0]
                    j = lf[c, lab[1]]
                    rows.setdefault(int(gt[m]), []).append(float(v[j]))
                    cols.setdefault(int(gt[m]), []).append(int(gf[j]))
        rows = gunion(rows)
        cols = {a: x[0] for a, x in gunion(cols).items()}
        A1, b1 = gdense(LS.A.assembled), gdense(LS.b.assembled).ravel()
        check_system(r, A0, b0, A1, b1, rows, n, f'{tID}<-{fID} boundaries={bns}', tol, cols)
    return r.out()


def natural(spec, part, p, tol):
    """the boundary integrals of the natural conditions: (basis, given boundary-wise field) over the domain boundary"""
    r = Rec()
    mesh = cm.make_mesh(spec, part)
    d = mesh.ndim
    F = cm.masters(d).FormCaller(mesh, cm.make_space(d, p))
    on = sides_on(mesh)
    ID = '1-f' if d == 3 else '0-f-o'
    f = F(ID, hybrid=True)
    loc = Local(f, ID, d)
    for off in (0, 3):
        cf, per = make_cf(F, mesh, 'vector' if d == 3 else 'scalar', 'boundary-wise', off)
        vec = f.do.boundary_integrate(cf, quad_degree=[4 + a for a in range(d)])
        for t in (0., 1.5, 0.5):
            cf.current_time = t
            for e in mesh.elements:
                el = mesh.elements[e]
                want = np.zeros(len(loc.labels))
                for bn in on:
                    for e_, s in on[bn]:
                        if e_ == e:
                            want += side_integral(loc, el, per[bn], t, s, d)
                try:
                    got = dense(vec[e]).ravel()
                except NotImplementedError:
                    r.n += 1
                    continue
                r.eq(got, want, 'natural', f'{ID} element {e} time {t} field {off}', tol)
    return r.out()


def side_integral(loc, el, fs, t, side, d):
    ax = lb.AX[side]
    axes, w = [], np.ones(1)
    for a in range(d):
        q = (np.array([1. if side in lb.HI else -1.]), np.ones(1)) if a == ax else gauss(7)
        axes.append(q[0])
        w = (q[1][:, None] * w[None, :]).ravel()
    J = Jmat(el, grid(axes), d)
    fr = [a for a in range(d) if a != ax]
    if d == 3:
        dS = np.linalg.norm(np.cross(J[:, fr[0]], J[:, fr[1]], axis=0), axis=0)
    else:
        dS = np.linalg.norm(J[:, fr[0]], axis=0)
    A = loc.physical(axes, J)
    xyz = el.coordinate_transformation.mapping(*grid(axes))
    return sum(A[c] @ (w * dS * (g(t, *xyz) + 0 * xyz[0])) for c, g in enumerate(fs))
