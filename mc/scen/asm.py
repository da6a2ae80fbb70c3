"""C07: all sequences of customizations, data changes, locks and assemblies of a block system vs a dense global model"""
import itertools
import numpy as np
from scipy import sparse as sp
from mc.scen import common as cm
from mc.scen import labels as lb
from mc.scen import bc
from mc.scen.ct import Rec
from mc.scen.std import dense

K = {2: (('0-f-o', False), ('1-f-o', False)), 3: (('0-f', False), ('2-f', False))}
# c C: clear row (shared dof of block 0 / dof of block 1)   m M n: set entry (diagonal / off-diagonal / cross block)
# i I: identity row   u U: set unknown    v V: set entry of the vector   B b: boundary condition on block 0 / 1
# X: clear customizations   D: data of the elements changes   A: assemble and compare
# L l: lock / unlock the assembled matrix      S s: lock / unlock the sparsity
OPS = 'cCmMniIuUvVBbXDALlSs'


def entry(ver, blk, e, i, j):
    return 1 + (7 * ver + 3 * blk + 5 * e + 2 * i + 11 * j) % 17 + 40 * (i == j)


class Sys:
    def __init__(self, spec, part, p, method, fmt, hole):
        from tools.elementwiseCache.dataStructures.objects.sparseMatrix.main import EWC_SparseMatrix
        from tools.elementwiseCache.dataStructures.objects.columnVector.main import EWC_ColumnVector
        from root.config.main import COMM
        self.COMM = COMM
        mesh = self.mesh = cm.make_mesh(spec, part)
        d = mesh.ndim
        F = self.F = cm.masters(d).FormCaller(mesh, cm.make_space(d, p))
        self.kinds = K[d]
        self.f = [lb.make_form(F, *k) for k in self.kinds]
        self.method, self.fmt, self.hole = method, fmt, hole
        self.ver = 0
        self.nb = [f.num.basis for f in self.f]
        self.center = {e: round(float(np.sum(np.array(cm.center(mesh, e)) * [1, 10, 100][:d])) * 64) for e in mesh.elements}
        self.M = {}
        for a in (0, 1):
            for b in (0, 1):
                if hole and a == b == 1:
                    self.M[a, b] = None
                else:
                    self.M[a, b] = EWC_SparseMatrix(mesh.elements, self.gen(a, b), 'no_cache')
        self.V = [EWC_ColumnVector(mesh.elements, self.vgen(a), 'no_cache') for a in (0, 1)]
        for a in (0, 1):
            self.V[a].gathering_matrix = self.f[a]
        # numbering of the chain, as it is (C19 checks it): global numbers per element
        A, b = self.make()[:2]
        self.gn = {e: np.array(A.gathering_matrices[0][e]) for e in mesh.elements}
        self.N = A.gathering_matrices[0].global_num_dofs
        self.base = {v: self.sum(v) for v in (0, 1)}
        self.names = sorted(mesh.boundaries.names)
        self.on = bc.sides_on(mesh)
        self.bc = []
        for a, bn in ((0, self.names[:1]), (1, self.names[1:2])):
            f = self.f[a]
            ID, hyb = self.kinds[a]
            f.BC.boundaries = bn
            cfs = (bc.CFS3 if d == 3 else bc.CFS2).get(ID, [])
            orc = bc.Oracle(F, ID, hyb, mesh, f)
            per = None
            if cfs:
                f.BC.CF, per = bc.make_cf(F, mesh, *cfs[0], 1)
                f.BC.CF.current_time = 1.
            rows = bc.selected_global(orc, f, self.on, bn, per, 1., not cfs or cfs[0][0] == 'scalar')
            # numbers of f -> numbers of the chain
            loc = {int(g): int(c) for e in mesh.elements for g, c in
                   zip(f.numbering.gathering[e].full_vector, self.gn[e][a * self.nb[0]:][:self.nb[a]])}
            m = {}
            for x in COMM.allgather(loc):
                m.update(x)
            self.bc.append((f.BC.interpret, per is not None, {m[g]: (float(np.mean(v)) if per is not None else 2.5) for g, v in rows.items()}))
        # interesting global numbers: held by most elements / few; in terms of (block)
        cnt = {}
        for e in mesh.elements:
            for k, g in enumerate(self.gn[e]):
                cnt.setdefault(int(g), [0, 0 if k < self.nb[0] else 1])[0] += 1
        tot = {}
        for x in COMM.allgather(cnt):
            for g, (n, a) in x.items():
                tot.setdefault(g, [0, a])[0] += n
        b0 = sorted((g for g in tot if tot[g][1] == 0), key=lambda g: (-tot[g][0], g))
        b1 = sorted((g for g in tot if tot[g][1] == 1), key=lambda g: (-tot[g][0], g))
        self.s, self.t = b0[0], b1[0]
        # a neighbour of s with which it shares more than one element if possible
        sh = {}
        for x in COMM.allgather([self.gn[e].tolist() for e in mesh.elements]):
            for gv in x:
                if self.s in gv:
                    for g in gv:
                        sh[g] = sh.get(g, 0) + 1
        nbs = sorted((g for g in sh if g != self.s), key=lambda g: (-sh[g], g))
        self.w = [g for g in nbs if tot[g][1] == 0][0]
        self.x = [g for g in nbs if tot[g][1] == 1][0]

    def gen(self, a, b):
        def g(e):
            D = np.array([[entry(self.ver, 2 * a + b, self.center[e], i, j) for j in range(self.nb[b])] for i in range(self.nb[a])], float)
            return sp.csr_matrix(D) if (a + b) % 2 else sp.csc_matrix(D)
        return g

    def vgen(self, a):
        def g(e):
            return sp.csc_matrix(np.array([[entry(self.ver, 5 + a, self.center[e], i, i)] for i in range(self.nb[a])], float))
        return g

    def make(self):
        from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
        from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
        from tools.miLinearAlgebra.linearSystem.main import LinearSystem
        A = bmat([[self.M[0, 0], self.M[0, 1]], [self.M[1, 0], self.M[1, 1]]])
        b = concatenate(self.V)
        A.assembler.chain_method = self.method
        A.assembler.format = self.fmt
        b.assembler.chain_method = self.method
        A.gathering_matrices = (self.f, self.f)
        b.gathering_matrix = self.f
        return A, b, LinearSystem(A, b)

    def sum(self, v):
        old, self.ver = self.ver, v
        A, b = np.zeros((self.N, self.N)), np.zeros(self.N)
        for e in self.mesh.elements:
            g, n = self.gn[e], self.nb[0]
            for a in (0, 1):
                rows = g[:n] if a == 0 else g[n:]
                np.add.at(b, rows, dense(self.vgen(a)(e)).ravel())
                for c in (0, 1):
                    if self.M[a, c] is not None:
                        cols = g[:n] if c == 0 else g[n:]
                        np.add.at(A, np.ix_(rows, cols), dense(self.gen(a, c)(e)))
        self.ver = old
        return sum(self.COMM.allgather(A)), sum(self.COMM.allgather(b))


class Model:
    """custom: list of (kind, args) in order; value() applies them to the base sums"""
    def __init__(self, S):
        self.S = S
        self.cA, self.cb = [], []

    def matrix(self, ver):
        A, scaled = self.S.base[ver][0].copy(), set()
        for k, *a in self.cA:
            if k == 'row0':
                A[a[0]] = 0
                scaled.discard(a[0])
            elif k == 'set':
                A[a[0], a[1]] = a[2]
            elif k == 'bc':
                for g in a[0]:
                    A[g] = 0
                    A[g, g] = 1
                    scaled.add(g)
        return A, scaled

    def vector(self, ver):
        b, scaled = self.S.base[ver][1].copy(), {}
        for k, *a in self.cb:
            if k == 'set':
                b[a[0]] = a[1]
                scaled.pop(a[0], None)
            else:
                for g, v in a[0].items():
                    scaled[g] = v
                    b[g] = 0
        return b, scaled


def sequences(first, depth, ops):
    """all sequences; an assembly is appended. Sequences that are refused by contract (customizing a locked matrix, setting
    single entries of a row owned by a boundary condition) are left out"""
    for rest in itertools.product(ops, repeat=depth - 1):
        seq = first + ''.join(rest)
        L = T = False
        okay, rowbc, vecbc = True, False, False
        for o in seq:
            if o == 'L':
                okay &= not L
                L = True
            elif o == 'l':
                okay &= L
                L = False
            elif o == 'S':
                okay &= not T
                T = True
            elif o == 's':
                okay &= T
                T = False
            elif o in 'cCmMniIuUBbX' and (L or T):
                okay = False
            if not okay:
                break
        if okay:
            yield seq


def run(spec, part, p, method, fmt, hole, first, depth, ops=OPS):
    S = Sys(spec, part, p, method, fmt, hole)
    r = Rec()
    n = 0
    # a chained number the boundary conditions do not touch is preferred, but not needed
    touched = set(S.bc[0][2]) | set(S.bc[1][2])
    for seq in (x for fo in first for x in sequences(fo, depth, ops)):
        if any(x in seq for x in 'Bb') and any(x in seq for x in 'mMn') and S.s in touched:
            continue
        n += 1
        S.ver = 0
        A, b, LS = S.make()
        m = Model(S)
        frozen = None                       # what a locked matrix keeps
        lock = False

        def compare(tag):
            nonlocal frozen
            got = bc.gdense(LS.A.assembled)
            gb = bc.gdense(LS.b.assembled).ravel()
            r.n += 2
            want, scaled = m.matrix(S.ver)
            if lock:
                if frozen is None:
                    frozen = (want, scaled)
                want, scaled = frozen
            got = got.copy()
            f = np.ones(S.N)
            for g in scaled:
                f[g] = got[g, g] if got[g, g] else 1.
                got[g] /= f[g]
            if not np.allclose(got, want, rtol=0, atol=1e-10):
                i, j = np.argwhere(~np.isclose(got, want, rtol=0, atol=1e-10))[0]
                r.bad.append(('matrix', f'{tag}: A[{i},{j}] = {got[i, j]}, expected {want[i, j]} (s={S.s}, t={S.t}, w={S.w}, x={S.x})'))
                return False
            if lock:                          # the vector is not locked: its imposed entries have no partner row to be scaled with
                return True
            wb, sb = m.vector(S.ver)
            for g, v in sb.items():
                if g in scaled:
                    if abs(gb[g] / f[g] - v) > 1e-8:
                        r.bad.append(('vector', f'{tag}: imposed value of {g}: {gb[g] / f[g]}, expected {v}'))
                        return False
                gb[g] = wb[g] = 0
            if not np.allclose(gb, wb, rtol=0, atol=1e-10):
                i = np.argwhere(~np.isclose(gb, wb, rtol=0, atol=1e-10))[0][0]
                r.bad.append(('vector', f'{tag}: b[{i}] = {gb[i]}, expected {wb[i]} (s={S.s}, t={S.t})'))
                return False
            return True
        ok = True
        for k, o in enumerate(seq):
            cu = LS.customize
            tag = f'{seq[:k + 1]} {method} {fmt} hole={hole}'
            if o in 'cC':
                g = S.s if o == 'c' else S.t
                LS.A.customize.clear_global_row(g)
                m.cA.append(('row0', g))
            elif o in 'mMn':
                i, j, v = {'m': (S.s, S.s, 3.5), 'M': (S.s, S.w, -2.), 'n': (S.x, S.s, 0.75)}[o]
                LS.A.customize.set_assembled_M_ij_to(i, j, v)
                m.cA.append(('set', i, j, v))
            elif o in 'iI':
                g = S.s if o == 'i' else S.w
                (cu if o == 'i' else LS.A.customize).identify_global_row(g)
                m.cA += [('row0', g), ('set', g, g, 1.)]
            elif o in 'uU':
                g, v = (S.s, 4.) if o == 'u' else (S.w, -1.5)
                cu.set_unknown_to(g, v)
                m.cA += [('row0', g), ('set', g, g, 1.)]
                m.cb.append(('set', g, v))
            elif o in 'vV':
                g, v = (S.s, 9.) if o == 'v' else (S.t, 0.)
                LS.b.customize.set_assembled_V_i_to(g, v)
                m.cb.append(('set', g, v))
            elif o in 'Bb':
                a = 'Bb'.index(o)
                itp, hascf, rows = S.bc[a]
                if hascf:
                    cu.apply_strong_BC(a, a, itp)
                else:
                    LS.A.customize.identify_global_rows_according_to(a, itp)
                    LS.b.customize.set_constant_entries_according_to(a, itp, 2.5)
                m.cA.append(('bc', rows))
                m.cb.append(('bc', rows))
            elif o == 'X':
                cu.clear()
                m.cA, m.cb = [], []
            elif o == 'D':
                S.ver = 1 - S.ver
            elif o == 'A':
                ok = compare(tag)
            elif o == 'L':
                LS.A.do.lock_assembled_matrix()
                lock, frozen = True, None
            elif o == 'l':
                LS.A.do.unlock_assembled_matrix()
                lock, frozen = False, None
            elif o == 'S':
                LS.A.do.lock_sparsity()
            elif o == 's':
                LS.A.do.unlock_sparsity()
            if not ok:
                break
        if ok:
            ok = compare(f'{seq}| {method} {fmt} hole={hole}')
        if ok:
            ok = compare(f'{seq}|| {method} {fmt} hole={hole}')       # assembling again
        if ok and not n % 7:
            # the blocks are not changed by what happened to the system
            S.ver = 0
            for (a, c), M in S.M.items():
                if M is not None:
                    for e in S.mesh.elements:
                        r.eq(dense(M[e]), dense(S.gen(a, c)(e)), 'blocks', f'{seq}: block {a}{c} element {e}', tol=1e-14)
        if len(r.bad) > 10:
            break
    return r.out(seqs=n)
