"""C09: every solver routine on small systems, every spread of the entries over the ranks"""
import contextlib
import io
import itertools
import warnings
import numpy as np
from scipy import sparse as sp
from mc.scen.ct import Rec


def family(n):
    """named nonsingular matrices of size n"""
    i = np.arange(n)
    out = {}
    T = 2.5 * np.eye(n) - np.diag(np.ones(n - 1), 1) - np.diag(np.ones(n - 1), -1)
    out['spd'] = T
    out['identity'] = np.eye(n)
    out['scaled'] = np.diag(3. ** (i % 4))
    out['unsym'] = T + 0.6 * np.diag(np.ones(n - 1), 1) + 0.3 * np.outer(np.sin(i + 1), np.cos(2 * i))
    out['indef'] = np.diag((-1.) ** i * (1 + i)) + 0.3 * (np.diag(np.ones(n - 1), 1) + np.diag(np.ones(n - 1), -1))
    out['upper'] = np.triu(np.outer(np.cos(i), np.sin(i + 1)), 1) + np.diag(2. + i % 3)
    if n > 1:
        out['cyclic'] = np.roll(np.eye(n), 1, axis=0) + 0.5 * np.eye(n)
        out['shift'] = np.roll(np.eye(n), 1, axis=0)
    return out


def rhss(n, A):
    i = np.arange(n)
    return {'zero': np.zeros(n), 'e0': np.eye(n)[0], 'generic': np.round(np.sin(3. * i + 1) * 2 + 0.3, 3), 'eig': A @ np.ones(n),
            'small': 1e-3 * np.cos(i), 'large': 1e4 * np.cos(2. * i)}


def guesses(n, A, b):
    i = np.arange(n)
    return {'none': 0, 'zero': np.zeros(n), 'exact': np.linalg.solve(A, b), 'generic': np.cos(5. * i) + 0.1}


def spread(n, size, k):
    """the k-th way of storing an n x n matrix and a vector on the ranks: owner of every row (None: split over all ranks)"""
    ways = [tuple(None for _ in range(n)), tuple(min(r * size // n, size - 1) for r in range(n)), tuple((n - 1 - r) % size for r in range(n))]
    ways += [tuple(q for _ in range(n)) for q in range(size)]
    ways += [tuple(None if r % 2 else (r // 2) % size for r in range(n))]
    return ways[k % len(ways)], len(ways)


def make(A, b, own, fmt='csr'):
    from root.config.main import RANK, SIZE
    from tools.miLinearAlgebra.dataStructures.globalMatrix.main import GlobalMatrix
    from tools.miLinearAlgebra.dataStructures.vectors.GLOBAL.main import GlobalVector
    n = len(b)
    M, v = np.zeros((n, n)), np.zeros((n, 1))
    for r in range(n):
        if own[r] is None:
            # parts that add up, of different size on each rank
            w = np.array([(k + 2.) * (-1) ** k for k in range(SIZE)])
            w = w + (1 - w.sum()) / SIZE
            M[r] = A[r] * w[RANK]
            v[r] = b[r] * w[SIZE - 1 - RANK]
        elif own[r] == RANK:
            M[r] = A[r]
            v[r] = b[r]
    cls = dict(csr=sp.csr_matrix, csc=sp.csc_matrix)[fmt]
    return GlobalMatrix(cls(M)), GlobalVector(sp.csc_matrix(v))


def total(x):
    from root.config.main import COMM
    return sum(COMM.allgather(np.asarray(x.toarray(), float)))


# solver -> routines; parameters
def plans(solver, n):
    if solver == 'GMRES':
        for rt in ('auto', '0', '1', 'sp'):
            for rs in (3, n + 2, 100):
                for mx in (1, 20, '3') if rt != 'sp' else (1, 20):
                    yield rt, dict(restart=rs, maxiter=mx)
    elif solver == 'LGMRES':
        for rt in ('auto', '0', 'sp'):
            for m, k in ((3, 1), (n + 3, 2), (100, 10), (3, 0)):
                for mx in (1, 20, '3') if rt != 'sp' else (1, 20):
                    yield rt, dict(m=m, k=k, maxiter=mx)
    elif solver == 'BiCGSTAB':
        for mx in (1, 30, '3'):
            yield 'auto', dict(maxiter=mx)
    elif solver == 'TFQMR':
        for mx in (1, 40):
            yield 'auto', dict(maxiter=mx)
    elif solver == 'GCROTmk':
        for m, k in ((20, None), (3, 2)):
            for mx in (1, 20):
                yield 'auto', dict(m=m, k=k, maxiter=mx)
    else:
        yield 'auto', {}


def run(S, A, b, kw):
    from components.exceptions import LinerSystemSolverDivergenceError
    with warnings.catch_warnings(), np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        try:
            return S(A, b, **kw)
        except LinerSystemSolverDivergenceError:
            return 'diverged'



def mode_of(solver, rt):
    """'mpi': residual and iterations are reported; 'sp': scipy on the master"""
    return 'sp' if rt == 'sp' or solver in ('TFQMR', 'GCROTmk') else 'direct' if solver == 'direct' else 'mpi'


def check_result(r, R, A, b, x0, pc, mode, par, tol, atol, tag, nice, COMM):
    """the property on one returned result; gives the vector or None"""
    r.n += 1
    div = R == 'diverged' if isinstance(R, str) else False
    info, beta, it = (None, None, None) if div else (R[1], R[2], R[3])
    key = 'diverged' if div else (np.asarray(R[0].V).tobytes(), repr(info), repr(beta), repr(it))
    if len(set(COMM.allgather(key))) != 1:
        r.bad.append(('ranks-differ', f'{tag}: ranks return different results (info {COMM.allgather(info)}, residual {COMM.allgather(beta)})'))
        return None
    if div:
        if nice:
            r.bad.append(('no-solution', f'{tag}: reported divergence'))
        return None
    x = np.asarray(R[0].V, float)
    if x.shape != b.shape:
        r.bad.append(('shape', f'{tag}: shape {x.shape}'))
        return None
    res = b - A @ x
    if pc == 'Jacobi':
        res = res / np.diag(A)
        b = b / np.diag(A)
    true = float(np.linalg.norm(res))
    size = float(np.linalg.norm(b)) + float(np.max(np.abs(A))) * float(np.linalg.norm(x))
    if mode == 'mpi':
        if not (abs(beta - true) <= 1e-11 * (1 + size) or (true != true and beta != beta)):
            r.bad.append(('residual', f'{tag}: reported residual {beta}, true {true}'))
        if it > int(par['maxiter']):
            r.bad.append(('maxiter', f'{tag}: {it} iterations, at most {par["maxiter"]}'))
        if isinstance(par['maxiter'], str) and it != int(par['maxiter']):
            r.bad.append(('maxiter', f'{tag}: {it} iterations instead of the forced {par["maxiter"]}'))
        lim = atol
    elif mode == 'sp':
        lim = max(atol, tol * float(np.linalg.norm(b)))
        lim = lim * (20 if pc else 1)                   # preconditioned residual norms in scipy
    else:
        lim = 0.
    if info == 0 and not true <= lim * (1 + 1e-6) + 1e-11 * (1 + size):
        r.bad.append(('false-success', f'{tag}: success reported, residual {true}, allowed {lim}'))
    if mode == 'direct' and info != 0:
        r.bad.append(('no-solution', f'{tag}: info={info}'))
    if nice and not isinstance(par.get('maxiter'), str) and info != 0:
        r.bad.append(('no-solution', f'{tag}: info={info}, residual {true}'))
    if nice and isinstance(par.get('maxiter'), str) and not true <= 1e-7 * (1 + size):
        r.bad.append(('no-solution', f'{tag}: residual {true} after the forced iterations'))
    return x


def well_posed(solver, rt, nm, n, par):
    """the method is known to reach the solution of this small system with these parameters"""
    mx = int(par.get('maxiter', 1))
    if solver == 'direct':
        return True
    if mode_of(solver, rt) == 'sp':
        return False
    if solver == 'GMRES':
        return par['restart'] > n and mx >= 3
    if solver == 'LGMRES':
        return par['m'] > n and mx >= 3
    return nm in ('spd', 'identity', 'scaled') and mx >= 20


def systems(ns, names=None):
    for n in ns:
        for nm, A in family(n).items():
            if names is None or nm in names:
                for bn, b in rhss(n, A).items():
                    for gn, g in guesses(n, A, b).items():
                        yield n, nm, A, bn, b, gn, g


def solve(solver, ns, spreads, part, formats=('csr', 'csc')):
    """every matrix x right-hand side x guess x routine x parameters x preconditioner x storage"""
    from root.config.main import COMM, SIZE
    from tools.miLinearAlgebra.solvers.regular.allocator import RegularSolverDistributor as RSD
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector as LFV
    r = Rec()
    tol, atol = 1e-5, 1e-8
    k = -1
    for n, nm, A, bn, b, gn, g in systems(ns):
        pcs = [None]
        if solver != 'direct':
            pcs.append('pc')
        for rt, par in plans(solver, n):
            for pc in pcs:
                for sk in spreads:
                    k += 1
                    if k % part[1] != part[0]:
                        continue
                    mode = mode_of(solver, rt)
                    p = None if pc is None else 'spiLU' if mode == 'sp' else 'Jacobi'
                    if p == 'Jacobi' and np.any(np.diag(A) == 0) or p == 'spiLU' and solver == 'LGMRES' and nm == 'shift':
                        continue
                    own, ways = spread(n, SIZE, sk)
                    fmt = formats[k % len(formats)]
                    cod = bool((k // 2) % 2)
                    GA, Gb = make(A, b, own, fmt)
                    x0 = 0 if isinstance(g, int) else LFV(g.copy())
                    kw = dict(par, COD=cod)
                    if solver != 'direct':
                        kw.update(tol=tol, atol=atol, x0=x0)
                        if p:
                            kw['preconditioner'] = p if k % 3 else (p, dict())
                    tag = f'{solver}/{rt} {par} {p} n={n} {nm} b={bn} x0={gn} rows on {own} {fmt} COD={cod}'
                    try:
                        R = run(RSD(solver, rt), GA, Gb, kw)
                    except Exception as e:
                        r.bad.append(('raises', f'{tag}: {type(e).__name__}: {e}'))
                        return r.out()                  # the ranks may be out of step now
                    nice = well_posed(solver, rt, nm, n, par) and not (solver == 'BiCGSTAB' and bn == 'large' and isinstance(par['maxiter'], str))
                    if isinstance(par.get('maxiter'), str) and solver == 'BiCGSTAB':
                        nice = False
                    check_result(r, R, A, b, g, p, mode, par, tol, atol, tag, nice, COMM)
                    if not cod:
                        if not np.array_equal(total(GA.M), sum_exact(A, own)) or not np.array_equal(total(Gb.V).ravel(), sum_exact(b, own)) or \
                                (not isinstance(x0, int) and not np.array_equal(np.ravel(x0.V), g)):
                            r.bad.append(('operands', f'{tag}: the operands changed'))
                    if len(r.bad) > 10:
                        return r.out()
    return r.out()


def sum_exact(D, own):
    """what the parts of make() add up to, in floating point"""
    from root.config.main import SIZE
    D = np.asarray(D, float)
    parts = []
    for rank in range(SIZE):
        M = np.zeros(D.shape)
        for q in range(D.shape[0]):
            if own[q] is None:
                w = np.array([(k + 2.) * (-1) ** k for k in range(SIZE)])
                w = w + (1 - w.sum()) / SIZE
                M[q] = D[q] * (w[rank] if D.ndim == 2 else w[SIZE - 1 - rank])
            elif own[q] == rank:
                M[q] = D[q]
        parts.append(M)
    return sum(parts)


def reuse(depth, part):
    """every sequence of solvers on the same kept operands, each starting from the previous result"""
    from root.config.main import COMM, SIZE
    from tools.miLinearAlgebra.solvers.regular.allocator import RegularSolverDistributor as RSD
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector as LFV
    r = Rec()
    n = 4
    L = [('direct', 'auto', {}), ('GMRES', '0', dict(restart=6, maxiter=5)), ('GMRES', '1', dict(restart=3, maxiter=4)),
         ('LGMRES', '0', dict(m=6, k=2, maxiter='3')), ('BiCGSTAB', 'auto', dict(maxiter=9)), ('TFQMR', 'auto', dict(maxiter=30)),
         ('GCROTmk', 'auto', dict(maxiter=20)), ('GMRES', 'sp', dict(restart=6, maxiter=9)), ('GMRES', '0', dict(restart=6, maxiter=5, preconditioner='Jacobi')),
         ('TFQMR', 'auto', dict(maxiter=30, preconditioner='spiLU'))]
    for j, seq in enumerate(itertools.product(range(len(L)), repeat=depth)):
        if j % part[1] != part[0]:
            continue
        A = family(n)[('spd', 'unsym', 'upper')[j % 3]]
        b = rhss(n, A)['generic']
        own, _ = spread(n, SIZE, j)
        GA, Gb = make(A, b, own)
        x = LFV(np.cos(np.arange(n)))
        for st, q in enumerate(seq):
            s, rt, par = L[q]
            kw = dict(par, COD=False)
            if s != 'direct':
                kw.update(tol=1e-6, atol=1e-9, x0=x)
            before = np.array(x.V)
            tag = f'step {st} of {[L[z] for z in seq]} rows on {own}'
            try:
                R = run(RSD(s, rt), GA, Gb, kw)
            except Exception as e:
                r.bad.append(('raises', f'{tag}: {type(e).__name__}: {e}'))
                return r.out()
            check_result(r, R, A, b, before, par.get('preconditioner'), mode_of(s, rt), par, 1e-6, 1e-9, tag, False, COMM)
            if R != 'diverged':
                if not np.array_equal(np.ravel(x.V), np.ravel(before)):
                    r.bad.append(('operands', f'{tag}: the initial guess changed'))
                x = R[0]
            if not np.array_equal(total(GA.M), sum_exact(A, own)) or not np.array_equal(total(Gb.V).ravel(), sum_exact(b, own)):
                r.bad.append(('operands', f'{tag}: the operands changed'))
            if not np.all(np.isfinite(x.V)):
                if mode_of(s, rt) != 'sp':
                    r.bad.append(('nan', f'{tag}: not a number'))
                break
    return r.out()


def schur(spec, part, p, kinds, blocks, seed):
    """element-wise elimination of the leading blocks against a dense solution of the whole system"""
    from root.config.main import COMM
    from mc.scen import common as cm
    from mc.scen import labels as lb
    from tools.elementwiseCache.dataStructures.objects.sparseMatrix.main import EWC_SparseMatrix
    from tools.elementwiseCache.dataStructures.objects.columnVector.main import EWC_ColumnVector
    from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
    from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
    from tools.miLinearAlgebra.linearSystem.main import LinearSystem
    r = Rec()
    mesh = cm.make_mesh(spec, part)
    d = mesh.ndim
    F = cm.masters(d).FormCaller(mesh, cm.make_space(d, p))
    fs = [lb.make_form(F, *k) for k in kinds]
    nb = [f.num.basis for f in fs]
    code = {e: round(float(np.sum(np.array(cm.center(mesh, e)) * [1, 10, 100][:d])) * 64) for e in mesh.elements}
    B = len(fs)

    def blk(a, b_, e):
        i, j = np.meshgrid(np.arange(nb[a]), np.arange(nb[b_]), indexing='ij')
        M = 0.05 * np.sin(1.3 * i + 2.1 * j + 0.7 * code[e] + a + 3 * b_ + seed)
        if a == b_:
            M = M + np.diag(2. + np.arange(nb[a]) % 3 + (code[e] % 5) / 7 + a)
        return M

    def vec(a, e):
        return np.cos(0.9 * np.arange(nb[a]) + code[e] + 2 * a + seed)
    holes = {(0, 1)} if seed % 2 and B > 2 else set()
    rows = [[None if (a, b_) in holes else EWC_SparseMatrix(mesh.elements, lambda e, a=a, b_=b_: sp.csr_matrix(blk(a, b_, e)), 'no_cache')
             for b_ in range(B)] for a in range(B)]
    vs = [EWC_ColumnVector(mesh.elements, lambda e, a=a: sp.csc_matrix(vec(a, e)[:, None]), 'no_cache') for a in range(B)]
    # dense reference on unknowns keyed by (form, dof)
    mine = {}
    gms = [f.numbering.gathering for f in fs]           # collective
    for e in mesh.elements:
        keys = [(a, int(g)) for a in range(B) for g in gms[a][e].full_vector]
        M = np.block([[np.zeros((nb[a], nb[b_])) if (a, b_) in holes else blk(a, b_, e) for b_ in range(B)] for a in range(B)])
        mine[e] = (keys, M, np.concatenate([vec(a, e) for a in range(B)]))
    every = {}
    for x in COMM.allgather(mine):
        every.update(x)
    idx = {k: i for i, k in enumerate(sorted({k for v in every.values() for k in v[0]}))}
    A0, b0 = np.zeros((len(idx), len(idx))), np.zeros(len(idx))
    for keys, M, v in every.values():
        q = [idx[k] for k in keys]
        A0[np.ix_(q, q)] += M
        b0[q] += v
    x0 = np.linalg.solve(A0, b0)
    for how in ('Schur', 'direct', 'Schur'):
        A = bmat(rows)
        b = concatenate(vs)
        A.gathering_matrices = (fs, fs)
        b.gathering_matrix = fs
        LS = LinearSystem(A, b)
        tag = f'{spec} {part} {kinds} blocks={blocks} {how}'
        if how == 'Schur':
            R = LS.solve('Schur', rank=2, blocks=blocks)()
            X = R[0]
            if sorted(X) != sorted(mesh.elements.indices):
                r.bad.append(('schur', f'{tag}: elements {sorted(X)}'))
                continue
            for e in mesh.elements:
                r.eq(np.asarray(X[e]).ravel(), x0[[idx[k] for k in mine[e][0]]], 'schur', f'{tag} element {e}', tol=1e-8, scale=1.)
            from objects.CSCG.tools.distribute_local_cochain import distribute_local_cochain as dl
            dl(X, fs)
            for e in mesh.elements:
                got = np.concatenate([np.asarray(f.cochain.local[e]).ravel() for f in fs])
                r.eq(got, x0[[idx[k] for k in mine[e][0]]], 'schur-distribute', f'{tag} element {e}', tol=1e-8, scale=1.)
        else:
            R = LS.solve('direct')()
            gm = A.gathering_matrices[1]
            for e in mesh.elements:
                r.eq(np.asarray(R[0].V)[gm[e].full_vector if hasattr(gm[e], 'full_vector') else np.array(gm[e])],
                     x0[[idx[k] for k in mine[e][0]]], 'direct', f'{tag} element {e}', tol=1e-8, scale=1.)
        if R[1] != 0:
            r.bad.append(('schur', f'{tag}: info={R[1]}'))
    return r.out()
