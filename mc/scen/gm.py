"""C08: distributed matrices/vectors against the dense sums over the ranks"""
import itertools
import numpy as np
from scipy import sparse as sp
from mc.scen.ct import Rec


def env():
    from root.config.main import COMM, RANK, SIZE
    return COMM, RANK, SIZE


def spreads(size, both=True):
    """where one entry is stored: on one rank, or split over several (parts that add up)"""
    out = [(r,) for r in range(size)]
    if both and size > 1:
        out.append(tuple(range(size)))
        if size > 2:
            out += [(0, size - 1), (1, 2)]
    return out


def patterns(pos, size, both=True):
    """all ways to spread these entries"""
    return itertools.product(spreads(size, both), repeat=len(pos))


def part(val, where, rank):
    """share of `rank` of a value stored on the ranks `where`; sums up exactly (integers)"""
    if rank not in where:
        return 0
    k = where.index(rank)
    return val - 3 * (len(where) - 1) if k == 0 else 3


def local_matrix(shape, pos, vals, pat, fmt):
    R = env()[1]
    M = sp.lil_matrix(shape)
    for (i, j), v, w in zip(pos, vals, pat):
        if R in w:
            M[i, j] = part(v, w, R)
    return M.tocsc() if fmt == 'csc' else M.tocsr()


def total(M):
    return sum(env()[0].allgather(np.asarray(M.toarray(), float)))


POS = {(2, 3): [(0, 0), (0, 2), (1, 1), (1, 2)], (3, 3): [(0, 0), (1, 2), (2, 0), (2, 2)], (3, 2): [(0, 1), (1, 0), (2, 0), (2, 1)],
       (1, 1): [(0, 0)], (4, 1): [(1, 0), (3, 0)], (1, 3): [(0, 1)]}


def dense_of(shape, vals):
    D = np.zeros(shape)
    for (i, j), v in zip(POS[shape], vals):
        D[i, j] = v
    return D


def eqm(r, G, D, key, tag):
    got = total(G.M)
    r.n += 1
    if got.shape != D.shape or not np.allclose(got, D, rtol=0, atol=1e-12):
        r.bad.append((key, f'{tag}: sum over the ranks is {got.tolist()}, expected {D.tolist()}'))
        return False
    return True


def eqv(r, G, d, key, tag):
    got = total(G.V).ravel()
    r.n += 1
    if got.shape != d.shape or not np.allclose(got, d, rtol=0, atol=1e-12):
        r.bad.append((key, f'{tag}: sum over the ranks is {got.tolist()}, expected {d.tolist()}'))


def row_or_col(M, axis):
    """no row (axis 0) / column (axis 1) has entries on two ranks"""
    COMM = env()[0]
    idx = set(M.tocoo().row.tolist() if axis == 0 else M.tocoo().col.tolist())
    allx = COMM.allgather(idx)
    return sum(len(x) for x in allx) == len(set().union(*allx))


def vectors(n, size):
    """(name, GlobalVector | DistributedVector | LocallyFullVector, dense)"""
    from tools.miLinearAlgebra.dataStructures.vectors.GLOBAL.main import GlobalVector
    from tools.miLinearAlgebra.dataStructures.vectors.distributed.main import DistributedVector
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector
    COMM, RANK, SIZE = env()
    d = np.array([5., 0., -2., 7.][:n])
    d[0] = 5.
    own = lambda f: np.array([d[i] if f(i) == RANK else 0. for i in range(n)])
    out = [('GV master', GlobalVector(d.copy() if RANK == 0 else None), d),
           ('GV split', GlobalVector(np.array([part(d[i], tuple(range(SIZE)), RANK) for i in range(n)])), d),
           ('GV cyclic', GlobalVector(own(lambda i: i % SIZE).reshape(-1, 1)), d),
           ('GV last', GlobalVector(sp.csc_matrix(own(lambda i: SIZE - 1).reshape(-1, 1))), d),
           ('DV master', DistributedVector(d.copy() if RANK == 0 else None), d),
           ('DV cyclic', DistributedVector(own(lambda i: i % SIZE)), d),
           ('DV last', DistributedVector(sp.csr_matrix(own(lambda i: SIZE - 1).reshape(-1, 1))), d),
           ('LFV', LocallyFullVector(d.copy()), d),
           ('GV empty', GlobalVector(n), 0 * d)]
    return out


def matrix_unary(shape, fmt, pats):
    """every distribution pattern: every unary operation, product with every kind of vector, gathering to every rank"""
    from tools.miLinearAlgebra.dataStructures.globalMatrix.main import GlobalMatrix
    COMM, RANK, SIZE = env()
    r = Rec()
    pos = POS[shape]
    vals = [4., -2., 8., 5.][:len(pos)]
    D = dense_of(shape, vals)
    vecs = vectors(shape[1], SIZE)
    for k, pat in enumerate(patterns(pos, SIZE)):
        if k % pats[1] != pats[0]:
            continue
        tag = f'{fmt} {shape} entries {dict(zip(pos, pat))}'
        A = GlobalMatrix(local_matrix(shape, pos, vals, pat, fmt))
        eqm(r, A, D, 'construct', tag)
        eqm(r, A.T, D.T, 'T', tag)
        eqm(r, -A, -D, 'neg', tag)
        eqm(r, A * 2, 2 * D, 'mul', tag)
        eqm(r, 1.5 * A, 1.5 * D, 'rmul', tag)
        eqm(r, A.T.T - A, 0 * D, 'sub', tag)
        r.n += 1
        flags = (A.whether.globally_empty, A.whether.master_dominating, A.whether.square, A.GLOBAL_approx_nnz)
        want = (False, all(set(w) == {0} for w in pat), shape[0] == shape[1], sum(len(w) for w in pat))
        if flags != want:
            r.bad.append(('flags', f'{tag}: {flags} expected {want}'))
        A.do.claim_distribution_pattern()
        c = A.whether.regularly_distributed
        ok = {'csr': 'row' if row_or_col(A.M, 0) else False, 'csc': 'column' if row_or_col(A.M, 1) else False}[fmt]
        if c != ok:
            r.bad.append(('claim', f'{tag}: claimed {c}, expected {ok}'))
        A.___PRIVATE_self_regularity_checker___()
        for B, E, s in ((A.T, D.T, 'T'), (-A, -D, '-'), (2 * A, 2 * D, '*')):
            q = B.whether.regularly_distributed
            if q and not (q == 'row' and B.mtype == 'csr' and row_or_col(B.M, 0) or q == 'column' and B.mtype == 'csc' and row_or_col(B.M, 1)):
                r.bad.append(('pattern', f'{tag}: {s} says it is distributed by {q}, which it is not'))
        ne = (sorted(int(i) for i in A.nonempty_rows), sorted(int(i) for i in A.nonempty_columns))
        mine = A.M.tocoo()
        w = (sorted(set(mine.row.tolist())), sorted(set(mine.col.tolist())))
        if ne != w:
            r.bad.append(('nonempty', f'{tag}: nonempty rows/columns {ne} expected {w}'))
        sh = np.asarray(A.shared_rows)
        rows = COMM.allgather(w[0])
        wsh = [i in w[0] and sum(i in x for x in rows) > 1 for i in range(shape[0])]
        if sh.tolist() != wsh:
            r.bad.append(('shared_rows', f'{tag}: {sh.tolist()} expected {wsh}'))
        for name, v, d in vecs:
            eqv(r, A @ v, D @ d, 'matvec', f'{tag} @ {name}')
        for core in [None] + list(range(SIZE)):
            M = A.do.gather_M_to_core(core)
            r.n += 1
            if RANK == (core or 0):
                if not np.allclose(M.toarray(), D, atol=1e-12):
                    r.bad.append(('gather', f'{tag} to {core}: {M.toarray().tolist()}'))
            elif M.nnz:
                r.bad.append(('gather', f'{tag} to {core}: rank {RANK} holds entries'))
        eqm(r, A, D, 'gather-damage', tag)
        for core, sf in [(None, 5e7), (0, 1), (0, 2), (0, 3), (SIZE - 1, 5e7)]:
            B = GlobalMatrix(local_matrix(shape, pos, vals, pat, fmt))
            if k % 2:
                B.do.claim_distribution_pattern()
            M = B.do.gather_M_to_core(core, clean_local=True, splitting_factor=sf)
            r.n += 1
            if RANK == (core or 0):
                if not np.allclose(M.toarray(), D, atol=1e-12):
                    r.bad.append(('gather', f'{tag} to {core} splitting {sf}: {M.toarray().tolist()}'))
            elif M.nnz:
                r.bad.append(('gather', f'{tag} to {core} splitting {sf}: rank {RANK} holds entries'))
            eqm(r, B, D, 'clean', f'{tag} after gathering to {core} splitting {sf}')
            if core is None:
                eqm(r, -B, -D, 'clean', f'{tag} negated after gathering')
                eqm(r, B.T, D.T, 'clean', f'{tag} transposed after gathering')
        cn = [A.condition.sparsity]
        if np.count_nonzero(D) != round(cn[0] * D.size):
            r.bad.append(('sparsity', f'{tag}: sparsity {cn[0]} expected {np.count_nonzero(D) / D.size}'))
        if shape[0] == shape[1]:
            if not np.isclose(A.condition.condition_number, np.linalg.cond(D)):
                r.bad.append(('cond', f'{tag}: condition number {A.condition.condition_number}'))
            w, v = A.condition.eig
            if not np.allclose(D @ v, v * w, atol=1e-10):
                r.bad.append(('eig', f'{tag}: eigenpairs'))
        if len(r.bad) > 30:
            break
    return r.out()


def matrix_binary(sa, sb, fa, fb, pats):
    """pairs of distribution patterns: product, sum, difference"""
    from tools.miLinearAlgebra.dataStructures.globalMatrix.main import GlobalMatrix
    COMM, RANK, SIZE = env()
    r = Rec()
    va, vb = [4., -2., 8., 5.], [1., 4., -6., 2.]
    A0, B0 = dense_of(sa, va), dense_of(sb, vb)
    pb = list(patterns(POS[sb], SIZE))
    pa = list(patterns(POS[sa], SIZE))
    for idx in range(pats[0], len(pa) * len(pb), pats[1]):
            wa, wb = pa[idx // len(pb)], pb[idx % len(pb)]
            tag = f'{fa} {dict(zip(POS[sa], wa))} x {fb} {dict(zip(POS[sb], wb))}'
            A = GlobalMatrix(local_matrix(sa, POS[sa], va, wa, fa))
            B = GlobalMatrix(local_matrix(sb, POS[sb], vb, wb, fb))
            if sa == sb:
                eqm(r, A + B, A0 + B0, 'add', tag)
                eqm(r, A - B, A0 - B0, 'sub', tag)
            if sa[1] == sb[0]:
                for claim in (1, 2, 3):
                    if claim & 1:
                        A.do.claim_distribution_pattern()
                    if claim & 2:
                        B.do.claim_distribution_pattern()
                    if A.whether.regularly_distributed or B.whether.regularly_distributed or \
                            (A.whether.master_dominating and B.whether.master_dominating):
                        C = A @ B
                        eqm(r, C, A0 @ B0, 'matmul', tag)
                        if sb[1] == sa[0]:
                            E = C @ A if claim != 2 else C + C
                            eqm(r, E, A0 @ B0 @ A0 if claim != 2 else 2 * A0 @ B0, 'matmul3', tag)
            eqm(r, A, A0, 'operand', tag)
            eqm(r, B, B0, 'operand', tag)
            if len(r.bad) > 30:
                return r.out()
    return r.out()


def programs(shape, fmt, depth, first):
    """all operation sequences on one matrix (the result of one is the operand of the next)"""
    from tools.miLinearAlgebra.dataStructures.globalMatrix.main import GlobalMatrix
    COMM, RANK, SIZE = env()
    r = Rec()
    pos = POS[shape]
    vals = [4., -2., 8., 5.][:len(pos)]
    D0 = dense_of(shape, vals)
    vecs = {n: vectors(n, SIZE) for n in shape}
    sel = [p for k, p in enumerate(patterns(pos, SIZE)) if k % 17 == 3] + [tuple((0,) for _ in pos), tuple((SIZE - 1,) for _ in pos)]
    OPS = 'TnsapmcgGhv'
    for rest in itertools.product(OPS, repeat=depth - 1):
        seq = first + ''.join(rest)
        for pat in sel[:6]:
            A, D = GlobalMatrix(local_matrix(shape, pos, vals, pat, fmt)), D0
            for k, o in enumerate(seq):
                tag = f'{fmt} {dict(zip(pos, pat))} {seq[:k + 1]}'
                if o == 'T':
                    A, D = A.T, D.T
                elif o == 'n':
                    A, D = -A, -D
                elif o == 's':
                    A, D = A * 0.5, D * 0.5
                elif o == 'a':
                    A, D = A + A, D + D
                elif o == 'p':
                    A, D = A - 3 * A, D - 3 * D
                elif o == 'm':
                    if D.shape[0] == D.shape[1] and (A.whether.regularly_distributed or A.whether.master_dominating):
                        A, D = A @ A, D @ D
                elif o == 'c':
                    A.do.claim_distribution_pattern()
                elif o == 'g':
                    A.do.gather_M_to_core(SIZE - 1)
                elif o == 'G':
                    A.do.gather_M_to_core(clean_local=True)
                elif o == 'h':
                    A.do.gather_M_to_core(clean_local=True, splitting_factor=2)
                elif o == 'v':
                    for name, v, d in vecs[D.shape[1]][k % 3::3]:
                        eqv(r, A @ v, D @ d, 'matvec', f'{tag} @ {name}')
                if not eqm(r, A, D, 'program', tag):
                    break
        if len(r.bad) > 30:
            break
    return r.out()


def vector_all(n, quick=False):
    """every spread of the entries of a vector x kinds: algebra, gathering to every rank, conversion, flags"""
    from tools.miLinearAlgebra.dataStructures.vectors.GLOBAL.main import GlobalVector
    from tools.miLinearAlgebra.dataStructures.vectors.distributed.main import DistributedVector
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector
    COMM, RANK, SIZE = env()
    r = Rec()
    d = np.array([5., -2., 4., 7.][:n])
    others = vectors(n, SIZE)
    for ip, pat in enumerate(patterns(range(n), SIZE)):
        loc = np.array([part(d[i], w, RANK) for i, w in enumerate(pat)])
        single = all(len(w) == 1 for w in pat)
        for cls in (GlobalVector, DistributedVector) if single else (GlobalVector,):
            forms = [loc, loc.reshape(-1, 1), sp.csc_matrix(loc.reshape(-1, 1)), sp.csr_matrix(loc.reshape(-1, 1))]
            if not loc.any() and RANK:
                forms.append(None)
            for fi in ([ip % 5] if quick and SIZE > 2 else range(5)):
                f = forms[min(fi, len(forms) - 1)]
                v = cls(f if f is None else f.copy())
                tag = f'{cls.__name__} entries on {pat} from input kind {fi}'
                eqv(r, v, d, 'construct', tag)
                r.n += 1
                m = all(w == (0,) for w in pat)
                if (v.whether.master_dominating, v.whether.globally_empty, len(v), tuple(v.shape)) != (m, False, n, (n, 1)):
                    r.bad.append(('flags', f'{tag}: {v.whether.master_dominating} {v.whether.globally_empty} {len(v)}'))
                for core in [None] + list(range(SIZE)):
                    g = v.do.gather_V_to_core(core)
                    if RANK == (core or 0):
                        if g is None or not np.array_equal(g, d):
                            r.bad.append(('gather', f'{tag} to {core}: {g}'))
                    elif g is not None:
                        r.bad.append(('gather', f'{tag} to {core}: rank {RANK} got {g}'))
                eqv(r, v, d, 'gather-damage', tag)
                L = LocallyFullVector(v)
                if not np.array_equal(L.V, d):
                    r.bad.append(('full', f'{tag}: made locally full: {L.V}'))
                if abs(L.vector_norm - np.linalg.norm(d)) > 1e-13:
                    r.bad.append(('norm', f'{tag}: {L.vector_norm}'))
                if not np.array_equal((L + L).V, 2 * d) or not np.array_equal((L - LocallyFullVector(d * 3)).V, -2 * d):
                    r.bad.append(('full', f'{tag}: sums of locally full vectors'))
                if cls is GlobalVector:
                    eqv(r, -v, -d, 'neg', tag)
                    eqv(r, v * 3, d * 3, 'mul', tag)
                    eqv(r, 0.5 * v, d * 0.5, 'mul', tag)
                    if fi == 0 or quick and SIZE > 2:
                        for nm, o, od in others:
                            if nm != 'LFV':
                                eqv(r, v + o, d + od, 'add', f'{tag} + {nm}')
                                eqv(r, v - o, d - od, 'sub', f'{tag} - {nm}')
                for core in range(SIZE):
                    v = cls(loc.copy())
                    g = v.do.gather_V_to_core(core, clean_local=True)
                    if RANK == core and not np.array_equal(g, d):
                        r.bad.append(('gather', f'{tag} to {core} with cleaning: {g}'))
        if len(r.bad) > 30:
            break
    return r.out()
