"""C06: every expression (up to a depth) over every kind of element-wise operand, evaluated in every order, vs dense shadows."""
import itertools
import numpy as np
from scipy import sparse as sp
from mc.scen import common as cm
from mc.scen.ct import Rec

L = 3                       # local size
ORDERS = list(itertools.permutations(range(4)))
SOME = [(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1), (1, 3, 0, 2)]
MK = ('cst', 'csc', 'cstf', 'diff', 'nc', 'k1', 'k2', 'k3', 'dict', 'dictd', 'id', 'empty')
MKS = ('cst', 'diff', 'nc', 'k2', 'k3', 'empty')
VK = ('vempty', 'vdict', 'vnc', 'vk1', 'vk2', 'vk3')
KEY = {'1': lambda i: f'{i % 2}', '2': lambda i: '1' if i % 2 else '11', '3': lambda i: '11' if i % 2 else '1'}


def _data(tag, i, vec=False, clock=0):
    r = np.random.RandomState(hash_((tag, i, vec, clock)))
    if vec:
        v = r.randint(-3, 4, (L, 1)).astype(float)
        v[r.randint(L)] = 0
        return v
    m = r.randint(-2, 3, (L, L)).astype(float)
    m[r.rand(L, L) < 0.3] = 0
    return m + 7 * np.eye(L)[r.permutation(L)] if tag[0] != 'E' else m


def hash_(x):
    h = 17
    for c in repr(x):
        h = (h * 31 + ord(c)) % (2 ** 32 - 5)
    return h


class Env:
    """elements, a clock that real-time operands depend on, and leaves (lazy object, dense value per element)"""
    def __init__(self, mesh):
        from tools.elementwiseCache.dataStructures.objects.sparseMatrix.main import EWC_SparseMatrix
        from tools.elementwiseCache.dataStructures.objects.columnVector.main import EWC_ColumnVector
        self.M, self.V, self.mesh, self.els, self.clock = EWC_SparseMatrix, EWC_ColumnVector, mesh, mesh.elements, 0
        self.idx = list(mesh.elements)

    def leaf(self, kind, tag):
        e, S = self.els, (sp.csr_matrix if tag % 2 else sp.csc_matrix)
        t = f'{kind}{tag}'
        if kind[0] == 'v':
            if kind == 'vempty':
                return self.V(e, L), lambda i: np.zeros((L, 1))
            if kind == 'vdict':
                return self.V(e, {i: sp.csc_matrix(_data(t, i, True)) for i in self.idx}), lambda i: _data(t, i, True)
            if kind == 'vnc':
                f = lambda i: _data(t, i, True, self.clock)
                return self.V(e, lambda i: sp.csc_matrix(f(i)), 'no_cache'), f
            f = lambda i: _data(t, KEY[kind[2]](i), True)
            return self.V(e, lambda i: sp.csc_matrix(f(i)), KEY[kind[2]]), f
        if kind == 'id':
            return self.M(e, ('identity', L)), lambda i: np.eye(L)
        if kind == 'empty':
            return self.M(e, (L, L)), lambda i: np.zeros((L, L))
        if kind in ('cst', 'csc'):
            m = _data(t, 0)
            return self.M(e, (sp.csr_matrix if kind == 'cst' else sp.csc_matrix)(m), 'constant'), lambda i: _data(t, 0)
        if kind == 'cstf':
            return self.M(e, lambda i: S(_data(t, 0)), 'constant'), lambda i: _data(t, 0)
        if kind == 'diff':
            return self.M(e, lambda i: S(_data(t, i)), 'all_diff'), lambda i: _data(t, i)
        if kind == 'nc':
            f = lambda i: _data(t, i, False, self.clock)
            return self.M(e, lambda i: S(f(i)), 'no_cache'), f
        if kind == 'dict':
            return self.M(e, {i: S(_data(t, i)) for i in self.idx}), lambda i: _data(t, i)
        if kind == 'dictd':
            return self.M(e, {i: S(_data(t, i)) for i in self.idx}, 'all_diff'), lambda i: _data(t, i)
        f = lambda i: _data(t, KEY[kind[1]](i))
        return self.M(e, lambda i: S(f(i)), KEY[kind[1]]), f


def dense(x):
    return np.asarray(x.toarray() if hasattr(x, 'toarray') else x, dtype=float)


def u(op, a):
    x, f = a
    if op == 'neg':
        return -x, lambda i: -f(i)
    if op == 'T':
        return x.T, lambda i: f(i).T
    if op == 'inv':
        return x.inv, lambda i: np.linalg.inv(f(i))
    if op == '3*':
        return 3 * x, lambda i: 3 * f(i)
    if op == '*-2':
        return x * -2, lambda i: -2 * f(i)
    if op == '*0.5':
        return x * 0.5, lambda i: .5 * f(i)
    if op == '/4':
        return x / 4, lambda i: f(i) / 4
    raise Exception(op)


def b(op, a, c):
    x, f = a
    y, g = c
    if op == '+':
        return x + y, lambda i: f(i) + g(i)
    if op == '-':
        return x - y, lambda i: f(i) - g(i)
    return x @ y, lambda i: f(i) @ g(i)


UM, UV, BM, BV = ('neg', 'T', 'inv', '3*', '*-2', '*0.5', '/4'), ('neg', '3*', '*-2', '*0.5'), ('+', '-', '@'), ('+', '-')


def _singular(e):
    return 'empty' in str(e)


def _expr(env, e, k):
    """e: nested tuple, leaves are strings; returns (lazy, shadow, list of sub-expressions)"""
    if isinstance(e, str):
        a = env.leaf(e, next(k))
        return a + ([(e, a)],)
    if e[0] == 'bmat':
        rows, subs, sh = [], [], []
        for r in e[1]:
            rr, ss = [], []
            for z in r:
                if z is None:
                    rr.append(None)
                    ss.append(None)
                else:
                    x, f, s = _expr(env, z, k)
                    rr.append(x)
                    ss.append(f)
                    subs += s
            rows.append(rr)
            sh.append(ss)
        from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
        x = bmat(rows)

        def f(i):
            v = [[None if z is None else z(i) for z in r] for r in sh]
            hs = [next(z.shape[0] for z in r if z is not None) for r in v]
            ws = [next(r[j].shape[1] for r in v if r[j] is not None) for j in range(len(v[0]))]
            return np.block([[np.zeros((hs[p], ws[q])) if z is None else z for q, z in enumerate(r)] for p, r in enumerate(v)])
        return x, f, subs + [(e, (x, f))]
    if e[0] in ('cat', 'psum'):
        z = [_expr(env, w, k) for w in e[1]]
        subs = [s for w in z for s in w[2]]
        fs = [w[1] for w in z]
        if e[0] == 'cat':
            from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
            x, f = concatenate([w[0] for w in z]), lambda i: np.vstack([g(i) for g in fs])
        else:
            x, f = z[0][0].___PRIVATE_sum___([w[0] for w in z[1:]]), lambda i: sum(g(i) for g in fs)
        return x, f, subs + [(e, (x, f))]
    if len(e) == 2:
        x, f, s = _expr(env, e[1], k)
        r = u(e[0], (x, f))
    else:
        x, f, s = _expr(env, e[1], k)
        y, g, s2 = _expr(env, e[2], k)
        r = b(e[0], (x, f), (y, g))
        s = s + s2
    return r + (s + [(e, r)],)


def check_expr(rec, env, e, orders):
    env.clock = 0
    rec.n += 1
    for o in orders:
        x, f, subs = _expr(env, e, itertools.count())
        for rep in (0, 1):
            env.clock = rep
            for i in o:
                if not _cmp(rec, x, f, i, e, f'order {o} pass {rep}'):
                    return
        # operands still what they were, evaluated after the expression and in the other order
        for i in reversed(o):
            for se, (sx, sf) in subs:
                if not _cmp(rec, sx, sf, i, e, f'operand {se} after evaluation in order {o}', 'operand'):
                    return


def _cmp(rec, x, f, i, e, msg, key='value'):
    rec.n += 1
    try:
        got = dense(x[i])
    except Exception as ex:
        rec.bad.append((f'{key}:raises', f'{e} element {i} {msg}: {ex!r}'))
        return False
    want = f(i)
    if got.shape != want.shape or not np.abs(got - want).max() <= 1e-9 * max(1, np.abs(want).max()):
        rec.bad.append((f'{key}', f'{e} element {i} {msg}: {got.tolist()} instead of {want.tolist()}'))
        return False
    return True


def depth1():
    for a in MK:
        for o in UM:
            if o != 'inv' or a != 'empty':
                yield (o, a)
    for a in VK:
        for o in UV:
            yield (o, a)
    for o in BM:
        for a, c in itertools.product(MK, MK):
            yield (o, a, c)
    for o in BV:
        for a, c in itertools.product(VK, VK):
            yield (o, a, c)
    for a, c in itertools.product(MK, VK):
        yield ('@', a, c)


def depth2(kinds, vk):
    for o, p in itertools.product(BM, BM):
        for a, c, d in itertools.product(kinds, kinds, kinds):
            yield (o, (p, a, c), d)
            yield (o, d, (p, a, c))
    for o, w in itertools.product(BM, UM):
        for a, c in itertools.product(kinds, kinds):
            if w == 'inv' and a == 'empty':
                continue
            yield (o, (w, a), c)
            yield (o, c, (w, a))
            if w != 'inv':
                yield (w, (o, a, c))
    for w, w2 in itertools.product(UM, UM):
        for a in kinds:
            if not ('inv' in (w, w2) and a == 'empty'):
                yield (w, (w2, a))
    for o, p in itertools.product(BV, BV):
        for a, c, d in itertools.product(vk, vk, vk):
            yield (o, (p, a, c), d)
            yield (o, d, (p, a, c))
    for o in BV:
        for a, c, d in itertools.product(kinds, vk, vk):
            yield (o, ('@', a, c), d)
            yield (o, d, ('@', a, c))
            yield ('@', a, (o, c, d))
        for a, c, d in itertools.product(kinds, kinds, vk):
            yield ('@', (o, a, c), d)
            yield ('@', a, ('@', c, d))
    for w in UV:
        for o in BV:
            for a, c in itertools.product(vk, vk):
                yield (w, (o, a, c))
                yield (o, (w, a), c)
        for a, c in itertools.product(kinds, vk):
            yield ('@', a, (w, c))


def blocks(kinds, vk):
    for a in MK:
        yield ('bmat', [[a]])
        for c in MK:
            yield ('bmat', [[a, c]])
            yield ('bmat', [[a], [c]])
            yield ('bmat', [[a, None], [None, c]])
            yield ('psum', [a, c])
    for a, c, d in itertools.product(kinds, repeat=3):
        yield ('bmat', [[a, c], [d, None]])
        yield ('bmat', [[None, a], [c, d]])
        yield ('T', ('bmat', [[a, c], [None, d]]))
        yield ('bmat', [[('bmat', [[a, c]])], [('bmat', [[d, a]])]])
        yield ('+', ('bmat', [[a, c], [d, a]]), ('bmat', [[None, c], [d, None]]))
        yield ('psum', [a, c, d])
        yield ('bmat', [[('+', a, c), ('T', d)], [('neg', d), ('@', a, c)]])
        for v in vk:
            yield ('@', ('bmat', [[a, c], [d, None]]), ('cat', [v, 'vnc']))
            yield ('@', ('bmat', [[a, None], [c, d]]), ('cat', [v, 'vk2']))
    for a in VK:
        yield ('cat', [a])
        for c in VK:
            yield ('cat', [a, c])
            yield ('psum', [a, c])
            yield ('3*', ('cat', [a, c]))
            for d in VK:
                yield ('cat', [a, c, d])
                yield ('cat', [('cat', [a, c]), d])
                yield ('psum', [a, c, d])
                yield ('-', ('cat', [a, c]), ('cat', [d, a]))
                yield ('neg', ('cat', [('+', a, c), d]))


def depth3():
    ks, vs = ('cst', 'diff', 'nc', 'k2', 'k3'), ('vempty', 'vnc', 'vk2', 'vk3')
    for o, p, q in itertools.product(BM, BM, BM):
        for a, c, d, f in itertools.product(ks, repeat=4):
            yield (o, (p, a, c), (q, d, f))
    for o, p in itertools.product(BV, BV):
        for a, c, d, f in itertools.product(ks, ks, vs, vs):
            yield (o, ('@', (p, a, c), d), f)
            yield (o, ('@', a, d), ('@', c, f))


def expressions(tier):
    q = tier == 'quick'
    yield from ((e, SOME if q else ORDERS) for e in depth1())
    yield from ((e, [SOME[n % 4]] if q else SOME) for n, e in enumerate(depth2(MKS[1:] if q else MK, VK[:1] + VK[2:])))
    yield from ((e, [SOME[n % 4]] if q else SOME) for n, e in enumerate(blocks(('cst', 'diff', 'nc', 'k2') if q else MKS, ('vempty', 'vnc', 'vk2', 'vk3') if q else VK)))
    if not q:
        yield from ((e, SOME[:2]) for e in depth3())


def run_expressions(tier, part, parts):
    rec = Rec()
    mesh = cm.make_mesh((2, 'crazy', dict(c=0.1), [2, 2]), None)
    env = Env(mesh)
    for n, (e, o) in enumerate(expressions(tier)):
        if n % parts == part:
            try:
                check_expr(rec, env, e, o)
            except Exception as ex:
                rec.bad.append(('raises', f'{e}: {ex!r}'))
    return rec.out()


# ---- objects of the library, shared between elements by metric --------------------------------------
def _forms(d, mesh, space):
    FC = cm.masters(d).FormCaller(mesh, space)
    ids = ['0-f', '1-f', '2-f', '3-f'] if d == 3 else ['0-f-i', '1-f-i', '2-f-i']
    return [FC(i, hybrid=False) for i in ids] if d == 3 else [FC(i, hybrid=False) for i in ids]


def library(spec, p, part, orders):
    """expressions of mass / incidence / identity / cochain operands against those of fresh objects seen element by element"""
    rec = Rec()
    d = spec[0]

    def build():
        mesh = cm.make_mesh(spec, part)
        space = cm.make_space(d, p)
        fs = _forms(d, mesh, space)
        rng = np.random.RandomState(3)
        for f in fs:
            v = rng.rand(f.num.global_dofs)
            f.cochain.local = {i: v[f.numbering.gathering[i].full_vector] for i in mesh.elements}
        M = [f.matrices.mass for f in fs]
        E = [f.matrices.incidence for f in fs[:-1]]
        I = [f.matrices.identity for f in fs]
        c = [f.cochain.EWC for f in fs]
        S = [E[k].T @ M[k + 1] @ E[k] for k in range(d)]
        out = dict(M=M[1], S0=S[0], S1=S[1], K=M[0] + S[0], D=M[1] - 2 * I[1], mixed=M[1] @ E[0], Mi=M[0].inv,
                   v=M[0] @ fs[0], w=S[0] @ c[0] - M[0] @ c[0], Ec=E[0] @ c[0] + c[1], n=-(M[1] / 3) + I[1])
        from tools.elementwiseCache.dataStructures.operators.bmat.main import bmat
        from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
        out['B'] = bmat([[M[0], (M[1] @ E[0]).T], [M[1] @ E[0], None]])
        out['C'] = concatenate([c[0], M[1] @ c[1]])
        out['BC'] = out['B'] @ out['C']
        return mesh, out, fs

    mesh, a, fs = build()
    els = list(mesh.elements)
    want = {}
    turns = max(len(s) for s in mesh._element_distribution_.values())
    for t in range(turns):                        # every element alone, on objects that have never seen another one
        _, b_, _ = build()
        if t >= len(els):
            continue
        i = els[t]
        want[i] = {k: dense(b_[k][i]) for k in b_}
    for o in orders:
        order = sorted(els, key=lambda i: (i * 7919 % (2 * len(els) + 1)) * (1 if o % 2 else -1)) if o else els
        _, a, fs = build()
        for rep in (0, 1):
            for i in order:
                for k in (sorted(a) if rep else sorted(a, reverse=True)):
                    rec.eq(dense(a[k][i]), want[i][k], 'library:' + k, f'{k} in element {i} in order {o} pass {rep}', 1e-11)
        # a new cochain is seen by everything built on it, and by nothing else
        for f in fs:
            f.cochain.local = {i: 2 * f.cochain.local[i] for i in mesh.elements}
        for i in order:
            for k in ('v', 'w', 'Ec', 'C', 'BC'):
                rec.eq(dense(a[k][i]), 2 * want[i][k], 'library-renew:' + k, f'{k} in element {i} after changing cochains', 1e-11)
            for k in ('M', 'S0', 'K'):
                rec.eq(dense(a[k][i]), want[i][k], 'library-keep:' + k, f'{k} in element {i} after changing cochains', 1e-11)
    n = a['M'].global_length
    rec.eq(n, mesh.elements.global_num, 'global-length', 'global_length')
    ps = a['M'].condition.pseudo_sparsity
    return rec.out(sp=[float(1 - np.count_nonzero(want[i]['M']) / want[i]['M'].size) for i in els], ps=ps)


class _Itp:
    def __init__(self, mesh, dofs, cochains=None):
        self._mesh_ = mesh

        class L_:
            pass
        self.local = L_()
        self.local.dofs, self.local.cochains = dofs, cochains


def adjust(part, parts):
    """adjustments of every operand kind and of sums/products of them, with all row patterns"""
    rec = Rec()
    mesh = cm.make_mesh((2, 'crazy', dict(c=0.1), [2, 2]), None)
    env = Env(mesh)
    pats = [{}, {0: [0]}, {0: [0, 2], 3: [1]}, {i: [i % 3] for i in env.idx}, {i: [2, 0] for i in env.idx}, {1: [], 2: [0, 1, 2]}]
    exprs = list(MK) + [(o, a, c) for o in BM for a, c in itertools.product(MKS, MKS)] + [('T', a) for a in MK]
    for e in exprs[part::parts]:
        for pat in pats:
            for col in (None, {i: [(r + 1) % 3 for r in v] for i, v in pat.items()}):
                for op in ('clear', 'identify'):
                    if op == 'clear' and col is not None:
                        continue
                    env.clock = 0
                    x, f, subs = _expr(env, e, itertools.count())
                    it = _Itp(mesh, pat)
                    ct = None if col is None else _Itp(mesh, col)
                    y = x.adjust.clear_rows_according_to(it) if op == 'clear' else x.adjust.identify_rows_according_to(it, col_itp=ct)
                    val = {i: f(i) for i in env.idx}

                    def g(i):
                        m = val[i].copy()
                        for n, r in enumerate(pat.get(i, [])):
                            m[r, :] = 0
                        for n, r in enumerate(pat.get(i, [])):
                            if op == 'identify':
                                m[r, (col[i][n] if col else r)] = 1
                        return m
                    z, h = (y + x) @ y, lambda i: (g(i) + f(i)) @ g(i)
                    for i in env.idx:
                        _cmp(rec, y, g, i, e, f'{op} {pat} {col}', 'adjust')
                        _cmp(rec, z, h, i, e, f'sum and product with {op} {pat} {col}', 'adjust-use')
                    for i in reversed(env.idx):
                        for se, (sx, sf) in subs:
                            _cmp(rec, sx, sf, i, e, f'operand {se} after {op}', 'operand')
    exprs = list(VK) + [(o, a, c) for o in BV for a, c in itertools.product(VK, VK)] + [('@', a, c) for a in MKS for c in VK]
    for e in exprs[part::parts]:
        for pat in pats:
            env.clock = 0
            x, f, subs = _expr(env, e, itertools.count())
            co = {i: [float(10 * i + k + 1) for k in range(len(r))] for i, r in pat.items()}
            for ci in (None, _Itp(mesh, pat, co)):
                y = x.adjust.set_entries_according_to(_Itp(mesh, pat, co), cochain_itp=ci)
                val = {i: f(i) for i in env.idx}

                def g(i):
                    m = val[i].copy()
                    for n, r in enumerate(pat.get(i, [])):
                        m[r, 0] = co[i][n]
                    return m
                for i in env.idx:
                    _cmp(rec, y, g, i, e, f'set {pat}', 'adjust')
                    _cmp(rec, x, f, i, e, f'operand after set {pat}', 'operand')
                    _cmp(rec, 2 * y - x, lambda j: 2 * g(j) - f(j), i, e, f'use of set {pat}', 'adjust-use')
    return rec.out()


CUST = {'c2': ('row0', 2), 'c3': ('row0', 3), 'm22': ('set', 2, 2, 5.), 'm33': ('set', 3, 3, -4.), 'm24': ('set', 2, 4, 6.),
        'm32': ('set', 3, 2, 9.), 'm35': None, 'i2': ('id', 2), 'i5': ('id', 5)}
del CUST['m35']
CUSTV = {'v2': (2, 4.), 'v3': (3, -2.), 'v0': (0, 0.)}


def customs(part, parts, depth):
    """imposed rows and entries of every operand kind and of expressions: the assembled operand is the dense model, repeated
    visits in any order give the same element matrices, and elements/operands that share data with it keep their values"""
    from tools.elementwiseCache.gathering.regular.matrix.main import Gathering_Matrix
    from tools.elementwiseCache.gathering.vector import Gathering_Vector
    rec = Rec()
    mesh = cm.make_mesh((2, 'crazy', dict(c=0.1), [2, 2]), None)
    env = Env(mesh)
    gv = {i: [2 * i, 2 * i + 1, (2 * i + 2) % 8] for i in env.idx}
    GM = lambda: Gathering_Matrix({i: Gathering_Vector(i, list(gv[i])) for i in env.idx}, mesh_type='_2dCSCG')

    def asm(get, vec=False):
        A = np.zeros((8, 1 if vec else 8))
        for i in env.idx:
            m = get(i)
            for a in range(L):
                if vec:
                    A[gv[i][a], 0] += m[a, 0]
                else:
                    for b_ in range(L):
                        A[gv[i][a], gv[i][b_]] += m[a, b_]
        return A
    mats = list(MK) + [(o, a, c) for o in BM for a, c in itertools.product(MKS, MKS)][::3] + [('T', a) for a in MK] + \
        [('*', a) for a in MK if ('*', a) in list(depth1())]
    seqs = [s for k in range(1, depth + 1) for s in itertools.product(CUST, repeat=k)]
    for n, e in enumerate(mats):
        if n % parts != part:
            continue
        for sq in seqs:
            if len(sq) > 1 and not isinstance(e, str):
                continue
            env.clock = 0
            x, f, subs = _expr(env, e, itertools.count())
            x.gathering_matrices = (GM(), GM())
            base = {i: f(i) for i in env.idx}
            want = asm(lambda i: base[i])
            for first in (False, True):         # visited before the rows are imposed, or not
                if first:
                    x, f, subs = _expr(env, e, itertools.count(100))
                    base = {i: f(i) for i in env.idx}
                    want = asm(lambda i: base[i])
                    x.gathering_matrices = (GM(), GM())
                    for i in env.idx:
                        x[i]
                for o in sq:
                    c = CUST[o]
                    if c[0] == 'row0':
                        x.customize.clear_global_row(c[1])
                        want[c[1]] = 0
                    elif c[0] == 'set':
                        x.customize.set_assembled_M_ij_to(*c[1:])
                        want[c[1], c[2]] = c[3]
                    else:
                        x.customize.identify_global_row(c[1])
                        want[c[1]] = 0
                        want[c[1], c[1]] = 1
                for o in SOME[:3]:
                    got = {}
                    for i in o:
                        got[i] = dense(x[i])
                    rec.n += 1
                    A = asm(lambda i: got[i])
                    if np.abs(A - want).max() > 1e-9:
                        rec.bad.append(('customized', f'{e} with {sq} imposed (visited before: {first}), order {o}: assembled '
                                                      f'{A.tolist()} instead of {want.tolist()}'))
                        break
                    for se, (sx, sf) in subs:
                        if sx is not x:
                            for i in o:
                                _cmp(rec, sx, sf, i, e, f'operand {se} after {sq} was imposed on the result', 'operand')
                x.customize.clear()
                for i in env.idx:
                    _cmp(rec, x, f, i, e, f'after clearing the imposed {sq}', 'customized-clear')
    vecs = list(VK) + [(o, a, c) for o in BV for a, c in itertools.product(VK, VK)][::3]
    vseqs = [s for k in range(1, depth + 1) for s in itertools.product(CUSTV, repeat=k)]
    for n, e in enumerate(vecs):
        if n % parts != part:
            continue
        for sq in vseqs:
            env.clock = 0
            x, f, subs = _expr(env, e, itertools.count())
            x.gathering_matrix = GM()
            base = {i: f(i) for i in env.idx}
            want = asm(lambda i: base[i], True)
            for o in sq:
                k, v = CUSTV[o]
                x.customize.set_assembled_V_i_to(k, v)
                want[k] = v
            for o in SOME[:3]:
                got = {i: dense(x[i]) for i in o}
                rec.n += 1
                A = asm(lambda i: got[i], True)
                if np.abs(A - want).max() > 1e-9:
                    rec.bad.append(('customized', f'vector {e} with {sq} set, order {o}: {A.ravel().tolist()} instead of '
                                                  f'{want.ravel().tolist()}'))
                    break
                for se, (sx, sf) in subs:
                    if sx is not x:
                        for i in o:
                            _cmp(rec, sx, sf, i, e, f'operand {se} after {sq} was set on the result', 'operand')
            x.customize.clear()
            for i in env.idx:
                _cmp(rec, x, f, i, e, f'after clearing the set {sq}', 'customized-clear')
    return rec.out()
