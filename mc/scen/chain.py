"""C19: chained numbering of several forms: consistency, inversion, splitting, histories"""
import gc
import itertools
import numpy as np
from mc.scen import common as cm
from mc.scen import labels as lb
from mc.scen.ct import Rec

KINDS3 = [('0-f', False), ('2-f', False), ('1-f', True), ('2-t', True), ('3-f', False), ('0-lt', False)]
KINDS2 = [('0-f-o', False), ('1-f-i', False), ('1-f-o', False), ('2-f-o', True), ('1-t-o', True), ('0-f-i', True)]
OFFSET = 1000


def tuples(d, L, full):
    """kind tuples up to length L (a kind twice = two different forms; 'S' = the same form object again)"""
    K = KINDS3 if d == 3 else KINDS2
    n = len(K) if full else 4
    for m in range(1, L + 1):
        for t in itertools.product(range(n), repeat=m):
            yield t


def chain_of(forms, method):
    from tools.elementwiseCache.gathering.chain import GatheringMatrixChaining
    return GatheringMatrixChaining(*forms)(chain_method=method)


def everything(forms, cgm, mesh):
    """[(element, [global numbers of form 0, form 1, ..], chained numbers)] over all ranks"""
    from root.config.main import COMM
    loc = [(int(e), [f.numbering.gathering[e].full_vector.tolist() for f in forms], np.asarray(cgm[e]).tolist())
           for e in mesh.elements]
    return [x for r in COMM.allgather(loc) for x in r]


def check_map(r, forms, cgm, mesh, method, tag):
    """the chained numbers are a bijection of the pairs (form position, dof); returns it"""
    allv = everything(forms, cgm, mesh)
    r.n += 1
    total = sum(f.numbering.gathering.global_num_dofs for f in forms)
    fwd, bwd = {}, {}
    for e, gvs, ch in allv:
        pairs = [(i, g) for i, gv in enumerate(gvs) for g in gv]
        if len(pairs) != len(ch):
            r.bad.append(('map', f'{tag}: element {e}: {len(ch)} chained numbers for {len(pairs)} dofs'))
            return None
        for p, c in zip(pairs, ch):
            if fwd.setdefault(p, c) != c or bwd.setdefault(c, p) != p:
                r.bad.append(('map', f'{tag}: element {e}: dof {p} <-> number {c}, elsewhere {fwd[p]} / {bwd[c]}'))
                return None
    if cgm.global_num_dofs != total or set(bwd) != set(range(total)):
        miss = sorted(set(range(total)) - set(bwd))[:5]
        r.bad.append(('map', f'{tag}: numbers are not 0..{total - 1} (global_num_dofs={cgm.global_num_dofs}, missing {miss}, '
                             f'largest {max(bwd)})'))
        return None
    if method == 'silly':
        off = 0
        for i, f in enumerate(forms):
            n = f.numbering.gathering.global_num_dofs
            for g in range(n):
                if fwd[i, g] != off + g:
                    r.bad.append(('map', f'{tag}: silly number of dof {g} of form {i} is {fwd[i, g]}, expected {off + g}'))
                    return None
            off += n
    return fwd


def check_find(r, forms, cgm, mesh, fwd, method, tag, full=True):
    """searching inverts the numbering, on every rank"""
    gv = {int(e): np.asarray(cgm[e]) for e in mesh.elements}
    where = {}
    for e in cgm:
        for k, m in enumerate(gv[int(e)]):
            where.setdefault(int(m), []).append((int(e), k))
    inv = {c: p for p, c in fwd.items()}
    total = cgm.global_num_dofs
    r.n += 1
    for m in range(0, total, 1 if full or total <= 60 else total // (50 if method == 'silly' else 18)):
        w = where.get(m)
        for q in ((m, m - total) if m % 5 == 0 or full else (m,)):
            if q < 0 and method != 'silly':
                pass
            got = cgm.do.find.elements_and_local_indices_of_dof(q)
            if got is None or w is None:
                if not (got is None and w is None):
                    r.bad.append(('find', f'{tag}: find({q}) = {got}, elements holding it {w}'))
                    return
                continue
            els = [int(x) for x in got[0]]
            pairs = list(zip(els, [int(x) for x in got[1]]))
            if sorted(els) != sorted({e for e, _ in w}) or not set(pairs) <= set(w):
                r.bad.append(('find', f'{tag}: find({q}) = {pairs}, elements holding it {w}'))
                return
        if method == 'silly' or len(forms) == 1:
            got = cgm.do.find.elements_contain_dof_numbered(m)
            ok = got is None if w is None else (got is not None and sorted(got[0]) == sorted({e for e, _ in w})
                                                and got[1] == inv[m][0])
            if not ok:
                r.bad.append(('find', f'{tag}: elements_contain_dof_numbered({m}) = {got}, holding it {w}, form {inv[m][0]}'))
                return
    ask = sorted({*range(0, total, 3 if full else 11), total - 1})
    E, I = cgm.do.find.elements_and_local_indices_of_dofs(ask)
    for m in ask:
        w = where.get(m, [])
        if sorted(int(x) for x in E[m]) != sorted({e for e, _ in w}) or \
                not {(int(a), int(b)) for a, b in zip(E[m], I[m])} <= set(w):
            r.bad.append(('find', f'{tag}: elements_and_local_indices_of_dofs: {m} -> {E[m]}, {I[m]}, holding it {w}'))
            return


def value(i, g):
    return OFFSET * (i + 1) + g + 0.25


def check_split(r, forms, cgm, mesh, fwd, method, tag):
    """collect the cochains into one vector, and split a vector over the forms"""
    from tools.miLinearAlgebra.dataStructures.vectors.locallyFull.main import LocallyFullVector
    r.n += 1
    total = cgm.global_num_dofs
    V = np.zeros(total)
    for (i, g), c in fwd.items():
        V[c] = value(i, g)
    def cochains(f, i):
        return {e: np.array([value(i, g) for g in f.numbering.gathering[e].full_vector]) for e in mesh.elements}
    # --- split
    for cm_ in (method, cgm):
        for f in forms:
            f.cochain.local = {e: np.zeros(f.num.basis) for e in mesh.elements}
        LocallyFullVector(V.copy()).do.distributed_to(*forms, chain_method=cm_)
        for i, f in enumerate(forms):
            want = cochains(f, i)
            got = f.cochain.local
            bad = [e for e in mesh.elements if e not in got or not np.array_equal(np.ravel(got[e]), want[e])]
            if bad:
                r.bad.append(('split', f'{tag}: splitting ({"matrix" if cm_ is cgm else cm_}) gives form {i} a wrong cochain in '
                                       f'element {bad[0]}'))
                return
    # --- through the global cochain of each form, also with zeros in it
    for i, f in enumerate(forms):
        for z in (1, 0):
            f.cochain.local = {e: v * (np.arange(len(v)) * 0 + 1 if z else (f.numbering.gathering[e].full_vector % 3 > 0))
                               for e, v in cochains(f, i).items()}
            old = {e: np.array(v, float) for e, v in f.cochain.local.items()}
            g = f.cochain.globe
            junk = [np.full(f.num.global_dofs, 7.7) for _ in range(3)]
            del junk
            f.cochain.local = {e: np.full(f.num.basis, 3.3) for e in mesh.elements}
            f.cochain.globe = g
            new = f.cochain.local
            if any(not np.allclose(np.ravel(new[e]), old[e], rtol=1e-14, atol=1e-12) for e in mesh.elements):
                r.bad.append(('globe', f'{tag}: form {i}: cochain set from its own global cochain differs (zeros: {not z})'))
                return
    # --- a form that is to be skipped
    if method == 'silly' and len(forms) > 1:
        for k in range(len(forms)):
            for f in forms:
                f.cochain.local = {e: np.zeros(f.num.basis) for e in mesh.elements}
            args = [None if i == k else f for i, f in enumerate(forms)]
            LocallyFullVector(V.copy()).do.distributed_to(*args)
            for i, f in enumerate(forms):
                want = cochains(f, i) if i != k else {e: np.zeros(f.num.basis) for e in mesh.elements}
                if any(not np.array_equal(np.ravel(f.cochain.local[e]), want[e]) for e in mesh.elements):
                    r.bad.append(('split', f'{tag}: splitting with form {k} skipped: form {i} wrong'))
                    return
    # --- collect
    for i, f in enumerate(forms):
        f.cochain.local = cochains(f, i)
    W = LocallyFullVector(list(forms), chain_method=method).V
    r.n += 1
    mult = np.zeros(total)
    if method == 'silly':
        if not np.array_equal(np.asarray(W), V):
            r.bad.append(('collect', f'{tag}: collecting the cochains does not give the vector'))
    else:
        # assembling element contributions adds them up (each element contributes): compare against that sum
        for e, gvs, ch in everything(forms, cgm, mesh):
            for m in ch:
                mult[m] += 1
        W = np.asarray(W)
        if not (np.allclose(W, V * mult, rtol=1e-13) or np.array_equal(W, V)):
            r.bad.append(('collect', f'{tag}: collecting the cochains does not give the vector'))


def check_product(r, forms, cgm, mesh, fwd, method, tag):
    """a vector assembled with this chaining puts the entries of every form at its chained numbers"""
    from tools.elementwiseCache.dataStructures.operators.concatenate.main import concatenate
    from root.config.main import COMM
    from mc.scen.std import dense
    for i, f in enumerate(forms):
        f.cochain.local = {e: np.array([1. + e + 10. * i + .5 * k for k in range(f.num.basis)]) for e in mesh.elements}
    vs = [f.cochain.EWC for f in forms]
    b = concatenate(vs)
    b.assembler.chain_method = method
    b.gathering_matrix = list(forms)
    got = sum(COMM.allgather(np.ravel(dense(b.assembled.V))))
    want = np.zeros(cgm.global_num_dofs)
    for e in mesh.elements:
        pos = 0
        for i, f in enumerate(forms):
            for k, g in enumerate(f.numbering.gathering[e].full_vector):
                want[fwd[i, int(g)]] += 1. + e + 10. * i + .5 * k
    want = sum(COMM.allgather(want))
    r.eq(got, want, 'assembled', f'{tag}: assembled vector', tol=1e-12, scale=max(1., np.abs(want).max()))


def forms_of(F, d, t, fresh):
    K = KINDS3 if d == 3 else KINDS2
    pool, out = {}, []
    for k in t:
        n = sum(1 for x in out if x[0] == k)
        if (k, n) not in fresh:
            fresh[k, n] = lb.make_form(F, *K[k])
        out.append((k, fresh[k, n]))
    return [f for _, f in out]


def chains(spec, part, p, L, full, same=True):
    mesh = cm.make_mesh(spec, part)
    d = mesh.ndim
    F = cm.masters(d).FormCaller(mesh, cm.make_space(d, p))
    r = Rec()
    fresh = {}
    nt = 0
    for t in tuples(d, L, full):
        forms = forms_of(F, d, t, fresh)
        for method in ('silly', 'sequent'):
            tag = f'chain {[(KINDS3 if d == 3 else KINDS2)[k][0] for k in t]} {method}'
            cgm = chain_of(forms, method)
            fwd = check_map(r, forms, cgm, mesh, method, tag)
            nt += 1
            from root.config.main import COMM
            if COMM.allreduce(int(fwd is None)):
                continue
            if cgm.global_num_dofs <= (1500 if full else 400) or len(t) == 1:
                check_find(r, forms, cgm, mesh, fwd, method, tag, full or len(t) == 1)
            check_split(r, forms, cgm, mesh, fwd, method, tag)
            check_product(r, forms, cgm, mesh, fwd, method, tag)
    return r.out(tuples=nt)


# ---- histories ---------------------------------------------------------------------------------------------------
# 1..6: build/look up one of six chains; n: replace form a by a fresh one of another degree (dropping the old one);
# g: garbage collection of everything dropped; x: change a returned chained vector in place
CH = {'1': ('ab', 'silly'), '2': ('ba', 'silly'), '3': ('ab', 'sequent'), '4': ('abc', 'sequent'), '5': ('aa', 'silly'),
      '6': ('a', 'sequent'), '7': ('cab', 'silly')}
HOPS = '1234567nx'


def histories(spec, part, first, depth):
    from root.config.main import COMM
    mesh = cm.make_mesh(spec, part)
    d = mesh.ndim
    M = cm.masters(d)
    sp = {q: cm.make_space(d, q) for q in (1, 2)}
    FC = {q: M.FormCaller(mesh, sp[q]) for q in (1, 2)}
    K = (('0-f', False), ('2-f', False), ('1-f', False)) if d == 3 else (('0-f-o', False), ('1-f-o', False), ('2-f-o', False))
    r = Rec()
    n = 0
    for rest in itertools.product(HOPS, repeat=depth - 1):
        seq = first + ''.join(rest)
        if seq[-1] not in CH:
            continue
        n += 1
        q = 1
        pool = {x: lb.make_form(FC[1], *K[i]) for i, x in enumerate('abc')}
        last = None
        for i, o in enumerate(seq):
            tag = f'history {seq[:i + 1]}'
            if o == 'n':
                q = 3 - q
                del pool['a']
                if i % 2:
                    gc.collect()
                pool['a'] = lb.make_form(FC[q], *K[0])
            elif o == 'x':
                if last is not None:
                    if len(mesh.elements):
                        v = last[0][list(mesh.elements)[0]]
                        if last[2] > 1:
                            v += 1
            else:
                names, method = CH[o]
                forms = [pool[x] for x in names]
                cgm = chain_of(forms, method)
                fwd = check_map(r, forms, cgm, mesh, method, tag)
                if COMM.allreduce(int(fwd is None)):
                    return r.out(seqs=n)
                if i == len(seq) - 1:
                    check_find(r, forms, cgm, mesh, fwd, method, tag, False)
                    if o == '4' or o == '7':
                        check_split(r, forms, cgm, mesh, fwd, method, tag)
                last = (cgm, method, len(forms))
        if len(r.bad) > 10:
            break
    return r.out(seqs=n)
