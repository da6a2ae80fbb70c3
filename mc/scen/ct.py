"""C16: coordinate transformations of all elements, trace elements, caches; histories of meshes."""
import gc
import itertools
import numpy as np
from mc.scen import common as cm

H = 2e-3


def _full(v, shape):
    return np.broadcast_to(np.asarray(v, dtype=float), shape)


def _fd(f, pts, k):
    """4th-order central difference of the tuple-valued f along reference axis k"""
    def at(s):
        q = [p.copy() for p in pts]
        q[k] = q[k] + s * H
        return [np.asarray(v, dtype=float) for v in f(*q)]
    a, b, c, d = at(2), at(1), at(-1), at(-2)
    return [(-a[i] + 8 * b[i] - 8 * c[i] + d[i]) / (12 * H) for i in range(len(a))]


class Rec:
    def __init__(self):
        self.bad = []
        self.n = 0

    def eq(self, a, b, key, msg, tol=1e-9, scale=None):
        self.n += 1
        try:
            a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
            a, b = np.broadcast_arrays(a, b)
        except Exception as e:
            self.bad.append((key, f'{msg}: shapes {np.shape(a)} {np.shape(b)} {e}'))
            return False
        s = scale if scale is not None else max(1e-300, float(np.max(np.abs(b))) if b.size else 1.)
        e = float(np.max(np.abs(a - b))) if a.size else 0.
        if not e <= tol * s:
            self.bad.append((key, f'{msg}: differs by {e:.3e} at scale {s:.3e}'))
            return False
        return True

    def out(self, **kw):
        return dict(bad=self.bad[:40], states=self.n, trans=self.n, **kw)


def mats(d, M, shape):
    out = np.zeros((d, d) + shape)
    for i in range(d):
        for j in range(d):
            out[i, j] = _full(M[i][j], shape)
    return out


def grids(d):
    one = [np.array([-0.9, -0.2, 0.55]), np.array([-0.7, 0.45]), np.array([-0.35, 0.1, 0.8, 0.95])][:d]
    tensor = list(np.meshgrid(*one, indexing='ij'))
    line = [np.array([-0.8, -0.1, 0.3, 0.9]), np.array([0.7, -0.6, 0.25, 0.5]), np.array([0.05, 0.6, -0.9, -0.3])][:d]
    return tensor, line


def elements(mesh, r, pts, tag):
    """every local element on one reference grid; returns {i: J}"""
    d = mesh.ndim
    shape = pts[0].shape
    Js = {}
    for i in mesh.elements:
        ct = mesh.elements[i].coordinate_transformation
        xyz = ct.mapping(*pts)
        for k, nm in enumerate('XYZ'[:d]):
            r.eq(getattr(ct, nm)(*pts), xyz[k], 'component-mapping', f'element {i} {nm} {tag}', scale=1.)
        J = mats(d, ct.Jacobian_matrix(*pts), shape)
        Js[i] = J
        size = np.max(np.abs(J))
        for k in range(d):
            D = _fd(ct.mapping, pts, k)
            for c in range(d):
                # finite-difference noise is relative to the size of the coordinates
                noise = 1e-12 * (1 + float(np.max(np.abs(np.asarray(xyz[c], dtype=float))))) / H
                r.eq(J[c, k], D[c], 'Jacobian-vs-mapping', f'element {i} J{c}{k} {tag}', tol=1.,
                     scale=2e-7 * size + noise)
                r.eq(getattr(ct, f'J{c}{k}')(*pts), J[c, k], 'J-component', f'element {i} J{c}{k} {tag}', tol=1e-7,
                     scale=size)
        for c in range(d):
            row = getattr(ct, f'J{c}_')(*pts)
            for k in range(d):
                r.eq(row[k], J[c, k], 'J-row', f'element {i} J{c}_ {tag}', tol=1e-7, scale=size)
        P = np.moveaxis(J.reshape(d, d, -1), -1, 0)
        det = np.linalg.det(P).reshape(shape)
        r.eq(ct.Jacobian(*pts), det, 'determinant', f'element {i} {tag}', tol=1e-8)
        inv = np.moveaxis(np.linalg.inv(P), 0, -1).reshape((d, d) + shape)
        G = np.einsum('ki...,kj...->ij...', J, J)
        iG = np.einsum('ik...,jk...->ij...', inv, inv)
        r.eq(ct.metric(*pts), det ** 2, 'metric', f'element {i} {tag}', tol=1e-8)
        r.eq(mats(d, ct.metric_matrix(*pts), shape), G, 'metric-matrix', f'element {i} {tag}', tol=1e-8)
        r.eq(mats(d, ct.inverse_Jacobian_matrix(*pts), shape), inv, 'inverse-Jacobian-matrix', f'element {i} {tag}',
             tol=1e-7)
        r.eq(ct.inverse_Jacobian(*pts), 1 / det, 'inverse-Jacobian', f'element {i} {tag}', tol=1e-7)
        r.eq(mats(d, ct.inverse_metric_matrix(*pts), shape), iG, 'inverse-metric-matrix', f'element {i} {tag}', tol=1e-7)
        # the optional arguments must not change the value
        J0 = ct.Jacobian_matrix(*pts)
        iJ0 = ct.inverse_Jacobian_matrix(*pts, J=J0)
        r.eq(ct.Jacobian(*pts, J=J0), det, 'determinant', f'element {i} given J {tag}', tol=1e-8)
        r.eq(mats(d, iJ0, shape), inv, 'inverse-Jacobian-matrix', f'element {i} given J {tag}', tol=1e-7)
        r.eq(ct.inverse_Jacobian(*pts, iJ=iJ0), 1 / det, 'inverse-Jacobian', f'element {i} given iJ {tag}', tol=1e-7)
        r.eq(mats(d, ct.metric_matrix(*pts, J=J0), shape), G, 'metric-matrix', f'element {i} given J {tag}', tol=1e-8)
        r.eq(mats(d, ct.inverse_metric_matrix(*pts, iJ=iJ0), shape), iG, 'inverse-metric-matrix',
             f'element {i} given iJ {tag}', tol=1e-7)
        if np.any(np.sign(det) != np.sign(det.ravel()[0])):
            r.bad.append(('folded', f'element {i}: Jacobian changes sign'))
    return Js


SCAL = ('Jacobian', 'metric', 'inverse_Jacobian')
MAT = ('Jacobian_matrix', 'metric_matrix', 'inverse_Jacobian_matrix', 'inverse_metric_matrix')


def caches(mesh, r, pts, tag, ref):
    """the element-wise caches give the value of that very element, in whichever order they are visited"""
    d = mesh.ndim
    shape = pts[0].shape
    E = mesh.elements
    ect = E.coordinate_transformation
    idx = list(E.indices)
    orders = [idx, idx[::-1], idx[1:] + idx[:1] + idx]
    for o in orders:
        objs = {k: getattr(ect, k)(*pts) for k in SCAL + MAT + ('mapping',) + tuple('XYZ'[:d])}
        for k in [f'J{a}{b}' for a in range(d) for b in range(d)]:
            objs[k] = getattr(ect, k)(*pts)
        Jm = ect.Jacobian_matrix(*pts)
        iJm = ect.inverse_Jacobian_matrix(*pts, Jm)
        objs['Jacobian:J'] = ect.Jacobian(*pts, Jm)
        objs['metric_matrix:J'] = ect.metric_matrix(*pts, Jm)
        objs['inverse_Jacobian_matrix:J'] = iJm
        objs['inverse_Jacobian:J'] = ect.inverse_Jacobian(*pts, iJm)
        objs['inverse_metric_matrix:J'] = ect.inverse_metric_matrix(*pts, iJm)
        objs['metric:J'] = ect.metric(*pts, ect.Jacobian(*pts))
        for i in o:
            for k, ob in objs.items():
                k0 = k.split(':')[0]
                v = ob[i]
                w = ref(i, k0, pts)
                if k0 in MAT:
                    v, w = mats(d, v, shape), mats(d, w, shape)
                sc = None
                if k0[0] in 'mXYZJ' and k0 not in ('metric', 'metric_matrix', 'Jacobian'):
                    # entries can be rounding noise around zero: compare at the size of the whole quantity
                    full = ref(i, 'mapping' if k0[0] in 'mXYZ' else 'Jacobian_matrix', pts)
                    if k0[0] == 'J':
                        full = mats(d, full, shape)
                    sc = max(float(np.max(np.abs(np.asarray(full)))), 1e-300)
                r.eq(v, w, 'elements-cache', f'{k} of element {i} via the collective cache {tag}', tol=1e-7, scale=sc)
    if idx:
        vec = ect.vectorized
        for k in ('Jacobian', 'inverse_Jacobian'):
            v = np.asarray(getattr(vec, k)(*pts))
            w = np.array([_full(ref(i, k, pts), shape) for i in idx])
            r.eq(v, w if v.ndim == w.ndim else w, 'vectorized', f'{k} {tag}', tol=1e-7)
        if d == 2:
            v = vec.mapping(*pts)
            r.eq(v, np.array([np.array(ref(i, 'mapping', pts)) for i in idx]), 'vectorized', f'mapping {tag}', scale=1.)
            for k in ('Jacobian_matrix', 'inverse_Jacobian_matrix'):
                v = getattr(vec, k)(*pts)
                for a in range(2):
                    for b in range(2):
                        w = np.array([_full(ref(i, k, pts)[a][b], shape) for i in idx])
                        got = np.asarray(v[a][b], dtype=float)
                        if not np.any(got):          # structural zeros of orthogonal elements carry no shape
                            got = 0.
                        r.eq(got, w, 'vectorized', f'{k}[{a}][{b}] {tag}', tol=1e-7, scale=max(1e-12, np.max(np.abs(w)),
                             np.max(np.abs(_full(ref(idx[0], k, pts)[0][0], shape)))))


def quads(mesh, r, ref, qd):
    d = mesh.ndim
    from components.quadrature import Quadrature
    for cat in ('Gauss',):
        n1 = Quadrature(qd, category=cat).quad[0]
        tens = list(np.meshgrid(*n1, indexing='ij'))
        flat = [t.ravel('F') for t in tens]
        for nm, pts in (('QUAD_1d', flat), (f'QUAD_{d}d', tens)):
            Q = getattr(mesh.elements.coordinate_transformation, nm)
            for k in SCAL + MAT + ('mapping', 'X', 'Y', 'J00', 'J10', 'J01', f'J{d-1}{d-1}'):
                ob = getattr(Q, k)(qd, cat)
                for i in mesh.elements:
                    v, w = ob[i], ref(i, k, pts)
                    if k in MAT:
                        v, w = mats(d, v, pts[0].shape), mats(d, w, pts[0].shape)
                    r.eq(v, w, 'quad-cache', f'{nm}.{k}({qd}) element {i}', tol=1e-7,
                         scale=max(1., float(np.max(np.abs(w)))) if k[0] in 'mXY' and k not in ('metric', 'metric_matrix') else
                         max(float(np.max(np.abs(w))), 1e-3 * float(np.max(np.abs(mats(d, ref(i, 'Jacobian_matrix', pts), pts[0].shape)))))
                         if k[0] == 'J' and k != 'Jacobian' else None)


def restricted(d, side, two):
    """reference points of the element on `side`, from d-1 tangential coordinates in axis order"""
    ax, end = (('NSWEBF'.index(side)) // 2, ('NSWEBF'.index(side)) % 2) if d == 3 else ('UDLR'.index(side) // 2,
                                                                                     'UDLR'.index(side) % 2)
    out, it = [], iter(two)
    for a in range(d):
        out.append(np.full(two[0].shape, -1. if end == 0 else 1.) if a == ax else next(it))
    return out, ax, end


def traces3(mesh, r, perm):
    """3D trace elements: restriction, Jacobian, metric, normals; perm: reverse visiting order"""
    TE = mesh.trace.elements
    two = np.meshgrid(np.array([-0.8, -0.1, 0.6]), np.array([-0.5, 0.4]), indexing='ij')
    g1 = [np.array([-0.8, -0.1, 0.6]), np.array([-0.45, 0.2, 0.5, 0.9]), np.array([-0.5, 0.4])]
    els = list(mesh.elements.indices)
    for e in (els[::-1] if perm else els):
        for s, sd in enumerate('NSWEBF'):
            t = TE.map[e][s]
            te = TE[t]
            ct = te.coordinate_transformation
            pts, ax, end = restricted(3, sd, two)
            ect = mesh.elements[e].coordinate_transformation
            want = ect.mapping(*pts)
            twice = TE.map[e].count(t) == 2
            kw = dict(from_element=e)
            if twice:
                kw['side'] = sd
            got = ct.mapping(*two, **kw)
            for k in range(3):
                r.eq(got[k], want[k], 'trace-mapping', f'element {e} side {sd} trace {t}', scale=1.)
            sct = mesh.elements[e].sides[sd].coordinate_transformation
            got = sct.mapping(*two)
            for k in range(3):
                r.eq(got[k], want[k], 'side-mapping', f'element {e} side {sd} trace {t}', scale=1.)
            # outward normal as seen from this element
            J = mats(3, ect.Jacobian_matrix(*pts), two[0].shape)
            T = [J[:, a] for a in range(3) if a != ax]
            n = np.cross(T[0], T[1], axis=0)
            n = n / np.sqrt(np.sum(n ** 2, axis=0))
            out = J[:, ax] * (1 if end else -1)
            n = n * np.sign(np.sum(n * out, axis=0))
            if np.min(np.abs(np.linalg.det(np.moveaxis(J.reshape(3, 3, -1), -1, 0)))) > 1e-14:
                det = np.linalg.det(np.moveaxis(J.reshape(3, 3, -1), -1, 0))
                if np.all(det > 0):
                    for nm, f in (('trace', lambda: ct.___PRIVATE_outward_unit_normal_vector___(*two, **kw)),
                                  ('side', lambda: sct.outward_unit_normal_vector(*two))):
                        if mesh.elements[te.CHARACTERISTIC_element] is not None:
                            if te.whether.on_periodic_boundary and te.CHARACTERISTIC_element != e:
                                continue   # evaluated from the characteristic side, only equal for matching geometry
                            r.eq(f(), n, 'outward-normal', f'{nm} {t} from element {e} side {sd}', tol=1e-7, scale=1.)
    for t in TE:
        te = TE[t]
        ct = te.coordinate_transformation
        e, sd = te.CHARACTERISTIC_element, te.CHARACTERISTIC_side
        pts, ax, end = restricted(3, sd, two)
        ect = mesh.elements[e].coordinate_transformation
        J = mats(3, ect.Jacobian_matrix(*pts), two[0].shape)
        cols = [a for a in range(3) if a != ax]
        if ax == 1:
            cols = cols[::-1]
        Jt = np.array([[_full(v, two[0].shape) for v in row] for row in ct.Jacobian_matrix(*two)])
        sc = np.max(np.abs(J))
        r.eq(Jt, J[:, cols], 'trace-Jacobian', f'trace {t}', scale=sc)
        G = np.einsum('ki...,kj...->ij...', J[:, cols], J[:, cols])
        Gt = np.array([[_full(v, two[0].shape) for v in row] for row in ct.metric_matrix(*two)])
        r.eq(Gt, G, 'trace-metric-matrix', f'trace {t}', tol=1e-8)
        g = G[0, 0] * G[1, 1] - G[0, 1] ** 2
        r.eq(ct.metric(*two), g, 'trace-metric', f'trace {t}', tol=1e-8)
        n = np.cross(J[:, cols[0]], J[:, cols[1]], axis=0)
        n = n / np.sqrt(np.sum(n ** 2, axis=0))
        r.eq(np.array([_full(v, two[0].shape) for v in ct.unit_normal_vector(*two)]), n, 'trace-normal', f'trace {t}',
             tol=1e-7, scale=1.)
        # the tangential left inverse: iJ J = identity with rows in the tangent plane, iG = inverse of G
        iG = np.linalg.inv(np.moveaxis(G.reshape(2, 2, -1), -1, 0))
        iG = np.moveaxis(iG, 0, -1).reshape((2, 2) + g.shape)
        iJ = np.einsum('ij...,kj...->ik...', iG, J[:, cols])
        r.eq(np.array([[_full(v, two[0].shape) for v in row] for row in ct.inverse_Jacobian_matrix(*two)]), iJ,
             'trace-inverse-Jacobian', f'trace {t}', tol=1e-7)
        r.eq(np.array([[_full(v, two[0].shape) for v in row] for row in ct.inverse_metric_matrix(*two)]), iG,
             'trace-inverse-metric', f'trace {t}', tol=1e-7)
        try:
            te.whether.orthogonal
        except NotImplementedError:
            continue                       # documented: transfinite regions do not classify trace elements
        cj = ct.constant.Jacobian
        if cj is not None:
            r.eq(np.full(g.shape, cj), np.sqrt(g), 'trace-constant-Jacobian', f'trace {t}', tol=1e-8)
        cn = ct.constant.unit_normal_vector
        if cn is not None:
            r.eq(np.array([np.full(g.shape, float(v)) for v in cn]), n, 'trace-constant-normal', f'trace {t}', tol=1e-7, scale=1.)
    # collective cache over trace elements
    try:
        [TE[t].type_wrt_metric for t in TE]
    except NotImplementedError:
        return
    three = np.array([-0.8, 0.1, 0.6]), np.array([-0.5, 0.4, 0.7]), np.array([-0.3, 0.2, 0.9])
    col = TE.coordinate_transformation
    for order in (list(TE), list(TE)[::-1]):
        for k in ('Jacobian_matrix', 'metric_matrix', 'metric', 'unit_normal_vector', 'inverse_Jacobian_matrix'):
            ob = getattr(col, k)(*three)
            for t in order:
                ax = 'NSWEBF'.index(TE[t].CHARACTERISTIC_side) // 2
                p2 = [three[a] for a in range(3) if a != ax]
                w = getattr(TE[t].coordinate_transformation, k)(*p2)
                v = ob[t]
                if k in ('metric',):
                    r.eq(v, w, 'trace-cache', f'{k} trace {t}', tol=1e-7)
                elif k == 'unit_normal_vector':
                    for a in range(3):
                        r.eq(v[a], w[a], 'trace-cache', f'{k} trace {t}', tol=1e-7, scale=1.)
                else:
                    sc = max(float(np.max(np.abs(np.asarray(x, dtype=float)))) for row in w for x in row)
                    for ra, rb in zip(v, w):
                        for xa, xb in zip(ra, rb):
                            r.eq(xa, xb, 'trace-cache', f'{k} trace {t}', tol=1e-7, scale=sc)
    for bn in mesh.boundaries.names:
        b = mesh.boundaries[bn]
        cn = b.coordinate_transformation.constant.outward_unit_normal_vector
        if cn is None:
            continue
        for es in b.element_sides:
            e, sd = int(es[:-1]), es[-1]
            pts, ax, end = restricted(3, sd, two)
            J = mats(3, mesh.elements[e].coordinate_transformation.Jacobian_matrix(*pts), two[0].shape)
            c = [a for a in range(3) if a != ax]
            n = np.cross(J[:, c[0]], J[:, c[1]], axis=0)
            n = n / np.sqrt(np.sum(n ** 2, axis=0))
            n = n * np.sign(np.sum(n * J[:, ax] * (1 if end else -1), axis=0))
            r.eq(np.array([np.full(n.shape[1:], float(v)) for v in cn]), n, 'boundary-constant-normal', f'{bn} {es}', tol=1e-7,
                 scale=1.)


def traces2(mesh, r, perm):
    TE = mesh.trace.elements
    p = np.array([-0.8, -0.1, 0.6])
    for t in (list(TE)[::-1] if perm else list(TE)):
        te = TE[t]
        ct = te.coordinate_transformation
        e, sd = te.CHARACTERISTIC_element, te.CHARACTERISTIC_edge
        pts, ax, end = restricted(2, sd, [p])
        ect = mesh.elements[e].coordinate_transformation
        want = ect.mapping(*pts)
        got = ct.mapping(p)
        for k in range(2):
            r.eq(got[k], want[k], 'trace-mapping', f'trace {t}', scale=1.)
        J = mats(2, ect.Jacobian_matrix(*pts), p.shape)[:, 1 - ax]
        Jt = np.array([_full(v, p.shape) for v in ct.Jacobian_matrix(p)])
        r.eq(Jt, J, 'trace-Jacobian', f'trace {t}')
        g = np.sum(J ** 2, axis=0)
        r.eq(ct.metric_matrix(p), g, 'trace-metric-matrix', f'trace {t}', tol=1e-8)
        r.eq(ct.metric(p), g, 'trace-metric', f'trace {t}', tol=1e-8)
        cj = ct.constant.Jacobian
        if cj is not None:
            r.eq(np.full(g.shape, cj), np.sqrt(g), 'trace-constant-Jacobian', f'trace {t}', tol=1e-8)


def ct(spec, part, level):
    """level 0: short, 1: with caches in every order"""
    mesh = cm.make_mesh(spec, part)
    d = mesh.ndim
    r = Rec()
    tensor, line = grids(d)
    memo = {}

    def ref(i, k, pts):
        kk = (i, k, id(pts[0]))
        if kk not in memo:
            memo[kk] = (getattr(mesh.elements[i].coordinate_transformation, k)(*pts), pts)
        return memo[kk][0]
    Js = elements(mesh, r, tensor, 'tensor grid')
    elements(mesh, r, line, 'points')
    caches(mesh, r, tensor, 'tensor grid', ref)
    caches(mesh, r, line, 'points', ref)
    quads(mesh, r, ref, [2, 3, 1][:d])
    if d == 3:
        traces3(mesh, r, False)
        if level:
            traces3(mesh, r, True)
    else:
        traces2(mesh, r, level)
    marks = {}
    for i in mesh.elements:
        m = mesh.elements[i].type_wrt_metric.mark
        marks[i] = (m if isinstance(m, str) else None, Js[i].tobytes() if isinstance(m, str) else b'')
    tm = {}
    for t in mesh.trace.elements:
        te = mesh.trace.elements[t]
        try:
            m = te.type_wrt_metric.mark
        except NotImplementedError:
            break
        if isinstance(m, str):
            if d == 3:
                g = te.coordinate_transformation.metric(np.array([0.]), np.array([0.]))
            else:
                g = te.coordinate_transformation.metric(np.array([0.]))
            tm[t] = (m, float(np.ravel(g)[0]))
    return r.out(marks=marks, tm=tm, shape=[d, d] + list(tensor[0].shape))


def history(specs, seq):
    """create, evaluate and drop meshes one after another: nothing of a dropped mesh may survive in a later one"""
    r = Rec()
    for step, k in enumerate(seq):
        spec, corners = specs[k]
        try:
            mesh = cm.make_mesh(spec)
        except Exception as e:
            r.bad.append(('history', f'step {step} of {seq}: {spec}: {e!r}'))
            break
        d = mesh.ndim
        lo = [1e300] * d
        hi = [-1e300] * d
        for i in mesh.elements:
            p = [np.array(c) for c in zip(*itertools.product((-1., 1.), repeat=d))]
            x = mesh.elements[i].coordinate_transformation.mapping(*p)
            for a in range(d):
                lo[a] = min(lo[a], float(np.min(x[a])))
                hi[a] = max(hi[a], float(np.max(x[a])))
            q = mesh.elements.coordinate_transformation
            qq = getattr(q, f'QUAD_{d}d').Jacobian([2] * d, 'Gauss')[i]
            from components.quadrature import Quadrature
            pts = np.meshgrid(*Quadrature([2] * d, category='Gauss').quad[0], indexing='ij')
            r.eq(qq, mesh.elements[i].coordinate_transformation.Jacobian(*pts), 'history', f'step {step} of {seq}: quad cache')
        for a in range(d):
            r.eq(lo[a], corners[0][a], 'history', f'step {step} of {seq}: lower bound {a} of {spec}', scale=1.)
            r.eq(hi[a], corners[1][a], 'history', f'step {step} of {seq}: upper bound {a} of {spec}', scale=1.)
        space = cm.make_space(d, [1 + step % 2] * d)
        bf = space.do.evaluate_form_basis_at_quadrature(0, [2] * d)[1][0] if d == 3 else None
        if bf is not None:
            r.eq(bf.shape[0], (2 + step % 2) ** 3, 'history', f'step {step} of {seq}: number of basis functions')
        del mesh, space, bf
        gc.collect()
    return r.out()
