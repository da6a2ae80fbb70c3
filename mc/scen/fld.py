"""C22: fields (2D, 3D) and function wrappers: operator trees over polynomial operands against exact pointwise algebra"""
import itertools
import numpy as np
from mc.scen import common as cm
from mc.scen.ct import Rec


# -- polynomials in (t, x, y[, z]): {exponents: coefficient} -----------------------------------------------------------
class Poly:
    def __init__(self, c):
        self.c = {e: v for e, v in c.items() if v}

    def __add__(self, o):
        d = dict(self.c)
        for e, v in o.c.items():
            d[e] = d.get(e, 0) + v
        return Poly(d)

    def __neg__(self):
        return Poly({e: -v for e, v in self.c.items()})

    def __sub__(self, o):
        return self + -o

    def __mul__(self, o):
        if not isinstance(o, Poly):
            return Poly({e: v * o for e, v in self.c.items()})
        d = {}
        for (a, v), (b, w) in itertools.product(self.c.items(), o.c.items()):
            e = tuple(i + j for i, j in zip(a, b))
            d[e] = d.get(e, 0) + v * w
        return Poly(d)

    def diff(self, k):
        d = {}
        for e, v in self.c.items():
            if e[k]:
                f = e[:k] + (e[k] - 1,) + e[k + 1:]
                d[f] = d.get(f, 0) + v * e[k]
        return Poly(d)

    def __call__(self, t, *x):
        p = (t,) + x
        r = np.zeros(np.broadcast(*x).shape)
        for e, v in self.c.items():
            m = v
            for k, n in zip(p, e):
                if n:
                    m = m * k ** n
            r = r + m
        return r

    def size(self, t, *x):
        return float(np.max(Poly({e: abs(v) for e, v in self.c.items()})(abs(t), *[np.abs(y) for y in x])))

    def code(self):
        n = len(next(iter(self.c))) if self.c else 4
        nm = 'txyz'[:n]
        s = ' + '.join('*'.join([repr(v)] + [f'{a}**{k}' for a, k in zip(nm, e) if k]) for e, v in self.c.items()) or '0'
        return nm, s + ' + 0*x'

    def func(self, kind='def'):
        nm, s = self.code()
        ns = {}
        args = ', '.join(nm)
        exec(f'def f({args}): return {s}\nclass C:\n    def f(self, {args}): return {s}\n'
             f'class D:\n    def __call__(self, {args}): return {s}\nc = C().f\nd = D()', ns)
        return {'def': ns['f'], 'method': ns['c'], 'callable': ns['d']}[kind]


def leaf(d, n, seed):
    """n polynomials of (t, x..) without accidental coincidences"""
    out = []
    for k in range(n):
        c = {}
        for j, a in enumerate(range(d + 1)):
            e = [0] * (d + 1)
            e[a] = 1
            c[tuple(e)] = 1 + (seed * 7 + k * 3 + j * 2) % 5 * .5 * (-1) ** (k + j + seed)
        e = [0] * (d + 1)
        e[1 + k % d], e[1 + (k + 1) % d] = 1, 1
        c[tuple(e)] = .75 + k + seed
        e = [0] * (d + 1)
        e[0], e[1 + (k + seed) % d] = 1, 2
        c[tuple(e)] = -.5 - k * .25
        e = [0] * (d + 1)
        e[0] = 2
        c[tuple(e)] = .25 * (seed + 1)
        c[(0,) * (d + 1)] = .3 * (k + 1)
        out.append(Poly(c))
    return tuple(out)


def dot(a, b):
    s = a[0] * b[0]
    for p, q in zip(a[1:], b[1:]):
        s = s + p * q
    return s


def cross(a, b):
    return tuple(a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3] for i in range(3))


def grad(d, s):
    return tuple(s.diff(1 + k) for k in range(d))


def div(d, v):
    s = v[0].diff(1)
    for k in range(1, d):
        s = s + v[k].diff(1 + k)
    return s


def curl3(v):
    return tuple(v[(i + 2) % 3].diff(1 + (i + 1) % 3) - v[(i + 1) % 3].diff(1 + (i + 2) % 3) for i in range(3))


def add(a, b):
    return tuple(p + q for p, q in zip(a, b))


def sub(a, b):
    return tuple(p - q for p, q in zip(a, b))


def mul(a, b):
    return tuple(p * q for p in a for q in b)


def tdiv(v):
    return tuple(div(3, v[3 * i:3 * i + 3]) for i in range(3))


def conv(d, u, v):
    return tuple(dot(u, grad(d, p)) for p in v)


def ops(fw):
    """name -> (operand kinds, kind of the result, on the objects, on the polynomials, number of differentiations)"""
    d = 2 if fw.endswith('2') else 3
    O = {}
    kinds = {'f3': 'SVT', 'f2': 'SV', 'w3': 'SV', 'w2': 'SV'}[fw]
    for k in kinds:
        O[f'neg{k}'] = (k, k, lambda a: -a, lambda a: tuple(-p for p in a), 0)
        O[f'add{k}'] = (k + k, k, lambda a, b: a + b, add, 0)
        O[f'sub{k}'] = (k + k, k, lambda a, b: a - b, sub, 0)
    tdv = lambda a: tuple(p.diff(0) for p in a)
    if fw[0] == 'f':
        for k in ('SV' if fw == 'f2' else 'V'):
            O[f'num*{k}'] = ('n' + k, k, lambda n, a: n * a, lambda n, a: tuple(p * n for p in a), 0)
            O[f'{k}*num'] = (k + 'n', k, lambda a, n: a * n, lambda a, n: tuple(p * n for p in a), 0)
        O['SV*'] = ('SV', 'V', lambda a, b: a * b, mul, 0)
        O['VS*'] = ('VS', 'V', lambda a, b: a * b, mul, 0)
        O['V.V'] = ('VV', 'S', lambda a, b: a.do.inner_product(b), lambda a, b: (dot(a, b),), 0)
        O['dtS'] = ('S', 'S', lambda a: a.numerical.time_derivative, tdv, 1)
        O['dtV'] = ('V', 'V', lambda a: a.numerical.time_derivative, tdv, 1)
    else:
        if fw == 'w2':
            O['S*S'] = ('SS', 'S', lambda a, b: a * b, mul, 0)
        O['V.V'] = ('VV', 'S', lambda a, b: a.dot(b), lambda a, b: (dot(a, b),), 0)
        O['convS'] = ('SV', 'S', lambda a, b: a.convection_by(b), lambda a, b: conv(d, b, a), 1)
        O['convV'] = ('VV', 'V', lambda a, b: a.convection_by(b), lambda a, b: conv(d, b, a), 1)
        O['gradS'] = ('S', 'V', lambda a: a.gradient, lambda a: grad(d, a[0]), 1)
        O['divV'] = ('V', 'S', lambda a: a.divergence, lambda a: (div(d, a),), 1)
        O['dtS'] = ('S', 'S', lambda a: a.time_derivative, tdv, 1)
        O['dtV'] = ('V', 'V', lambda a: a.time_derivative, tdv, 1)
        O['dtT'] = ('T', 'T', lambda a: a.time_derivative, tdv, 1)
    if fw == 'f3':
        O['VxV'] = ('VV', 'V', lambda a, b: a.do.cross_product(b), cross, 0)
        O['gradS'] = ('S', 'V', lambda a: a.numerical.gradient, lambda a: grad(3, a[0]), 1)
        O['gradV'] = ('V', 'T', lambda a: a.numerical.gradient, lambda a: sum((grad(3, p) for p in a), ()), 1)
        O['curlV'] = ('V', 'V', lambda a: a.numerical.curl, curl3, 1)
        O['divV'] = ('V', 'S', lambda a: a.numerical.divergence, lambda a: (div(3, a),), 1)
        O['divT'] = ('T', 'V', lambda a: a.numerical.divergence, tdiv, 1)
        O['dtT'] = ('T', 'T', lambda a: a.numerical.time_derivative, tdv, 1)
    elif fw == 'f2':
        O['S.S'] = ('SS', 'S', lambda a, b: a.do.inner_product(b), mul, 0)
        O['SxV'] = ('SV', 'V', lambda a, b: a.do.cross_product(b), lambda a, b: (-(a[0] * b[1]), a[0] * b[0]), 0)
        O['gradS'] = ('S', 'V', lambda a: a.numerical.grad, lambda a: grad(2, a[0]), 1)
        O['curlS'] = ('S', 'V', lambda a: a.numerical.curl, lambda a: (a[0].diff(2), -a[0].diff(1)), 1)
        O['rotV'] = ('V', 'S', lambda a: a.numerical.rot, lambda a: (a[1].diff(1) - a[0].diff(2),), 1)
        O['divV'] = ('V', 'S', lambda a: a.numerical.div, lambda a: (div(2, a),), 1)
    elif fw == 'w3':
        O['VxV'] = ('VV', 'V', lambda a, b: a.cross_product(b), cross, 0)
        O['curlV'] = ('V', 'V', lambda a: a.curl, curl3, 1)
    else:
        O['curlS'] = ('S', 'V', lambda a: a.curl, lambda a: (a[0].diff(2), -a[0].diff(1)), 1)
        O['rotV'] = ('V', 'S', lambda a: a.rot, lambda a: (a[1].diff(1) - a[0].diff(2),), 1)
    return O


NUM = {'S': 1, 'T': None}
NUMBERS = (-2, 0.5, 3)


class World:
    """leaf operands of one framework"""
    def __init__(self, fw, mesh, how='def'):
        self.fw, self.mesh, self.d = fw, mesh, int(fw[1])
        self.how = how
        if fw[0] == 'f':
            FC = cm.masters(self.d).FormCaller(mesh, cm.make_space(self.d, (1,) * self.d))
            self.ID = {'S': 'scalar', 'V': 'vector', 'T': 'tensor'}
            self.FC = FC
        else:
            import importlib
            w = f'components.functions.timePlus{self.d}dSpace.wrappers.'
            self.cls = {k: getattr(importlib.import_module(w + n), f't{self.d}d{n.capitalize()}')
                        for k, n in zip('SVT', ('scalar', 'vector', 'tensor'))}

    def size(self, k):
        return {'S': 1, 'V': self.d, 'T': self.d ** 2}[k]

    def make(self, k, polys):
        fs = [p.func(self.how) for p in polys]
        if self.fw[0] == 'w':
            return self.cls[k](*fs)
        if k == 'S':
            return self.FC(self.ID[k], fs[0])
        if k == 'T':
            return self.FC(self.ID[k], [fs[i * self.d:(i + 1) * self.d] for i in range(self.d)])
        return self.FC(self.ID[k], fs)

    def leaf(self, k, seed):
        p = leaf(self.d, self.size(k), seed)
        return self.make(k, p), p

    def kind(self, o):
        n = o.__class__.__name__
        return 'S' if 'Scalar' in n else 'V' if 'Vector' in n else 'T' if 'Tensor' in n else '?'


def flat(v, k, d):
    if k == 'T':
        return [x for row in v for x in row]
    return list(v)


def evaluate(w, o, k, times, pts, r, key, polys, tol, ravels=(False, True)):
    d = w.d
    for t in times:
        if w.fw[0] == 'w':
            X = np.meshgrid(*pts, indexing='ij')
            v = o(t, *X)
            v = [v] if k == 'S' else list(v)
            if k == 'T' and len(v) == d:
                v = flat(v, k, d)
            if len(v) != len(polys):
                return r.bad.append((key, f'{key}: {len(v)} components, expected {len(polys)}'))
            for a, p in zip(v, polys):
                e = p(t, *X)
                r.eq(np.broadcast_to(a, e.shape), e, key, f'{key} at t={t}', tol=tol, scale=max(1, p.size(t, *X)))
            continue
        for ravel in ravels:
            X = np.meshgrid(*pts, indexing='ij')
            R = o.reconstruct(*X, time=t, ravel=ravel)
            if o.current_time != t:
                r.bad.append((key, f'{key}: current_time {o.current_time} after evaluation at {t}'))
            xyz, val = R
            if set(val) != set(w.mesh.elements.indices):
                r.bad.append((key, f'{key}: values on elements {sorted(val)}, local elements '
                                   f'{sorted(w.mesh.elements.indices)}'))
            for i in val:
                E = w.mesh.elements[i].coordinate_transformation.mapping(*X)
                v = flat(val[i], k, d)
                if ravel:
                    E = [x.ravel('F') for x in E]
                r.eq(np.array(xyz[i]), np.array(E), key + '/xyz', f'{key}: coordinates on element {i}', tol=1e-12)
                if len(v) != len(polys):
                    r.bad.append((key, f'{key}: {len(v)} components, expected {len(polys)}'))
                    continue
                for c, (a, p) in enumerate(zip(v, polys)):
                    e = p(t, *E)
                    r.eq(np.array(a), e, key, f'{key}: component {c} on element {i} at t={t}', tol=tol,
                         scale=max(1, p.size(t, *E)))


TOL = {0: 1e-10, 1: 1e-6, 2: 5e-2}


def trees(fw, spec, part, first, depth, required, how='def'):
    """all operator trees whose root is `first` over leaves (depth 1) or leaves and depth-1 trees (depth 2)"""
    mesh = cm.make_mesh(spec, part)
    w = World(fw, mesh, how)
    r = Rec()
    O = ops(fw)
    d = w.d
    pts = [np.array(p) for p in ([-.9, .1, .75], [-1, .35], [-.6, 1.])[:d]]
    times = (0.5, 2, 0.5)
    kinds, out, f, g, nd = O[first]
    refused, n = [], 0

    def candidates(k, seed, deep):
        if k == 'n':
            for x in NUMBERS:
                yield f'{x}', x, x, 0, 0
            return
        o, p = w.leaf(k, seed)
        yield f'{k}{seed}', o, p, 0, 0
        if not deep:
            return
        for nm, (kk, oo, ff, gg, n1) in O.items():
            if oo != k:
                continue
            args = [(NUMBERS[0], NUMBERS[0]) if a == 'n' else w.leaf(a, seed + 2 + j) for j, a in enumerate(kk)]
            try:
                o = ff(*[a[0] for a in args])
            except NotImplementedError:
                continue
            yield nm, o, gg(*[a[1] for a in args]), 1, n1

    # the same leaf used twice is covered too
    for deep in ([False] if depth == 1 else [False, True]):
        for combo in itertools.product(*[list(candidates(k, s, deep)) for s, k in enumerate(kinds)]):
            if deep and not any(c[3] for c in combo):
                continue
            key = f'{fw}:{first}({",".join(c[0] for c in combo)})'
            tol = TOL[min(2, nd + max(c[4] for c in combo))]
            if w.fw[0] == 'f':
                for c, k in zip(combo, kinds):
                    if c[3] == 0 and k != 'n':
                        c[1].current_time = 7
            try:
                o = f(*[c[1] for c in combo])
            except NotImplementedError:
                refused.append(key)
                if not deep and first in required:
                    r.bad.append((key, f'{key} is not available'))
                continue
            n += 1
            if w.kind(o) != out:
                r.bad.append((key, f'{key} is a {o.__class__.__name__}'))
                continue
            P = g(*[c[2] for c in combo])
            try:
                evaluate(w, o, out, times[:2] if deep else times, pts, r, key, P, tol,
                         (False,) if deep else (False, True))
            except NotImplementedError:
                refused.append(key)
                continue
            # operands are untouched
            for c, k in zip(combo, kinds):
                if k != 'n' and w.fw[0] == 'f' and c[3] == 0:
                    if c[1].current_time != 7:
                        r.bad.append((key, f'{key}: the operation or its evaluation changed the time of operand {c[0]} '
                                           f'to {c[1].current_time}'))
                    if not deep:
                        evaluate(w, c[1], k, (1.5,), pts, r, key + '/operand', c[2], 1e-12)
    return r.out(trees=n, refused=refused)


SIDE3 = {'N': (0, 0), 'S': (0, 1), 'W': (1, 0), 'E': (1, 1), 'B': (2, 0), 'F': (2, 1)}
SIDE2 = {'U': (0, 0), 'D': (0, 1), 'L': (1, 0), 'R': (1, 1)}


def boundary_tes(mesh, d):
    """trace element -> (local element, side letter, boundary name) of the domain boundary, from the element map"""
    S = SIDE3 if d == 3 else SIDE2
    out, every = {}, {}
    mp = mesh.trace.elements.map        # made by all ranks together
    for e in mesh.elements:
        for s, w, t in zip(S, mesh.elements.map[e], mp[e]):
            every.setdefault(t, []).append((e, s))
            if isinstance(w, str):
                out[t] = (e, s, w)
    return out, every


def side_points(pts, s, d):
    a, hi = (SIDE3 if d == 3 else SIDE2)[s]
    p = [np.asarray(x, float) for x in pts]
    p[a] = np.array([1. if hi else -1.])
    return [x for x in np.meshgrid(*p, indexing='ij')], a


def normal(el, X, a, d):
    from mc.scen.fem import Jmat
    sh = X[0].shape
    J = Jmat(el, np.array([x.ravel('F') for x in X]), d)
    g = np.linalg.inv(np.moveaxis(J, -1, 0))[:, a, :]
    g = g / np.linalg.norm(g, axis=1, keepdims=True)
    return [g[:, k].reshape(sh, order='F') for k in range(d)]


def sq(v, a):
    return np.squeeze(np.asarray(v), axis=a)


def flat_boundary(mesh, d, bt, comm):
    """boundary name -> its outward unit normal where constant (from the elements' own geometry), over all ranks"""
    loc = {}
    pts = [np.array([-.8, .1, .9])] * d
    for t, (e, s, b) in bt.items():
        X, a = side_points(pts, s, d)
        n = np.array(normal(mesh.elements[e], X, a, d)).reshape(d, -1)
        if not (SIDE3 if d == 3 else SIDE2)[s][1]:
            n = -n
        loc.setdefault(b, []).append(n)
    al = comm.allgather(loc)
    out = {}
    for b in mesh.boundaries.names:
        ns = [n for L in al for n in L.get(b, [])]
        if not ns:
            continue
        n = np.concatenate(ns, axis=1)
        out[b] = n[:, 0] if np.abs(n - n[:, :1]).max() < 1e-9 else None
    return out


def bound3(spec, part, times, first=None):
    from mpi4py import MPI
    mesh = cm.make_mesh(spec, part)
    w = World('f3', mesh)
    r = Rec()
    FC = w.FC
    if first:       # the very first thing done on the mesh, on all ranks
        q = [np.array([-.5, .5])] * 3
        F = FC('vector', {b: [p.func() for p in leaf(3, 3, 1)] for b in list(mesh.boundaries.names)[-1:]})
        G = w.leaf('V', 1)[0]
        F.current_time = G.current_time = 1.
        if first == 'bw':
            F.reconstruct(*q)
        elif first == 'std':
            G.reconstruct(*q, where='trace-element', i='on_mesh_boundaries')
        elif first == 'flux':
            G.flux.reconstruct(*q, time=1.)
        elif first == 'norm':
            G.components.norm.reconstruct(*q, time=1.)
        elif first == 'perp':
            try:
                F.components.T_perp
            except NotImplementedError:
                pass
        return r.out()
    bt, every = boundary_tes(mesh, 3)
    flat = flat_boundary(mesh, 3, bt, MPI.COMM_WORLD)
    pts = [np.array(p) for p in ([-.9, .1, .75], [-1, .35], [-.6, 1.])]
    S, ps = w.leaf('S', 0)
    V, pv = w.leaf('V', 1)
    C = FC('scalar', 2.5)
    CV = FC('vector', [1.5, -2, 3])

    def values(field, want, key, where=None, i=None, polys=None, tol=1e-11, ts=times):
        """want: {te: f(t, te, X(physical), n) -> list of arrays}"""
        for t in ts:
            for ravel in (False, True):
                kw = dict(time=t, ravel=ravel)
                if where:
                    kw['where'] = where
                if i:
                    kw['i'] = i
                xyz, val = field.reconstruct(*pts, **kw)
                if set(val) != set(want):
                    r.bad.append((key, f'{key}: values on trace elements {sorted(val)}, expected {sorted(want)}'))
                    continue
                for te in val:
                    e, s = mesh.trace.elements[te].CHARACTERISTIC_element, mesh.trace.elements[te].CHARACTERISTIC_side
                    X, a = side_points(pts, s, 3)
                    el = mesh.elements[e]
                    ph = el.coordinate_transformation.mapping(*X)
                    n = normal(el, X, a, 3)
                    ev = want[te](t, te, ph, n)
                    ph = [sq(p, a) for p in ph]
                    ev = [sq(p, a) for p in ev]
                    if ravel:
                        ph, ev = [p.ravel('F') for p in ph], [p.ravel('F') for p in ev]
                    r.eq(np.array([np.asarray(q) for q in xyz[te]]), np.array(ph), key + '/xyz',
                         f'{key}: coordinates on trace element {te}', tol=1e-10)
                    r.eq(np.array([np.asarray(q) for q in val[te]]), np.array(ev), key,
                         f'{key}: trace element {te} ({s} side of element {e}) t={t}', tol=tol)

    pe = lambda P: (lambda t, te, X, n: [p(t, *X) for p in P])
    values(S, {t: pe(ps) for t in bt}, 'S/boundary', 'trace-element', 'on_mesh_boundaries')
    values(V, {t: pe(pv) for t in bt}, 'V/boundary', 'trace-element', 'on_mesh_boundaries')
    one = lambda c: Poly({(0, 0, 0, 0): c})
    values(C, {t: pe([one(2.5)]) for t in bt}, 'const/boundary', 'trace-element', 'on_mesh_boundaries')
    values(CV, {t: pe([one(1.5), one(-2), one(3)]) for t in bt}, 'constV/boundary', 'trace-element', 'on_mesh_boundaries')
    crs = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    ip = lambda a, b: a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
    v = lambda t, X, P=pv: [p(t, *X) for p in P]
    comp = {'norm': lambda t, te, X, n: [ip(v(t, X), n) * m for m in n],
            'T_perp': lambda t, te, X, n: crs(v(t, X), n),
            'T_para': lambda t, te, X, n: crs(n, crs(v(t, X), n))}
    smooth = 1e-6
    V.current_time = 7
    if every:       # an empty trace-element-wise dictionary is allowed too
        pass
    parts = {}
    for nm, f in comp.items():
        F = getattr(V.components, nm)
        parts[nm] = F
        values(F, {t: f for t in every}, nm, tol=smooth)
        values(F, {t: f for t in bt}, nm + '/boundary', i='on_mesh_boundaries', tol=smooth)
    fl = V.flux
    values(fl, {t: (lambda t, te, X, n: [ip(v(t, X), n)]) for t in bt}, 'flux', tol=smooth)
    # interleaved evaluations of two derived fields keep their own times
    a, b = times[0], times[1]
    parts['norm'].current_time = a
    parts['T_para'].current_time = b
    values(parts['norm'], {t: comp['norm'] for t in every}, 'norm/again', tol=smooth, ts=(b, a))
    if V.current_time != 7:
        r.bad.append(('time', f'evaluating components of a vector moved its time from 7 to {V.current_time}'))

    # ---- boundary-wise fields over subsets of the boundaries
    names = list(mesh.boundaries.names)
    if len(names) > 3:
        subs = [names[:1], names[1:3], names[::2], names]
    else:
        subs = [list(c) for k in range(1, len(names) + 1) for c in itertools.combinations(names, k)]
    refused = 0
    for sub in subs:
        Ps = {b: leaf(3, 1, names.index(b)) for b in sub}
        Pv = {b: leaf(3, 3, names.index(b) + 1) for b in sub}
        key = 'bw/' + '+'.join(sub)
        FS = FC('scalar', {b: Ps[b][0].func() for b in sub})
        FV = FC('vector', {b: [p.func('method' if k == 1 else 'def') for k, p in enumerate(Pv[b])] for b in sub})
        inn = {t: b for t, (e, s, b) in bt.items() if b in sub}
        for i in (None, 'on_mesh_boundaries'):
            values(FS, {t: pe(Ps[b]) for t, b in inn.items()}, key + '/S', i=i)
            values(FV, {t: pe(Pv[b]) for t, b in inn.items()}, key + '/V', i=i)
        okflat = all(flat.get(b) is not None for b in sub)
        for nm in ('T_para', 'T_perp'):
            try:
                F = getattr(FV.components, nm)
            except NotImplementedError:
                refused += 1
                continue
            if not okflat:
                r.bad.append((key + '/' + nm, f'{nm} of a boundary-wise vector on a boundary that is not flat was '
                                              f'computed with one normal ({sub})'))
                continue

            def w_(t, te, X, n, nm=nm):
                b = inn[te]
                N = [np.full(X[0].shape, c) for c in flat[b]]
                u = [p(t, *X) for p in Pv[b]]
                return crs(u, N) if nm == 'T_perp' else crs(N, crs(u, N))
            values(F, {t: w_ for t in inn}, key + '/' + nm, tol=1e-8)
    # the normals themselves, the same on all ranks
    for b in names:
        n = mesh.boundaries[b].coordinate_transformation.constant.outward_unit_normal_vector
        g = flat.get(b)
        if n is not None:
            if g is None:
                r.bad.append(('normal', f'boundary {b}: constant normal {n} on a boundary that is not flat'))
            else:
                r.eq(np.array(n, float), g, 'normal', f'boundary {b}: normal {n}', tol=1e-8)
    return r.out(refused=refused)


def bound2(spec, part, times):
    mesh = cm.make_mesh(spec, part)
    w = World('f2', mesh)
    r = Rec()
    FC = w.FC
    bt, every = boundary_tes(mesh, 2)
    pts = [np.array([-.9, .1, .75]), np.array([-1, .35, .6, 1.])]
    names = list(mesh.boundaries.names)
    for k in range(1, len(names) + 1):
        for sub in itertools.combinations(names, k):
            if len(names) > 4 and 2 < k < len(names):
                continue
            Pv = {b: leaf(2, 2, names.index(b) + 1) for b in sub}
            FV = FC('vector', {b: [p.func() for p in Pv[b]] for b in sub})
            inn = {t: b for t, (e, s, b) in bt.items() if b in sub}
            key = 'bw2/' + '+'.join(sub)
            for t in times:
                for i in (None, 'on_mesh_boundaries'):
                    xy, val = FV.reconstruct(*pts, time=t, i=i)
                    if set(val) != set(inn):
                        r.bad.append((key, f'{key}: values on {sorted(val)}, expected {sorted(inn)}'))
                        continue
                    for te in val:
                        e, s, b = bt[te]
                        X = np.array(xy[te])
                        a, hi = SIDE2[s]
                        best = min(np.abs(np.array(mesh.elements[e].coordinate_transformation.mapping(
                            *((np.full(q.shape, 1. if hi else -1.), q) if a == 0 else
                              (q, np.full(q.shape, 1. if hi else -1.))))) - X).max()
                                   for q in pts if q.size == X.shape[1])
                        if best > 1e-9:
                            r.bad.append((key + '/xy', f'{key}: the points of trace element {te} are off its side {s} of '
                                                       f'element {e} by {best:.2e}'))
                        r.eq(np.array(val[te]), np.array([p(t, *X) for p in Pv[b]]), key,
                             f'{key}: trace element {te} t={t}', tol=1e-11)
    return r.out()


def norms(spec, part, p):
    """L^n norms of fields and their inner products with the basis functions, against own quadrature"""
    from mpi4py import MPI
    from mc.scen import fem
    comm = MPI.COMM_WORLD
    d = cm.dim(spec) if isinstance(spec, str) else spec[0]
    mesh = cm.make_mesh(spec, part)
    fw = f'f{d}'
    w = World(fw, mesh)
    r = Rec()
    nq = (9,) * d
    qs = [fem.gauss(m) for m in nq]
    axes = [q[0] for q in qs]
    W = np.ones(1)
    for a in range(d):
        W = (qs[a][1][:, None] * W[None, :]).ravel() if a else qs[a][1].copy()
    G = {}
    for i in mesh.elements:
        pt = fem.grid(axes)
        J = fem.Jmat(mesh.elements[i], pt, d)
        X = mesh.elements[i].coordinate_transformation.mapping(*pt)
        G[i] = (J, np.linalg.det(np.moveaxis(J, -1, 0)), X)
    for k in 'SV':
        F, P = w.leaf(k, 1)
        for t in (0.5, 2):
            F.current_time = t
            for n in (1, 2, 4):
                if n == 1 and k == 'V':
                    continue
                loc = sum((np.sum(sum(p_(t, *X) ** n for p_ in P) * W * det) for J, det, X in G.values()), 0.)
                tot = comm.allreduce(loc)
                for qd in (None, (8,) * d):
                    if qd is None and n == 4:
                        continue
                    got = F.do.compute_Ln_norm(n=n, quad_degree=qd) if qd else F.do.compute_Ln_norm(n=n)
                    tol = 1e-9 if qd else 1e-5
                    r.eq(np.array([got]), np.array([np.sign(tot) * abs(tot) ** (1 / n) if n == 1 else tot ** (1 / n)]),
                         f'norm{k}', f'L{n} norm of a {k} field at t={t}, degree {qd}', tol=tol)
    if d == 3:
        space = cm.make_space(3, p)
        FC = cm.masters(3).FormCaller(mesh, space)
        V, P = w.leaf('V', 1)
        for ID in ('1-f', '2-f'):
            f = FC(ID, hybrid=True)
            lf = fem.Local(f, ID, 3)
            for qd in (None, [7, 7, 7]):
                vec = V.do.inner_product_with_space_of(f, quad_degree=qd)
                for t in (1.5, 0.25, 1.5):
                    V.current_time = t
                    for i in mesh.elements:
                        J, det, X = G[i]
                        B = lf.physical(axes, J)
                        want = sum(np.einsum('nm,m->n', B[c], P[c](t, *X) * W * det) for c in range(3))
                        got = vec[i].toarray().ravel()
                        r.eq(got, want, 'inner', f'inner product with the basis of a {ID}, element {i}, t={t}, '
                                                 f'degree {qd}', tol=1e-8 if qd else 1e-2)
    return r.out()
