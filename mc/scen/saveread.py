"""C11: saved objects read back equal: histories of saves and reads, writer and reader rank counts, cut files"""
import os
import numpy as np

from mc.scen import common as cm
from mc.scen.ct import Rec
from mc.scen.crash import Scratch

KINDS3 = ([(f'{k}-f', dict(hybrid=h)) for k in range(4) for h in (False, True)] +
          [(f'{k}-t', dict(hybrid=h)) for k in range(3) for h in (True, False)] +
          [(f'{k}-e', {}) for k in range(2)] +
          [(f'{k}-adf', {}) for k in range(4)] + [(f'{k}-adt', {}) for k in range(3)] +
          [('1-f', dict(hybrid=False, name='velocity', orientation='inner')), ('2-f', dict(orientation='outer', hybrid=False))])
KINDS2 = ([(f'{k}-f-{o}', dict(hybrid=h)) for k in range(3) for o in 'io' for h in (False, True)] +
          [('1-t-o', {}), ('1-f-o', dict(hybrid=False, name='velocity'))])


def prim(f):
    return f.prime if hasattr(f, 'prime') else f


def fill(f, seed):
    """a cochain that is single valued on shared dofs (f: primal form)"""
    g = f.numbering.gathering
    f.cochain.local = {e: np.array([np.sin(1.3 * j + seed) * 3 + (7 * j + seed) % 5 + 1e-9 / 7 for j in g[e].full_vector])
                       for e in f.mesh.elements}


def merge(x):
    from root.config.main import COMM
    out = {}
    for y in COMM.allgather(x):
        out.update(y)
    return out


def norm(p):
    if isinstance(p, dict):
        return {k: norm(p[k]) for k in p}
    if isinstance(p, (list, tuple)):
        return [norm(x) for x in p]
    if isinstance(p, np.ndarray):
        return norm(p.tolist())
    if isinstance(p, np.generic):
        return p.item()
    return p


def mesh_desc(m):
    d = m.ndim
    c = [np.array([-1., 0.7, 1.]), np.array([-0.8, 1., -1.]), np.array([1., -1., 0.4])][:d]
    geo = {}
    for i in m.elements:
        x = m.elements[i].coordinate_transformation.mapping(*c)
        bnd = tuple(p if not str(p).lstrip('-').isdigit() else '' for p in m.elements.map[i])
        geo[cm.center(m, i)] = (np.array(x, dtype=float).ravel().tolist(), bnd)
    return dict(type=type(m).__name__, par=norm(m.standard_properties.parameters), geo=merge(geo))


def space_desc(s):
    return dict(type=type(s).__name__, p=list(s.p), nodes=[np.asarray(n).tolist() for n in s.nodes],
                par=norm(s.standard_properties.parameters))


def values(f):
    f = prim(f)
    return merge({cm.center(f.mesh, e): np.asarray(f.cochain.local[e]).tolist() for e in f.mesh.elements})


MEMO = {}


def sub(o, fn):
    """descriptions of meshes and spaces are computed once per object"""
    k = id(o)
    if k not in MEMO:
        MEMO[k] = (o, fn(o))
    return MEMO[k][1]


def desc(o):
    n = type(o).__name__
    if n.endswith('_Mesh'):
        return sub(o, mesh_desc)
    if n.endswith('Space'):
        return sub(o, space_desc)
    f = prim(o)
    assert f.mesh is o.mesh and f.space is o.space
    return dict(type=n, prime=type(f).__name__, mesh=sub(f.mesh, mesh_desc), space=sub(f.space, space_desc), hybrid=f.whether.hybrid,
                name=f.standard_properties.name, orientation=getattr(f, 'orientation', None), cochain=values(o))


def same(r, got, want, key, msg):
    r.n += 1
    if got == want:
        return True
    diff = []
    for k in want:
        if not isinstance(got, dict) or got.get(k) != want[k]:
            a = str(got.get(k) if isinstance(got, dict) else got)
            diff.append(f'{k}: {a[:120]} expected {str(want[k])[:120]}')
    r.bad.append((key, f'{msg}: ' + '; '.join(diff)[:600]))
    return False


def is_mesh(o):
    return type(o).__name__.endswith('_Mesh')


def is_space(o):
    return type(o).__name__.endswith('Space')


def sharing(r, objs, msg):
    """objects following each other on the same mesh / space share it, different ones never do"""
    meshes = [(o if is_mesh(o) else o.mesh) for o in objs if o is not None and not is_space(o)]
    spaces = [(o if is_space(o) else o.space) for o in objs if o is not None and not is_mesh(o)]
    for nm, L in (('mesh', meshes), ('space', spaces)):
        for a, b in zip(L, L[1:]):
            pa, pb = norm(a.standard_properties.parameters), norm(b.standard_properties.parameters)
            if (pa == pb) != (a is b):
                r.bad.append(('sharing', f'{msg}: {nm}es of two objects following each other: same parameters {pa == pb}, same object {a is b}'))


def build(d, spec, p, kinds, part=None, seed=0, over=None):
    """mesh, space and one filled form per kind"""
    M = cm.masters(d)
    mesh = cm.make_mesh(spec, part)
    space = cm.make_space(d, p)
    FC = M.FormCaller(mesh, space)
    forms = []
    for k, (ID, kw) in enumerate(kinds):
        f = FC(ID, **kw)
        fill(prim(f), seed + k)
        forms.append(f)
    return mesh, space, forms


def rd(fn, part=None, **kw):
    from root.read.main import read
    with cm.force_partition(part):
        return read(fn, **kw)


def slurp(fn):
    with open(fn, 'rb') as f:
        return f.read()


def files_of(d, spec, p, kinds, part):
    """save every kind alone, pairs, and everything together; returns [(file, bytes, [descriptions])]"""
    from root.config.main import COMM, RANK
    from root.save import save
    out = []
    with Scratch():
        mesh, space, forms = build(d, spec, p, kinds, part)
        jobs = [('mesh', mesh), ('space', space)] + [(f'form{k}', f) for k, f in enumerate(forms)]
        jobs += [('pair_mm', [mesh, mesh]), ('pair_ss', [space, space]), ('pair_ms', [mesh, space])]
        jobs += [(f'pair{k}', [forms[k], forms[(k + 1) % len(forms)]]) for k in range(len(forms))]
        jobs += [('all', [mesh] + forms + [space])]
        if d == 3:
            jobs += [('primes', [prim(f) for f in forms if f is not prim(f)] + [f for f in forms if f is not prim(f)])]
        before = None
        for fn, o in jobs:
            save(o, fn)
            COMM.barrier()
            L = o if isinstance(o, list) else [o]
            out.append((fn, slurp(fn + '.mi') if RANK == 0 else b'', [desc(x) for x in L], isinstance(o, list)))
        again = [desc(f) for f in forms]
    return out


def write(d, spec, p, kinds, part):
    """writer job: the files and what they hold"""
    fs = files_of(d, spec, p, kinds, part)
    from root.config.main import RANK
    return dict(bad=[], states=len(fs), trans=len(fs), files=fs if RANK == 0 else None)


def reads(files, part, only=None):
    """reader job: every file, whole, and with individual objects only"""
    from root.config.main import COMM, RANK
    r = Rec()
    with Scratch():
        for fn, data, want, is_list in files:
            if RANK == 0:
                with open(fn + '.mi', 'wb') as f:
                    f.write(data)
        COMM.barrier()
        for fn, data, want, is_list in files:
            n = len(want)
            masks = [None]
            if n == 2:
                masks += [[1, 0], [False, True], [0, 0]]
            elif n > 2:
                masks += [[int(k % 3 == 0) for k in range(n)]]
            for m in masks:
                MEMO.clear()
                try:
                    got = rd(fn, part) if m is None else rd(fn + '.mi', part, read_individuals=m)
                except Exception as e:
                    r.bad.append(('unreadable', f'{fn} {m}: {type(e).__name__}: {e}'))
                    continue
                if n == 1:
                    if isinstance(got, tuple):
                        r.bad.append(('shape', f'{fn}: a single object is returned as a tuple'))
                        continue
                    got = (got,)
                if not isinstance(got, tuple) or len(got) != n:
                    r.bad.append(('shape', f'{fn}: {type(got)} of {len(got)}, expected {n} objects'))
                    continue
                for k in range(n):
                    if m is not None and not m[k]:
                        if got[k] is not None:
                            r.bad.append(('individuals', f'{fn} {m}: object {k} was not asked for'))
                        continue
                    same(r, desc(got[k]), want[k], 'content', f'{fn} {m} object {k}')
                sharing(r, got, f'{fn} {m}')
    return r.out()


# ---- histories -------------------------------------------------------------------------------------
def debruijn(k, n):
    """a cyclic word that contains every word of length n over k letters"""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def history(d, order, part, chunk, letters=None):
    """every sequence of `order` operations, in one long run; chunk=(i, n): the i-th of n pieces of it"""
    from root.config.main import COMM, RANK
    from root.save import save
    r = Rec()
    if d == 3:
        s1, s2 = (3, 'crazy', dict(c=0.1), [2, 1, 2]), (3, 'crazy', dict(c=0.1), [2, 2, 1])
        lay = (3, 'crazy', dict(c=0.1), [np.array([1., 2.]), 1, 1])
        lay2 = (3, 'crazy', dict(c=0.1), [np.array([1., 2. + 1e-10]), 1, 1])
        kf, kg, kh = [('1-f', dict(hybrid=False)), ('2-adt', {})], [('2-f', dict(hybrid=True))], [('0-e', {})]
        q1, q2 = [2, 1, 1], [1, 2, 1]
    else:
        s1, s2 = (2, 'crazy', dict(c=0.1), [2, 3]), (2, 'crazy', dict(c=0.1), [3, 2])
        lay = (2, 'crazy', dict(c=0.1), [np.array([1., 2.]), 1])
        lay2 = (2, 'crazy', dict(c=0.1), [np.array([1., 2. + 1e-10]), 1])
        kf, kg, kh = [('1-f-o', dict(hybrid=False)), ('1-t-o', {})], [('0-f-i', dict(hybrid=True))], [('2-f-o', dict(hybrid=False))]
        q1, q2 = [2, 1], [1, 2]
    with Scratch():
        M1, S1, (f, t) = build(d, s1, q1, kf, part, 1)
        FC = cm.masters(d).FormCaller
        M2 = cm.make_mesh(s2, part)
        S2 = cm.make_space(d, q2)
        g = FC(M2, S1)(kg[0][0], **kg[0][1])
        h = FC(M1, S2)(kh[0][0], **kh[0][1])
        fill(g, 5)
        fill(h, 9)
        M3, S3, (x,) = build(d, lay, q1, kh, None, 2)
        M4, S4, (y,) = build(d, lay2, q1, kh, None, 3)
        groups = {0: ('a', f), 1: ('a', [M1, t, f]), 2: ('b', [g, f, h]), 3: ('b', M2), 4: ('a', x), 5: ('b', y)}
        live = {'f': f, 't': t, 'g': g, 'h': h, 'x': x, 'y': y}
        memo = {k: values(live[k]) for k in live}
        files = {}
        last, lastv = None, None
        count = 0

        def dosave(fn, o, msg):
            L = list(o) if isinstance(o, (list, tuple)) else [o]
            save(o, fn)
            COMM.barrier()
            files[fn] = [desc(z) for z in L]

        def cochains(objs):
            return [None if z is None or is_mesh(z) or is_space(z) else values(z) for z in objs]
        dosave('a', f, '')
        dosave('b', [g, f, h], '')
        K = letters or list(range(11))
        word = [K[z] for z in debruijn(len(K), order)]
        n = (len(word) + chunk[1] - 1) // chunk[1]
        lo = max(0, chunk[0] * n - order + 1)
        word = word[lo:chunk[0] * n + n]
        for step, op in enumerate(word):
            MEMO_keep = {id(z): MEMO[id(z)] for z in (M1, M2, M3, M4, S1, S2, S3, S4) if id(z) in MEMO}
            MEMO.clear()
            MEMO.update(MEMO_keep)
            msg = f'd={d} step {step}, operations {word[max(0, step - 4):step + 1]} (0-5: save group, 6 save last read, 7/8 read a/b, 9 read b partly, 10 change cochains)'
            try:
                if op in groups:
                    dosave(*groups[op], msg)
                elif op == 6:
                    if last is not None:
                        L = [z for z in last if z is not None]
                        dosave('a', L if len(L) > 1 else L[0], msg)
                elif op in (7, 8, 9):
                    fn = 'a' if op == 7 else 'b'
                    want = files[fn]
                    mask = [k % 2 == 0 for k in range(len(want))] if op == 9 else None
                    got = rd(fn, part, read_individuals=mask)
                    got = got if isinstance(got, tuple) else (got,)
                    if len(got) != len(want):
                        r.bad.append(('shape', f'{msg}: {len(got)} objects, expected {len(want)}'))
                        break
                    for k, z in enumerate(got):
                        if mask and not mask[k]:
                            if z is not None:
                                r.bad.append(('individuals', f'{msg}: object {k} was not asked for'))
                        else:
                            same(r, desc(z), want[k], 'history', f'{msg} object {k}')
                    sharing(r, got, msg)
                    if last is not None and cochains(last) != lastv:
                        r.bad.append(('aliasing', f'{msg}: objects read before changed'))
                    last, lastv = got, cochains(got)
                else:
                    count += 1
                    fill(f, 20 + count % 3)
                    memo['f'] = values(f)
                    for z in (last or ()):
                        if z is not None and not is_mesh(z) and not is_space(z):
                            zz = prim(z)
                            for e in zz.mesh.elements:
                                zz.cochain.local[e][...] += 1.5
                    lastv = cochains(last) if last else None
            except Exception as e:
                import traceback
                r.bad.append(('history', f'{msg}: {type(e).__name__}: {e} {traceback.format_exc()[-300:]}'))
                break
            r.n += 1
            for k in live:
                if values(live[k]) != memo[k]:
                    r.bad.append(('aliasing', f'{msg}: form {k} changed'))
            if len(r.bad) > 5:
                break
    return r.out()


def cut(data, want, stride, part):
    """a file of which only a prefix was written (stopped in the middle of save): refused, and later reads are not affected"""
    from root.config.main import COMM, RANK
    from root.read.main import read
    r = Rec()
    with Scratch():
        for n in list(range(part[0], len(data), part[1] * stride)) + [len(data)]:
            if RANK == 0:
                with open('c.mi', 'wb') as f:
                    f.write(data[:n])
            COMM.barrier()
            r.n += 1
            try:
                got = read('c')
            except Exception:
                got = None
            else:
                if n < len(data):
                    r.bad.append(('cut', f'a file cut after {n} of {len(data)} bytes is read as {type(got)}'))
            COMM.barrier()
            if n == len(data):
                if got is None:
                    r.bad.append(('cut', 'the complete file is not readable after cut ones'))
                else:
                    got = got if isinstance(got, tuple) else (got,)
                    for k, z in enumerate(got):
                        same(r, desc(z), want[k], 'content', f'complete file after cut ones, object {k}')
    return r.out()


def inputs(d):
    """what the user does with the lists passed in must not change what is saved"""
    from root.config.main import COMM
    from root.save import save
    r = Rec()
    M = cm.masters(d)
    with Scratch():
        lay = [[1, 2], 1, [2, 1, 1]][:d]
        bounds = [[0, 2], [1, 2], [-1, 1]][:d]
        nodes = [('Lobatto', 2), ['Lobatto', 1], ('Lobatto', 1)][:d]
        kw = dict(hybrid=False)
        mesh = M.MeshGenerator('crazy', c=0.1, bounds=bounds)(lay)
        space = M.SpaceInvoker('polynomials')(nodes)
        FC = M.FormCaller(mesh, space)
        f = FC('0-f' if d == 3 else '0-f-o', **kw)
        fill(f, 3)
        want = desc(f)
        lay[0][0] = 5
        lay[1] = [1, 3]
        bounds[0][1] = 9
        nodes[0] = ('Lobatto', 4)
        nodes[1][1] = 7
        kw['hybrid'] = True
        save([mesh, f, space], 'a')
        COMM.barrier()
        v = f.cochain.local
        for e in v:
            v[e][...] = 0.
        MEMO.clear()
        m2, g, s2 = rd('a')
        same(r, desc(g), want, 'inputs', 'form after the lists given at construction were changed')
        same(r, desc(m2), want['mesh'], 'inputs', 'mesh after the lists given at construction were changed')
        same(r, desc(s2), want['space'], 'inputs', 'space after the lists given at construction were changed')
        # parameters asked from the object are the user's to change
        p = mesh.standard_properties.parameters
    return r.out()
