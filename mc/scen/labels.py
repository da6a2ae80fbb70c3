"""geometric names of local dofs, independent of the numbering of elements and of global numbers.

label of a local dof of element e:  (comp, ents[, where])
   comp  component (direction) of the form,  ents = per axis ('n', i) node i | ('e', i) segment i
   where = side / corner edge the dof belongs to, for kinds whose dofs live on a side (hybrid trace, local trace, edge)
"""
import numpy as np

AX = {'N': 0, 'S': 0, 'W': 1, 'E': 1, 'B': 2, 'F': 2, 'U': 0, 'D': 0, 'L': 1, 'R': 1}
HI = 'SEFDR'


def comps(kind, d, p):
    """component -> tuple over axes of 'n'/'e'"""
    if d == 3:
        return {0: ['nnn'], 1: ['enn', 'nen', 'nne'], 2: ['nee', 'ene', 'een'], 3: ['eee']}[kind]
    return {0: ['nn'], 2: ['ee'], '1i': ['en', 'ne'], '1o': ['ne', 'en']}[kind]


def standard(d, k, p, local):
    """labels of a standard form; local = numbering.local"""
    out = {}
    for c, ty in enumerate(comps(k, d, p)):
        a = np.asarray(local[c])
        shape = tuple(p[x] + (ty[x] == 'n') for x in range(d))
        if a.shape != shape:
            raise AssertionError(f'component {c} of a {k}-form has shape {a.shape}, expected {shape}')
        for ix in np.ndindex(*shape):
            n = int(a[ix])
            if n in out:
                raise AssertionError(f'local dof {n} used twice')
            out[n] = (c, tuple((ty[x], ix[x]) for x in range(d)))
    if sorted(out) != list(range(len(out))):
        raise AssertionError('local numbering is not 0..n-1')
    return [out[n] for n in range(len(out))]


def side_labels(d, k, p, side, local):
    """labels (without `where`) of a trace-like form on one side, in side-local order"""
    ax = AX[side]
    free = [x for x in range(d) if x != ax]
    types = {(3, 0): ['nn'], (3, 1): ['en', 'ne'], (3, 2): ['ee'], (2, 1): ['e']}[(d, k)]
    out = {}
    for c, ty in enumerate(types):
        a = np.asarray(local[c])
        shape = tuple(p[x] + (t == 'n') for x, t in zip(free, ty))
        if a.shape != shape:
            raise AssertionError(f'side {side} component {c} has shape {a.shape}, expected {shape}')
        for ix in np.ndindex(*shape):
            n = int(a[ix])
            e = [None] * d
            e[ax] = ('n', p[ax] if side in HI else 0)
            for x, t, i in zip(free, ty, ix):
                e[x] = (t, i)
            if n in out:
                raise AssertionError(f'side dof {n} used twice')
            comp = 0
            if k == 1 and d == 3:
                comp = free[c]
            out[n] = (comp, tuple(e))
    if sorted(out) != list(range(len(out))):
        raise AssertionError('side numbering is not 0..n-1')
    return [out[n] for n in range(len(out))]


EDGES = ['WB', 'EB', 'WF', 'EF', 'NB', 'SB', 'NF', 'SF', 'NW', 'SW', 'NE', 'SE']


def edge_labels(k, p, edge):
    ax = [x for x in range(3) if x not in (AX[edge[0]], AX[edge[1]])][0]
    out = []
    for i in range(p[ax] + (k == 0)):
        e = [None] * 3
        for s in edge:
            e[AX[s]] = ('n', p[AX[s]] if s in HI else 0)
        e[ax] = ('n' if k == 0 else 'e', i)
        out.append((0 if k == 0 else ax, tuple(e)))
    return out


def form_labels(f, ID, hybrid):
    """(labels, mode); mode: which local dofs of different elements / sides are the same dof
       'none' | 'faces' (any shared face) | 'side' (same side entity across one face) | 'edge'"""
    d = f.mesh.ndim
    p = list(f.space.p)
    fam = ID.split('-')
    k = int(fam[0])
    if fam[1] == 'f':
        kk = k if d == 3 or k != 1 else '1' + fam[2]
        return standard(d, kk, p, f.numbering.local), ('none' if hybrid else 'faces')
    if fam[1] == 'e':
        return [lab + (e,) for e in EDGES for lab in edge_labels(k, p, e)], 'edge'
    sides = 'NSWEBF' if d == 3 else 'UDLR'
    L = f.numbering.local
    if hybrid:
        return [lab + (s,) for s in sides for lab in side_labels(d, k, p, s, L[s])], \
            ('side' if fam[1] == 't' else 'none')
    out = {}
    for s in sides:
        for lab, n in zip(side_labels(d, k, p, s, L[s]), f.numbering.local_gathering[s]):
            if out.setdefault(int(n), lab) != lab:
                raise AssertionError(f'local dof {n} is at {out[int(n)]} and at {lab} (side {s})')
    if sorted(out) != list(range(len(out))) or len(set(out.values())) != len(out):
        raise AssertionError('local gathering is not one-to-one')
    return [out[n] for n in range(len(out))], ('faces' if fam[1] == 't' else 'none')


def on_side(lab, s, p):
    """does the dof live on side s of the element?"""
    if len(lab) == 3 and len(lab[2]) == 1:          # side-wise dof
        return lab[2] == s
    e = lab[1][AX[s]]
    return e == ('n', p[AX[s]] if s in HI else 0)


def cross(lab, s, p):
    """name of the same entity seen from the neighbour behind side s"""
    opp = dict(zip('NSWEBFUDLR', 'SNEWFBDURL'))
    ax = AX[s]
    e = list(lab[1])
    e[ax] = ('n', 0 if s in HI else p[ax])
    if len(lab) == 3:
        return lab[0], tuple(e), lab[2].replace(s, opp[s])
    return lab[0], tuple(e)


KINDS3 = [(f'{k}-f', h) for k in range(4) for h in (True, False)] + \
         [(f'{k}-t', h) for k in range(3) for h in (True, False)] + \
         [(f'{k}-lt', h) for k in range(3) for h in (True, False)] + [(f'{k}-e', True) for k in range(2)]
KINDS2 = [(f'{k}-f-{o}', h) for k in range(3) for o in 'io' for h in (True, False)] + [('1-t-o', True)]


def make_form(F, ID, hybrid, **kw):
    if ID.endswith('-e'):
        return F(ID, **kw)
    return F(ID, hybrid=hybrid, **kw)
