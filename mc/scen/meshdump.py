"""everything a rank can tell about its part of a CSCG mesh (C02, C14)"""
import numpy as np
from mc.scen.common import make_mesh, center

S3 = 'NSWEBF'
S2 = 'UDLR'
EDGES = ['WB', 'EB', 'WF', 'EF', 'NB', 'SB', 'NF', 'SF', 'NW', 'SW', 'NE', 'SE']
NODES = ['NWB', 'SWB', 'NEB', 'SEB', 'NWF', 'SWF', 'NEF', 'SEF']
VAL = {'N': (0, -1.), 'S': (0, 1.), 'W': (1, -1.), 'E': (1, 1.), 'B': (2, -1.), 'F': (2, 1.),
       'U': (0, -1.), 'D': (0, 1.), 'L': (1, -1.), 'R': (1, 1.)}
G = np.array([-1., -0.3, 1.])


def pts(d, where, grid=G):
    """reference coordinates of sample points on the face/edge/corner `where` (free directions: grid)"""
    c = [None] * d
    for ch in where:
        k, v = VAL[ch]
        c[k] = np.array([v])
    c = [grid if x is None else x for x in c]
    return [np.ravel(a, order='F') for a in np.meshgrid(*c, indexing='ij')]


def phys(e, p):
    """physical positions of sample points, (n, d)"""
    return np.round(np.array(e.coordinate_transformation.mapping(*p)).T, 8) + 0.


def ownership(name, part=None):
    from root.config.main import RANK
    mesh = make_mesh(name, part)
    N = mesh._num_total_elements_ if not hasattr(mesh.elements, 'global_num') else mesh.elements.global_num
    out = dict(rank=RANK, indices=list(mesh.elements.indices), num=mesh.elements.num, N=int(N), d=mesh.ndim,
               iter=list(mesh.elements), len=len(mesh.elements), edm=mesh._EDM_)
    out['owner'] = [mesh.do.find.slave_of_element(i) for i in range(N)]
    out['owner_s'] = [mesh.do.find.slave_of_element(str(i)) for i in range(0, N, 3)]
    if mesh.ndim == 3:
        out['owner_e'] = [mesh.elements.do.find.slave_of_element(i) for i in range(N)]
    out['region_of'] = [mesh.do.find.region_name_of_element(i) for i in range(N)]
    out['inside'] = [i in mesh.elements for i in range(N)]
    out['in_regions'] = list(mesh.elements.in_regions)
    out['loc'] = {i: mesh.do.find.region_name_and_local_indices_of_element(i) for i in mesh.elements.indices}
    out['loc'] = {i: (v[0], tuple(int(x) for x in v[1])) for i, v in out['loc'].items()}
    out['origin'] = {}
    for i in mesh.elements.indices:
        o, s = mesh.do.find.reference_origin_and_size_of_element(i)
        out['origin'][i] = (tuple(map(float, o)), tuple(map(float, s)))
    out['center'] = {i: center(mesh, i) for i in mesh.elements.indices}
    out['layout'] = {r: tuple(int(x) for x in v) for r, v in mesh.elements.layout.items()}
    out['spacing'] = {r: [list(map(float, x)) for x in v] for r, v in mesh.elements.spacing.items()}
    out['regions'] = list(mesh.domain.regions.names)
    out['lay_in'] = {r: mesh._num_elements_in_region_[r] for r in mesh.domain.regions.names}
    if mesh.ndim == 3:
        out['prime'] = mesh.elements.region_wise_prime_core
        st = mesh.elements.statistic
        out['stat'] = {k: (v if isinstance(v, str) else float(v)) for k, v in st.items()}
    out['corners'] = {}
    for rn in mesh.domain.regions.names:
        for cn in (NODES if mesh.ndim == 3 else ['UL', 'DL', 'UR', 'DR', 'LU', 'RD']):
            try:
                out['corners'][(rn, cn)] = int(mesh.elements.do.find.element_at_region_corner(rn, cn))
            except Exception as e:
                out['corners'][(rn, cn)] = repr(e)
    return out


def connectivity(name, part=None, finds=True):
    from root.config.main import RANK
    mesh = make_mesh(name, part)
    d = mesh.ndim
    S = S3 if d == 3 else S2
    E = mesh.elements
    out = dict(rank=RANK, d=d, indices=list(E.indices), map={i: list(E.map[i]) for i in E.indices},
               extra_map=sorted(set(E.map) - set(E.indices)),
               faces={i: [phys(E[i], pts(d, s)) for s in S] for i in E.indices},
               regions={i: mesh.do.find.region_name_of_element(i) for i in E.indices},
               ltw={i: None for i in E.indices})
    D = mesh.domain
    out['rmap'] = {r: list(v) for r, v in D.regions.map.items()}
    out['pairs'] = dict(D.domain_input.periodic_boundary_pairs)
    out['brs'] = {k: (v,) if isinstance(v, str) else tuple(v)
                  for k, v in D.domain_input.boundary_region_sides.items()} if d == 3 else \
        {k: (v,) if isinstance(v, str) else tuple(v) for k, v in D.domain_input.boundary_region_edges.items()}
    T = mesh.trace.elements
    out['tmap'] = {i: list(map(int, T.map[i])) for i in E.indices}
    out['tnum'] = T.global_num
    out['tlocal'] = sorted(T) if d == 3 else sorted(T._elements_)
    te = {}
    for t in out['tlocal']:
        x = T[t]
        w = x.whether
        cs = x.CHARACTERISTIC_side if d == 3 else x.CHARACTERISTIC_edge
        te[t] = dict(pos=tuple(x.positions), ce=x.CHARACTERISTIC_element, cs=cs, nd=x.normal_direction, i=x.i,
                     onb=bool(w.on_mesh_boundary), onp=bool(w.on_periodic_boundary), sbc=bool(w.shared_by_cores),
                     swc=x.shared_with_core, reg=x.CHARACTERISTIC_region)
        m = {}
        if d == 3:
            A, B = [np.ravel(a, order='F') for a in np.meshgrid(G, G, indexing='ij')]
            for i in E.indices:
                for k, tt in enumerate(T.map[i]):
                    if tt == t:
                        m[(i, S[k])] = np.round(np.array(x.coordinate_transformation.mapping(
                            A, B, from_element=i, side=S[k])).T, 8) + 0.
        else:
            m[(x.CHARACTERISTIC_element, cs)] = np.round(np.array(x.coordinate_transformation.mapping(G)).T, 8) + 0.
        te[t]['phys'] = m
    out['te'] = te
    bd = mesh.boundaries
    key = 'range_of_element_sides' if d == 3 else 'range_of_element_edges'
    out['bn'] = list(bd.names)
    out['sides'] = {b: list(getattr(bd, key)[b]) for b in bd.names}
    out['bt'] = {b: list(map(int, bd.range_of_trace_elements[b])) for b in bd.names}
    out['be'] = {b: list(bd.range_of_elements[b]) for b in bd.names}
    out['brs_r'] = {b: (v,) if isinstance(v, str) else tuple(v) for b, v in bd.range_of_region_sides.items()} \
        if hasattr(bd, 'range_of_region_sides') else None
    out['bi'] = sorted(set(bd.involved_elements))
    if d == 3:
        out['bdict'] = {b: (list(bd[b].element_sides), list(map(int, bd[b].trace_elements))) for b in bd.names}
        out['imb'] = _try(lambda: sorted(E.involved_mesh_boundaries))
        out['internal'] = {i: bool(E[i].whether.internal) for i in E.indices}
    if d == 3:
        for nm, obj, keys in (('edge', mesh.edge.elements, EDGES), ('node', mesh.node.elements, NODES)):
            o = dict(map={i: list(map(int, obj.map[i])) for i in E.indices}, num=int(obj.global_num))
            o['phys'] = {i: [phys(E[i], pts(3, k)) for k in keys] for i in E.indices}
            loc = {}
            held = {}
            for i in E.indices:
                for k, n in enumerate(obj.map[i]):
                    held.setdefault(int(n), []).append((i, keys[k]))
            for n in held:
                x = obj[n]
                ct = {}
                for i, k in held[n]:
                    if nm == 'edge':
                        ct[(i, k)] = np.round(np.array(x.coordinate_transformation.mapping(
                            G, G, G, from_element=i, corner_edge=k)).reshape(3, -1).T, 8) + 0.
                    else:
                        ct[(i, k)] = np.round(np.array(x.coordinate_transformation.mapping(
                            from_element=i, corner=k), dtype=float).reshape(3, -1).T, 8) + 0.
                loc[n] = dict(pos=tuple(x.positions), onb=sorted(x.on_mesh_boundaries),
                              by=sorted(x.shared_by_mesh_elements), wb=bool(x.whether.on_mesh_boundary),
                              wp=bool(x.whether.on_periodic_boundary), phys=ct, dir=getattr(x, 'direction', None),
                              ce=x.CHARACTERISTIC_element, creg=_try(lambda: x.CHARACTERISTIC_region),
                              cc=x.CHARACTERISTIC_corner_edge if nm == 'edge' else x.CHARACTERISTIC_corner)
            o['loc'] = loc
            out[nm] = o
        if finds:
            f = T.do.find
            ef, nf = mesh.edge.elements.do.find, mesh.node.elements.do.find
            out['f_te'] = {t: _try(lambda: sorted(map(int, f.edge_elements_surrounding_element(t))))
                           for t in range(T.global_num)}
            out['f_tn'] = {t: _try(lambda: sorted(map(int, f.node_elements_of_element(t))))
                           for t in range(T.global_num)}
            out['f_et'] = {e: _try(lambda: sorted(map(int, ef.trace_elements_attached_to_element(e))))
                           for e in range(mesh.edge.elements.global_num)}
            out['f_nt'] = {n: _try(lambda: sorted(map(int, nf.trace_elements_attached_to_element(n))))
                           for n in range(mesh.node.elements.global_num)}
            out['f_ne'] = {n: _try(lambda: sorted(map(int, nf.edge_elements_attached_to_element(n))))
                           for n in range(mesh.node.elements.global_num)}
            NE = E.global_num
            prs = [(i, j) for i in range(NE) for j in range(i + 1, NE)][:60]
            out['f_2t'] = {p: _try(lambda: sorted(map(int, f.element_between_two_mesh_elements(*p)))) for p in prs}
            NT = T.global_num
            tp = [(i, j) for i in range(0, NT, 3) for j in range(i + 1, NT, 2)][:40]
            out['f_tt'] = {p: _try(lambda: f.mesh_element_shared_by_elements(*p)) for p in tp}
    return out


def _try(fn):
    try:
        return fn()
    except Exception as e:
        return 'raised ' + repr(e)
