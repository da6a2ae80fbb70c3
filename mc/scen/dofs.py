"""global dof numbering of every form kind (C03)"""
from mc.scen.common import make_mesh, make_space, masters
from mc.scen import labels as lb
from mc.scen.meshdump import phys, pts, S3, S2

CORNERS = ['NWB', 'SWB', 'NEB', 'SEB', 'NWF', 'SWF', 'NEF', 'SEF']


def numbering(name, part, p, full=True, warm=None):
    from root.config.main import RANK
    mesh = make_mesh(name, part)
    d = mesh.ndim
    S = S3 if d == 3 else S2
    E = mesh.elements
    D = mesh.domain
    out = dict(rank=RANK, d=d, indices=list(E.indices),
               faces={i: [phys(E[i], pts(d, s)) for s in S] for i in E.indices},
               regions={i: mesh.do.find.region_name_of_element(i) for i in E.indices})
    out['rmap'] = {r: list(v) for r, v in D.regions.map.items()}
    out['pairs'] = dict(D.domain_input.periodic_boundary_pairs)
    brs = D.domain_input.boundary_region_sides if d == 3 else D.domain_input.boundary_region_edges
    out['brs'] = {k: (v,) if isinstance(v, str) else tuple(v) for k, v in brs.items()}
    space = make_space(d, p)
    F = masters(d).FormCaller(mesh, space)
    out['p'] = [int(x) for x in space.p]
    out['forms'] = {}
    for ID, hyb in (lb.KINDS3 if d == 3 else lb.KINDS2):
        f = lb.make_form(F, ID, hyb)
        labs, mode = lb.form_labels(f, ID, hyb)
        g = f.numbering.gathering
        o = dict(labels=labs, mode=mode, nb=int(f.num.basis), gm={i: [int(x) for x in g[i].full_vector] for i in g},
                 gn=int(g.global_num_dofs), nl=int(f.numbering.num_local_dofs), rng=tuple(g.local_range),
                 shape=tuple(int(x) for x in g.global_shape), ld=sorted(map(int, g.local_dofs)))
        if not ID.endswith('-e'):
            o['gd'] = int(f.num.global_dofs)
        fam = ID.split('-')[1]
        if d == 3 and fam != 'e':
            bd = f.numbering.boundary_dofs
            o['bd'] = {k: sorted(map(int, v)) for k, v in bd.items()}
            o['gbd'] = {k: sorted(map(int, v)) for k, v in f.numbering.global_boundary_dofs.items()}
            o['gbr'] = sorted(map(int, f.numbering.global_boundary_dofs_ravel))
        nd = f.numbering.do
        o['side'] = {}
        if ID[0] != str(d) and fam != 'e':
            for s in S:
                if d == 3:
                    o['side'][s] = [int(x) for x in nd.find.local_dofs_on_element_side(s)]
                elif fam == 'f':
                    o['side'][s] = [int(x) for x in nd.find.local_dofs_on_element_edge(s)]
            if d == 3 and fam in ('f', 'lt'):
                o['gside'] = {(i, s): [int(x) for x in nd.find.dofs_on_element_side(i, s)] for i in E.indices for s in S}
        if d == 3 and fam == 'f' and ID[0] in '01':
            o['ce'] = {e: [int(x) for x in nd.find.local_dofs_on_element_corner_edge(e)] for e in lb.EDGES}
        if fam == 't':
            te = mesh.trace.elements
            tew = f.numbering.trace_element_wise
            o['tew'] = {int(t): [int(x) for x in v] for t, v in tew.items()}
            o['tmap'] = {i: [int(x) for x in te.map[i]] for i in E.indices}
        if fam == 'e':
            o['eew'] = {int(t): [int(x) for x in v] for t, v in f.numbering.edge_element_wise.items()}
            o['emap'] = {i: [int(x) for x in mesh.edge.elements.map[i]] for i in E.indices}
        N = o['gn']
        if full:
            some = sorted(set(range(0, N, max(1, N // 25))) | {0, N - 1})
            fd = g.do.find
            o['find'] = {}
            for i in some:
                r = fd.elements_and_local_indices_of_dof(i)
                o['find'][i] = [] if r is None else sorted(zip(map(int, r[0]), map(int, r[1])))
            r = fd.elements_and_local_indices_of_dofs(some)
            o['finds'] = {i: sorted(zip(map(int, r[0][i]), map(int, r[1][i]))) for i in some}
            if d == 3 and fam != 'lt':
                df = f.dofs
                if fam == 'f':
                    o['pos'] = {}
                    o['gpos'] = {}
                    for i in some[:8]:
                        x = df[i]
                        o['pos'][i] = sorted((int(a), int(b)) for a, b in x.positions)
                        o['gpos'][i] = sorted((int(a), int(b)) for a, b in x.global_positions)
                elif fam == 't':
                    o['pos'] = {i: sorted((int(a), int(b)) for a, b in df[i].positions) for i in some}
                if ID[0] == '0' and (fam != 't' or hyb):
                    o['corner'] = {(i, cn): df.do.find.dof_at_corner_of_mesh_element(i, cn)
                                   for i in range(E.global_num) for cn in CORNERS}
                    o['corner'] = {k: (None if v is None else sorted(int(x) for x in v) if isinstance(v, list) else int(v))
                                   for k, v in o['corner'].items()}
            if d == 3 and fam == 'f' and hyb:
                sh = f.numbering.sharing_physical_locations
                o['share'] = None if sh is None else [sorted(map(int, t)) for t in sh]
        out['forms'][(ID, hyb)] = o
    return out
