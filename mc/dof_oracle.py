"""expected identification of dofs (C03): union-find over shared faces, from geometry only"""
from mc.mesh_oracle import Conn, DSU, S2, S3
from mc.scen import labels as lb

CORNERS = ['NWB', 'SWB', 'NEB', 'SEB', 'NWF', 'SWF', 'NEF', 'SEF']


def classes(conn, labs, mode, p):
    u = DSU()
    for e in conn.owner:
        for lab in labs:
            u.find((e, lab))
    if mode != 'none':
        S = conn.S
        by = {s: [lab for lab in labs if (s in lab[2] if mode in ('edge', 'side') else lb.on_side(lab, s, p))] for s in S}
        known = set(labs)
        for (e, s), v in conn.nb.items():
            if isinstance(v, tuple):
                for lab in by[s]:
                    o = lb.cross(lab, s, p)
                    assert o in known, (lab, o)
                    u.join((e, lab), (v[0], o))
    out = {}
    for a in u.p:
        out.setdefault(u.find(a), []).append(a)
    return list(out.values())


def judge_numbering(R, name, full=True):
    c = Conn(R)
    for m in c.err:
        yield 'conn', m
    p = R[0]['p']
    d = c.d
    S = S3 if d == 3 else S2
    local = {r['rank']: set(r['indices']) for r in R}
    for (ID, hyb), o0 in R[0]['forms'].items():
        K = f'{ID}/{"h" if hyb else "c"}'
        labs, mode = o0['labels'], o0['mode']
        gm = {}
        for r in R:
            o = r['forms'][(ID, hyb)]
            if o['labels'] != labs:
                yield 'labels', f'{K}: local numbering differs between ranks'
            if set(o['gm']) != local[r['rank']]:
                yield 'gm', f'{K}: gathering matrix has elements {sorted(o["gm"])}, owned {sorted(local[r["rank"]])}'
            gm.update(o['gm'])
        if len(labs) != o0['nb'] or any(len(v) != len(labs) for v in gm.values()):
            yield 'basis', f'{K}: num.basis {o0["nb"]}, named dofs {len(labs)}'
            continue
        ix = {lab: n for n, lab in enumerate(labs)}
        seen = {}
        bad = False
        for cl in classes(c, labs, mode, p):
            nums = {gm[e][ix[lab]] for e, lab in cl}
            if len(nums) != 1:
                yield 'same', f'{K}: one dof {sorted(cl)[:4]} numbered {sorted(nums)}'
                bad = True
                break
            n = nums.pop()
            if n in seen:
                yield 'distinct', f'{K}: dofs {sorted(seen[n])[:2]} and {sorted(cl)[:2]} share number {n}'
                bad = True
                break
            seen[n] = cl
        if bad:
            continue
        N = len(seen)
        if sorted(seen) != list(range(N)):
            yield 'range', f'{K}: {N} dofs but numbers run to {max(seen)}'
            continue
        bdy = {}
        for (e, s), v in c.nb.items():
            if not isinstance(v, tuple):
                bdy.setdefault(v, {}).setdefault(e, set()).update(
                    gm[e][ix[lab]] for lab in labs if len(lab) != 3 or len(lab[2]) == 1 if lb.on_side(lab, s, p))
        inv = {n: sorted((e, ix[lab]) for e, lab in cl) for n, cl in seen.items()}
        for r in R:
            k = r['rank']
            o = r['forms'][(ID, hyb)]
            if o['gn'] != N or o.get('gd', N) != N:
                yield 'num', f'{K}: rank {k} reports {o["gn"]}/{o.get("gd")} dofs, real {N}'
            if o['shape'] != (len(c.owner), len(labs)):
                yield 'shape', f'{K}: {o["shape"]}'
            mine = sorted({n for e in local[k] for n in gm[e]})
            if o['ld'] != mine or o['nl'] != len(mine):
                yield 'local', f'{K}: rank {k} local dofs {o["nl"]}/{len(o["ld"])}, real {len(mine)}'
            if o['rng'] != ((mine[0], mine[-1] + 1) if mine else ()):
                yield 'local-range', f'{K}: rank {k}: {o["rng"]}, real {mine[:1]}..{mine[-1:]}'
            names = [b for b in R[0]['brs'] if not any(b in x.split('=') for x in R[0]['pairs'])]
            if 'bd' in o and d == 3:
                for b in names:
                    w = sorted({n for e, v in bdy.get(b, {}).items() if e in local[k] for n in v})
                    # a trace element is also known to the rank of its other element; only own elements count
                    if sorted(set(o['bd'].get(b, []))) != w:
                        yield 'bdofs', f'{K}: rank {k} boundary {b}: {len(set(o["bd"].get(b, [])))} dofs, real {len(w)}'
                    g = sorted({n for v in bdy.get(b, {}).values() for n in v})
                    if sorted(set(o['gbd'].get(b, []))) != g:
                        yield 'gbdofs', f'{K}: rank {k} boundary {b}: {o["gbd"].get(b)} vs {g}'
                if set(o['gbd']) - set(names):
                    yield 'gbdofs', f'{K}: names {sorted(o["gbd"])}, real {sorted(names)}'
                w = sorted({n for b in names for v in bdy.get(b, {}).values() for n in v})
                if o['gbr'] != w:
                    yield 'gbdofs', f'{K}: ravel has {len(o["gbr"])}, real {len(w)}'
            for s, v in o['side'].items():
                w = sorted(ix[lab] for lab in labs if lb.on_side(lab, s, p))
                if sorted(v) != w:
                    yield 'side', f'{K}: side {s}: {sorted(v)} vs {w}'
            for (e, s), v in o.get('gside', {}).items():
                w = sorted(gm[e][ix[lab]] for lab in labs if lb.on_side(lab, s, p))
                if sorted(v) != w:
                    yield 'gside', f'{K}: element {e} side {s}: {sorted(v)} vs {w}'
            for ce, v in o.get('ce', {}).items():
                ax = [x for x in range(3) if x not in (lb.AX[ce[0]], lb.AX[ce[1]])][0]
                w = sorted(ix[lab] for lab in labs if all(lb.on_side(lab, s, p) for s in ce)
                           and (ID[0] == '0' or lab[0] == ax))
                if sorted(v) != w:
                    yield 'corner-edge', f'{K}: {ce}: {sorted(v)} vs {w}'
            if 'tew' in o:
                for e in local[k]:
                    for s, t in zip(S, o['tmap'][e]):
                        if hyb:
                            w = [gm[e][i] for i, lab in enumerate(labs) if lab[2] == s]
                        else:
                            w = None
                        if w is not None and o['tew'][t] != w:
                            yield 'tew', f'{K}: trace element {t} of {e}{s}: {o["tew"][t]} vs {w}'
                        if w is None and set(o['tew'][t]) != {gm[e][i] for i, lab in enumerate(labs)
                                                              if lb.on_side(lab, s, p)}:
                            yield 'tew', f'{K}: trace element {t} of {e}{s}'
            if 'eew' in o:
                for e in local[k]:
                    for ce, t in zip(lb.EDGES, o['emap'][e]):
                        w = [gm[e][i] for i, lab in enumerate(labs) if lab[2] == ce]
                        if o['eew'][t] != w:
                            yield 'eew', f'{K}: edge element {t} of {e}{ce}: {o["eew"][t]} vs {w}'
            for key in ('find', 'finds', 'pos'):
                for i, v in o.get(key, {}).items():
                    w = [x for x in inv[i] if x[0] in local[k]]
                    if not hyb and ID.split('-')[1] == 'x':
                        continue
                    if v != w:
                        yield key, f'{K}: rank {k} dof {i}: {v} vs {w}'
            for i, v in o.get('gpos', {}).items():
                if v != inv[i]:
                    yield 'gpos', f'{K}: dof {i}: {v} vs {inv[i]}'
            for (e, cn), v in o.get('corner', {}).items():
                w = [gm[e][ix[lab]] for lab in labs if
                     all(x == ('n', p[a] if cn[a] in lb.HI else 0) for a, x in enumerate(lab[1]))]
                w = sorted(w) if e in local[k] else None
                if w is not None and ID == '0-f':
                    w = w[0]
                if v != w:
                    yield 'corner', f'{K}: rank {k} element {e} corner {cn}: {v} vs {w}'
            if 'share' in o and hyb and ID[0] in '012':
                w = sorted(sorted(gm[e][ix[lab]] for e, lab in cl) for cl in classes(c, labs, 'faces', p) if len(cl) > 1)
                if k == 0 and (o['share'] is None or sorted(o['share']) != w):
                    yield 'share', f'{K}: {str(o["share"])[:200]} vs {str(w)[:200]}'
