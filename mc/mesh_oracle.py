"""independent oracle for CSCG mesh ownership and connectivity, from element geometry and the region map only"""
import numpy as np

S3, S2 = 'NSWEBF', 'UDLR'
OPP = dict(zip('NSWEBFUDLR', 'SNEWFBDURL'))
EDGES = ['WB', 'EB', 'WF', 'EF', 'NB', 'SB', 'NF', 'SF', 'NW', 'SW', 'NE', 'SE']
NODES = ['NWB', 'SWB', 'NEB', 'SEB', 'NWF', 'SWF', 'NEF', 'SEF']
TOL = 1e-6


def judge_ownership(R, name):
    N = R[0]['N']
    d = R[0]['d']
    owner = {}
    for r in R:
        for i in r['indices']:
            if i in owner:
                yield 'disjoint', f'element {i} owned by ranks {owner[i]} and {r["rank"]}'
            owner[i] = r['rank']
        if not (r['num'] == r['len'] == len(r['indices']) and r['iter'] == r['indices']):
            yield 'counts', f'rank {r["rank"]}: num {r["num"]} len {r["len"]} indices {r["indices"]}'
        if r['indices'] and r['indices'] != list(range(r['indices'][0], r['indices'][0] + len(r['indices']))):
            yield 'contiguous', f'rank {r["rank"]}: {r["indices"]}'
    if sorted(owner) != list(range(N)):
        yield 'cover', f'owned elements {sorted(owner)} of {N}'
        return
    cat = [i for r in R for i in r['indices']]
    if cat != sorted(cat):
        yield 'increasing', f'{cat}'
    for r in R:
        if r['N'] != N or r['layout'] != R[0]['layout']:
            yield 'agree', 'global number or layout differs between ranks'
        for q in ('owner', 'owner_e'):
            if q in r and r[q] != [owner[i] for i in range(N)]:
                yield 'owner', f'rank {r["rank"]} {q}: {r[q]}, real {[owner[i] for i in range(N)]}'
        if r['owner_s'] != [owner[i] for i in range(0, N, 3)]:
            yield 'owner', f'rank {r["rank"]} by string: {r["owner_s"]}'
        if r['inside'] != [owner[i] == r['rank'] for i in range(N)]:
            yield 'contains', f'rank {r["rank"]}: {r["inside"]}'
        if r['region_of'] != R[0]['region_of']:
            yield 'agree', 'region of elements differs between ranks'
    regs = R[0]['regions']
    reg = R[0]['region_of']
    lay = R[0]['layout']
    cnt = {x: reg.count(x) for x in regs}
    if any(cnt[x] != int(np.prod(lay[x])) for x in regs) or sum(cnt.values()) != N:
        yield 'regions', f'elements per region {cnt}, layout {lay}'
    if reg != sorted(reg, key=regs.index):
        yield 'regions', f'elements not contiguous over the regions: {reg}'
    loc, org, cen = {}, {}, {}
    for r in R:
        loc.update(r['loc'])
        org.update(r['origin'])
        cen.update(r['center'])
    for i in range(N):
        if loc[i][0] != reg[i]:
            yield 'local', f'element {i} is in region {reg[i]} but located in {loc[i]}'
    if len(set(loc.values())) != N:
        yield 'local', f'two elements share a region index: {sorted(loc.items())}'
    if len(set(cen.values())) != N:
        yield 'center', 'two elements at the same place'
    sp = R[0]['spacing']
    for i in range(N):
        rn, ix = loc[i]
        if any(not 0 <= ix[k] < lay[rn][k] for k in range(d)):
            yield 'local', f'element {i} at {loc[i]} outside layout {lay[rn]}'
            continue
        for k in range(d):
            a, b = sp[rn][k][ix[k]], sp[rn][k][ix[k] + 1]
            if abs(org[i][0][k] - a) > 1e-12 or abs(org[i][1][k] - (b - a)) > 1e-12:
                yield 'origin', f'element {i} at {loc[i]}: origin/size {org[i]}, spacing {sp[rn][k]}'
    inv = {v: k for k, v in loc.items()}
    for r in R:
        want = {reg[i] for i in r['indices']}
        if set(r['in_regions']) != want or len(r['in_regions']) != len(want):
            yield 'in_regions', f'rank {r["rank"]}: {r["in_regions"]}, real {want}'
        if 'prime' in r:
            for rn in regs:
                n = [sum(1 for i in q['indices'] if reg[i] == rn) for q in R]
                if n[r['prime'][rn]] != max(n):
                    yield 'prime', f'{rn}: {n}, prime core {r["prime"][rn]}'
            if r['prime'] != R[0]['prime']:
                yield 'prime', 'differs between ranks'
        for (rn, cn), e in r['corners'].items():
            ix = []
            for k, (lo, hi) in enumerate((('N', 'S'), ('W', 'E'), ('B', 'F')) if d == 3 else (('U', 'D'), ('L', 'R'))):
                ix.append(0 if lo in cn else lay[rn][k] - 1)
            if e != inv.get((rn, tuple(ix))):
                if isinstance(e, str) and d == 2 and cn in ('LU', 'RD'):
                    continue
                yield 'corner', f'rank {r["rank"]}: element at corner {cn} of {rn} is {inv.get((rn, tuple(ix)))}, got {e}'
        if 'stat' in r:
            st = r['stat']
            if st['total num of local mesh elements'] != r['num']:
                yield 'stat', f'{st}'


class DSU:
    def __init__(self):
        self.p = {}

    def find(self, a):
        self.p.setdefault(a, a)
        while self.p[a] != a:
            self.p[a] = self.p[self.p[a]]
            a = self.p[a]
        return a

    def join(self, a, b):
        self.p[self.find(a)] = self.find(b)


class Conn:
    """expected connectivity: self.nb[(i, s)] = (j, s') | boundary name;  self.per = set of periodic (i, s)"""

    def __init__(self, R):
        self.d = R[0]['d']
        self.S = S3 if self.d == 3 else S2
        self.faces, self.reg, self.owner = {}, {}, {}
        for r in R:
            for i in r['indices']:
                self.owner[i] = r['rank']
                self.reg[i] = r['regions'][i]
                for k, s in enumerate(self.S):
                    self.faces[(i, s)] = r['faces'][i][k]
        self.rmap, self.brs = R[0]['rmap'], R[0]['brs']
        self.nb, self.per, self.err = {}, set(), []
        cell = {}
        scale = max(np.ptp(np.concatenate(list(self.faces.values())), axis=0).max(), 1e-9)
        h = 1e-3 * scale

        def cellkey(c):
            return tuple(int(np.floor(x / h)) for x in c)
        for q, f in self.faces.items():
            cell.setdefault(cellkey(f.mean(axis=0)), []).append(q)

        def near(f):
            k = cellkey(f.mean(axis=0))
            for off in np.ndindex(*(3,) * self.d):
                for q in cell.get(tuple(a + o - 1 for a, o in zip(k, off)), ()):
                    yield q

        def same(f, g):
            return np.abs(np.sort(f, axis=0) - np.sort(g, axis=0)).max() < TOL * scale
        per_sides = {}
        for q, f in self.faces.items():
            i, s = q
            m = []
            for q2 in near(f):
                if q2 == q or not same(f, self.faces[q2]):
                    continue
                j, s2 = q2
                k, k2 = self.S.index(s), self.S.index(s2)
                if self.reg[i] == self.reg[j] or (self.rmap[self.reg[i]][k] == self.reg[j]
                                                  and self.rmap[self.reg[j]][k2] == self.reg[i]):
                    m.append(q2)
            if len(m) > 1:
                self.err.append(f'face {q} coincides with {m}')
            if m:
                self.nb[q] = m[0]
            else:
                b = self.rmap[self.reg[i]][self.S.index(s)]
                if b not in self.brs or f'{self.reg[i]}-{s}' not in self.brs[b]:
                    self.err.append(f'face {q} of region {self.reg[i]} has no neighbour, region map says {b}')
                self.nb[q] = b
                per_sides.setdefault(b, []).append(q)
        for pair in R[0]['pairs']:
            a, b = pair.split('=')
            A, B = per_sides.get(a, []), per_sides.get(b, [])
            if not A or len(A) != len(B):
                self.err.append(f'periodic pair {pair}: {len(A)} and {len(B)} faces')
                continue
            t = np.mean([self.faces[q].mean(axis=0) for q in B], axis=0) - \
                np.mean([self.faces[q].mean(axis=0) for q in A], axis=0)
            for q in A:
                m = [p for p in B if same(self.faces[q] + t, self.faces[p])]
                if len(m) != 1:
                    self.err.append(f'periodic face {q} of {a} has counterparts {m}')
                    continue
                self.nb[q], self.nb[m[0]] = m[0], q
                self.per.add(q)
                self.per.add(m[0])
        for q, v in self.nb.items():
            if isinstance(v, tuple):
                if self.nb[v] != q:
                    self.err.append(f'{q} -> {v} -> {self.nb[v]}')
                if v[1] != OPP[q[1]]:
                    self.err.append(f'{q} faces {v}: not opposite sides')
                t = self.faces[v].mean(axis=0) - self.faces[q].mean(axis=0)
                if np.abs(self.faces[q] + t - self.faces[v]).max() > TOL * scale:
                    self.err.append(f'{q} and {v} are not equally oriented')

    def classes(self, keys):
        """equivalence classes of (element, sub-entity) under the face connections"""
        u = DSU()
        for i in self.owner:
            for k in keys:
                u.find((i, k))
        for (i, s), v in self.nb.items():
            if isinstance(v, tuple):
                for k in keys:
                    if s in k:
                        u.join((i, k), (v[0], k.replace(s, v[1])))
        out = {}
        for a in u.p:
            out.setdefault(u.find(a), []).append(a)
        return list(out.values())


def _numbering(cls, val, num, what):
    """classes <-> numbers must be a bijection onto 0..num-1"""
    seen = {}
    for c in cls:
        v = {val[m] for m in c}
        if len(v) != 1:
            yield what, f'same entity {sorted(c)} numbered {sorted(v)}'
            continue
        v = v.pop()
        if v in seen:
            yield what, f'different entities {sorted(c)} and {sorted(seen[v])} both numbered {v}'
        seen[v] = c
    if sorted(seen) != list(range(len(cls))):
        yield what, f'numbers in use {sorted(seen)} for {len(cls)} entities'
    if num != len(cls):
        yield what, f'reported number {num}, real {len(cls)}'


def judge_connectivity(R, name, finds=True):
    c = Conn(R)
    d, S = c.d, c.S
    for e in c.err:
        yield 'geometry', e
    if c.err:
        return
    emap, tmap = {}, {}
    for r in R:
        emap.update(r['map'])
        tmap.update(r['tmap'])
    for i in c.owner:
        want = [c.nb[(i, s)][0] if isinstance(c.nb[(i, s)], tuple) else c.nb[(i, s)] for s in S]
        if list(emap[i]) != want:
            yield 'map', f'element {i}: map {emap[i]}, geometry says {want}'
    # ---- trace elements
    tcls = {}
    for q, v in c.nb.items():
        k = min(q, v) if isinstance(v, tuple) else q
        tcls.setdefault(k, set()).update([q] + ([v] if isinstance(v, tuple) else []))
    tv = {(i, s): tmap[i][k] for i in c.owner for k, s in enumerate(S)}
    for r in R:
        if r['tnum'] != R[0]['tnum']:
            yield 'trace', f'global number of trace elements {[x["tnum"] for x in R]}'
    tcl = [sorted(x) for x in tcls.values()]
    yield from _numbering(tcl, tv, R[0]['tnum'], 'trace')
    of = {}
    for x in tcl:
        of[tv[x[0]]] = x
    for r in R:
        mine = set(r['indices'])
        want = sorted({tv[(i, s)] for i in mine for s in S})
        if r['tlocal'] != want:
            yield 'trace-local', f'rank {r["rank"]} stores {r["tlocal"]}, touches {want}'
        for t, x in r['te'].items():
            if t not in of:
                continue
            pos = [f'{i}{s}' for i, s in of[t]]
            b = c.nb[of[t][0]]
            if isinstance(b, str):
                pos.append(b)
            if sorted(map(str, x['pos'])) != sorted(pos):
                yield 'trace-pos', f'trace {t}: positions {x["pos"]}, real {pos}'
            if (x['ce'], x['cs']) not in of[t] or x['ce'] not in mine or x['i'] != t:
                yield 'trace-char', f'rank {r["rank"]} trace {t}: characteristic {x["ce"], x["cs"]}, real {of[t]}'
            if x['reg'] != c.reg[x['ce']]:
                yield 'trace-char', f'trace {t}: region {x["reg"]}'
            if of[t][0][1] not in x['nd']:
                yield 'trace-nd', f'trace {t}: direction {x["nd"]}, sides {of[t]}'
            ob, op = isinstance(b, str), of[t][0] in c.per
            owners = {c.owner[i] for i, _ in of[t]}
            if x['onb'] != ob or x['onp'] != op:
                yield 'trace-whether', f'trace {t}: on boundary {x["onb"]} periodic {x["onp"]}, real {ob} {op}'
            sh = len(owners) == 2
            if x['sbc'] != sh or x['swc'] != ((owners - {r['rank']}).pop() if sh else None):
                yield 'trace-shared', f'rank {r["rank"]} trace {t}: shared {x["sbc"]} with {x["swc"]}, owners {owners}'
            for q, p in x['phys'].items():
                if p.shape != c.faces[q].shape or np.abs(p - c.faces[q]).max() > 1e-6:
                    yield 'trace-place', f'trace {t} seen from {q} is not on the face of that element'
    # ---- boundaries
    bn = sorted({v for v in c.nb.values() if isinstance(v, str)})
    for r in R:
        if list(r['bn']) != list(R[0]['bn']):
            yield 'boundary-names', f'order differs between ranks: {r["bn"]} {R[0]["bn"]}'
        if sorted(r['bn']) != bn:
            yield 'boundary-names', f'{sorted(r["bn"])}, real {bn}'
            continue
        inv = set()
        for b in bn:
            want = sorted(f'{i}{s}' for (i, s), v in c.nb.items() if v == b and c.owner[i] == r['rank'])
            inv |= {int(w[:-1]) for w in want}
            if sorted(r['sides'][b]) != want:
                yield 'boundary-range', f'rank {r["rank"]} {b}: {sorted(r["sides"][b])}, real {want}'
                continue
            if sorted(r['bt'][b]) != sorted(tv[(int(w[:-1]), w[-1])] for w in want):
                yield 'boundary-trace', f'rank {r["rank"]} {b}: {r["bt"][b]}'
            if sorted(set(r['be'][b])) != sorted({int(w[:-1]) for w in want}):
                yield 'boundary-elements', f'rank {r["rank"]} {b}: {r["be"][b]}'
            if 'bdict' in r and (sorted(r['bdict'][b][0]) != want or sorted(r['bdict'][b][1]) != sorted(r['bt'][b])):
                yield 'boundary-object', f'rank {r["rank"]} {b}: {r["bdict"][b]}'
            if r['brs_r'] is not None and sorted(r['brs_r'][b]) != sorted(
                    {f'{c.reg[i]}-{s}' for (i, s), v in c.nb.items() if v == b}):
                yield 'boundary-region-sides', f'{b}: {r["brs_r"][b]}'
        if r['bi'] != sorted(inv):
            yield 'boundary-involved', f'rank {r["rank"]}: {r["bi"]}, real {sorted(inv)}'
        if 'imb' in r:
            want = sorted(b for b in bn if any(v == b and c.owner[i] == r['rank'] for (i, s), v in c.nb.items()))
            if r['imb'] != want:
                yield 'involved-boundaries', f'rank {r["rank"]}: {r["imb"]}, real {want}'
        if 'internal' in r:
            for i, v in r['internal'].items():
                if v != all(isinstance(c.nb[(i, s)], tuple) for s in S):
                    yield 'internal', f'element {i} reported internal={v}'
    if d == 2:
        return
    # ---- edges and nodes
    num = {}
    for nm, keys in (('edge', EDGES), ('node', NODES)):
        mp = {}
        for r in R:
            for i, v in r[nm]['map'].items():
                if len(v) != len(keys):
                    yield nm, f'element {i}: map has {len(v)} entries'
                    return
                for k, n in zip(keys, v):
                    mp[(i, k)] = n
            if r[nm]['num'] != R[0][nm]['num']:
                yield nm, 'global number differs between ranks'
        cl = c.classes(keys)
        bad = list(_numbering(cl, mp, R[0][nm]['num'], nm))
        yield from bad
        if bad:
            return
        num[nm] = mp
        cof = {mp[x[0]]: x for x in cl}
        for r in R:
            for n, x in r[nm]['loc'].items():
                mem = cof[n]
                bnd = sorted({c.nb[(i, s)] for i, k in mem for s in k if isinstance(c.nb[(i, s)], str)})
                pos = sorted([f'{i}{k}' for i, k in mem] + bnd)
                if sorted(x['pos']) != pos:
                    yield nm + '-pos', f'{nm} {n}: positions {x["pos"]}, real {pos}'
                if sorted(x['onb']) != bnd or x['wb'] != bool(bnd):
                    yield nm + '-boundary', f'{nm} {n}: on {x["onb"]} / {x["wb"]}, real {bnd}'
                if sorted(set(x['by'])) != sorted({i for i, _ in mem}):
                    yield nm + '-shared', f'{nm} {n}: shared by {x["by"]}, real {mem}'
                wp = any((i, s) in c.per for i, k in mem for s in k)
                if x['wp'] != wp:
                    yield nm + '-periodic', f'{nm} {n}: periodic {x["wp"]}, real {wp}'
                if (x['ce'], x['cc']) not in mem or x['ce'] not in r[nm]['map'] or x['creg'] != c.reg[x['ce']]:
                    yield nm + '-characteristic', f'{nm} {n}: seen from {x["ce"], x["cc"], x["creg"]}, is {mem}'
                if nm == 'edge':
                    fr = next(p for p in ('NS', 'WE', 'BF') if not set(p) & set(mem[0][1]))
                    if x['dir'] != fr:
                        yield 'edge-direction', f'edge {n}: {x["dir"]}, real {fr}'
                for (i, k), p in x['phys'].items():
                    w = r[nm]['phys'][i][keys.index(k)]
                    if p.shape != w.shape or np.abs(p - w).max() > 1e-6:
                        yield nm + '-place', f'{nm} {n} seen from {i, k} is at {p.tolist()}, element says {w.tolist()}'
    if not finds or 'f_te' not in R[0]:
        return
    te, tn = {}, {}
    for (i, s), t in tv.items():
        te.setdefault(t, set()).update(num['edge'][(i, k)] for k in EDGES if s in k)
        tn.setdefault(t, set()).update(num['node'][(i, k)] for k in NODES if s in k)
    ne, nt, et = {}, {}, {}
    for (i, k), n in num['node'].items():
        ne.setdefault(n, set()).update(num['edge'][(i, e)] for e in EDGES if set(e) <= set(k))
        nt.setdefault(n, set()).update(tv[(i, s)] for s in k)
    for (i, k), e in num['edge'].items():
        et.setdefault(e, set()).update(tv[(i, s)] for s in k)
    el = {}
    for (i, s), t in tv.items():
        el.setdefault(i, set()).add(t)
    for r in R:
        for what, ref in (('f_te', te), ('f_tn', tn), ('f_et', et), ('f_nt', nt), ('f_ne', ne)):
            for k, v in r[what].items():
                if isinstance(v, str) or set(v) != ref[k]:
                    yield what, f'rank {r["rank"]}: {what}({k}) = {v}, real {sorted(ref[k])}'
                    break
        for (i, j), v in r['f_2t'].items():
            if isinstance(v, str) or set(v) != el[i] & el[j]:
                yield 'f_2t', f'rank {r["rank"]}: trace between elements {i, j} = {v}, real {el[i] & el[j]}'
                break
        for (a, b), v in r['f_tt'].items():
            ref = {i for i, _ in of[a]} & {i for i, _ in of[b]}
            if (v is None and ref) or (v is not None and v not in ref):
                yield 'f_tt', f'rank {r["rank"]}: element shared by traces {a, b} = {v}, real {ref}'
                break


def conn_size(R):
    return sum(len(r['indices']) for r in R)
