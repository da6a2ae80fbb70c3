"""C01: the same inputs give the same results on every number of ranks and every distribution of the elements."""
import numpy as np
from mc.check import Job
from mc.scen import common as cm
from mc import engine

RANKS = {'quick': 4, 'thorough': 5}

PERI = (3, 'crazy_periodic', dict(c=0.1), [2, 2, 2])
# name: mesh, degrees, tolerance of the norms
SETS = {'c3': ((3, 'crazy', dict(c=0.12), [2, 1, 2]), (1, 2, 1)),
        'cub': ((3, 'cuboid', dict(region_layout=(2, 1, 2), width=2, length=1.5), [1, 1, 1]), (1, 1, 2)),
        'p3': (PERI, (1, 1, 1)),
        'c2': ((2, 'crazy', dict(c=0.15), [2, 3]), (2, 1)),
        'rect': ((2, 'rectangle', dict(region_layout=(2, 2)), [1, 2]), (1, 2)),
        'p2': ((2, 'crazy_periodic', dict(c=0.1), [2, 2]), (2, 2)),
        'chp1': ((2, 'chp1', {}, [1, 1]), (1, 2))}
MORE = {'c3l': ((3, 'crazy', dict(c=0.05), [1, 1, 6]), (1, 1, 2)),
        'arch': ((3, 'bridge_arch_cracked', {}, [1, 1, 2]), (1, 1, 1)),
        'psc': ((3, 'psc', {}, [2, 2, 2]), (1, 1, 1)),
        'c3a': ((3, 'crazy', dict(c=0.1, bounds=((0, 2), (1, 2), (-1, 1))), [[1, 2], 1, [2, 1, 1]]), (2, 1, 1)),
        'quad': ((2, 'quadrangle', dict(p_UL=(0, 0), p_DL=(1, 0.2), p_UR=(0.3, 1.1), p_DR=(2, 1.5)), [2, 2]), (2, 2)),
        'cic': ((2, 'cic', {}, [1, 2]), (1, 1)),
        'chp2': ((2, 'chp2', {}, [1, 1]), (2, 1)),
        'line2': ((2, 'crazy', dict(c=0.05), [1, 7]), (1, 1))}
NOSYS = ('psc',)


def scenarios(n, spec, p, quick):
    per = 'periodic' in spec[1]
    yield 'forms1', 'mc.scen.part:forms', (True,)
    yield 'forms0', 'mc.scen.part:forms', (False,)
    yield 'others', 'mc.scen.part:others', ()
    yield 'misc', 'mc.scen.part:misc', ()
    if n not in NOSYS:
        for bn in [()] if per else [(), (0, 2)] if quick else [(), (0,), (1,), (0, 2), (0, 1, 2, 3)]:
            yield f'system{bn}', 'mc.scen.part:system', (bn,)


def close(a, b, tol):
    if a is None or b is None:
        return a is b
    if isinstance(a, (list, tuple)) and a and isinstance(a[0], str):
        return list(a) == list(b)
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    dm, sc = abs(a - b).max(), abs(b).max()
    if dm <= tol * max(sc, 1e-3):                           # (false when something is not finite)
        return True
    sc = np.nanmax(np.abs(b)) if np.isfinite(b).any() else 0.
    return bool(np.array_equal(np.isnan(a), np.isnan(b)) and np.nanmax(np.abs(a - b), initial=0.) <= tol * max(sc, 1e-3))


class Merged:
    """the results of all ranks put together; .errors: what is inconsistent between the ranks"""

    def __init__(self, R):
        self.errors, self.e, self.g, self.reps, self.order, self.M = [], {}, {}, {}, {}, {}
        for rk, r in enumerate(R):
            for k, v in r['e'].items():
                if k in self.e:
                    self.errors.append((f'{k[0]}', f'two ranks have the element at {k[1]}'))
                self.e[k] = v
        for k in R[0]['g']:
            vs = [r['g'].get(k) for r in R]
            self.g[k] = vs[0]
            for rk, v in enumerate(vs):
                if not close(v, vs[0], 1e-13):
                    self.errors.append((k, f'rank 0 has {vs[0]}, rank {rk} has {v}'))
        for k in R[0]['dof']:
            reps, n = {}, {r['dof'][k][1] for r in R}
            cells = {}
            for r in R:
                cells.update(r['dof'][k][0])
            for c in sorted(cells):
                for j, m in enumerate(cells[c]):
                    reps.setdefault(int(m), (c, j))
            if n != {len(reps)} or set(reps) != set(range(len(reps))):
                self.errors.append((k, f'numbers used: {len(reps)} in {min(reps)}..{max(reps)}, claimed {sorted(n)}'))
                continue
            self.reps[k] = {c: [reps[int(m)] for m in v] for c, v in cells.items()}
            self.order[k] = sorted(reps, key=reps.get)
        for k in R[0]['A']:
            row, col, _ = R[0]['A'][k]
            Ms = [r['A'][k][2] for r in R if r['A'][k][2] is not None]
            if not Ms or row not in self.order or (col and col not in self.order):
                self.M[k] = None
                continue
            M = sum(m.toarray() if hasattr(m, 'toarray') else np.asarray(m, float) for m in Ms)
            i = self.order[row]
            if M.shape != (len(i), len(self.order[col]) if col else 1):
                self.errors.append((k, f'shape {M.shape} for {len(i)} unknowns'))
                continue
            self.M[k] = M[i][:, self.order[col]] if col else M[i]


def compare(got, ref):
    for k, m in got.errors:
        yield k, m
    for nm, tol in (('e', 1e-8), ('g', 1e-9), ('M', 1e-8)):
        A, B = getattr(got, nm), getattr(ref, nm)
        if set(A) != set(B):
            x = sorted(set(A) ^ set(B), key=repr)[0]
            yield str(x if nm != 'e' else x[0]), f'{"only" if x in A else "not"} present with this distribution: {x}'
        for k in A:
            if k in B and not close(A[k], B[k], tol):
                if nm == 'e':
                    yield k[0], f'differs from the result on one rank in the element at {k[1]}'
                else:
                    yield k, f'differs from the result on one rank' + (f': {A[k]} / {B[k]}' if nm == 'g' else '')
    for k in ref.reps:
        if k in got.reps and got.reps[k] != ref.reps[k]:
            yield k, 'a different identification of the local unknowns than on one rank'


def first(it):
    seen = set()
    for k, m in it:
        if k not in seen:
            seen.add(k)
            yield k, m


def check(c):
    q = c.quick
    sets = dict(SETS)
    if not q:
        sets.update(MORE)
    refs, jobs = [], []
    for n, (spec, p) in sets.items():
        N = cm.num_elements(spec)
        for s, fn, a in scenarios(n, spec, p, q):
            big = N * (10 if spec[0] == 3 else 2)
            refs.append(Job(f'{n}/{s}/ref', 1, fn, (spec, None, p) + a, cost=big))
            parts = []
            for size in range(1, RANKS[c.tier] + 1):
                lim = {1: 1, 2: 2, 3: 2, 4: 1}[size] if q else {1: 2, 2: 20, 3: 20, 4: 8, 5: 6}[size]
                if q and s.startswith('forms') and size == 4:
                    continue
                ps = cm.some_parts(N, size, 999)
                k = len(ps) / lim
                off = sum(map(ord, n + s)) + c.seed * 3         # spread the compositions over the scenarios
                pick = ps if len(ps) <= lim else [ps[int(off + i * k) % len(ps)] for i in range(lim)]
                pick = list(dict.fromkeys(pick))
                parts += [(size, x) for x in pick if size > 1]
                parts += [(size, x) for x in ((None,)[size % 2 == 0 and size > 2:] if q else (None, 'debug', 'SWV0')) if size > 1]
            for size, x in parts:
                jobs.append(Job(f'{n}/{s}/{size}/{x}', size, fn, (spec, x, p) + a, meta=f'{n}/{s}/ref', cost=big * size))
    R = c.run(refs)
    ref = {k: Merged(r.execs[0].results) for k, r in R.items() if r.execs and r.execs[0].outcome == 'ok'}
    for k, m in ref.items():
        for kk, msg in m.errors:
            c.bad(f'{k}/{kk}', msg)

    def judge(job, x):
        if job.meta in ref:
            yield from first(compare(Merged(x.results), ref[job.meta]))
    c.run(jobs, judge)
    for j in ([jobs[1], jobs[-1]] if q else jobs[::max(1, len(jobs) // 16)]):       # the real MPI gives the same
        mod, fn = j.func.split(':')
        real = engine.real_mpi(j.size, mod, fn, j.args)
        if real is None:
            c.extra.setdefault('real_mpi_unavailable', []).append(j.key)
            continue
        c.real += 1
        if j.meta in ref:
            for k, m in first(compare(Merged(real), ref[j.meta])):
                c.bad(f'real/{j.key}/{k}', m, j.spec())
    c.extra['distributions'] = len(jobs)
