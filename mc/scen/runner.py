"""C13: the parallel matrix-input runner: input shapes, rerun histories, every crash state of the result file"""
import itertools
import os
import sys
import time as _time

from mc.scen.ct import Rec
from mc.scen.crash import Recorder, Scratch, restore


class G:
    calls = []
    rec = None
    now = 1e6
    tick = 0.
    stop = None


class Stop(Exception):
    pass


def vtime():
    return G.now


def vsleep(s):
    G.now += s


_TIME, _SLEEP = _time.time, _time.sleep


def patch():
    import tools.run.reader
    for n, m in list(sys.modules.items()):
        if n.startswith('tools.'):
            for k, v in list(vars(m).items()):
                if v is _TIME:
                    setattr(m, k, vtime)
                elif v is _SLEEP:
                    setattr(m, k, vsleep)
    _time.time, _time.sleep = vtime, vsleep


def value(a, b, c, s):
    x = (a * 7 + b * 3 + c) / 7
    return [x * s, [1 / 3 * 10 ** 8, -2.5e-300, 4.0, 1e22, float('inf')][int(abs(a) * 10 + abs(b) * 5 + abs(c)) % 5]]


def solver(a, b, c, s=1):
    """
    Parameters
    ----------
    a :
    b :
    c :
    s : a factor

    Returns
    -------
    o1 :
    o2 :
    """
    G.calls.append((a, b, c, s))
    G.now += G.tick
    if G.rec:
        G.rec.mark(f'solver call {len(G.calls)}')
    if G.stop == len(G.calls):
        raise Stop
    return value(a, b, c, s)


def expected(I1, I2, I3):
    """distinct triples in the documented order: the third input is the slowest, the second index is the fastest"""
    out = []
    for c in I3:
        for x, y in zip(I1, I2):
            for a, b in zip(x, y):
                if a is not None and (a, b, c) not in out:
                    out.append((a, b, c))
    return out


def parse(data):
    """complete rows of a result file [(index, a, b, c, o1, o2)], None when there is no table"""
    if data is None:
        return []
    lines = data.decode().splitlines(True)
    for k, s in enumerate(lines):
        if s.startswith('<RESULTS>'):
            break
    else:
        return None
    out = []
    for s in lines[k + 3:]:
        t = s.split()
        if not s.endswith('\n') or len(t) != 10 or t[6] != '|':
            if s is not lines[-1]:
                return None
            break
        out.append((int(t[0]),) + tuple(float(x) for x in t[1:6]))
    return out


def rows_want(triples, s):
    return [tuple(float(x) for x in t) + tuple(float(x) for x in value(*t, s)) for t in triples]


def rows_of(df):
    return [tuple(float(x) for x in row[:5]) for row in df.to_numpy().tolist()]


def read(path):
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        return f.read()


def run(ins, fn, rec=None, stop=None, runner=None, tick=0., **kw):
    from tools.run.reader import ParallelMatrix3dInputRunner
    G.calls, G.rec, G.stop, G.tick = [], rec, stop, tick
    R = runner or ParallelMatrix3dInputRunner(solver)
    stopped = False
    try:
        R.iterate(*ins, writeto=fn, **kw)
    except Stop:
        stopped = True
    G.rec = None
    return R, stopped


def check_after(r, R, fn, d, before, ins, s, tag, stop=None):
    """after a completed iterate on a file that had the rows `before` (triples)"""
    from root.config.main import RANK, COMM
    from tools.run.reader import RunnerDataReader
    want = expected(*ins)
    todo = [t for t in want if t not in before]
    r.n += 1
    calls = [c[:3] for c in G.calls]
    if calls != todo or any(c[3] != s for c in G.calls):
        r.bad.append(('calls', f'{tag}: solver called with {G.calls}, expected {todo} (s={s})'))
        return False
    table = list(before) + todo
    rows = rows_want(table, s)
    got = R.results
    ok = rows_of(got) == rows and list(got.index) == list(range(len(rows)))
    if not ok:
        r.bad.append(('results', f'{tag}: results {list(got.index)} {rows_of(got)} expected {rows}'))
        return False
    if fn:
        f = parse(read(os.path.join(d, fn))) if RANK == 0 else None
        f = COMM.bcast(f, root=0)
        if f is None or [x[0] for x in f] != list(range(len(rows))) or [x[1:] for x in f] != rows:
            r.bad.append(('file', f'{tag}: the file holds {f} expected {rows}'))
            return False
        D = RunnerDataReader(os.path.join(d, fn))
        g = D.results
        if rows_of(g) != rows or list(g.columns) != list(got.columns) or \
                [x[5:] for x in g.to_numpy().tolist()] != [x[5:] for x in got.to_numpy().tolist()]:
            r.bad.append(('readback', f'{tag}: read back {g.to_numpy().tolist()} expected {got.to_numpy().tolist()}'))
            return False
        try:
            D.iterate(*ins)
        except Exception as e:
            if 'lock' not in str(e):
                r.bad.append(('lock', f'{tag}: a runner read from a file iterates: {type(e).__name__}'))
        else:
            r.bad.append(('lock', f'{tag}: a runner read from a file iterates'))
    return True


VAL = [(1, 2), (0.5, 3), (1, -0.25), (4, 1e-7), (2, 2), (0.1, 1 / 3)]
I3S = [[], [0], [0.15, 3], [3, 3, 1e25]]


def shapes(maxrows, maxlen):
    """ragged inputs; values repeat on purpose; None skips a run"""
    for nr in range(maxrows + 1):
        for lens in itertools.product(range(maxlen + 1), repeat=nr):
            n = sum(lens)
            for shift in (1, 2, 3):
                it = iter([VAL[(k * k + shift * k) % len(VAL)] if (k + shift) % 5 else None for k in range(n)])
                A, B = [], []
                for L in lens:
                    row = [next(it) for _ in range(L)]
                    A.append([x[0] if x else None for x in row])
                    B.append([x[1] if x else None for x in row])
                yield A, B


def inputs(maxrows, maxlen, part):
    """every input shape, with and without file, then the same again (nothing left), then extended"""
    patch()
    r = Rec()
    with Scratch() as d:
        for k, (A, B) in enumerate(shapes(maxrows, maxlen)):
            if k % part[1] != part[0]:
                continue
            for I3 in I3S:
                ins = (A, B, I3)
                tag = f'inputs {ins}'
                fn = f'f{k}_{len(I3)}.txt'
                prog = k % 2 == 0
                R, _ = run(ins, None, s=3, show_progress=prog)
                if not check_after(r, R, None, d, [], ins, 3, tag + ' no file'):
                    continue
                R, _ = run(ins, fn, s=3, show_progress=prog)
                if not check_after(r, R, fn, d, [], ins, 3, tag):
                    continue
                had = expected(*ins)
                ext = (A + [[9, 1]], B + [[9, 2]], I3 + [7])
                for again in (ins, ext):
                    R, _ = run(again, fn, s=3, show_progress=prog)
                    if not check_after(r, R, fn, d, had, again, 3, tag + f' rerun with {again}'):
                        break
                    had = had + [t for t in expected(*again) if t not in had]
            if len(r.bad) > 10:
                break
    return r.out()


INS = [([[1, 2], [0.5]], [[2, 3], [1]], [0, 0.1]), ([[1], [1, 3]], [[2], [2, 0.2]], [0]), ([[1, None, 2]], [[2, None, 3]], [5, 0, 0.1])]


def histories(depth, part):
    """sequences of iterate calls on one or several runner objects, files shared or not, stopped by the solver or not"""
    from root.config.main import RANK, COMM, SIZE
    patch()
    r = Rec()
    ops = [(i, f, st, ob) for i in range(len(INS)) for f in ('a.txt', 'b.txt', None) for st in (None, 1, 3) for ob in ('new', 'same') if not (ob == 'same' and st)]
    n = 0
    with Scratch() as d:
        for k, seq in enumerate(itertools.product(ops, repeat=depth)):
            if k % part[1] != part[0]:
                continue
            if RANK == 0:
                restore(d, {})
            COMM.barrier()
            have = {'a.txt': [], 'b.txt': []}
            R = None
            for q, (i, f, st, ob) in enumerate(seq):
                tag = f'history {seq[:q + 1]}'
                before = list(have[f]) if f else []
                todo = [t for t in expected(*INS[i]) if t not in before]
                R, stopped = run(INS[i], f, stop=st, runner=R if ob == 'same' else None, s=2, show_progress=bool(k % 2))
                n += 1
                if st and st <= len(todo):
                    if not stopped or [c[:3] for c in G.calls] != todo[:st]:
                        r.bad.append(('calls', f'{tag}: solver called with {G.calls} expected {todo[:st]}'))
                        break
                    if f:
                        have[f] = before + todo[:st - 1]
                    R = None
                    continue
                if not check_after(r, R, f, d, before, INS[i], 2, tag):
                    break
                if f:
                    have[f] = before + todo
            if len(r.bad) > 10:
                break
    return r.out(runs=n)


def crashes(which, keep, depth, tick):
    from root.config.main import RANK, COMM, SIZE
    patch()
    ins = INS[which]
    r = Rec()
    cnt = dict(states=0, torn=0, runs=0)
    done = set()
    want = expected(*ins)

    def go(d, state, hist, level):
        if RANK == 0:
            restore(d, state)
        COMM.barrier()
        rows = parse(state.get('a.txt')) if RANK == 0 else None
        rows = COMM.bcast(rows, root=0)
        tag = f'inputs {ins} after {hist}'
        rec = Recorder(d) if RANK == 0 and level < depth else None
        cnt['runs'] += 1
        try:
            if rec:
                with rec:
                    R, _ = run(ins, 'a.txt', rec=rec, s=2, tick=tick)
            else:
                R, _ = run(ins, 'a.txt', s=2, tick=tick)
        except Exception as e:
            if SIZE == 1:
                r.bad.append(('restart', f'{tag}: restart fails with {type(e).__name__}: {e}; file {(state.get("a.txt") or b"")[-80:]}'))
                return
            raise
        had = [] if rows is None else [t for x in rows for t in want if tuple(float(v) for v in t) == x[1:4]]
        if not check_after(r, R, 'a.txt', d, had, ins, 2, tag):
            return
        if level < depth:
            st = COMM.bcast(rec.states() if RANK == 0 else None, root=0)
            torn = 0
            for lab, s in st:
                if 'torn' in lab:
                    torn += 1
                    head = lab.startswith(('start', 'open')) or '<RESULTS>' not in (s.get('a.txt') or b'').decode()
                    n, m = lab.rsplit('torn after ', 1)[1].split(' bytes')[0].split(' of ')
                    if torn % (keep[level] * (9 if head else 1)) and int(m) - int(n) > 2 and int(n):
                        continue
                key = tuple(sorted(s.items())), level
                if key in done or len(r.bad) > 8:
                    continue
                done.add(key)
                cnt['states'] += 1
                cnt['torn'] += 'torn' in lab
                go(d, s, f'{hist}; crash at {lab}', level + 1)

    with Scratch() as d:
        go(d, {}, 'start', 0)
    if not r.bad and cnt['states'] < len(want):
        r.bad.append(('harness', f'only {cnt} crash states were found'))
    return r.out(crash_states=cnt['states'], torn_states=cnt['torn'], runs=cnt['runs'])


def one_run(which, tick):
    patch()
    run(INS[which], 'a.txt', s=2, tick=tick)


def killed(which, tick, found):
    """files left by really killed processes"""
    patch()
    ins = INS[which]
    want = expected(*ins)
    r = Rec()
    with Scratch() as d:
        for k, s, end in found:
            restore(d, s)
            rows = parse(s.get('a.txt'))
            tag = f'process killed at file-system event {k}'
            R, _ = run(ins, 'a.txt', s=2)
            had = [] if rows is None else [t for x in rows for t in want if tuple(float(v) for v in t) == x[1:4]]
            if not end and s and len(had) == len(want):
                pass
            check_after(r, R, 'a.txt', d, had, ins, 2, tag)
    return r.out(real_kills=len(found))
