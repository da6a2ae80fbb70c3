"""C12: time iterator: configurations, stop/restart histories, every crash state of the result file"""
import csv
import io
import itertools
import math
import os
import sys
import time as _time
from fractions import Fraction

from mc.scen.ct import Rec
from mc.scen.crash import Recorder, Scratch, restore


class G:
    calls = []
    plan = {}
    t0, dt = 0., 1.
    rec = None
    tick = 0.
    now = 1e6
    seen = []
    path = None


def vtime():
    return G.now


def vsleep(s):
    G.now += s


def patch():
    import tools.iterators.simple
    for n, m in list(sys.modules.items()):
        if n.startswith('tools.iterators'):
            for k, v in list(vars(m).items()):
                if v is _TIME:
                    setattr(m, k, vtime)
                elif v is _SLEEP:
                    setattr(m, k, vsleep)
    _time.time, _time.sleep = vtime, vsleep
    from tools.iterators.base.monitor.do import IteratorMonitorDo
    IteratorMonitorDo.generate_graph_report = lambda self: None       # pictures of the progress: slow, no part of the results


_TIME, _SLEEP = _time.time, _time.sleep


def outputs(tk, tk1):
    k = round((tk1 - G.t0) / G.dt)
    return [tk1 / 3, (-1) ** k * 1.1 ** (37 * k), [2.5, 1e-300, float('nan'), float('inf'), -0.1][k % 5]]


def solver(tk, tk1):
    """
    Parameters
    ----------
    tk :
    tk1 :

    Returns
    -------
    exit_code : The standard exit code.
    shut_down : If it is ``True``, the outer iterator will `shutdown` immediately.
    message : The solver message.
    o1 :
    o2 :
    o3 :
    """
    k = round((tk1 - G.t0) / G.dt)
    G.calls.append((tk, tk1))
    if G.path:
        G.seen.append((k, rows_of(G.path)))
    G.now += G.tick
    out = outputs(tk, tk1)
    if G.rec:
        G.rec.mark(f'solver call {k}')
    return [1, G.plan.get(k, 0), 'm'] + out


def parse(data):
    """rows of a csv table {step: tuple of strings}; None when it is not a table"""
    if data is None:
        return {}
    out = {}
    for i, row in enumerate(csv.reader(io.StringIO(data.decode()))):
        if i == 0:
            continue
        try:
            out[int(row[0])] = tuple(row[1:])
        except (ValueError, IndexError):
            return None
    return out


def rows_of(path):
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        r = parse(f.read())
    return None if r is None else sorted(r)


INIT = [0.1, 1 / 7, 3.]
COLS = ['t', 'dt', 'o1', 'o2', 'o3']


def table(t0, dt, n):
    t, out = t0, [[t0, dt] + INIT]
    for k in range(n):
        o = outputs(t, t + dt)
        t += dt
        out.append([t, dt] + o)
    return out


def same(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(u == v or (u != u and v != v) for u, v in zip(x, y)) for x, y in zip(a, b))


def segment(steps, plan, fn, freq, factor, tick, ms, rec=None, mitr=False, path=None):
    from tools.iterators.simple import SimpleIterator
    G.calls, G.plan, G.rec, G.tick, G.seen, G.path = [], plan, rec, tick, [], path
    si = SimpleIterator(t0=G.t0, dt=G.dt, max_steps=ms, auto_save_frequency=freq, monitor_factor=factor, RDF_filename=fn, save_to_mitr=mitr)
    si(solver, list(INIT))
    si.run()
    G.rec = None
    return si


def check_table(r, si, fn, want, tag, rank):
    if rank != 0:
        return True
    got = si.RDF.to_numpy().tolist()
    r.n += 1
    if list(si.RDF.columns) != COLS or list(si.RDF.index) != list(range(len(want))) or not same(got, want):
        r.bad.append(('table', f'{tag}: the result table is {si.RDF.index.tolist()} {got} expected {want}'))
        return False
    if fn:
        p = fn if fn.endswith('.csv') else fn + '.csv'
        with open(p, 'rb') as f:
            rows = parse(f.read())
        got = [[float(x) if x != '' else float('nan') for x in rows[k]] for k in sorted(rows)] if rows is not None else None
        if rows is None or sorted(rows) != list(range(len(want))) or not same(got, want):
            r.bad.append(('file', f'{tag}: the result file holds {got} expected {want}'))
            return False
    return True


def check_calls(r, want_steps, tag, full):
    want = []
    for k in want_steps:
        want.append((full[k - 1][0], full[k][0]))
    r.n += 1
    if G.calls != want:
        r.bad.append(('calls', f'{tag}: solver called with {G.calls} expected {want}'))
        return False
    return True


def chains(size_cfg, stops, depth):
    """every chain of up to `depth` early stops and a final run to the end"""
    from root.config.main import RANK
    patch()
    t0, dt, N, freq, factor, tick = size_cfg
    G.t0, G.dt = t0, dt
    r = Rec()
    n = 0
    with Scratch() as d:
        for L in range(depth + 1):
            for chain in itertools.product(stops, repeat=L):
                for fn in ('res', 'res.csv', None) if L <= 1 else ('res',):
                    if fn is None and L:
                        continue
                    if RANK == 0:
                        restore(d, {})
                    full = table(t0, dt, N)
                    have = 0
                    from root.config.main import COMM
                    COMM.barrier()
                    for s, stop in enumerate(list(chain) + [None]):
                        plan, ms, until = {}, N, N
                        if stop is not None:
                            if stop[0] == 'ms':
                                ms = until = stop[1]
                            else:
                                plan = {stop[1]: stop[2]}
                                until = stop[1] if stop[1] > have else N
                        tag = f't0={t0} dt={dt} auto_save_frequency={freq} tick={tick} file={fn} history={chain[:s + 1]}'
                        watch = f'{d}/res.csv' if RANK == 0 and fn else None
                        si = segment(N, plan, fn, freq, factor, tick, ms, path=watch, mitr=L == 1)
                        n += 1
                        new = max(have, until)
                        if not check_calls(r, range(have + 1, new + 1), tag, full) or not check_table(r, si, fn, full[:new + 1], tag, RANK):
                            break
                        stopped = stop is not None and stop[0] == 'sd' and stop[1] > have
                        if bool(si.shut_down) != stopped or stopped and si.shut_down_reason != (stop[2] if isinstance(stop[2], str) else ''):
                            r.bad.append(('shut_down', f'{tag}: shut_down is {si.shut_down} ({si.shut_down_reason})'))
                        last = min(new, ms) if stop is None or stop[0] == 'ms' else until
                        if si.running_step != min(last, ms) + 1 or abs(si.t - full[min(last, ms)][0]) > 1e-12:
                            r.bad.append(('clock', f'{tag}: at step {si.running_step} time {si.t} after step {last}'))
                        # auto save: what is on disk when step k starts
                        if watch and freq:
                            first = None
                            for k, on_disk in G.seen:
                                first = k if first is None else first
                                must = 0
                                if k > first:
                                    must = first
                                    if tick:
                                        must = k - 1 if tick > 1e7 else first if freq is True else max(first, (k - 1) // freq * freq)
                                if k > first and (not on_disk or on_disk[-1] < must):
                                    r.bad.append(('autosave', f'{tag}: when step {k} starts the file has rows {on_disk}, expected up to {must}'))
                        if RANK == 0 and L == 1 and fn:
                            s2 = type(si).read('res')
                            if not same(s2.RDF.to_numpy().tolist(), full[:new + 1]) or s2.max_steps != ms:
                                r.bad.append(('mitr', f'{tag}: saved iterator differs'))
                            s3 = type(si).read('res.csv')
                            if list(s3.index) != list(range(new + 1)):
                                r.bad.append(('read', f'{tag}: read table has rows {list(s3.index)}'))
                        elif L == 1 and fn:
                            type(si).read('res')
                            type(si).read('res.csv')
                        have = new
                    if len(r.bad) > 10:
                        return r.out(runs=n)
    return r.out(runs=n)


def crashes(cfg, keep, depth, fault=None):
    """every state a crash can leave on disk during a run -> restart -> (crash again) -> finish"""
    from root.config.main import RANK, COMM
    patch()
    t0, dt, N, freq, factor, tick, plan, mitr = cfg
    G.t0, G.dt = t0, dt
    full = table(t0, dt, N)
    r = Rec()
    cnt = dict(states=0, torn=0, runs=0)
    done = set()

    def run_from(d, state, hist, level):
        if RANK == 0:
            restore(d, state)
        COMM.barrier()
        have = parse(state.get('res.csv')) if RANK == 0 else None
        have = COMM.bcast(None if have is None else sorted(have), root=0)
        tag = f'auto_save_frequency={freq} tick={tick} after {hist}'
        rec = Recorder(d) if RANK == 0 and level < depth else None
        cnt['runs'] += 1
        try:
            if rec:
                with rec:
                    si = segment(N, plan if level == 0 else {}, 'res', freq, factor, tick, N, rec=rec, mitr=mitr)
            else:
                si = segment(N, plan if level == 0 else {}, 'res', freq, factor, tick, N, mitr=mitr)
        except Exception as e:
            if SIZE1():
                r.bad.append(('restart', f'{tag}: restart fails with {type(e).__name__}: {e}; file {state.get("res.csv")}'))
                return
            raise
        stop = min(plan) if plan and level == 0 else N
        if have is not None:
            check_calls(r, [k for k in range(1, stop + 1) if k not in have], tag, full)
        if not check_table(r, si, 'res', full[:stop + 1], f'{tag}; file at restart {state.get("res.csv")}', RANK):
            return
        if level < depth:
            st = rec.states() if RANK == 0 else None
            st = COMM.bcast(st, root=0)
            torn = 0
            for lab, s in st:
                if 'torn' in lab:
                    torn += 1
                    if '.mitr' in lab and torn % 997:
                        continue
                    if torn % keep[level] and not lab.endswith('of 0 bytes'):
                        continue
                key = tuple(sorted(s.items())), level
                if key in done or len(r.bad) > 8:
                    continue
                done.add(key)
                cnt['states'] += 1
                cnt['torn'] += 'torn' in lab
                run_from(d, s, f'{hist}; crash at {lab}', level + 1)

    with Scratch() as d:
        run_from(d, {}, 'start', 0)
    if fault is None and not r.bad and cnt['states'] < N:
        r.bad.append(('harness', f'only {cnt} crash states were found'))
    o = r.out(**cnt_out(cnt))
    return o


def cnt_out(c):
    return dict(crash_states=c['states'], torn_states=c['torn'], runs=c['runs'])


def SIZE1():
    from root.config.main import SIZE
    return SIZE == 1


def configs(t0s, dts, steps, times):
    """every configuration: number of steps, end time"""
    from tools.iterators.simple import SimpleIterator
    patch()
    r = Rec()
    for t0, dt, ms, mt in itertools.product(t0s, dts, steps, times):
        if mt is not None and mt <= t0 or dt is None and (ms is None or mt is None) or ms is None and mt is None:
            continue
        tag = f't0={t0} dt={dt} max_steps={ms} max_time={mt}'
        fr = lambda x: Fraction(str(x))
        if ms is not None:
            n = ms
        else:
            n = math.ceil((fr(mt) - fr(t0)) / fr(dt))
        h = fr(dt) if dt is not None else (fr(mt) - fr(t0)) / ms
        end = fr(t0) + n * h
        r.n += 1
        try:
            si = SimpleIterator(t0=t0, dt=dt, max_steps=ms, max_time=mt, monitor_factor=0)
        except AssertionError as e:
            r.bad.append(('config', f'{tag}: refused {e}'))
            continue
        if si.max_steps != n or abs(si.dt - float(h)) > 1e-12 or abs(si.max_time - float(end)) > 1e-10:
            r.bad.append(('config', f'{tag}: {si.max_steps} steps of {si.dt} until {si.max_time}, expected {n} of {float(h)} until {float(end)}'))
            continue
        if n <= 12:
            G.t0, G.dt, G.calls, G.plan, G.tick, G.path = t0, si.dt, [], {}, 0., None
            si(solver, list(INIT))
            si.run()
            want = [(t0 + k * float(h), t0 + (k + 1) * float(h)) for k in range(n)]
            if len(G.calls) != n or any(abs(a - c) + abs(b - d) > 1e-10 for (a, b), (c, d) in zip(G.calls, want)):
                r.bad.append(('times', f'{tag}: solver called at {G.calls}, expected {want}'))
            if abs(si.t - float(end)) > 1e-10:
                r.bad.append(('times', f'{tag}: ended at {si.t}'))
        if len(r.bad) > 20:
            break
    return r.out()


def faults(cfg):
    """the k-th attempts to open the result file (or anything in its directory) for writing fail: the run itself is not affected"""
    import builtins
    from root.config.main import RANK, COMM
    patch()
    t0, dt, N, freq, factor, tick, lens = cfg
    G.t0, G.dt = t0, dt
    full = table(t0, dt, N)
    r = Rec()
    real = builtins.open
    with Scratch() as d:
        for k in range(12):
            for ln in lens:
                if RANK == 0:
                    restore(d, {})
                COMM.barrier()
                cnt = [0]

                def op(f, mode='r', *a, **kw):
                    if isinstance(f, str) and set(mode) & set('wax+') and os.path.abspath(f).startswith(d):
                        cnt[0] += 1
                        if k < cnt[0] <= k + ln:
                            raise PermissionError(13, 'refused', f)
                    return real(f, mode, *a, **kw)
                builtins.open = op
                try:
                    si = segment(N, {}, 'res', freq, factor, tick, N)
                finally:
                    builtins.open = real
                tag = f'auto_save_frequency={freq} tick={tick}: writes {k + 1}..{k + ln} refused'
                check_calls(r, range(1, N + 1), tag, full)
                files = sorted(os.listdir(d)) if RANK == 0 else []
                done = [f for f in files if f == 'res.csv' or '__completion_save__' in f and f.endswith('.csv')]
                good = False
                for f in done:
                    x = parse(real(os.path.join(d, f), 'rb').read())
                    good = good or x is not None and sorted(x) == list(range(N + 1))
                if RANK == 0 and not good and ln < 3:
                    r.bad.append(('lost', f'{tag}: no complete result file afterwards: {files}'))
                check_table(r, si, None, full, tag, RANK)
    return r.out()


def one_run(t0, dt, N, freq, tick):
    """a plain run in the current directory (target of the real kills)"""
    patch()
    G.t0, G.dt = t0, dt
    segment(N, {}, 'res', freq, 0, tick, N)


def killed(t0, dt, N, freq, tick, found):
    """states left by really killed processes: among the enumerated ones, and restart works"""
    patch()
    G.t0, G.dt = t0, dt
    full = table(t0, dt, N)
    r = Rec()
    with Scratch() as d:
        rec = Recorder(d)
        with rec:
            segment(N, {}, 'res', freq, 0, tick, N, rec=rec)
        known = [s for _, s in rec.states()]
        for k, s, end in found:
            r.n += 1
            if s not in known:
                r.bad.append(('conformance', f'killed at event {k}: state {s} is not among the {len(known)} enumerated ones'))
            restore(d, s)
            have = parse(s.get('res.csv'))
            si = segment(N, {}, 'res', freq, 0, tick, N)
            tag = f'process killed at file-system event {k}, files {s}'
            if have is None:
                r.bad.append(('torn', tag))
                continue
            check_calls(r, [i for i in range(1, N + 1) if i not in have], tag, full)
            check_table(r, si, 'res', full, tag, 0)
    return r.out(real_kills=len(found))
