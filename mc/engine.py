"""Controller of virtual-MPI executions: owns the schedule, detects deadlock / mismatch, replays choices.

Partial-order reduction: ranks share no memory, so the only observable nondeterminism is (i) which sender a
wildcard receive matches, (ii) whether a send buffers or rendezvouses, (iii) the order of operations on the
shared file system.  Deterministic transitions commute and are fired eagerly in canonical order; wildcard
matches are postponed until nothing deterministic is enabled (POE), so that every sender that can match is a
branch.  Collectives are modelled as fully synchronising and, in 'sync' mode, sends as zero-buffer rendezvous:
for wildcard-free programs the absence of deadlock there implies it for every buffering.
"""
import atexit
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from multiprocessing.connection import Client, wait

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = os.environ.get('MC_PYTHON', '/opt/venv/bin/python')

ENV = dict(LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
           QT_QPA_PLATFORM='offscreen', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
           PYTHONWARNINGS='ignore')


class Farm:
    """all zygotes of one checker process"""

    def __init__(self, max_size=3, seed=1, light=False):
        self.dir = tempfile.mkdtemp(prefix='mcfarm-', dir='/tmp')
        want = list(range(1, max_size + 1)) if isinstance(max_size, int) else sorted(max_size)
        max_size = max(want)
        self.max_size = max_size
        self.owner = os.getpid()
        env = dict(os.environ)
        env.update(ENV)
        env.pop('PYTHONPATH', None)
        self.procs = []
        for r in range(max_size):
            e = dict(env)
            e['PYTHONHASHSEED'] = str((r * 7919 + 17 * seed) % 4294967295)
            sizes = ','.join(str(s) for s in want if s > r)
            self.procs.append(subprocess.Popen([PY, os.path.join(HERE, 'zygote.py'), str(r), sizes, self.dir]
                                               + (['light'] if light else []), env=e))
        atexit.register(self.close)
        t0 = time.time()
        for r in range(max_size):
            for s in [w for w in want if w > r]:
                while not os.path.exists(self.sock(r, s)):
                    if self.procs[r].poll() is not None:
                        raise RuntimeError(f'zygote base of rank {r} died')
                    if time.time() - t0 > 300:
                        raise RuntimeError('zygotes did not start')
                    time.sleep(0.02)

    def sock(self, r, s):
        return os.path.join(self.dir, f'r{r}_s{s}')

    def close(self):
        if os.getpid() != self.owner:
            return
        for p in self.procs:
            try:
                p.kill()
                p.wait()
            except Exception:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)


class Exec:
    """one complete execution"""
    def __init__(self):
        self.outcome = None     # 'ok' | 'exception' | 'deadlock' | 'mismatch' | 'timeout' | 'orphan'
        self.detail = ''
        self.results = None     # per rank
        self.points = []        # [(number of alternatives, chosen, label)]
        self.transitions = 0
        self.trace = []         # fired transitions (op labels)
        self.marks = []

    @property
    def choices(self):
        return [c for _, c, _ in self.points]


class Divergence(RuntimeError):
    pass


def run(farm, size, module, func, args=(), choices=(), mode='sync', timeout=300., cwd=None, seed=1,
        trace=False, log=None):
    """Run one execution; `choices` is a prefix of decisions, after which decision 0 is taken."""
    x = Exec()
    own = cwd is None
    if own:
        cwd = tempfile.mkdtemp(prefix='x', dir=farm.dir)
    conns = []
    try:
        job = pickle.dumps(dict(module=module, func=func, args=args, cwd=cwd, seed=seed, log=log))
        for r in range(size):
            c = Client(farm.sock(r, size), family='AF_UNIX')
            conns.append(c)
        for c in conns:
            c.send_bytes(job)
        _loop(x, conns, size, list(choices), mode, timeout, trace)
    finally:
        for c in conns:
            try:
                c.close()
            except Exception:
                pass
        if own:
            shutil.rmtree(cwd, ignore_errors=True)
    if x.outcome != 'exception' and x.outcome != 'timeout' and len(choices) > len(x.points):
        raise Divergence(f'replay has {len(choices)} choices, execution only met {len(x.points)}')
    return x


def _match(req, msg_src, msg_tag):
    return req[0] in (-2, msg_src) and req[1] in (-1, msg_tag)


def _loop(x, conns, size, prefix, mode, timeout, trace):
    RUN, BLK, DONE = 0, 1, 2
    st = [RUN] * size
    op = [None] * size
    res = [None] * size
    buf = []                # buffered (eager) messages in issue order: (src, dst, tag, kind, payload)
    idx = {c: r for r, c in enumerate(conns)}
    failed = None

    def reply(r, out):
        st[r] = RUN
        op[r] = None
        conns[r].send_bytes(pickle.dumps(('ok', out)))

    def choose(n, label):
        i = len(x.points)
        if n == 1:
            return 0
        c = prefix[i] if i < len(prefix) else 0
        if c >= n:
            raise Divergence(f'choice {c} of {n} at point {i} ({label})')
        x.points.append((n, c, label))
        return c

    def fire(label):
        x.transitions += 1
        if trace:
            x.trace.append(label)

    while True:
        # ---- let every running rank reach its next operation
        while any(s == RUN for s in st):
            ready = wait([conns[r] for r in range(size) if st[r] == RUN], timeout)
            if not ready:
                x.outcome, x.detail = 'timeout', f'ranks {[r for r in range(size) if st[r] == RUN]} did not reach ' \
                                                 f'a communication or the end within {timeout} s'
                return
            for c in ready:
                r = idx[c]
                try:
                    o, meta, payload = pickle.loads(c.recv_bytes())
                except (EOFError, ConnectionResetError):
                    x.outcome, x.detail = 'exception', f'rank {r}: process died'
                    return
                if o == 'done':
                    st[r] = DONE
                    res[r] = pickle.loads(payload)
                elif o == 'exc':
                    st[r] = DONE
                    if failed is None or r < failed[0]:
                        failed = (r, meta)
                elif o == 'mark':
                    x.marks.append((r, meta))
                elif o == 'isend' or (o == 'send' and mode == 'eager' and not meta[3]):
                    buf.append((r, meta[0], meta[1], meta[2], payload))
                    fire(('send', r, meta[0], meta[1]))
                    reply(r, None)
                else:
                    st[r] = BLK
                    op[r] = (o, meta, payload)
        if failed is not None:
            x.outcome, x.detail = 'exception', f'rank {failed[0]} of {size}: {failed[1]}'
            return
        if all(s == DONE for s in st):
            x.results = res
            if buf:
                x.outcome = 'orphan'
                x.detail = f'messages sent but never received: {[(b[0], b[1], b[2]) for b in buf]}'
            else:
                x.outcome = 'ok'
            return

        # ---- deterministic point-to-point matches
        progressed = False
        for r in range(size):
            if st[r] == BLK and op[r][0] == 'recv' and op[r][1][0] != -2:
                req = op[r][1]
                m = next((b for b in buf if b[1] == r and _match(req, b[0], b[2])), None)
                if m is not None:
                    buf.remove(m)
                    if m[3] != req[2]:
                        x.outcome, x.detail = 'mismatch', f'rank {r} receives a {m[3]} message with a {req[2]} receive'
                        return
                    fire(('recv', m[0], r, m[2]))
                    reply(r, (m[0], m[2], m[4]))
                    progressed = True
                    continue
                s = req[0]
                if st[s] == BLK and op[s][0] == 'send' and op[s][1][0] == r and _match(req, s, op[s][1][1]):
                    sm, pay = op[s][1], op[s][2]
                    if sm[2] != req[2]:
                        x.outcome, x.detail = 'mismatch', f'rank {r} receives a {sm[2]} message with a {req[2]} receive'
                        return
                    fire(('xfer', s, r, sm[1]))
                    reply(r, (s, sm[1], pay))
                    reply(s, None)
                    progressed = True
        if progressed:
            continue
        # ---- collectives
        if all(s == BLK for s in st) and all(o[0] == 'coll' for o in op):
            heads = {(o[1][0], o[1][1]) for o in op}
            extras = {o[1][2] for o in op}
            if len(heads) > 1 or len(extras) > 1:
                x.outcome = 'mismatch'
                x.detail = 'collective mismatch: ' + ', '.join(f'rank {r}: {o[1]}' for r, o in enumerate(op))
                return
            pay = [o[2] for o in op]
            fire(('coll',) + op[0][1][:2])
            for r in range(size):
                reply(r, pay)
            continue
        # ---- real choices: wildcard receives, scheduling points
        alts = []
        for r in range(size):
            if st[r] != BLK:
                continue
            o, meta, _ = op[r]
            if o == 'recv' and meta[0] == -2:
                for s in range(size):
                    m = next((b for b in buf if b[0] == s and b[1] == r and _match(meta, s, b[2])), None)
                    if m is not None:
                        alts.append(('wild-buf', s, r, m))
                    elif st[s] == BLK and op[s][0] == 'send' and op[s][1][0] == r and _match(meta, s, op[s][1][1]):
                        alts.append(('wild-sync', s, r, None))
            elif o == 'point':
                alts.append(('point', r, r, meta))
        if not alts:
            x.outcome = 'deadlock'
            x.detail = 'no rank can proceed: ' + ', '.join(
                f'rank {r}: {"finished" if st[r] == DONE else op[r][:1] + tuple(op[r][1])}' for r in range(size))
            return
        a = alts[choose(len(alts), tuple((t[0], t[1], t[2]) for t in alts))]
        fire(a[:3])
        if a[0] == 'point':
            reply(a[1], None)
        elif a[0] == 'wild-buf':
            m = a[3]
            buf.remove(m)
            reply(a[2], (m[0], m[2], m[4]))
        else:
            s, r = a[1], a[2]
            tag, pay = op[s][1][1], op[s][2]
            reply(r, (s, tag, pay))
            reply(s, None)


def explore(farm, size, module, func, args=(), mode='sync', bound=None, check=None, limit=100000, **kw):
    """depth-first enumeration of every choice sequence (deviation bound optional). yields Exec objects"""
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        x = run(farm, size, module, func, args, choices=prefix, mode=mode, **kw)
        n += 1
        yield x
        if n >= limit:
            raise RuntimeError('exploration limit reached')
        ch = x.choices
        for i in range(len(prefix), len(x.points)):
            dev = sum(1 for c in ch[:i] if c)
            if bound is not None and dev + 1 > bound:
                break
            for alt in range(1, x.points[i][0]):
                stack.append(tuple(ch[:i]) + (alt,))


def real_mpi(size, module, func, args=(), timeout=120):
    """run the same scenario under the real mpi4py/OpenMPI; None when mpiexec is not usable here"""
    d = tempfile.mkdtemp(prefix='mcreal-', dir='/tmp')
    try:
        with open(os.path.join(d, 'job'), 'wb') as fh:
            pickle.dump((module, func, args), fh)
        env = dict(os.environ)
        env.update(ENV)
        env.update(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
                   OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none',
                   OMPI_MCA_btl='self,vader', OMPI_MCA_pml='ob1', OMPI_MCA_oob_tcp_if_include='lo',
                   OMPI_MCA_plm='isolated', OMPI_MCA_mpi_yield_when_idle='1',
                   OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_orte_tmpdir_base='/tmp',
                   PYTHONPATH=os.environ.get('MC_REPO', '/repo') + ':' + VERIF)
        try:
            subprocess.run(['mpiexec', '--oversubscribe', '-np', str(size), PY, os.path.join(HERE, 'realrun.py'), d],
                           env=env, cwd=d, timeout=timeout, stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except Exception:
            return None
        p = os.path.join(d, 'out')
        if not os.path.exists(p):
            return None
        with open(p, 'rb') as fh:
            return pickle.load(fh)
    finally:
        shutil.rmtree(d, ignore_errors=True)
