"""Pre-imported rank processes.

base(rank): one interpreter per rank (own PYTHONHASHSEED: real MPI ranks do not share one), third-party
packages imported once.  For each world size it forks a zygote with VMPI_RANK/VMPI_SIZE set, which imports
the library from /repo's working tree and then forks one child per execution.
"""
import ctypes
import importlib
import os
import pickle
import signal
import sys
import traceback
from multiprocessing.connection import Listener

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('MC_REPO', '/repo')


def _pdeath():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


LIGHT = len(sys.argv) > 4 and sys.argv[4] == 'light'


def preload():
    if LIGHT:
        import numpy  # noqa
        return
    import numpy, scipy.sparse.linalg, scipy.special, scipy.interpolate, scipy.integrate, scipy.optimize  # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot, pandas, tqdm, psutil  # noqa


def warm():
    """import every module of the library that is not a script, a plot or legacy, so that forks are cheap"""
    skip = ('legacy', 'notes', 'visualize', 'video', 'tests', '__pycache__', 'samples', 'mpi4py', 'unittests',
            '__tests__', 'PETScLinearAlgebra')
    for top in ('objects', 'tools', 'components', 'root'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x not in skip)
            for f in sorted(fs):
                if f.endswith('.py') and f not in ('visualize.py', '__init__.py'):
                    m = os.path.relpath(os.path.join(d, f), REPO)[:-3].replace('/', '.')
                    try:
                        importlib.import_module(m)
                    except BaseException:
                        pass


LIB = ('root.config.main', 'root.save', 'root.read.main', 'objects.CSCG._2d.master', 'objects.CSCG._3d.master')


def serve(path, sizes_rank):
    rank, size = sizes_rank
    os.environ['VMPI_RANK'] = str(rank)
    os.environ['VMPI_SIZE'] = str(size)
    err = None
    try:
        for m in (LIB[:1] if LIGHT else LIB):
            importlib.import_module(m)
        if not LIGHT:
            warm()
    except BaseException:
        err = traceback.format_exc()
    lst = Listener(path + '.tmp', family='AF_UNIX', backlog=64)
    os.rename(path + '.tmp', path)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        conn = lst.accept()
        if os.fork() == 0:
            try:
                _pdeath()
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                lst._listener._socket.close()
                child(conn, rank, size, err)
            except BaseException:
                try:
                    conn.send_bytes(pickle.dumps(('exc', traceback.format_exc(), b'')))
                except BaseException:
                    pass
            finally:
                os._exit(0)
        conn.close()


def child(conn, rank, size, err):
    job = pickle.loads(conn.recv_bytes())
    if err is not None:
        conn.send_bytes(pickle.dumps(('exc', 'import of the library failed\n' + err, b'')))
        return
    os.chdir(job['cwd'])
    fd = os.open(job.get('log') or '/dev/null', os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    from mpi4py import MPI
    MPI.COMM_WORLD._conn = conn
    import random
    import numpy as np
    random.seed(job.get('seed', 1) * 101 + rank)
    np.random.seed(job.get('seed', 1) * 101 + rank)
    try:
        mod = importlib.import_module(job['module'])
        res = getattr(mod, job['func'])(*job['args'])
        sys.stdout.flush()
        out = ('done', MPI.COMM_WORLD.nops, pickle.dumps(res))
    except SystemExit:
        out = ('exc', 'SystemExit\n' + traceback.format_exc(), b'')
    except BaseException:
        out = ('exc', traceback.format_exc(), b'')
    MPI.COMM_WORLD._conn = None
    conn.send_bytes(pickle.dumps(out))
    try:
        conn.recv_bytes()
    except BaseException:
        pass


def base(rank, sizes, sockdir):
    _pdeath()
    sys.dont_write_bytecode = True
    sys.path[0:0] = [os.path.join(HERE, 'fake'), REPO]
    sys.path.append(VERIF)
    devnull = os.open('/dev/null', os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    preload()
    pids = []
    for size in sizes:
        pid = os.fork()
        if pid == 0:
            _pdeath()
            serve(os.path.join(sockdir, f'r{rank}_s{size}'), (rank, size))
            os._exit(0)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)


if __name__ == '__main__':
    base(int(sys.argv[1]), [int(x) for x in sys.argv[2].split(',')], sys.argv[3])
