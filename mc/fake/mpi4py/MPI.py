import os
import pickle
import time
import numpy as _np

_P = pickle.HIGHEST_PROTOCOL

ANY_SOURCE = -2
ANY_TAG = -1
PROC_NULL = -3
UNDEFINED = -32766
ROOT = -4
ERR_TRUNCATE = 15
THREAD_MULTIPLE = 3
SUCCESS = 0


class _InPlace:
    def __repr__(self):
        return 'IN_PLACE'


IN_PLACE = _InPlace()
BOTTOM = None


class Exception(RuntimeError):
    def __init__(self, code=0, msg=''):
        super().__init__(code, msg)
        self.ob_mpi = code

    def Get_error_code(self):
        return self.args[0]


class Datatype:
    def __init__(self, name, dt):
        self.name = name
        self.dtype = _np.dtype(dt) if dt is not None else None

    def Get_size(self):
        return self.dtype.itemsize

    def Get_name(self):
        return 'MPI_' + self.name

    def __reduce__(self):
        return (_dt_by_name, (self.name,))


_DTS = {}
for _n, _d in (('FLOAT', 'f4'), ('DOUBLE', 'f8'), ('INT', 'i4'), ('LONG', 'i8'), ('LONG_LONG', 'i8'),
               ('INT64_T', 'i8'), ('INT32_T', 'i4'), ('UNSIGNED', 'u4'), ('UNSIGNED_LONG', 'u8'),
               ('BOOL', '?'), ('C_BOOL', '?'), ('CHAR', 'S1'), ('BYTE', 'u1'), ('SHORT', 'i2'),
               ('COMPLEX', 'c8'), ('DOUBLE_COMPLEX', 'c16'), ('C_DOUBLE_COMPLEX', 'c16')):
    _DTS[_n] = Datatype(_n, _d)
    globals()[_n] = _DTS[_n]


def _dt_by_name(n):
    return _DTS[n]


class Op:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __call__(self, a, b):
        return self.fn(a, b)

    @classmethod
    def Create(cls, function, commute=False):
        return cls('USER', lambda a, b: function(a, b, None))


def _bin(f):
    return f


SUM = Op('SUM', lambda x, y: x + y)
PROD = Op('PROD', lambda x, y: x * y)
MAX = Op('MAX', lambda x, y: y if y > x else x)
MIN = Op('MIN', lambda x, y: y if y < x else x)
LAND = Op('LAND', lambda x, y: bool(x) & bool(y))
LOR = Op('LOR', lambda x, y: bool(x) | bool(y))
LXOR = Op('LXOR', lambda x, y: bool(x) ^ bool(y))
BAND = Op('BAND', lambda x, y: x & y)
BOR = Op('BOR', lambda x, y: x | y)
BXOR = Op('BXOR', lambda x, y: x ^ y)
MAXLOC = Op('MAXLOC', lambda x, y: y if y[0] > x[0] else x)
MINLOC = Op('MINLOC', lambda x, y: y if y[0] < x[0] else x)

_NPOPS = {'SUM': _np.add, 'PROD': _np.multiply, 'MAX': _np.maximum, 'MIN': _np.minimum,
          'LAND': _np.logical_and, 'LOR': _np.logical_or, 'BAND': _np.bitwise_and, 'BOR': _np.bitwise_or}


class Status:
    def __init__(self):
        self.source = ANY_SOURCE
        self.tag = ANY_TAG
        self.count = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_count(self, dt=None):
        return self.count


class Request:
    """a deferred blocking operation (completed at wait/test)"""
    def __init__(self, fn=None):
        self._fn = fn
        self._done = fn is None
        self._res = None

    def wait(self, status=None):
        if not self._done:
            self._res = self._fn()
            self._done = True
        return self._res

    Wait = wait

    def test(self, status=None):
        return True, self.wait()

    @classmethod
    def waitall(cls, reqs, statuses=None):
        return [r.wait() for r in reqs]

    Waitall = waitall


def _spec(buf, writing=False):
    """(array-view flattened, numpy dtype) of an mpi4py buffer specification"""
    dt = None
    count = None
    arr = buf
    if isinstance(buf, (list, tuple)):
        arr = buf[0]
        for x in buf[1:]:
            if isinstance(x, Datatype):
                dt = x
            elif isinstance(x, str):
                dt = _DTS.get({'d': 'DOUBLE', 'f': 'FLOAT', 'i': 'INT', 'l': 'LONG'}.get(x, x))
            elif isinstance(x, int):
                count = x
            elif isinstance(x, (list, tuple)) and x and isinstance(x[0], int):
                count = x[0]
    a = _np.asarray(arr)
    if not (a.flags['C_CONTIGUOUS'] or a.flags['F_CONTIGUOUS']):
        raise ValueError('ndarray is not contiguous')
    flat = a.reshape(-1, order='A') if a.ndim != 1 else a
    if dt is None:
        dtype = flat.dtype
        v = flat
    else:
        dtype = dt.dtype
        v = flat.view('u1')
        if v.nbytes % dtype.itemsize:
            raise ValueError('message: buffer size is not a multiple of the datatype size')
        v = v.view(dtype)
    if count is not None:
        v = v[:count]
    return v, dtype


class Comm:
    def __init__(self):
        self._conn = None
        self._rank = int(os.environ.get('VMPI_RANK', '0'))
        self._size = int(os.environ.get('VMPI_SIZE', '1'))
        self.nops = 0

    # ---- transport ---------------------------------------------------------------------
    def _ctl(self, op, meta=(), payload=b''):
        self.nops += 1
        if self._conn is None:
            raise RuntimeError('virtual MPI: communication outside a controlled execution')
        self._conn.send_bytes(pickle.dumps((op, meta, payload), _P))
        st, out = pickle.loads(self._conn.recv_bytes())
        if st == 'ok':
            return out
        os._exit(3)     # the controller abandoned this execution

    @property
    def rank(self):
        return self._rank

    @property
    def size(self):
        return self._size

    name = 'MPI_COMM_WORLD'

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._size

    def Get_name(self):
        return self.name

    def Abort(self, errorcode=1):
        raise RuntimeError(f'MPI_Abort({errorcode})')

    def _coll(self, name, root, payload, extra=None):
        if self._size == 1:
            self.nops += 1
            return [payload]
        return self._ctl('coll', (name, root, extra), payload)

    def _chk(self, root):
        if not (isinstance(root, (int, _np.integer)) and 0 <= root < self._size):
            raise Exception(8, 'MPI_ERR_ROOT: invalid root')
        return int(root)

    # ---- object collectives ----------------------------------------------------------------
    def barrier(self):
        self._coll('barrier', None, b'')

    Barrier = barrier

    def bcast(self, obj, root=0):
        root = self._chk(root)
        p = pickle.dumps(obj, _P) if self._rank == root else b''
        out = self._coll('bcast', root, p)
        r = out[0] if len(out) == 1 else out[root]
        return obj if self._rank == root and BCAST_ALIAS else pickle.loads(r)

    def gather(self, sendobj, root=0):
        root = self._chk(root)
        out = self._coll('gather', root, pickle.dumps(sendobj, _P))
        if self._rank != root:
            return None
        return [pickle.loads(x) for x in out]

    def allgather(self, sendobj):
        out = self._coll('allgather', None, pickle.dumps(sendobj, _P))
        return [pickle.loads(x) for x in out]

    def scatter(self, sendobj, root=0):
        root = self._chk(root)
        if self._rank == root:
            objs = list(sendobj)
            if len(objs) != self._size:
                raise ValueError(f'expecting {self._size} items, got {len(objs)}')
            p = pickle.dumps([pickle.dumps(o, _P) for o in objs], _P)
        else:
            p = b''
        out = self._coll('scatter', root, p)
        r = out[0] if len(out) == 1 else out[root]
        return pickle.loads(pickle.loads(r)[self._rank])

    def alltoall(self, sendobj):
        objs = list(sendobj)
        if len(objs) != self._size:
            raise ValueError(f'expecting {self._size} items, got {len(objs)}')
        out = self._coll('alltoall', None, pickle.dumps([pickle.dumps(o, _P) for o in objs], _P))
        return [pickle.loads(pickle.loads(x)[self._rank]) for x in out]

    def _red(self, out, op):
        vals = [pickle.loads(x) for x in out]
        acc = vals[0]
        for v in vals[1:]:
            acc = op(acc, v)
        return acc

    def reduce(self, sendobj, op=SUM, root=0):
        root = self._chk(root)
        out = self._coll('reduce', root, pickle.dumps(sendobj, _P), op.name)
        if self._rank != root:
            return None
        return self._red(out, op)

    def allreduce(self, sendobj, op=SUM):
        out = self._coll('allreduce', None, pickle.dumps(sendobj, _P), op.name)
        return self._red(out, op)

    def scan(self, sendobj, op=SUM):
        out = self._coll('scan', None, pickle.dumps(sendobj, _P), op.name)
        return self._red(out[:self._rank + 1], op)

    # ---- buffer collectives ----------------------------------------------------------------
    def Bcast(self, buf, root=0):
        root = self._chk(root)
        v, dt = _spec(buf)
        p = v.tobytes() if self._rank == root else b''
        out = self._coll('Bcast', root, p, (v.nbytes,))
        if self._rank != root:
            d = out[root]
            if len(d) > v.nbytes:
                raise Exception(ERR_TRUNCATE, 'MPI_ERR_TRUNCATE: message truncated')
            v[:len(d) // dt.itemsize] = _np.frombuffer(d, dtype=dt)

    def _bufred(self, out, dt, op):
        arrs = [_np.frombuffer(x, dtype=dt) for x in out]
        n = {a.size for a in arrs}
        if len(n) != 1:
            raise Exception(ERR_TRUNCATE, f'MPI_ERR_TRUNCATE: unequal reduce counts {sorted(n)}')
        acc = arrs[0].copy()
        for a in arrs[1:]:
            acc = _NPOPS[op.name](acc, a).astype(dt)
        return acc

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        root = self._chk(root)
        v, dt = _spec(recvbuf if sendbuf is IN_PLACE else sendbuf)
        out = self._coll('Reduce', root, v.tobytes(), op.name)
        if self._rank == root:
            w, wdt = _spec(recvbuf)
            r = self._bufred(out, dt, op)
            if w.nbytes < r.nbytes:
                raise Exception(ERR_TRUNCATE, 'MPI_ERR_TRUNCATE: message truncated')
            w[:r.nbytes // wdt.itemsize] = r.view('u1').view(wdt)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        v, dt = _spec(recvbuf if sendbuf is IN_PLACE else sendbuf)
        out = self._coll('Allreduce', None, v.tobytes(), op.name)
        w, wdt = _spec(recvbuf)
        r = self._bufred(out, dt, op)
        w[:r.nbytes // wdt.itemsize] = r.view('u1').view(wdt)

    def Gather(self, sendbuf, recvbuf, root=0):
        root = self._chk(root)
        v, dt = _spec(sendbuf)
        out = self._coll('Gather', root, v.tobytes())
        if self._rank == root:
            w, wdt = _spec(recvbuf)
            d = b''.join(out)
            if len(d) > w.nbytes:
                raise Exception(ERR_TRUNCATE, 'MPI_ERR_TRUNCATE: message truncated')
            w[:len(d) // wdt.itemsize] = _np.frombuffer(d, dtype=wdt)

    def Allgather(self, sendbuf, recvbuf):
        v, dt = _spec(sendbuf)
        out = self._coll('Allgather', None, v.tobytes())
        w, wdt = _spec(recvbuf)
        d = b''.join(out)
        w[:len(d) // wdt.itemsize] = _np.frombuffer(d, dtype=wdt)

    def Scatter(self, sendbuf, recvbuf, root=0):
        root = self._chk(root)
        p = b''
        if self._rank == root:
            v, dt = _spec(sendbuf)
            p = v.tobytes()
        out = self._coll('Scatter', root, p)
        w, wdt = _spec(recvbuf)
        d = out[root] if len(out) > 1 else out[0]
        n = len(d) // self._size
        w[:] = _np.frombuffer(d[n * self._rank: n * (self._rank + 1)], dtype=wdt)

    # ---- point to point --------------------------------------------------------------------
    def _send(self, dest, tag, payload, kind, sync=False):
        if dest == PROC_NULL:
            return
        if not 0 <= dest < self._size:
            raise Exception(6, 'MPI_ERR_RANK: invalid rank')
        self._ctl('send', (int(dest), int(tag), kind, sync), payload)

    def _recv(self, source, tag, kind, status):
        if source != ANY_SOURCE and not 0 <= source < self._size:
            raise Exception(6, 'MPI_ERR_RANK: invalid rank')
        src, tg, payload = self._ctl('recv', (int(source), int(tag), kind))
        if status is not None:
            status.source, status.tag, status.count = src, tg, len(payload)
        return payload

    def send(self, obj, dest, tag=0):
        self._send(dest, tag, pickle.dumps(obj, _P), 'o')

    def ssend(self, obj, dest, tag=0):
        self._send(dest, tag, pickle.dumps(obj, _P), 'o', True)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return pickle.loads(self._recv(source, tag, 'o', status))

    def isend(self, obj, dest, tag=0):
        if not 0 <= dest < self._size:
            raise Exception(6, 'MPI_ERR_RANK: invalid rank')
        self._ctl('isend', (int(dest), int(tag), 'o', False), pickle.dumps(obj, _P))
        return Request()

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(lambda: self.recv(source=source, tag=tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self.isend(sendobj, dest, sendtag)
        return self.recv(source=source, tag=recvtag, status=status)

    def Send(self, buf, dest, tag=0):
        v, dt = _spec(buf)
        self._send(dest, tag, v.tobytes(), 'b')

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        v, dt = _spec(buf)
        d = self._recv(source, tag, 'b', status)
        if len(d) > v.nbytes:
            raise Exception(ERR_TRUNCATE, 'MPI_ERR_TRUNCATE: message truncated')
        v[:len(d) // dt.itemsize] = _np.frombuffer(d, dtype=dt)

    # ---- scheduling point for shared effects outside MPI (file system) -----------------------
    def _point(self, what):
        if self._conn is not None:
            self._ctl('point', (what,))

    def _mark(self, what):
        """report an observation (not a scheduling point)"""
        if self._conn is not None:
            self._conn.send_bytes(pickle.dumps(('mark', what, b''), _P))

    def __reduce__(self):
        return (_world, ())

    def Dup(self):
        return self

    def Free(self):
        pass


BCAST_ALIAS = False
Intracomm = Comm


def _world():
    return COMM_WORLD


COMM_WORLD = Comm()
COMM_SELF = None


def Wtime():
    return time.time()


def Get_processor_name():
    return 'virtual'


def Is_initialized():
    return True


def Is_finalized():
    return False


def Finalize():
    pass


def Init():
    pass


def Query_thread():
    return THREAD_MULTIPLE
