"""scenarios on root/config (C10).  Every function returns picklable observations of its rank."""


def dispatch(tasks, repeats=1):
    """DISPATCHING `repeats` times in a row, then a collective: leftovers of one call must not leak into the next"""
    from root.config.main import DISPATCHING, RANK, COMM
    out = []
    for k in range(repeats):
        ran = []

        def method(t):
            ran.append(t)
            return ('res', k, t)
        given = [t for t in tasks] if RANK == 0 else None
        pool = DISPATCHING(given, method)
        keep = given == list(tasks) if RANK == 0 else True
        out.append((ran, pool, keep))
    s = COMM.allreduce(1)
    return out, s


def chain(repeats):
    """CHAINING: log of every rank is appended to a token that travels through the shared file system order"""
    import os
    from root.config.main import CHAINING, RANK, COMM
    out = []
    for k in range(repeats):
        def method(a, *args, b=0):
            if hasattr(COMM, '_point'):
                COMM._point('enter')
            with open(f'log{k}', 'ab') as fh:
                fh.write(bytes([RANK]))
            if hasattr(COMM, '_point'):
                COMM._point('leave')
            with open(f'log{k}', 'ab') as fh:
                fh.write(bytes([RANK]))
            return RANK, a, args, b
        r = CHAINING(method, 'a', RANK, b=RANK + k)
        out.append(r)
    COMM.barrier()
    logs = []
    for k in range(repeats):
        with open(f'log{k}', 'rb') as fh:
            logs.append(list(fh.read()))
    return out, logs


def groups():
    from root.config.main import GROUP_CORES, SIZE
    out = {}
    for m in list(range(-1, SIZE + 3)) + [1.5, 2.7]:
        out[(m, None)] = GROUP_CORES(m)
    for g in range(1, SIZE + 1):
        for m in (1, 2, SIZE):
            out[(m, g)] = GROUP_CORES(m, group_num=g)
    return out


def tree(repeats):
    """the tree plan as its users drive it: accumulate into the receiver, finally everything in the master"""
    from root.config.main import TREE, COMM, RANK
    out = []
    for k in range(repeats):
        mine = [(k, RANK)]
        for step in TREE(2):
            if step:
                if step[0] == 'send':
                    COMM.send(mine, **step[1])
                    mine = []
                else:
                    mine = mine + COMM.recv(**step[1])
        out.append(mine)
    return out


def same(vectors):
    """CHECK_SAME_IN_ALL_CORES on per-rank argument tuples; True accepted / False rejected, per vector"""
    from root.config.main import CHECK_SAME_IN_ALL_CORES, RANK, COMM
    out = []
    for v in vectors:
        try:
            CHECK_SAME_IN_ALL_CORES(*v[RANK])
            out.append(True)
        except AssertionError as e:
            out.append((False, str(e)))
    COMM.barrier()
    return out


def ranks():
    from root.config.main import RANK, SIZE, MASTER_RANK, SECRETARY_RANK, SLAVE_RANKS, WORKER_RANKS
    return RANK, SIZE, MASTER_RANK, SECRETARY_RANK, list(SLAVE_RANKS), list(WORKER_RANKS)
