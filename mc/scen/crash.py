"""record every durable state a crash of the process could leave behind in one scratch directory

States are collected at each file-system event the interpreter reports (audit hook: open for
writing, rename, remove, truncate ...), independent of which functions the code uses.  Between two
events a changed file has been written sequentially: every prefix of the new content (or of the
part appended) is a state a crash may leave.
"""
import os
import sys
import shutil
import tempfile

_act = []


def _hook(event, args):
    if _act and (event == 'open' or event.startswith('os.') or event.startswith('shutil.')):
        if event == 'open' and not (isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_TRUNC | os.O_CREAT)):
            return
        if event in ('os.listdir', 'os.scandir'):
            return
        r, _act[0] = _act[0], None
        if r is None:
            return
        try:
            r.event(event, args)
        finally:
            _act[0] = r


_installed = []


class Recorder:
    """with Recorder(dir) as r: ...; r.states = list of {file: bytes}, deduplicated, in order"""
    def __init__(self, path):
        self.path = path
        self.snaps = []

    def snap(self):
        s = {}
        for f in sorted(os.listdir(self.path)):
            p = os.path.join(self.path, f)
            if os.path.isfile(p):
                with open(p, 'rb') as fh:
                    s[f] = fh.read()
        return s

    def event(self, event, args):
        self.snaps.append((event, self.snap()))

    def __enter__(self):
        if not _installed:
            sys.addaudithook(_hook)
            _installed.append(1)
        self.snaps = [('start', self.snap())]
        _act.append(self)
        return self

    def mark(self, label):
        """an application-level moment (e.g. a solver call)"""
        if self.snaps is not None:
            self.snaps.append((label, self.snap()))

    def __exit__(self, *a):
        _act.clear()
        self.snaps.append(('end', self.snap()))
        return False

    def states(self):
        """[(label, {file: bytes})]"""
        out, seen = [], set()

        def put(lab, s):
            k = tuple(sorted(s.items()))
            if k not in seen:
                seen.add(k)
                out.append((lab, dict(s)))
        prev = self.snaps[0][1]
        put('start', prev)
        for i in range(1, len(self.snaps)):
            ev, cur = self.snaps[i]
            changed = [f for f in cur if cur[f] != prev.get(f)]
            if set(prev) <= set(cur) and len(changed) == 1:
                f = changed[0]
                old, new = prev.get(f), cur[f]
                base = len(old) if old and new.startswith(old) and len(new) > len(old) else 0
                if base == 0 and old is not None or old is None:
                    pass
                for n in range(base, len(new)):
                    s = dict(prev)
                    s[f] = new[:n]
                    put(f'{ev}: {f} torn after {n} of {len(new)} bytes', s)
            elif changed and len(changed) > 1:
                for f in changed:                           # interleaved writes of several files: each prefix of each, others new
                    for n in range(0, len(cur[f])):
                        s = dict(cur)
                        s[f] = cur[f][:n]
                        put(f'{ev}: {f} torn after {n} of {len(cur[f])} bytes', s)
            put(ev, cur)
            prev = cur
        return out


def restore(path, state):
    for f in os.listdir(path):
        p = os.path.join(path, f)
        if os.path.isfile(p):
            os.remove(p)
    for f, b in state.items():
        with open(os.path.join(path, f), 'wb') as fh:
            fh.write(b)


class Scratch:
    """a directory known to all ranks; the processes work inside it and it is removed at the end"""
    def __enter__(self):
        from root.config.main import COMM, RANK
        self.path = COMM.bcast(tempfile.mkdtemp(prefix='mifem-mc-') if RANK == 0 else None, root=0)
        self.cwd = os.getcwd()
        os.chdir(self.path)
        return self.path

    def __exit__(self, *a):
        from root.config.main import COMM, RANK
        os.chdir(self.cwd)
        if RANK == 0:
            shutil.rmtree(self.path, ignore_errors=True)
        return False
