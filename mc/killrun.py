"""real process killed at the k-th file-system event (conformance of the crash states): killrun.py module function args.json dir k"""
import importlib
import json
import os
import sys


def main():
    mod, func, args, d, k = sys.argv[1:6]
    k = int(k)
    os.chdir(d)
    n = [0]
    fn = getattr(importlib.import_module(mod), func)
    kw = json.loads(args)

    def hook(event, a):
        if event == 'open':
            if not (isinstance(a[2], int) and a[2] & (os.O_WRONLY | os.O_RDWR | os.O_TRUNC | os.O_CREAT)):
                return
            p = a[0]
        elif event in ('os.rename', 'os.remove', 'os.truncate', 'os.link', 'os.symlink'):
            p = a[0]
        else:
            return
        if not isinstance(p, str) or not os.path.abspath(p).startswith(d + '/'):
            return
        n[0] += 1
        if n[0] == k:
            os._exit(9)
    sys.addaudithook(hook)
    fn(*kw)
    os._exit(0)


def batch(mod, func, args, ks):
    """[(k, {file: bytes}, finished)]"""
    import shutil
    import subprocess
    import tempfile
    from concurrent.futures import ThreadPoolExecutor
    from mc.engine import ENV, PY, VERIF
    env = dict(os.environ)
    env.update(ENV)
    env.update(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', PYTHONPATH=os.environ.get('MC_REPO', '/repo') + ':' + VERIF)

    def one(k):
        d = tempfile.mkdtemp(prefix='mckill-')
        try:
            try:
                p = subprocess.run([PY, os.path.abspath(__file__), mod, func, json.dumps(args), d, str(k)], env=env, cwd=d, timeout=120,
                                   stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                return None
            if p.returncode not in (0, 9):
                return None
            s = {}
            for f in sorted(os.listdir(d)):
                if os.path.isfile(os.path.join(d, f)):
                    with open(os.path.join(d, f), 'rb') as fh:
                        s[f] = fh.read()
            return k, s, p.returncode == 0
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(8) as ex:
        return [x for x in ex.map(one, ks) if x]


if __name__ == '__main__':
    main()
