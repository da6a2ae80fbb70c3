"""one rank of a scenario under real MPI: realrun.py DIR (job in DIR/job, gathered results in DIR/out)"""
import importlib
import os
import pickle
import sys

d = sys.argv[1]
with open(os.path.join(d, 'job'), 'rb') as fh:
    module, func, args = pickle.load(fh)
sys.dont_write_bytecode = True
from mpi4py import MPI  # noqa: E402
res = getattr(importlib.import_module(module), func)(*args)
res = MPI.COMM_WORLD.gather(res, root=0)
if MPI.COMM_WORLD.Get_rank() == 0:
    with open(os.path.join(d, 'out.tmp'), 'wb') as fh:
        pickle.dump(res, fh)
    os.rename(os.path.join(d, 'out.tmp'), os.path.join(d, 'out'))
