"""usage: mkdemo.py ID NRANKS < python source      writes demo.sh and demo.py"""
import sys, os
ID, n = sys.argv[1], int(sys.argv[2])
D = f'/verif/seeded/{ID}'
run = '/opt/venv/bin/python "$D/demo.py"' if n == 1 else f'mpiexec -n {n} /opt/venv/bin/python "$D/demo.py"'
open(D + '/demo.sh', 'w').write(f'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_oob_tcp_if_include=lo OMPI_MCA_plm=isolated
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_orte_tmpdir_base=/tmp
export PYTHONPATH=/repo
cd /repo
exec timeout 250 {run}
''')
open(D + '/demo.py', 'w').write(sys.stdin.read())
