"""Virtual MPI: the subset of mpi4py used by mifem, under the control of the model checker.

Every blocking operation is one request to the controller (mc/engine.py), which owns the schedule.
With one rank and no controller every operation is answered locally.
"""
__version__ = '4.1.2-virtual'


class _RC:
    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)

    def __call__(self, **kw):
        pass


rc = _RC()


def get_config():
    return {}


def get_include():
    return ''
