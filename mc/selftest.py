"""setup: nothing to build; checks that the virtual MPI works here"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import engine  # noqa: E402

f = engine.Farm([1, 2, 3], light=True)
try:
    for n in (1, 2, 3):
        x = engine.run(f, n, 'mc.scen.hello', 'main', (1,))
        assert x.outcome == 'ok', x.detail
        y = engine.run(f, n, 'mc.scen.hello', 'main', (1,))
        assert y.results == x.results, 'executions must be repeatable'
finally:
    f.close()
print('ok')
