"""meshes for the analytic checks: name -> (spec, relative tolerance of smooth-quadrature comparisons)"""
from mc.scen.common import MESHES
SPECS = {
    'box3': ((3, 'crazy', dict(c=0., bounds=((0, 2), (1, 2), (-1, 1))), [2, [1, 2], 1]), 1e-9),
    'crazy3': ((3, 'crazy', dict(c=0.1), [2, 1, 2]), 1e-8),
    'per3': ((3, 'crazy_periodic', dict(c=0.), [[1, 2], 2, 2]), 1e-9),
    'cub3': ((3, 'cuboid', dict(region_layout=(2, 1, 2), width=2, length=1.5), [[1, 2], 1, 1]), 1e-9),
    'ldc3': ((3, 'LDC', dict(L=2, w=1.5, h=1), [1, 2, 1]), 1e-8),
    'psc3': ((3, 'psc', {}, [2, 2, 2]), 1e-7),
    'pwc3': ((3, 'pwc', {}, [2, 2, 2]), 1e-7),
    'ct3': ((3, 'ct', {}, [1, 2, 2]), 1e-6),
    'arch3': ((3, 'bridge_arch_cracked', {}, [1, 1, 2]), 1e-6),
    'box2': ((2, 'crazy', dict(c=0., bounds=((0, 2), (-1, 0.5))), [[1, 2], 3]), 1e-9),
    'crazy2': ((2, 'crazy', dict(c=0.15), [3, 2]), 1e-8),
    'per2': ((2, 'crazy_periodic', dict(c=0.), [3, [2, 1]]), 1e-9),
    'rect2': ((2, 'rectangle', dict(region_layout=(2, 2), width=2, length=1.5), [1, [1, 2]]), 1e-9),
    'chp1': ((2, 'chp1', {}, [2, 1]), 1e-7),
    'chp2': ((2, 'chp2', {}, [1, 2]), 1e-7),
    'cic': ((2, 'cic', {}, [1, 1]), 1e-7),
    'quad2': ((2, 'quadrangle', dict(p_UL=(0, 0), p_DL=(1, 0.2), p_UR=(0.3, 1.1), p_DR=(2, 1.5)), [2, 2]), 1e-9),
    'par2': ((2, 'quadrangle', dict(p_UL=(0, 0), p_DL=(1, 0.2), p_UR=(0.3, 1.1), p_DR=(1.3, 1.3)), [2, [1, 2]]), 1e-9),
}
