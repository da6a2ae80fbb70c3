"""C07: assembly + every sequence of customizations up to a depth, on every rank count/partition, vs a dense global model."""
from mc.check import Job
from mc.scen import common as cm
from mc.scen.asm import OPS

C2 = (2, 'crazy', dict(c=0.), [2, 2])
L2 = (2, 'crazy', dict(c=0.), [1, 3])
C3 = (3, 'crazy', dict(c=0.), [1, 1, 2])
CH = (2, 'chp1', {}, [1, 1])
SEQ = 'cMiuVBbXDA'
FEW = 'cmMiuvBXDA'


def check(c):
    q = c.quick
    jobs = []

    def add(name, spec, size, part, p, method, fmt, hole, depth, ops=OPS):
        firsts = [o for o in ops if o not in 'ls']
        for o in firsts if depth > 2 else [''.join(firsts)]:
            if 1:
                jobs.append(Job(f'{name}/{size}/{part}/{method}/{fmt}/{int(hole)}/{o}', size, 'mc.scen.asm:run',
                                (spec, part, p, method, fmt, hole, o, depth, ops), cost=size * len(ops) ** depth))
    for name, spec, ps in (('c2', C2, 1), ('l2', L2, (1, 2)), ('c3', C3, 1), ('chp1', CH, 1)):
        N = cm.num_elements(spec)
        for size in (1, 2, 3) if name != 'c3' else (1, 2):
            parts = [None] if size == 1 else [None] + cm.some_parts(N, size, 2 if q else 12, c.seed)[1:]
            for part in dict.fromkeys(parts):
                k = len(jobs) // 3
                for method in ('silly', 'sequent'):
                    for fmt in ('csc', 'csr'):
                        if q and (size + len(fmt) + (fmt == 'csr') + (method == 'silly') + (part is None)) % 2:
                            continue
                        if q and method == 'sequent' and (name, size) not in (('c2', 1), ('l2', 2), ('c3', 2), ('chp1', 2)):
                            continue
                        if q and method == 'silly' and size == 3 and name != 'c2' and part is None:
                            continue
                        add(name, spec, size, part, ps, method, fmt, fmt == 'csr', 2 if q else 3,
                            SEQ if q and method == 'sequent' else OPS)
    if q:
        add('deep', L2, 1, None, 1, 'silly', 'csc', False, 3, FEW)
        add('lock', L2, 1, None, 1, 'silly', 'csr', False, 5, 'SsAiX')
        add('lock', L2, 2, None, 1, 'silly', 'csc', True, 5, 'LlAuD')
        add('deep', L2, 2, None, 1, 'silly', 'csr', False, 3, 'MiuBXDA')
    else:
        for size in (1, 2):
            add('lock', L2, size, None, 1, 'silly', 'csr', False, 6, 'SsAiXD')
            add('lock', L2, size, None, 1, 'sequent', 'csc', True, 6, 'LlAuXD')
        add('deep', L2, 1, None, 1, 'silly', 'csc', False, 4)
        add('deep', L2, 2, None, 1, 'silly', 'csr', True, 4, FEW)
    c.run(jobs)
    c.assumptions += ['customizing a matrix whose values or sparsity are locked is refused by the library and left out',
                      'rows fixed by boundary conditions are compared up to their common factor in matrix and vector']
