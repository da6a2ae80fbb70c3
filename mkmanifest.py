"""writes MANIFEST.json from the property modules present in mc/props"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
T = {
    'C01': 'exhaustive enumeration of rank counts x element distributions, whole computations of the real code on a virtual MPI compared with the one-rank execution by geometric identity; real mpiexec conformance',
    'C02': 'exhaustive enumeration of element distributions, executed on a virtual MPI, vs an ownership model',
    'C04': 'exhaustive enumeration of geometries x degrees x distributions x monomial fields, real code vs topological oracle',
    'C05': 'exhaustive enumeration of geometries x degrees x basis cochains x operation orders, real code vs independent integration',
    'C19': 'exhaustive enumeration of form tuples x chain methods x element distributions and of chaining histories, real code vs explicit bijection',
    'C07': 'exhaustive enumeration of customization/assembly/lock histories to a depth x element distributions, real code vs dense global model',
    'C08': 'exhaustive enumeration of every spread of the entries over the ranks x operations and operation sequences, real code vs dense model',
    'C12': 'exhaustive enumeration of stop/restart histories and of every durable crash state (every write prefix at every file-system event) of the real iterator, simulated clock; real process kills as conformance',
    'C11': 'exhaustive enumeration of all save/read histories to a depth, of writer x reader rank counts and distributions and of every prefix of a file, real code vs snapshot model',
    'C13': 'exhaustive enumeration of ragged inputs, rerun histories and of every durable crash state of the result file of the real runner; real process kills as conformance',
    'C16': 'exhaustive enumeration of meshes x distributions x element visiting orders, real code vs closed-form geometry',
    'C18': 'exhaustive enumeration of Dirichlet boundary subsets x meshes x degrees x rank counts for the pairings and of meshes x kinds for traces and duals, real code vs dense algebra and own quadrature',
    'C06': 'exhaustive enumeration of expression trees x operand histories x element visiting orders x distributions, lazy value vs eager dense evaluation',
    'C15': 'exhaustive enumeration of boundary subsets x forms x distributions and of all operation histories to a depth vs side-wise oracle',
    'C09': 'exhaustive enumeration of small systems x right-hand sides x guesses x routines x parameters x storages on the ranks and of solver sequences, real code vs dense elimination',
    'C20': 'exhaustive enumeration of rule families x degrees x polynomials, of spaces x grids, and of all evaluation histories of the caches to a depth, real code vs independently computed rules and bases',
    'C17': 'exhaustive enumeration of all vertex orders (rotations and reflections) of small triangulations, of degrees, rank counts, boundary subsets and of all boundary-condition histories to a depth, real code vs own geometry, quadrature and dense algebra',
    'C21': 'exhaustive enumeration of known/unknown slot choices, basis cochain triples, Newton worlds, customizations, stopping histories and object lifetimes x meshes x degrees x distributions, real code vs dense trilinear integrals and a dense Newton iteration',
    'C22': 'exhaustive enumeration of all operator trees to depth 2 over fields and wrappers, of boundary subsets, trace components and norms x meshes x distributions, real code vs exact polynomial algebra',
    'C10': 'stateless model checking of all MPI wildcard matchings and bufferings (virtual MPI scheduler)',
    'C03': 'exhaustive enumeration of meshes x forms x degrees x distributions on a virtual MPI vs a topological oracle',
    'C14': 'exhaustive enumeration of meshes x distributions on a virtual MPI vs a geometric oracle',
}
N = {}
DEFAULT_T = 'bounded exhaustive enumeration of configurations/operation sequences executed on a virtual MPI vs reference model'
DEFAULT_N = ('Every behaviour inside the bounds stated in DESIGN.md is executed on the real code (forked interpreter per rank, '
             'MPI replaced by a controlled scheduler); nothing is claimed outside them. Trusted: the virtual MPI semantics '
             '(replayed on real mpiexec for C01 and C10) and the reference model.')

props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'mc', 'props', i.lower() + '.py')):
        cmd = f'/opt/venv/bin/python mc/check.py {i} --tier '
        checks.append(dict(property=i, quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough',
                           evidence_file=f'evidence/{i}.json', technique='model checking: ' + T.get(i, DEFAULT_T),
                           level='model_checking', level_note=N.get(i, DEFAULT_N)))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python mc/selftest.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo: MPI, the clock of file names, randomness and files are intercepted from outside.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
