"""writes properties.jsonl (kept as a script so that the text stays in one place)"""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, symbols=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': mechanism, 'where': files[0]}]}
    if symbols:
        a['symbols'] = symbols
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text},
                  why_tests_cant=why, anchors=a))


prop('C01', 'Results do not depend on the number of ranks or the element partition',
     'For a fixed mesh, space and input, every computed result (local cochains, operators per element, dof '
     'identification, assembled global systems, norms, solutions, boundary-dof sets) is the same, up to floating-point '
     'summation order and a renumbering of global dofs, for every number of ranks and every distribution of elements '
     'over ranks, including ranks that own no element.  No distribution makes an operation fail.',
     ['configurations', 'schedules'],
     'all rank counts 1..R and all contiguous element partitions (incl. empty ranks), all form kinds',
     'The suite runs at 1 and 2 ranks with one (balanced) distribution; 3 or more ranks, unbalanced and empty-rank '
     'distributions are never executed.',
     ['objects/CSCG/base/mesh/base.py', 'objects/CSCG/_2d', 'objects/CSCG/_3d', 'tools/elementwiseCache',
      'tools/miLinearAlgebra'],
     'element distribution, rank-local loops over own elements and gather/bcast merging of rank-local pieces')

prop('C02', 'Every element is owned by exactly one rank and all ranks agree who',
     'For every distribution method, region layout and rank count, the element sets of the ranks partition the elements '
     'of the mesh, element indices are contiguous and unique over the regions, and every ownership query (owner of an '
     'element or of a region index, slave/master lookup) gives the same, correct answer on every rank.',
     ['configurations'],
     'all distribution methods x domains x small layouts x rank counts 1..R',
     'Tests use two rank counts and mostly the default method; the branches of the distribution methods depend on '
     'rank count versus region count and sizes.',
     ['objects/CSCG/base/mesh/base.py', 'objects/CSCG/_2d/mesh/main.py', 'objects/CSCG/_3d/mesh/main.py'],
     'distribution-method selection and optimisation, global element numbering per region')

prop('C03', 'Global dof numbering identifies exactly the shared geometric degrees of freedom',
     'For every form kind the global numbers used by the elements are exactly 0..N-1 with N the reported number of '
     'global dofs; two local dofs carry the same number if and only if they are the same degree of freedom (the same '
     'mesh entity reached through shared faces or periodic sides for non-hybrid forms; never across elements for hybrid '
     'standard forms; the shared trace or edge element for trace and edge forms).  Reported boundary dofs are exactly '
     'those lying on the named boundary, and dof-to-element searches return exactly the elements holding the dof.',
     ['configurations', 'inputs'],
     'all form kinds x hybrid or not x domains (multi-region, cracked, periodic) x small layouts x degrees x rank counts',
     'Tests compare a few meshes at 1-2 ranks; the identification has to hold for each mesh topology, degree and partition.',
     ['objects/CSCG/_2d/forms', 'objects/CSCG/_3d/forms', 'tools/elementwiseCache/gathering'],
     'Naive numbering over trace/edge/node elements and rank-sequential renumbering')

prop('C04', 'The discrete exterior derivative is exact and commutes with discretization',
     'In every element and for every degree the incidence matrix applied to the cochain of a field equals the cochain of '
     'its exterior derivative (grad, curl, div; inner and outer orientation in 2D), successive incidence matrices multiply '
     'to exactly zero, and both are independent of the geometry of the mesh.',
     ['inputs', 'configurations'],
     'all polynomial basis fields of the de Rham complex x degrees x meshes (curved, non-uniform, multi-region)',
     'Tests use a few transcendental fields at fixed degrees and loose tolerances on 1-2 ranks.',
     ['objects/CSCG/_2d/forms/standard', 'objects/CSCG/_3d/forms/standard', 'objects/CSCG/_2d/spaces',
      'objects/CSCG/_3d/spaces'],
     'space incidence matrices, coboundary, discretization of forms')

prop('C05', 'Reduction, reconstruction, mass matrices and norms agree with exact integrals',
     'On affine meshes a field in the polynomial space is recovered exactly at every point by reconstructing its cochain, '
     'element mass matrices are symmetric and give exactly the L2 inner product of the reconstructed forms, and reported '
     'errors, energies and norms equal the corresponding integrals; on curved meshes the mass matrix equals the quadrature '
     'of the pulled-back basis of that very element.',
     ['inputs', 'configurations'],
     'all monomial fields of the space x all form kinds x degrees x uniform, graded, curved meshes',
     'Tests sample a few analytic fields on nearly uniform meshes; quantities shared between elements through metric keys '
     'and caches need every combination of element shapes in one mesh.',
     ['objects/CSCG/_2d/forms/standard', 'objects/CSCG/_3d/forms/standard', 'components/quadrature.py'],
     'reduction, reconstruction, element-type (metric) keyed reuse of matrices')

prop('C06', 'Element-wise lazy algebra always equals the eager element-wise result',
     'An element-wise matrix or vector built by any sequence of operations (sums, differences, scalar and matrix products, '
     'transposes, inverses, block and concatenate constructions, adjustments) yields in every element exactly what the same '
     'operations give on the operands of that element, however often and in whichever order it is evaluated, whatever is '
     'shared between elements, and operands are not changed by it.',
     ['programs', 'histories'],
     'all operation sequences up to depth D over operands of each caching class (constant, per-element, shared keys)',
     'Tests evaluate a handful of expressions; wrong reuse only shows for particular combinations of caching classes and '
     'evaluation orders.',
     ['tools/elementwiseCache/dataStructures'],
     'caching keys combined by operation helpers, cache limits, lazily called data generators')

prop('C07', 'Assembly and strong imposition act on exactly the intended global entries',
     'The assembled global matrix or vector equals the sum over all elements of the local entries placed at their global '
     'numbers, with every customization (identity rows, cleared rows or entries, set values, imposed dofs through boundary '
     'conditions) changing exactly the rows it names and nothing else; reassembling after a change reflects the change.',
     ['programs', 'histories', 'configurations'],
     'all sequences of customizations/assemblies up to depth D x partitions x rank counts',
     'Tests apply single customizations at 1-2 ranks; interactions (shared dofs across ranks, repeated assembly, cached '
     'sparsity) are untested.',
     ['tools/elementwiseCache/dataStructures/objects/sparseMatrix', 'tools/elementwiseCache/dataStructures/objects/columnVector',
      'tools/miLinearAlgebra/linearSystem'],
     'assembler with sparsity lock, customization tables, rank ownership of shared rows')

prop('C08', 'Distributed global matrices and vectors behave like their dense sums',
     'For every way of spreading the entries over the ranks (shared, exclusive, master-dominated, empty), addition, '
     'subtraction, scaling, transposition, products, inner products, gathering to a rank, splitting and conversion between '
     'the vector kinds give the result of the same operation on the summed dense matrix or vector, on every rank.',
     ['programs', 'configurations'],
     'all storage formats x distribution patterns x operation sequences up to depth D x rank counts 1..R',
     'Tests draw one random distribution per run at 1-2 ranks.',
     ['tools/miLinearAlgebra/dataStructures'],
     'row/column-major distribution flags, tree gathering, master-dominated shortcuts')

prop('C09', 'Linear and nonlinear solvers return a true solution, equal on all ranks',
     'Whatever routine, restart, preconditioner, initial guess and rank count is chosen, on a uniquely solvable system '
     'a solver that reports success (info 0) returns the same vector on every rank, that vector satisfies the system to the tolerance it reports, and the operands '
     'keep their values unless clearing was requested; direct and Schur solves agree with dense elimination.',
     ['inputs', 'configurations'],
     'all solver routines x preconditioners x small system families (incl. exact initial guess, zero right-hand side) x '
     'distributions x rank counts',
     'Tests solve two matrices at 1-2 ranks with default distributions.',
     ['tools/miLinearAlgebra/solvers', 'tools/miLinearAlgebra/preconditioners', 'tools/miLinearAlgebra/linearSystem',
      'tools/miLinearAlgebra/nonlinearSystem'],
     'parallel Krylov kernels, residual bookkeeping, reduction on master and broadcast')

prop('C10', 'Core communication utilities serve every task once under every schedule',
     'Under every interleaving of ranks and any message buffering, task dispatching runs each task exactly once and gives '
     'every rank the results of exactly the tasks it ran, in order, chaining applies the ranks in order and every rank gets its own value, core grouping '
     'partitions the ranks, same-input checking accepts exactly equal inputs, and the tree plan delivers every '
     'contribution to the master exactly once; none of them deadlocks.',
     ['schedules', 'inputs'],
     'all wildcard matchings and send bufferings x rank counts 1..R x task list lengths and orders',
     'A test sees one schedule per run at two ranks.',
     ['root/config'],
     'wildcard receives in dispatching, pairwise tree send/recv, rank chain')

prop('C11', 'Saved objects read back equal, on any rank count, in any order',
     'Saving any mesh, space, form or sequence of them and reading it, in the same or another process with any rank count, '
     'gives objects with the same parameters, numbering-independent cochains and kind, objects saved together sharing one mesh and '
     'space where they did, and never an object belonging to different parameters; sequences of saves, reads and cache '
     'hits behave like independent reads.',
     ['histories', 'configurations', 'crash_points'],
     'all histories of save/read operations up to depth D over an alphabet of objects x writer and reader rank counts',
     'Tests do one save and one read with the same rank count in one process.',
     ['root/save.py', 'root/read', 'components/freeze'],
     'parameter dictionaries, module-level caches of read meshes and spaces, cochain restore by region-wise data')

prop('C12', 'An interrupted time iteration resumes to the result of an uninterrupted one',
     'For every stop point (solver-requested shut-down, step limit, crash between any two file writes) restarting the '
     'iterator with the same result file computes only the missing steps, each exactly once and at its proper time, and '
     'ends with the same result table as a run without interruption; recorded times and steps match the configured ones.',
     ['crash_points', 'histories', 'configurations'],
     'all crash points of a short run x restart chains x iterator configurations x rank counts',
     'Tests run one iterator once, without files or interruption.',
     ['tools/iterators'],
     'result data frame saved to csv, resume by skipping recorded steps')

prop('C13', 'A matrix-input runner computes each input once and survives interruption',
     'The runner calls the solver on all ranks exactly once for each distinct input triple described by the input matrices, '
     'in the documented order, and records its outputs; with a result file, stopping after any row and rerunning (also with '
     'extended inputs) computes only what is missing and the file read back equals the recorded table.',
     ['crash_points', 'histories', 'inputs', 'schedules'],
     'all ragged input shapes up to a bound x all crash points of the result file x rerun chains x rank counts',
     'Tests run a single rectangular case per criterion.',
     ['tools/run', 'tools/legacy/serialRunners'],
     'computed-pool lookup, text result file rewriting, master/slave protocol')

prop('C14', 'Mesh connectivity matches the geometry, on every rank',
     'The element map is symmetric, two elements (or an element and a named boundary) are connected exactly where their '
     'faces coincide in space or through periodicity, trace, edge and node elements are numbered 0..N-1, shared exactly by '
     'the elements touching them and located where every one of these elements places them, and boundary ranges list '
     'exactly the faces on each boundary.',
     ['configurations'],
     'all domains x small layouts (uniform, graded) x rank counts and distributions',
     'Tests use random meshes at 1-2 ranks and check a subset of the relations.',
     ['objects/CSCG/_2d/mesh', 'objects/CSCG/_3d/mesh'],
     'region-map driven element map, periodic modification, trace/edge/node element generation with cross-rank merging')

prop('C15', 'Boundary conditions select exactly the dofs and values on the named boundaries',
     'Interpreting a boundary condition on any subset of the boundaries selects, in every element, exactly the local dofs '
     'on the element sides lying on those boundaries, with values equal to the discretization of the boundary function there, regardless of '
     'the order or repetition of settings; imposing it makes the assembled system fix exactly those dofs to these values.',
     ['inputs', 'histories', 'configurations'],
     'all subsets of boundary names x form kinds x domains x degrees x sequences of re-setting',
     'Tests use one or two boundary subsets on one mesh.',
     ['objects/CSCG/_2d/forms', 'objects/CSCG/_3d/forms', 'objects/CSCG/base/forms', 'tools/miLinearAlgebra/linearSystem'],
     'BC interpreters (local / boundary cochain), partial dofs')

prop('C16', 'Coordinate transformations are mutually consistent and metric reuse is sound',
     'In every element the Jacobian matrix is the derivative of the mapping, its determinant, inverse, metric and inverse '
     'metric are consistent with it, trace-element transformations are the restriction of the element ones with unit '
     'outward normals, and elements that are treated as having the same metric have the same metric quantities.',
     ['inputs', 'configurations'],
     'all domains x uniform, graded and mixed layouts x reference grids',
     'Tests check a few domains with uniform layouts; wrong reuse needs elements of different shapes that look alike.',
     ['objects/CSCG/_2d/mesh/elements', 'objects/CSCG/_3d/mesh/elements', 'objects/CSCG/_3d/mesh/trace', 'components/functions'],
     'region interpolators, per-element scaling, type_wrt_metric marks')

prop('C17', 'Unstructured triangular meshes satisfy the same discrete laws',
     'On every triangular mesh the element, edge and node connectivity matches the geometry, dof numbering identifies '
     'exactly the shared dofs, incidence matrices are exact and commute with discretization, mass matrices integrate the '
     'reconstructed forms, and none of it depends on the rank count or distribution.',
     ['configurations', 'inputs'],
     'all small triangulations and vertex orders up to a bound x degrees x rank counts',
     'Tests use fixed and randomly generated samples at 1-2 ranks.',
     ['objects/miUsGrid'],
     'triangle maps with singular vertex 0, numbering, rank distribution')

prop('C18', 'Trace, dual and hybrid structures represent the same discrete problem',
     'Trace and selective matrices applied to the cochain of a form give the cochain of its trace on every trace element '
     'side, dual cochains are the mass matrix times the primal ones and convert back, hybrid pairing matrices enforce '
     'exactly the continuity between elements, and the integration-by-parts identity holds element by element.',
     ['inputs', 'configurations'],
     'all polynomial basis fields x form kinds x meshes x degrees',
     'Tests check some of the relations for one field at fixed degree.',
     ['objects/CSCG/_3d/ADF', 'objects/CSCG/_3d/forms/trace', 'objects/CSCG/_3d/forms/localTrace', 'objects/CSCG/_3d/forms/edge',
      'objects/CSCG/_2d/ADF', 'objects/CSCG/_2d/forms/trace'],
     'trace/selective matrices of the space, ADF wrappers, hybrid pairing')

prop('C19', 'Chained numbering of several forms is a consistent, invertible renumbering',
     'Chaining the numberings of several forms, with either chain method, yields global numbers 0..sum(N)-1 used in full, '
     'with two local dofs equal exactly when they belong to the same form and share its dof; searching elements, local '
     'positions and form of a dof inverts it, per-form splitting of a global vector returns each form its own cochain, '
     'and repeated or interleaved chains never return a stale numbering.',
     ['inputs', 'histories', 'configurations'],
     'all form tuples up to length L x chain methods x partitions x call histories up to depth D',
     'Tests chain a few tuples once at 1-2 ranks; the shared cache of chains needs histories.',
     ['tools/elementwiseCache/gathering'],
     'chain matrices with cross-rank renumbering and a small module-level cache')

prop('C20', 'Quadrature, nodes and basis functions have their defining exactness',
     'For every supported family and degree, quadrature integrates polynomials exactly up to its order, nodes are the '
     'stated ones, nodal basis functions are Kronecker at their nodes, edge functions integrate to Kronecker over their '
     'cells, and tensor-product bases are evaluated in the documented ordering on any grid.',
     ['inputs'],
     'all families x all degrees up to a bound x all monomials up to the order',
     'Tests check selected degrees.',
     ['components/quadrature.py', 'components/functions', 'objects/CSCG/_2d/spaces', 'objects/CSCG/_3d/spaces'],
     'quadrature generators, Lagrange and edge polynomials, Kronecker products')

prop('C21', 'Nonlinear terms and element-wise multilinear forms equal their dense contraction',
     'Multi-dimensional element-wise arrays give, for any choice of which forms are known, exactly the contraction of the '
     'trilinear integral with the current cochains, derivatives with respect to each unknown are exact, and a Newton '
     'iteration that reports convergence returns a root of the discrete system (its inner linear systems being solved '
     'accurately, as the direct solver does).',
     ['inputs', 'programs'],
     'all subsets of contracted slots x cochain basis vectors x meshes and degrees',
     'Tests contract one pattern with random cochains.',
     ['tools/elementwiseCache/dataStructures/objects/multiDimMatrix', 'tools/miLinearAlgebra/nonlinearSystem'],
     'einsum-style contraction over local axes, derivative assembly')

prop('C22', 'Continuous fields obey pointwise algebra, in space, time and on boundaries',
     'Scalar, vector and tensor fields evaluate to their defining functions at the queried time in every element, their '
     'algebra (sum, difference, product, inner, cross, component and norm operations) and derivatives (time derivative, '
     'gradient, curl, divergence, convection) equal the pointwise exact ones, and boundary-wise fields are '
     'only defined on and evaluated from the named boundaries.',
     ['inputs', 'programs'],
     'all operations x operand kinds x monomial functions x evaluation times in any order',
     'Tests check a few transcendental functions at one time.',
     ['objects/CSCG/_2d/fields', 'objects/CSCG/_3d/fields', 'components/functions', 'components/numerical'],
     'composition of python callables with current-time partial evaluation')

if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(p) + '\n')
    print(len(P))
