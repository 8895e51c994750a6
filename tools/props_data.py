# Executed by props.py.  One call of prop(...) per property.
TLA = 'TLA+ model checked with TLC; recorded runs of the code validated against it by TLC'
NOTE = ('Exhaustive over the stated small instances of the specification; the code is '
        'bound to it by conformance of recorded runs on model-generated and seeded '
        'inputs, so inputs beyond those sampled are not decided.')
COMM = 'swirl_fem/communication/'
CORE = 'swirl_fem/core/'

prop('C01', 'Crystal router delivers every message exactly once',
     'Every valid slot of the input of a crystal-router exchange arrives exactly once on the '
     'device it is addressed to, and nothing else arrives: the reported dynamic lengths are the '
     'numbers of messages addressed to each device, for any axis size (including 1), any mesh '
     'axis or pair of axes, any message pattern and however often the buffers have to grow. '
     'All leaves of the payload (of any dtype, with trailing dimensions) and the reported source '
     'stay aligned with each other, and routing the output back to its sources restores the '
     'original messages, targets and lengths on each device up to order.',
     ['inputs', 'configurations'],
     'All axis sizes, message counts per device, target patterns, payload pytrees; with and '
     'without sources.',
     'The test samples one random pattern on 12 devices; skewed patterns that overflow the '
     'buffer, odd group sizes, a single device and idle devices are not reached.',
     [COMM + 'crystal_router.py'],
     [('halving stages with partner permutation', COMM + 'crystal_router.py:_crystal_router_loop'),
      ('growing buffers and resuming', COMM + 'crystal_router.py:_crystal_router_flat')],
     TLA, NOTE, ['crystal_router(n, data, target[, return_source])'],
     [('data, n', 'messages held by a device and their number', COMM + 'crystal_router.py')])

prop('C02', 'Prefix scan and all-reduce equal the fold over devices',
     'On each device the parallel exclusive prefix scan gives the fold of the operation over the '
     'values of all preceding devices of the axis (its identity on the first device, so that '
     'combining with any value of the dtype, including infinities, leaves that value), and the '
     'all-reduce gives the fold over all devices. This holds for add, multiply, maximum, minimum '
     'and the bitwise operations, every dtype they accept, every axis size and mesh axis, leaf by '
     'leaf for pytrees, and dtype and shape are those of the input.',
     ['inputs', 'configurations'],
     'All axis sizes, operations, dtypes, values, pytrees; scan alone, scan with reduction, '
     'reduction alone.',
     'The test uses arange on 12 and 4x3 devices; other axis sizes, extreme and infinite values, '
     'narrow dtypes and pytrees are not reached.',
     [COMM + 'pscan.py'],
     [('fan-in / fan-out schedule', COMM + 'pscan.py:_fanin_fanout_flat'),
      ('unit table', COMM + 'pscan.py:unit_table')],
     TLA, NOTE, ['pscan', 'preduce'])

prop('C03', 'Distributed jit calls the function per device with bound arguments',
     'Calling a function compiled for distribution along a mesh axis gives, for each device, the '
     'result of the plain function on that device\'s slices of the sharded arguments and on the '
     'unsharded static arguments, stacked along the first axis. This holds for every Python '
     'signature and way of passing the arguments (positional, keyword, defaulted, keyword-only, '
     'statics named explicitly or implied, none sharded), and for every history of calls of one '
     'compiled function with changing data and static values.',
     ['inputs', 'programs', 'histories'],
     'All signatures of up to three parameters, all call forms, histories of calls.',
     'Three signatures are tested, each called once.',
     [COMM + 'jit_distributed.py'],
     [('binding of sharded and static arguments', COMM + 'jit_distributed.py:bind'),
      ('jit static argument names', COMM + 'jit_distributed.py:jit_distributed')],
     TLA, NOTE, ['jit_distributed'])

prop('C04', 'Semi-traced scalars agree between their local and global view',
     'For every expression built from the axis index, the axis size and constants with '
     'arithmetic, comparison, bitwise and selection operators (also with a plain constant on '
     'either side), the statically known array of values over the axis and the run-time value on '
     'each device both equal the value of the expression at that axis index.',
     ['programs', 'inputs'],
     'All expressions over the supported operators, all axis sizes.',
     'The class has no test of its own; its users exercise a handful of expressions.',
     [COMM + 'semi_traced_scalar.py'],
     [('operator lifting', COMM + 'semi_traced_scalar.py:_lift_ops')],
     TLA, NOTE, ['SemiTracedScalar'])

prop('C05', 'Exchange sums all copies of a degree of freedom',
     'After an exchange every copy of a degree of freedom, in whichever partition and under '
     'whichever periodic image it lives, holds the exact sum of the values of all its copies, in '
     'the dtype it came with (real, complex or integer). Nodes with a single copy and padding '
     'slots keep their value; periodic images inside one partition are refused with an error '
     'rather than summed wrongly.',
     ['inputs', 'configurations'],
     'All assignments of global numbers to partition slots, periodic links (also chained), '
     'values, dtypes.',
     'Tests use a few hand-written layouts with float values.',
     [CORE + 'gather_scatter.py', CORE + 'mesh.py'],
     [('gather and unique indices', CORE + 'gather_scatter.py:get_exchange_indices'),
      ('masked add of the psum', CORE + 'gather_scatter.py:exchange')],
     TLA, NOTE, ['gather_scatter.exchange', 'get_unique_node_indices', 'Mesh.exchange'])

prop('C06', 'A partitioned mesh is the same mesh, redistributed',
     'In a finalized partitioned mesh every element lives exactly once, in the partition assigned '
     'to it, with its nodes in the same order; each partition has exactly one copy of every node '
     'of its elements and only padding besides. Scattering element contributions and exchanging '
     'gives at every copy of a node the value the unpartitioned mesh would have, whatever the '
     'partitioning, including uneven and empty partitions and periodic meshes.',
     ['inputs', 'configurations'],
     'All meshes, partitionings (uneven, empty, shuffled), dimensions 1 to 3, orders.',
     'Tests check a few small 1D partitionings.',
     [CORE + 'premesh.py', CORE + 'gather_scatter.py'],
     [('grouping by partitions and padding', CORE + 'gather_scatter.py:group_by_partitions'),
      ('local renumbering', CORE + 'gather_scatter.py:get_local_elements'),
      ('finalize', CORE + 'premesh.py:finalize')],
     TLA, NOTE, ['Premesh.finalize', 'Mesh.gather/scatter/exchange'])

prop('C07', 'Periodic identification, masks and coordinates of a finalized mesh',
     'In a finalized mesh two nodes carry the same global number exactly when a chain of periodic '
     'links connects them, and a physical mask marks exactly the nodes that lie on a facet of the '
     'group or are a periodic image of one (never padding). Every node keeps its own coordinates, '
     'and an exchange sums nodal values over all copies and images, in partitioned and '
     'unpartitioned meshes alike.',
     ['inputs', 'configurations'],
     'All link lists (multiply periodic, chained, self-links), groups and partitionings.',
     'Tests use one or two links on tiny meshes and no group touching a periodic boundary.',
     [CORE + 'premesh.py', CORE + 'gather_scatter.py'],
     [('connected components of links', CORE + 'gather_scatter.py:_get_periodic_mapping'),
      ('masks', CORE + 'premesh.py:_mask')],
     TLA, NOTE, ['Mesh.node_indices', 'Mesh.physical_masks', 'Mesh.node_coords'])

prop('C08', 'Mesh gather and scatter are adjoint and skip padding',
     'Gathering nodal values gives each element the values of its nodes in order and zero in '
     'padding elements; gathering coordinates does the same per component. Scattering element '
     'values adds at each node everything its element corners hold and nothing else, so scatter '
     'is the adjoint of gather; nodal arrays of another shape are rejected.',
     ['inputs', 'configurations'],
     'All meshes (partitioned or not, any order and dimension) and values.',
     'Tests check one 1D and one 2D mesh.',
     [CORE + 'mesh.py', CORE + 'gather_scatter.py'],
     [('masked gather / scatter-add', CORE + 'gather_scatter.py:gather, scatter')],
     TLA, NOTE, ['Mesh.gather', 'Mesh.scatter', 'Mesh.element_coords'])

prop('C09', 'Facets and symmetries of the reference cube',
     'The reference d-cube has each facet exactly once per dimension, and the closed and the inner '
     'node slices of a facet pick exactly the grid nodes on it, for any number of points per side. '
     'For every symmetry of the facet the table of orderings maps the order in which its vertices '
     'are seen to the order in which the nodes of a finer grid are seen under the same symmetry, '
     'with one entry per symmetry.',
     ['inputs'], 'Dimensions, facets, orders, and all symmetries of the cube.',
     'Tests check a few facets and one or two orderings.',
     ['swirl_fem/common/facet_util.py'],
     [('facet types and slices', 'swirl_fem/common/facet_util.py'),
      ('orderings', 'swirl_fem/common/facet_util.py:facet_orderings')],
     TLA, NOTE, ['facet_util'])

prop('C10', 'Refined meshes are conforming',
     'Refining a first-order mesh to order N gives continuous node types one global node per '
     'geometric point: two elements share a node number exactly when the point lies on their '
     'common facet, however the elements are oriented to each other. Discontinuous node types '
     'share nothing. Every node lies at the multilinear image of its reference point, and no '
     'element or spare node is added or lost.',
     ['inputs', 'configurations'],
     'All meshes of lines, quadrilaterals and hexahedra with any relative orientation, orders, '
     'node types.',
     'Tests refine meshes whose elements are aligned, or at low orders.',
     [CORE + 'mesh_refiner.py', 'swirl_fem/common/premesh_commons.py'],
     [('facet numbering and orientation', CORE + 'mesh_refiner.py')],
     TLA, NOTE, ['mesh_refiner.refine_premesh'])

prop('C11', 'Refinement carries groups, periodic links and partitions along',
     'After a refinement every physical group consists of exactly the refined facets it had, every '
     'periodic link still pairs each node of a facet with its geometric image on the other facet '
     '(whatever the orientation of either), and each element keeps its partition.',
     ['inputs', 'configurations'],
     'All first-order meshes with groups and links, orientations and orders.',
     'Tests use axis-aligned periodic meshes.',
     [CORE + 'mesh_refiner.py', CORE + 'premesh.py'],
     [('refining facets', CORE + 'mesh_refiner.py')],
     TLA, NOTE, ['mesh_refiner.refine_premesh'])

prop('C12', 'Unit cube meshes',
     'unit_cube_mesh has the full grid of nodes over the interval, each cell once with its nodes in '
     'lexicographic order, one periodic link per pair of opposite facets in the periodic '
     'directions joining nodes that differ only in that direction, a "boundary" group of exactly '
     'the remaining facets, and elements in the partition of their block.',
     ['configurations'], 'All dimensions, sizes, periodic directions, bounds and block shapes.',
     'Tests use a few sizes.',
     ['swirl_fem/common/premesh_commons.py'],
     [('grid, links, groups, partitions', 'swirl_fem/common/premesh_commons.py:unit_cube_mesh')],
     TLA, NOTE, ['premesh_commons.unit_cube_mesh'])

prop('C13', 'Reading Gmsh files',
     'Reading a Gmsh file (2.2 or 4.1) of lines, quadrilaterals or hexahedra gives the nodes of '
     'the file with their coordinates and each element with its nodes in lexicographic order. Each '
     'pair of periodic boundary facets becomes one link pairing corresponding nodes, also for '
     'multiply periodic meshes and any node order in the file. A file without cells of the '
     'requested dimension is refused.',
     ['inputs'], 'All node numberings, element orders, orientations, periodicities.',
     'Tests read three example files.',
     ['swirl_fem/common/mesh_reader.py'],
     [('links from gmsh periodic', 'swirl_fem/common/mesh_reader.py')],
     TLA, NOTE, ['mesh_reader.read'])

prop('C14', 'Partitioning a mesh',
     'The partitioner assigns every element one partition number below the requested number, '
     'balanced, deterministic, and with a cut of the element graph not far from the best; the rest '
     'of the mesh is unchanged.',
     ['inputs'], 'All meshes and numbers of partitions.',
     'Tests check one small mesh.',
     ['swirl_fem/common/mesh_partitioner.py'],
     [('dual graph', 'swirl_fem/common/mesh_partitioner.py')],
     TLA, NOTE, ['mesh_partitioner.partition'])

prop('C15', 'Quadrature and interpolation nodes are exact',
     'Newton-Cotes, Gauss-Legendre and Gauss-Lobatto nodes are the ones of their definition, '
     'ordered and symmetric in [-1, 1]; the quadrature rules on them have positive weights and are '
     'exact for polynomials up to degree 1, 2n-1 and 2n-3, in any dimension by tensor products. '
     'Node types are continuous exactly when the end points are nodes, and equal exactly when they '
     'denote the same nodes.',
     ['inputs'], 'All node types, numbers of points and dimensions.',
     'Tests check a few numbers of points.',
     [CORE + 'interpolation.py'],
     [('nodes and weights', CORE + 'interpolation.py:Nodes1D, Quadrature1D')],
     TLA, NOTE, ['Nodes1D', 'Quadrature1D'])

prop('C16', 'Interpolation and differentiation matrices',
     'For any grid of nodes and any evaluation points (coinciding with nodes or not, in or outside '
     'of the interval, a single point included) the interpolation matrix holds the tensor products of '
     'the Lagrange polynomials of the nodes and the gradient matrix their partial derivatives; '
     'interpolate and interpolate_grad apply them.',
     ['inputs'], 'All node types, numbers of points, evaluation points, dimensions, values.',
     'Tests check low orders on separate points.',
     [CORE + 'interpolation.py'],
     [('barycentric formula', CORE + 'interpolation.py:BarycentricInterpolator')],
     TLA, NOTE, ['BarycentricInterpolator'])

NAV = 'swirl_fem/navier_stokes/navier_stokes.py'

prop('C17', 'Finite element geometry and integrals',
     'A FiniteElementSpace places quadrature points, jacobian determinants and inverse jacobians of '
     'every element according to the isoparametric map of its nodes (in 1, 2 and 3 dimensions, any '
     'order and node type, curved or affine), and integrate() gives the sum over elements and points '
     'of weight times determinant times integrand, for integrands made of nodal scalar and vector '
     'functions, their gradients and divergences, and functions of the coordinate.',
     ['inputs'], 'All meshes with positively oriented elements, orders, node types, quadratures, '
     'nodal values, forms.',
     'Tests integrate a few functions on unit cubes, where many geometric factors vanish.',
     [CORE + 'fespace.py'],
     [('jacobians', CORE + 'fespace.py:FiniteElementSpace.create'),
      ('integrate', CORE + 'fespace.py:FiniteElementSpace.integrate'),
      ('nodal functions and gradients', CORE + 'fespace.py:NodalQFunction')],
     TLA, NOTE, ['FiniteElementSpace.create', 'integrate', 'scalar_function', 'vector_function', 'grad', 'div'])

prop('C18', 'Local covectors are the element integrals against each basis function',
     'local_covector() of a form that is linear in one open argument gives, for every element, node '
     'and component, the quadrature of the form with that basis function (scalar, or component of a '
     'vector) in the open argument: whatever the position of the open argument, also when the form '
     'uses gradients or divergences of it. Exactly one argument must be open and fields of the wrong '
     'shape are refused.',
     ['inputs'], 'All meshes, orders, forms, positions of the open argument, nodal values.',
     'Tests compare a few mass and stiffness forms on unit cubes.',
     [CORE + 'fespace.py'],
     [('transposition by linearity', CORE + 'fespace.py:FiniteElementSpace.local_covector')],
     TLA, NOTE, ['FiniteElementSpace.local_covector'])

prop('C19', 'Conjugate gradients stop where they promise to, at the solution they report',
     'For a symmetric positive definite operator (and preconditioner, and dot product), pytrees '
     'included, cg() returns an iterate of the conjugate gradient method: after the reported number '
     'of iterations, which is the first whose squared preconditioned residual is at most '
     'max(tol^2 b.b, atol^2), or maxiter; the reported residual is that of the returned x. x0, '
     'tolerances, maxiter and preconditioner act as documented, and a right-hand side solved by x0 '
     'takes no iteration.',
     ['inputs', 'configurations'], 'All systems, starting points, tolerances, preconditioners.',
     'Tests check that random systems are solved, not when iteration stops or what is reported.',
     ['swirl_fem/linalg/cg.py'], [('iteration', 'swirl_fem/linalg/cg.py:cg')],
     TLA, NOTE, ['cg(A, b, ...)'])

prop('C20', 'The Poisson solver solves the discrete problem',
     'solve_poisson() returns nodal values that are zero at the nodes of all Dirichlet groups and '
     'satisfy the Galerkin equations of the mesh at all other nodes within the requested tolerances, '
     'for any forcing, order, node type and choice of Dirichlet and Neumann groups; other boundary '
     'values are refused instead of ignored.',
     ['inputs', 'configurations'], 'All meshes, forcings, boundary conditions, tolerances.',
     'Tests solve for one manufactured solution on unit cubes with an all-Dirichlet boundary.',
     ['swirl_fem/examples/poisson.py'], [('solver', 'swirl_fem/examples/poisson.py:solve_poisson')],
     TLA, NOTE, ['solve_poisson'])

prop('C21', 'Time stepping coefficients have their order',
     'bdfk_coeffs(k) are the k+1 coefficients, oldest first, with which the values of any polynomial '
     'of degree at most k at equidistant times give its derivative at the last of them times the '
     'step; extk_coeffs(k) those that give its next value.',
     ['inputs'], 'All orders.', 'Tests check two or three orders against literals.',
     [NAV], [('coefficients', NAV + ':bdfk_coeffs'), ('extrapolation', NAV + ':extk_coeffs')],
     TLA, NOTE, ['bdfk_coeffs', 'extk_coeffs'])

prop('C22', 'Stokes operators are the discrete weak forms',
     'On any mesh of positively oriented elements, order (from 2), periodicity and choice of Dirichlet '
     'groups, the operators of StokesSEM are: mass, stiffness, over-integrated convection, divergence '
     'and its transpose, pressure mass, all as the quadrature of their weak forms with Dirichlet rows '
     'masked; the inverse mass (assembled over periodic images); Q and E = D Q Dt scaled by the time '
     'scheme; the filter, which mixes in the interpolant of one degree less and is averaged between '
     'elements; vorticity, the average of the curl. Premeshes of higher order are refused.',
     ['inputs', 'configurations'], 'All meshes, orders, fields, boundary conditions, periodicities.',
     'Tests check single operators on analytic fields on the unit square.',
     [NAV], [('velocity operators', NAV + ':StokesVelocity'), ('pressure', NAV + ':StokesPressure'),
             ('operators', NAV + ':StokesSEM')],
     TLA, NOTE, ['StokesSEM.{B,Bi,A,C,D,Dt,Q,E,filter,vorticity}', 'StokesPressure.B'])

prop('C23', 'A Stokes step obeys momentum and incompressibility; derivatives are right',
     'Each stokes_one_step() returns a velocity and pressure such that: the tentative velocity '
     '(recovered from them) satisfies the BDF momentum equation with extrapolated pressure, force '
     'and prescribed boundary values within the tolerance; the velocity is free of divergence within '
     'the tolerance; prescribed values hold; periodic images agree; and the reported residuals are '
     'within the tolerances. So for every time order, filter strength, history of steps, open and '
     'closed boundary. The step is affine in fields, pressures and force: its forward derivative is '
     'its difference, and its reverse derivative the transpose of it.',
     ['inputs', 'histories', 'configurations'],
     'All meshes, time orders, sequences of steps, forces, boundary conditions, parameters.',
     'The test runs one analytic flow on one mesh; histories, boundary lifts, open boundaries and '
     'derivatives are not reached.',
     [NAV], [('fractional step', NAV + ':StokesSEM.stokes_one_step'),
             ('filter', NAV + ':StokesSEM.filter')],
     TLA, NOTE, ['StokesSEM.stokes_one_step'],
     [('us, ps', 'velocities and pressures of the preceding steps, oldest first', NAV)])

SDE = 'swirl_fem/sde/sdeint.py'

prop('C24', 'sdeint integrates the Stratonovich equation by Euler-Heun',
     'For any drift and diffusion (of time, state, increment and further arguments, closures '
     'included), state structure and increments, sdeint() returns the states at the output times '
     'obtained by Euler-Heun steps, one per increment, each over its equal share of its segment; '
     'no increment is lost or repeated, also under jit, vmap and as a flax module. A Brownian path '
     'has independent increments of variance 1/n determined by the key.',
     ['inputs', 'configurations'], 'All systems, paths, output times, wrappers.',
     'Tests compare with two closed forms at loose statistical tolerances on one path.',
     [SDE, 'swirl_fem/sde/flax_nn_sde.py'],
     [('integrator', SDE + ':sdeint'), ('flax', 'swirl_fem/sde/flax_nn_sde.py:nn_sdeint')],
     TLA, NOTE, ['sdeint', 'brownian_path', 'nn_sdeint'])

prop('C25', 'Sensitivities of sdeint solve the adjoint equation on the same path',
     'The reverse-mode derivative of sdeint() by initial state and parameters (further arguments, '
     'closed-over values or flax parameters) is the solution of the adjoint Stratonovich equation, '
     'driven by the same increments in reverse, restarted at each output time from the state there '
     'and with the cotangent of that output added; for linear equations it is the exact derivative, '
     'for others it tends to it.',
     ['inputs', 'configurations'], 'All systems, paths, output times, cotangents.',
     'Tests compare with closed forms of two scalar equations at loose tolerances.',
     [SDE, 'swirl_fem/sde/flax_nn_sde.py'],
     [('adjoint', SDE + ':_sdeint_rev'), ('flax', 'swirl_fem/sde/flax_nn_sde.py:nn_sdeint')],
     TLA, NOTE, ['jax.vjp(sdeint)', 'jax.vjp(nn_sdeint)'])

INP = 'swirl_fem/niles/input_pipeline.py'
TRN = 'swirl_fem/niles/train.py'

prop('C26', 'Input windows, shares and batches',
     'The training and evaluation inputs are the windows of consecutive snapshots (size, stride and '
     'step as configured) inside single shards; get_num_examples() is their number. The processes '
     'share them: each gets the same number, no window goes to two, none is left out; an uneven share '
     'is refused. Every epoch delivers each window of the share at most once in full batches, leaving '
     'out less than a batch; fields of an example belong together; batches are split evenly over the '
     'devices; the order is shuffled but the same in every run. Training and evaluation shards differ.',
     ['inputs', 'configurations', 'schedules'],
     'All shard lengths, windows, strides, process counts, batch sizes, epochs.',
     'There are no tests of the package.',
     [INP, TRN], [('windows', INP + ':create_split'), ('count', INP + ':get_num_examples'),
                  ('devices', TRN + ':create_input_iter')],
     TLA, NOTE, ['create_input_iter', 'get_num_examples'],
     [('window', 'shard and snapshots of an example', INP)])

prop('C27', 'Training survives crashes without losing or repeating steps',
     'train_and_evaluate() runs the configured number of steps (from epochs, if so configured). '
     'Checkpoints are written after every checkpoint interval and after the last step, and hold '
     'the state after exactly the steps of their number, each done once; a run starts from the latest '
     'one on disk, whenever and wherever the preceding run was interrupted (during a step, while '
     'writing metrics, evaluating or saving), so at most one interval is lost. Batches are used in '
     'order; metrics are the means since the last report; evaluation happens at its interval with the '
     'state of that step; schedules and random numbers depend on the step alone.',
     ['crash_points', 'histories', 'configurations'],
     'All sequences of runs, crash points, intervals, lengths, step numbers.',
     'There are no tests of the package; interruptions and resumption are not exercised.',
     [TRN], [('loop', TRN + ':train_and_evaluate'), ('save', TRN + ':save_checkpoint'),
             ('restore', TRN + ':restore_checkpoint')],
     TLA, NOTE, ['train_and_evaluate', 'checkpoints on disk', 'written metrics'],
     [('checkpoints', 'states on disk by number of steps', TRN),
      ('lineage', 'steps which led to a state', TRN)])

prop('C28', 'Schedules of the learning rate and the KL weight',
     'The learning rate rises linearly from 0 to its top in the warm-up epochs and falls along a half '
     'cosine to 0 in the remaining epochs (at least one), then stays 0; the up-down schedule rises '
     'and falls linearly in the warm-up time each; the KL weight is 0 for its zero epochs and rises '
     'linearly to its top in the transition epochs, where it stays. So at every step, for fractional '
     'epochs too.',
     ['inputs', 'configurations'], 'All steps and configurations.',
     'There are no tests of the package.',
     [TRN], [('learning rate', TRN + ':create_learning_rate_fn'),
             ('up-down', TRN + ':create_updown_learning_rate_fn'),
             ('KL', TRN + ':create_kl_penalty_fn')],
     TLA, NOTE, ['schedules at steps'])

prop('C29', 'Element order, node transfer and energy spectrum of the trainer',
     'make_multiscale_perm() is a permutation of the elements of a square grid which keeps the '
     'elements of every square of each scale together; transfer_perm() maps each node of the target '
     'to a nearest node of the source; get_energy_spectrum() sums the energy of the wave numbers in '
     'each of the shells of equal width, every wave number counted in one shell.',
     ['inputs', 'configurations'], 'All grids, patch sizes, node orders, spectra.',
     'There are no tests of the package.',
     [TRN], [('element order', TRN + ':make_multiscale_perm'), ('nodes', TRN + ':transfer_perm'),
             ('spectrum', TRN + ':get_energy_spectrum')],
     TLA, NOTE, ['make_multiscale_perm', 'transfer_perm', 'get_energy_spectrum'])

DGN = 'swirl_fem/niles/datagen/datagen.py'

prop('C30', 'Data generator: Kolmogorov flow, histories and files',
     'Every step of the data generator solves the Kolmogorov flow (forcing sin(8 pi y) in direction x, '
     'linear drag, viscosity 1/Re): convection is extrapolated from the last k velocities, forcing and '
     'drag enter through the mass matrix. Each cycle continues from the k last velocities and pressures '
     'of the one before. Its file, named by the first and last step, holds the first state and every '
     'tenth after it with their times; files of consecutive cycles leave no gap.',
     ['inputs', 'histories', 'configurations'],
     'All states, lengths and numbers of cycles, orders, starting steps, discretisations.',
     'There are no tests of the package.',
     [DGN], [('step', DGN + ':_solve_one_step'), ('files', DGN + ':run_simulation')],
     TLA, NOTE, ['HDF5 files', 'returned histories', 'Stokes steps'],
     [('history', 'the last k velocities and pressures', DGN)])

prop('C31', 'Training loss, its gradient, training and evaluation steps',
     'The loss of a closure model is the sum over the steps of the mean squared distance between the '
     'state rolled out from the first k snapshots (with the force of the model added, elements '
     'rearranged for the model and back) and the snapshot of the same time, plus the weighted '
     'divergences. Its gradient is the derivative, except that the force of the pushforward steps '
     'counts as data. train_step() uses the mean gradient over the devices, the schedules at its step, '
     'and reports means; eval_step() changes nothing and reports the errors at their times. '
     'Noise and dropout use fresh keys in every step of every rollout.',
     ['inputs', 'configurations', 'histories'],
     'All windows, parameters, orders, numbers of steps, devices, batch sizes.',
     'There are no tests of the package.',
     [TRN], [('loss', TRN + ':compute_mse_loss'), ('training', TRN + ':train_step'),
             ('evaluation', TRN + ':eval_step')],
     TLA, NOTE, ['loss and gradient', 'metrics', 'parameters after a step'],
     [('rollout', 'the last k states and their provenance', TRN)])

NET = 'swirl_fem/niles/transformer.py'
prop('C32', 'Training states are updated by clipped AdamW, through restarts too',
     'create_train_state() initialises the parameters with ones of the configured shape and dtype and '
     'different keys for parameters and samples, all derived from the key; every apply_gradients() '
     'moves them by AdamW (0.9, 0.95, 1e-6, bias-corrected, decoupled weight decay) with the '
     'gradient scaled down to the clipping norm where it exceeds it, and the rate of that step. Saving '
     'and restoring the state at any steps changes nothing of what follows.',
     ['inputs', 'histories', 'configurations'],
     'All gradients, rates, decays, limits, trees of parameters, points of restart.',
     'There are no tests of the package.',
     [TRN], [('state', TRN + ':create_train_state'), ('restart', TRN + ':restore_checkpoint')],
     TLA, NOTE, ['parameters and counter after every update', 'what the model is initialised with'],
     [('optimizer state', 'moments, number of updates, parameters', TRN)])

prop('C33', 'The closure network computes the multiscale transformer it is specified as',
     'For any configuration (depth, pooling layers, widths, heads, kernels, strides, biases, skip '
     'connections) with token numbers divisible by the strides, the network of niles.transformer '
     'returns an output of the shape of its input, equal to the multiscale vision transformer with '
     'its parameters: norms, pooled multi-head attention with residual queries, max-pooled skips, '
     'decoders that mirror the encoder. Members of a batch do not influence each other; before '
     'training the output is (almost) zero.',
     ['inputs', 'configurations'], 'All configurations, parameters, inputs.',
     'There are no tests of the package.',
     [NET], [('encoder', NET + ':MultiscaleEncoder'), ('decoder', NET + ':MultiscaleDecoder'),
             ('network', NET + ':Model')],
     TLA, NOTE, ['output of the network'])

prop('C34', 'The stochastic processor samples its latent equation and its divergence',
     'With at least two samples, the processor of the network draws for every member of the batch '
     'that many starting points (its input plus normal deviations of the prior scale) and independent '
     'Brownian paths, all from the key, integrates each by Euler-Heun with drift and diagonal '
     'diffusion of the specified networks (the posterior drift sees its own starting point), and '
     'reports the mean over the samples of the path divergence, the divergence of the starting points '
     'and the means. The network decodes the mean of the samples, or takes the mean of the decoded '
     'samples, as configured.',
     ['inputs', 'configurations', 'histories'], 'All inputs, parameters, keys, numbers of samples and steps.',
     'There are no tests of the package.',
     [NET], [('processor', NET + ':LatentSDE'), ('dynamics', NET + ':Dynamics'), ('network', NET + ':Model')],
     TLA, NOTE, ['evaluations of drift and diffusion', 'samples', 'reported divergences', 'output'],
     [('augmented state', 'latent values and accumulated divergence of every sample', NET)])

prop('C35', 'Training as configured predicts shear flows as theory does, and helps',
     'train_and_evaluate() with the configuration of the package (sizes reduced) on snapshots of the '
     'flows (U + a sin 8 pi y + b cos 8 pi y, V) reports, until something has been learnt, exactly the '
     'errors of the forced, damped and diffused modal solution of these flows stepped by BDF/EXT '
     'with the configured order, step, drag and viscosity, and the divergences of an untrained processor; '
     'every training step and every due evaluation is reported, restarts go on, and training on the '
     'first batch reduces its error. The model of the default configuration can be built and starts '
     'without force.',
     ['inputs', 'configurations', 'histories'],
     'All shear flows, orders, steps, viscosities, drags, numbers of samples and restarts.',
     'There are no tests of the package.',
     [TRN, NET, 'swirl_fem/niles/input_pipeline.py', 'swirl_fem/niles/config/niles.py',
      'swirl_fem/navier_stokes/navier_stokes.py'],
     [('training', TRN + ':train_and_evaluate'), ('solver', TRN + ':_solve_one_step'),
      ('configuration', 'swirl_fem/niles/config/niles.py:get_config')],
     TLA, NOTE, ['reported metrics', 'final step', 'output of the default model'],
     [('flow', 'modal amplitudes of the last k states', TRN)])

prop('C36', 'Reported spectra are those of the velocity; transfers between meshes are exact',
     'get_tke() returns half the squared modulus of the discrete Fourier transform of the velocity, '
     'interpolated to the uniform grid and put in the order of the coordinates, the zero wave number in '
     'the middle; the error of the spectra of a rollout (tke_err) is the mean over the batch of the sum '
     'over 18 shells of the squared differences of the logarithms of the spectra, of energies averaged '
     'over the steps after the first half; Mesh.interpolate reproduces every polynomial of at most the '
     'order of the source mesh at every node of the target mesh, whatever their node types and orders, '
     'also on periodic meshes, at full precision.',
     ['inputs', 'configurations'],
     'All velocity fields, meshes, orders, node types, lengths of rollouts and batches.',
     'There are no tests of the package; tests of interpolation sample one function.',
     [TRN, 'swirl_fem/core/mesh.py', 'swirl_fem/core/interpolation.py'],
     [('energies', TRN + ':get_tke'), ('error', TRN + ':compute_mse_loss'),
      ('transfer', 'swirl_fem/core/mesh.py:Mesh.interpolate')],
     TLA, NOTE, ['energies', 'tke_err', 'interpolated values'],
     [('waves', 'amplitude of every wave number', TRN)])

prop('C37', 'Partitioned finite element computations equal those on the whole mesh',
     'On a mesh partitioned over devices in any way (uneven, with empty partitions and padding, periodic, '
     'curved, any order), finite element operators (gather, local covector, scatter, exchange, masks) give '
     'at every copy of a node the value of the whole mesh, integrals over the elements of a device are those '
     'of its elements only, interpolation from a mesh of another order of the same elements agrees too, and conjugate gradients with dot products weighted by the number of copies '
     'solve the system of the whole mesh with all copies equal and all devices stopping together, under '
     'pmap and jit_distributed. Only partitions that hold several periodic images of a node are refused.',
     ['inputs', 'configurations'],
     'All partitionings, meshes, orders, fields and right-hand sides.',
     'Tests exchange a few fields of partitioned meshes; none computes with elements on them.',
     ['swirl_fem/core/premesh.py', 'swirl_fem/core/mesh.py', 'swirl_fem/core/gather_scatter.py',
      'swirl_fem/core/fespace.py', 'swirl_fem/linalg/cg.py', 'swirl_fem/communication/jit_distributed.py'],
     [('partitions', 'swirl_fem/core/premesh.py:Premesh.finalize'), ('exchange', 'swirl_fem/core/mesh.py:Mesh.exchange'),
      ('elements', 'swirl_fem/core/fespace.py:FiniteElementSpace')],
     TLA, NOTE, ['fields at every copy', 'integrals', 'iterations'],
     [('iterates', 'copies of the conjugate gradient iterates', 'swirl_fem/linalg/cg.py:cg')])

prop('C38', 'Derivatives through finite element computations are exact',
     'For every composition of finite element operations (gather, local covectors of linear and nonlinear '
     'forms, scatter, exchange, masks, products, interpolation to another order, integrals) on any mesh, curved, '
     'periodic or partitioned, forward-mode derivatives by nodal values and by node coordinates are '
     'those of the discrete computation, and reverse-mode gradients are their adjoint, finite everywhere '
     '(padding included), inside and outside of the mapped function.',
     ['programs', 'inputs', 'configurations'],
     'All programs of these operations, all meshes, partitionings, fields, directions and cotangents.',
     'The project is named for differentiable simulations; no test differentiates a finite element computation.',
     ['swirl_fem/core/fespace.py', 'swirl_fem/core/mesh.py', 'swirl_fem/core/gather_scatter.py',
      'swirl_fem/core/interpolation.py', 'swirl_fem/communication/jit_distributed.py'],
     [('exchange', 'swirl_fem/core/gather_scatter.py:exchange'), ('forms', 'swirl_fem/core/fespace.py:FiniteElementSpace'),
      ('mapping', 'swirl_fem/communication/jit_distributed.py:jit_distributed')],
     TLA, NOTE, ['fields', 'integrals', 'tangents', 'gradients'],
     [('program', 'fields after each operation', 'swirl_fem/core/mesh.py:Mesh')])

prop('C39', 'Ill-formed input is refused at every stage; calls spare their inputs',
     'For every history of calls from the description of a mesh (unit cube, file, arrays) through refinement, '
     'groups, partitioning, finalization, spaces, functions and integrals: a call is accepted exactly when its '
     'preconditions hold (known node types, node counts that are powers, first order and matching continuity for '
     'refinement, nonempty groups, dividing blocks, an axis name for partitioned meshes, fitting shapes, scalar '
     'integrands, one open argument), else it raises; an accepted call gives an object of the stated kind, order, '
     'sizes, groups and devices; no call, accepted or refused, changes its arguments or earlier objects; repeating '
     'a call gives the same; meshes, spaces and functions survive pytree flattening.',
     ['histories', 'inputs'],
     'All sequences of these calls with right and wrong arguments.',
     'Tests construct well-formed objects once; misuse, aliasing and repeated use are not exercised.',
     ['swirl_fem/core/premesh.py', 'swirl_fem/core/mesh.py', 'swirl_fem/core/mesh_refiner.py',
      'swirl_fem/core/fespace.py', 'swirl_fem/core/gather_scatter.py', 'swirl_fem/core/interpolation.py',
      'swirl_fem/common/premesh_commons.py', 'swirl_fem/common/mesh_reader.py'],
     [('premeshes', 'swirl_fem/core/premesh.py:Premesh'), ('refinement', 'swirl_fem/core/mesh_refiner.py:refine_premesh'),
      ('functions', 'swirl_fem/core/fespace.py:FiniteElementSpace')],
     TLA, NOTE, ['acceptance', 'descriptions', 'inputs'],
     [('objects', 'objects made so far', 'swirl_fem/core/premesh.py:Premesh')])

NOT_APPLICABLE = {}
