D['C01'] = """`CrystalRouter.tla` models the recursive halving of device ranges, the transfer to a partner,
and the growth of a buffer that overflows; TLC shows that every behaviour terminates with each
message delivered exactly once, for all message patterns on 1..5 (thorough: 7) devices. Emitted
patterns and seeded ones on up to 12 devices are run through `crystal_router` and back."""
D['C02'] = """`Pscan.tla` models the fan-in/fan-out passes as a transition system over symbolic folds (sequences
of device numbers), checked for every axis size 1..16 (64). Runs on all axis sizes up to 12, all
operations and dtypes (integers up to the type limits, floats whose folds are exact, infinities),
one and two mesh axes, pytrees."""
D['C03'] = """`JitDistributed.tla` enumerates signatures (parameter kinds, defaults, statics, sharding) and call
forms with the binding Python prescribes, and histories of calls; each emitted signature is
compiled for real and called with changing data and static values."""
D['C04'] = """`SemiTraced.tla` is a machine building expressions step by step; its state carries both the global
vector and the local value per device and TLC checks that they agree; emitted programs run on
`SemiTracedScalar`, recording both views."""
D['C05'] = """`Exchange.tla` specifies the exchange as an accumulate-and-copy-back protocol over unique numbers and
checks that it ends with the sum over the equivalence class for all layouts of the small
instances; emitted and seeded layouts (chained periodic links, up to 8 partitions, int / float /
complex dtypes) run through the code."""
D['C06'] = """`MeshDef.tla` defines a mesh independently of numbering: elements as sequences of coordinates,
equivalence classes of nodes under periodic links. `Finalize.tla` enumerates small premeshes and
the states of finalisation (link closure, renumbering, distribution). `FinalizeTrace.tla` states
what the finalized mesh has to be; clauses are grouped by property (C06 partition, C07 geometry,
masks, C08 gather/scatter)."""
D['C07'] = "See C06; clauses on coordinates, element coordinates and masks."
D['C08'] = "See C06; clauses on gather, scatter and exchange."

D['C09'] = """`Cube.tla` defines the cube by multi-indices; `CubeSym.tla` walks the symmetry group by its
generators and checks that orderings compose. The complete table of symmetries is compared for each
dimension and number of points, single orderings for emitted group elements."""
D['C10'] = """A point is identified by what is intrinsic: the weights it gives to the vertices of its element
(`RefineDef.tla:PointKey`), independent of any orientation. `Refine.tla` puts elements together in
all relative orientations and checks that equal keys mean equal points of shared facets only;
emitted and seeded meshes (2D and 3D, rings with an edge shared by several elements, orders up to 6)
are refined for real."""
D['C11'] = "See C10; facets of groups and links are compared as sets / sets of pairs of point keys."
D['C12'] = """`UnitCubeDef.tla` defines grid, cells, links, boundary; `UnitCube.tla` builds the mesh
dimension by dimension and checks that the boundary group and links cover the surface exactly once."""
D['C13'] = """`MshFile.tla` writes files record by record (nodes, facets, cells, periodic pairs in any order
and orientation); the harness serialises emitted files in formats 2.2 and 4.1 and the trace
specification states the links from the geometry."""
D['C14'] = """`Partition.tla` enumerates partitions of small meshes by moving elements; the best balanced
cut found by TLC bounds the cut of the partitioner (factor 2 + 4, as METIS is a heuristic). Larger
cases (up to 24 parts) have at least 8 elements per part: METIS leaves parts empty below that."""
D['C15'] = """`Legendre.tla` is the three-term recurrence as a transition system, with orthogonality and
interlacing as invariants; its polynomials (exact coefficients) decide the nodes, exact moments the
weights, up to n = 32 (48)."""
D['C16'] = """`Newton.tla` is incremental interpolation, node by node in any order, whose invariants tie
`Poly.tla`'s Lagrange basis and its derivative to the interpolant; recorded matrices are compared
with the exact basis at the recorded nodes."""

D['C17'] = """`FEDef.tla` defines elements exactly; `FEAssembly.tla` assembles mass and stiffness matrices
of a distorted mesh element by element in any order (total mass = area, constants in the kernel of
stiffness, symmetry, order independence). `FESpaceTrace.tla` recomputes what was recorded: geometry,
and every integral from the nodal values, with tolerance relative to the sum of magnitudes."""
D['C18'] = """As C17; covectors of forms with the open argument in any position."""
D['C19'] = """`CG.tla`: the iteration as a transition system over exact numbers (conjugacy, true residuals,
falling energy, at most N iterations). `CGTrace.tla` replays the recorded problem with the exact
iteration and compares iterate, count and residual; borderline counts are accepted either way."""
D['C20'] = """`Poisson.tla` assembles, masks and solves; `PoissonTrace.tla` evaluates the residual of the
recorded solution exactly (affine meshes: exact integrals; others: the documented quadrature)."""
D['C21'] = """`Multistep.tla` marches along polynomials of every degree up to the order; recorded
coefficients are compared with those of `TimeScheme.tla`."""
D['C22'] = """`StokesDef.tla` defines the operators exactly from the recorded grid (node coordinates,
element nodes, images, 1D nodes and weights, themselves decided by C15); every operator applied to
random fields must agree. The model is that of C23."""
D['C23'] = """`StokesStep.tla` is the fractional step method as a state machine (predict, filter, project,
correct; a transition is one CG iteration), on small sheared grids, closed, open or periodic, checked
for: divergence free, boundary values, agreement of images, steady states stay, energy decays, true
residuals, transposes, CG ends. Its scenarios (order, steps, boundary) are replayed; `StokesTrace.tla`
recovers the tentative velocity of every recorded step by undoing correction and filter and checks the
momentum equation, divergence and reports. Derivatives: forward = difference (the step is affine),
reverse = transpose. Grids reach 25 elements or order 8 in 2D, 8 elements in 3D, tolerances 1e-13 (which
is how the rounding in exchange() was found). A closed domain with a single pressure unknown (one
element of order 2) is left out: its pressure is undetermined."""
D['C24'] = """`Sde.tla`: integration increment by increment and back, as a transition system over
six systems, three kinds of path and several segmentations, with closed forms, the exact derivative
of the discrete map carried along (equal to the adjoint for linear equations, near it otherwise) and
the path retraced as invariants. Its behaviours and random polynomial systems (any structure of
state, wrapper, precision, uneven segments) are run and `SdeTrace.tla` recomputes them exactly from
`SdeDef.tla`. Long paths with whole increments check that none is lost."""
D['C25'] = """As C24; the backward pass of the recorded problem is recomputed."""

D['C26'] = """`InputPipeline.tla`: processes reading their share through a shuffle buffer, delivering
batches, dropping remainders and repeating; invariants: shares are disjoint and complete, every window
is in one place within an epoch, epochs deliver all but the remainder (liveness: they end). Sampled
and seeded configurations are run on generated HDF5 shards through the real `create_input_iter()`, once
for each (simulated) process, for two epochs and again from the start; `InputTrace.tla` checks the
delivered windows, fields, shares and orders. Constants of the sizes are replaced, nothing else."""
D['C27'] = """`Trainer.tla`: the job with crashes at every point (data, metrics, evaluation, saving) and
restarts, possibly for longer; the state carries its lineage; invariants on lineage, checkpoints,
durability and lost work, monotonic progress and termination. Its behaviours (thousands, sampled)
are replayed: the real `train_and_evaluate()` with real checkpoints on a scratch directory, step
functions that record the lineage in the state, and exceptions raised in the data iterator, the metric
writer, the evaluation iterator or `os.rename` in the middle of a save (the leftovers stay on disk).
`TrainerTrace.tla` judges every run from the checkpoints found on disk before and after it. Order of
reports within a step is not prescribed."""
D['C28'] = """`Schedule.tla` walks through the steps of small configurations: bounds, rise and fall, end
values, symmetry of the cosine (computed exactly from its series). The real schedules, called in
and outside of compiled code, are compared at all interesting steps (`ScheduleTrace.tla`). A KL
transition of zero epochs is excluded: optax then keeps the initial value, 0."""
D['C29'] = """`Multiscale.tla` grows the order level by level and proves that squares of every scale stay
together and that shells partition the wave numbers; `RearrangeTrace.tla` checks the real results in
integers (wave numbers exactly on a bound may be rounded to either side)."""
D['C30'] = """`Datagen.tla` is the generator as a machine over cycles of steps and files (a state is known by
the number of steps that led to it); its plans are replayed on the real code with simple polynomial
maps for the operators, where `DatagenTrace.tla` recomputes every file and history exactly. Whole runs
of `run_simulation()` on the real discretisation are recorded at the Stokes step and checked with the
exact operators of `StokesDef.tla` (right-hand side, histories, files); sines come from exact series."""
D['C31'] = """`Rollout.tla` tracks the time of every state of a rollout and the steps whose forces are
traced back from it (own target, pushforward, divergences). Its scenarios are run through the real
`compute_mse_loss()` with polynomial stand-ins for solver and network; `RolloutTrace.tla` recomputes
loss, divergences and codes exactly and the gradient by exact symmetric differences with step 2^-40, in
which the pushforward forces keep the base parameters. Single training and evaluation steps on 1 to 4
devices and the random keys of consecutive steps are checked too."""

D['C32'] = """`Optimizer.tla` runs the optimizer (`OptimizerDef.tla`, exact up to 2^-200) through all short
sequences of gradients with saves and stops at any point, beside a shadow without clipping and decay:
bounded moments, length of the first step, gradients below the limit untouched. Its histories and longer
random ones are applied to the state of the real `create_train_state()`, with real checkpoints at the
stops; `OptimizerTrace.tla` compares the parameters after every update (2^-40)."""

D['C33'] = """`Pyramid.tla` walks through the shapes of encoder and decoder for all small configurations
(skips meet their shapes, volumes, heads divide) and emits them. The real network is applied with random
parameters in double precision; `PyramidTrace.tla` evaluates the layers of `NetworkDef.tla` (exponential,
tanh, square roots to 2^-90) on the recorded parameters and inputs and compares the outputs (2^-28)."""

D['C34'] = """`Latent.tla`: every sample follows its own noise from its own start; divergence grows along a
path, vanishes where the laws agree. The real network is applied with the evaluations of `Dynamics` and
the ends of the processor observed from outside (flax method interception). `LatentTrace.tla` recomputes
every evaluation (`LatentDef.tla`), rebuilds the Euler-Heun chain of each sample from the recorded
increments, finds the sample each result belongs to, and recomputes divergences, means and the output; a
run with 80 samples is tested for normality and correlations (5-6 sigma, seeds fixed per case). In single
precision as used (2e-4). Not claimed: num_samples=1 (raises), use_transformer=False (its diffusion is
multiplied by zero)."""
D['C35'] = """`Kolmogorov.tla` steps the modes of a shear flow under Kolmogorov forcing (`KolmogorovDef.tla`, on
top of `TimeScheme.tla`) and checks the scheme: Galilean invariance, mirror symmetry, the laminar state is
steady, mean flow decoupled, energy bounded. `train_and_evaluate` itself runs on HDF5 shards of such flows,
12x12 elements as in the data, with a small network (untrained: no force); `KolmogorovTrace.tla` predicts
every reported error from the modes and the Gram matrix of the nodes (2 %, observed 0.1 %), the
divergences in closed form, the steps reported over restarts, and requires the error of the training batch
to fall. Also the model of the default configuration at full size."""

D['C36'] = """`Spectrum.tla` builds plane fields from waves and moves them about; TLC checks that the energies of
`SpectrumDef.tla` (a discrete Fourier transform with exact tables) sum to the energy of the field, are
symmetric, do not change when the field moves, are found at the wave numbers the field consists of, and that
the shells contain all but the corners. `SpectrumTrace.tla` judges `get_tke` on these fields (rearranged), on
polynomials on the meshes `train_and_evaluate` builds, `tke_err` from `compute_mse_loss` on recorded rollouts
(logarithm by roots and a series), and `Mesh.interpolate` between meshes of all node types and orders 1-5 in
1, 2, 3 dimensions (relative 2^-40)."""

D['C37'] = """`Distributed.tla` runs conjugate gradients on a mesh spread over devices (any assignment of elements;
intervals, rings, squares, cylinders, tori) in lock-step with the same on the whole mesh: copies, products and
operators agree in every state, the weights of copies add up to one, and both stop at the solution. The
assignments are dressed (order, node type, curved or periodic, Dirichlet groups, pmap or jit_distributed) and run on
emulated devices; so are up to 27 elements in three
dimensions in random parts, parts with few elements but many nodes, and Dirichlet conditions on random facets. `DistributedTrace.tla` assembles
operator and load of the whole mesh exactly (`FEDef.tla`) and compares every copy (2^-32), the integrals of
every device, a field interpolated from a mesh of another order, the number of copies, the residual of the solution, and the iterations of all devices."""

D['C38'] = """`Adjoint.tla` builds programs of operations (squares, masks, element matrices, exchanges) on meshes
with every assignment of elements to devices, carries a field and its tangent forward, then pulls a cotangent back
by the transposed operations; the pairing of tangent and cotangent is the same in every state, copies agree after
an exchange, and the tangent is the derivative. Every program is dressed (nonlinear and coordinate-dependent forms,
interpolation to another order and back, bent elements, Dirichlet facets, final integrals) and run on the real code under
`jax.jvp` and `jax.vjp`, within or around pmap, jit_distributed or jit, together with up to 9 elements in three
dimensions. `AdjointTrace.tla` executes the program with dual numbers (the element geometry moves with the
coordinates) and compares values and tangents of every copy and integral (2^-30), and the pairing of the
gradients with the directions. Quick: 24 programs from the model, 10 at random."""

D['C39'] = """`WorkflowDef.tla` states for every call when it is accepted and what it gives (node places in the
grid, periodic images, homes of elements, padded sizes); `Workflow.tla` is the machine of histories of calls, right and
wrong, over a store of objects: objects stay as they are, sizes are those of grids, every element has one home and no
device two images of a node, and complete premeshes can be finalized. Histories from the model (4 or 5 calls, at
most one refused) and longer random ones (up to 14 calls, in up to three dimensions, on 8 devices, any number refused)
run on the real code. `WorkflowTrace.tla` follows the history: accepted or refused, the description of every object,
totals of integrals and covectors of ones per device; and objects and input arrays unchanged at the end (bytes), repeated
calls alike, pytree flattening harmless. Found: a discontinuous first order premesh could be refined to a continuous one,
silently giving a mesh of a third of the area. Quick: 240 histories from the model, 60 at random."""
