"""The checks: which models, which trace specification, what is assumed."""
import random

TRACE_CFG = 'CONSTANT Failing <- TraceFailing\nINIT TraceInit\nNEXT TraceNext\n'


def cfg(consts, invariants=('Inv',), properties=(), spec='Spec', extra=''):
  t = f'SPECIFICATION {spec}\n'
  for k, v in consts.items():
    v = {True: 'TRUE', False: 'FALSE'}.get(v, v) if isinstance(v, bool) else v
    t += f'CONSTANT {k} = {v}\n'
  for i in invariants:
    t += f'INVARIANT {i}\n'
  for p in properties:
    t += f'PROPERTY {p}\n'
  return t + extra + '\n'


def model(module, consts, invariants=('Inv',), properties=(), pick=None, workers=4,
          spec='Spec', **kw):
  return dict(module=module, cfg=cfg(consts, invariants, properties, spec),
              bounds=', '.join(f'{k}={v}' for k, v in consts.items()),
              pick=pick, workers=workers, **kw)


def some(n, deep):
  """Picks a seeded sample of the emitted cases: n of them (deep: thorough)."""
  def pick(cases, tier, seed):
    k = n if tier == 'quick' else deep
    cases = sorted(cases, key=str)
    if len(cases) <= k:
      return cases
    return random.Random(seed).sample(cases, k)
  return pick


CHECKS = {}


def check(prop, trace, models, assumptions=(), level='model_checking', **kw):
  CHECKS[prop] = dict(models=models, trace_module=trace, trace_cfg=TRACE_CFG,
                      level=level, assumptions=list(assumptions), **kw)


def thorough(tier):
  return tier != 'quick'


# --------------------------------------------------------------------- C01
def _c01(tier, seed):
  ms = [model('CrystalRouter', dict(MinP=1, MaxP=3, Slots=2, MaxTotal=6, Emit=True),
              properties=['Terminates'], pick=some(60, 600)),
        model('CrystalRouter', dict(MinP=4, MaxP=5, Slots=1, MaxTotal=5, Emit=True),
              properties=['Terminates'], pick=some(40, 300))]
  if thorough(tier):
    ms.append(model('CrystalRouter', dict(MinP=6, MaxP=7, Slots=1, MaxTotal=4,
                                          Emit=True), pick=some(0, 300)))
    ms.append(model('CrystalRouter', dict(MinP=4, MaxP=4, Slots=2, MaxTotal=5,
                                          Emit=True), pick=some(0, 300)))
  return ms


check('C01', 'CrystalRouterTrace', _c01, [
    'devices are host CPU devices emulated by XLA',
    'lengths per device <= 6, axis sizes <= 12'],
      group=lambda c: f"{c['P']}-{c['L']}-{c.get('shape')}-{c.get('which')}",
      group_cost=10)


# --------------------------------------------------------------------- C02
check('C02', 'PscanTrace',
      lambda tier, seed: [model('Pscan', dict(MaxP=16 if tier == 'quick' else 64),
                                properties=['Terminates'], workers=1)],
      ['devices are host CPU devices emulated by XLA',
       'values whose folds are exact in the dtype, so rounding does not matter'])


# --------------------------------------------------------------------- C03
def _c03(tier, seed):
  def pick(cases, tier, seed):
    from gen_c03 import extend
    return [extend(c, k, seed) for k, c in
            enumerate(some(160, 3000)(cases, tier, seed))]
  return [model('JitDistributed', dict(MaxParams=3, Emit=True), pick=pick)]


check('C03', 'JitDistributedTrace', _c03,
      ['devices are host CPU devices emulated by XLA', 'at most three parameters'])

# --------------------------------------------------------------------- C04
check('C04', 'SemiTracedTrace', lambda tier, seed: [
    model('SemiTraced', dict(Sizes='{1, 2, 3}', MaxSteps=3 if tier == 'quick' else 4,
                             Emit=True), pick=some(120, 2000))],
      ['axis sizes <= 12, integers below 10^6, no division by zero'])


def from_harness(prop, fn, n, deep):
  """Samples emitted cases and completes each with harness/h_<prop>.<fn>."""
  def pick(cases, tier, seed):
    return [dict(__complete__=fn, case=c, k=k)
            for k, c in enumerate(some(n, deep)(cases, tier, seed))]
  return pick


# --------------------------------------------------------------------- C05
check('C05', 'ExchangeTrace', lambda tier, seed: [
    model('Exchange', dict(Parts=2, Slots=3, Dofs=3, Emit=True),
          pick=from_harness('C05', 'complete', 140, 1500))] + (
    [] if tier == 'quick' else [
        model('Exchange', dict(Parts=3, Slots=2, Dofs=4, Emit=True),
              pick=from_harness('C05', 'complete', 140, 1500))]),
      ['devices are host CPU devices emulated by XLA',
       'values whose sums are exact in the dtype'])


# --------------------------------------------------------- C06, C07, C08
def _finalize(prop, *fns):
  def models(tier, seed):
    ms = [model('Finalize', dict(Nodes=3, Elems=2, Parts=2, MaxLinks=1, Emit=True),
                pick=from_harness(prop, fns[0], 60, 400))]
    if thorough(tier):
      ms.append(model('Finalize', dict(Nodes=4, Elems=3, Parts=3, MaxLinks=2, Emit=True),
                      pick=from_harness(prop, fns[-1], 60, 600), workers=8, heap='6g'))
    else:
      ms.append(model('Finalize', dict(Nodes=4, Elems=2, Parts=2, MaxLinks=2, Emit=True),
                      pick=from_harness(prop, fns[-1], 40, 400)))
    return ms
  return models


_mesh_assumptions = [
    'devices are host CPU devices emulated by XLA',
    'nodes have distinct coordinates, so that copies of a node can be recognised']
check('C06', 'FinalizeTrace', _finalize('C06', 'from_model'), _mesh_assumptions)
check('C07', 'FinalizeTrace', _finalize('C07', 'from_model', 'from_model_unpartitioned'),
      _mesh_assumptions)
check('C08', 'FinalizeTrace', _finalize('C08', 'from_model', 'from_model_unpartitioned'),
      _mesh_assumptions)

# --------------------------------------------------------------------- C09
check('C09', 'CubeTrace', lambda tier, seed: [
    model('CubeSym', dict(MaxDim=3, MaxPoints=4 if tier == 'quick' else 6, Emit=True),
          pick=some(200, 2000))], ['dimensions up to 3 (thorough: 4)'])


# ---------------------------------------------------------------- C10, C11
def _refine(prop):
  def models(tier, seed):
    pick = from_harness(prop, 'from_model', 30, 200)
    ms = [model('Refine', dict(Dim=2, N=3, Config='"stack"', Few=False, Emit=True), pick=pick),
          model('Refine', dict(Dim=2, N=4, Config='"ring"', Few=False, Emit=True), pick=pick),
          model('Refine', dict(Dim=3, N=3, Config='"stack"', Few=True, Emit=True), pick=pick),
          model('Refine', dict(Dim=3, N=2, Config='"ring"', Few=True, Emit=True), pick=pick)]
    if thorough(tier):
      ms += [model('Refine', dict(Dim=3, N=4, Config='"stack"', Few=False, Emit=True), pick=pick),
             model('Refine', dict(Dim=3, N=4, Config='"ring"', Few=False, Emit=True), pick=pick)]
    return ms
  return models


for _p in ('C10', 'C11'):
  check(_p, 'RefineTrace', _refine(_p),
        ['elements are non-degenerate and facets shared by whole facets'])

# --------------------------------------------------------------------- C12
check('C12', 'UnitCubeTrace', lambda tier, seed: [
    model('UnitCube', dict(MaxDim=3, MaxN=2 if tier == 'quick' else 3, Emit=True),
          pick=from_harness('C12', 'complete', 60, 200)),
    model('UnitCube', dict(MaxDim=2, MaxN=4 if tier == 'quick' else 6, Emit=True),
          pick=from_harness('C12', 'complete', 60, 200))],
      ['at most 80 elements per dimension'])

# --------------------------------------------------------------------- C13
check('C13', 'MshTrace', lambda tier, seed: [
    model('MshFile', dict(W=2, H=1, Emit=True), pick=from_harness('C13', 'complete', 40, 300)),
    model('MshFile', dict(W=2, H=3, Emit=True), pick=from_harness('C13', 'complete', 40, 300))],
      ['Gmsh formats 2.2 and 4.1, text; facets of periodic sides are in the file'])

# --------------------------------------------------------------------- C14
check('C14', 'PartitionTrace', lambda tier, seed: [
    model('Partition', dict(W=w, H=h, K=k, Holes=True, Emit=True),
          pick=from_harness('C14', 'complete', 12, 60))
    for w, h, k in [(8, 1, 2), (8, 1, 3), (3, 3, 2), (4, 2, 3)]
    + ([] if tier == 'quick' else [(3, 3, 3), (6, 2, 2), (4, 3, 2)])],
      ['the quality bounds are twice the cut of the best balanced (or the block) partition'])

# ---------------------------------------------------------------- C15, C16
def _c15(tier, seed):
  def pick(cases, tier, seed):
    return ([dict(__complete__='gauss', case=c, k=0) for c in cases if c['n'] > 0]
            + [dict(__complete__='lobatto', case=c, k=0) for c in cases])
  return [model('Legendre', dict(MaxN=32 if tier == 'quick' else 48, Emit=True),
                pick=pick, workers=1)]


check('C15', 'QuadTrace', _c15,
      ['double precision; nodes accepted within 2^-38 (P_n), moments within 2^-42'])
check('C16', 'InterpTrace', lambda tier, seed: [
    model('Newton', dict(Nodes=s, Probe='{1, 4, 10}', Emit=True),
          pick=from_harness('C16', 'from_model', 10, 60))
    for s in ['{0, 2, 5, 7}', '{0, 2, 3, 7, 8}']], ['at most 30 points per dimension'])


# ---------------------------------------------------------------- C17, C18
def _fe(prop, n):
  return lambda tier, seed: [
      model('FEAssembly', dict(Shifts='{12, 32, 51}' if tier == 'quick' else '{12, 20, 32, 38, 51}',
                               Emit=True), pick=from_harness(prop, 'from_model', n, 80),
            workers=8)]


check('C17', 'FESpaceTrace', _fe('C17', 10),
      ['positively oriented elements; relative tolerance 2^-38'])
check('C18', 'FESpaceTrace', _fe('C18', 10),
      ['positively oriented elements; relative tolerance 2^-38'])


# --------------------------------------------------------------------- C19
check('C19', 'CGTrace', lambda tier, seed: [
    model('CG', dict(N=3, Entries='{0, 1, 2}', Emit=True),
          pick=from_harness('C19', 'from_model', 60, 500), properties=['Terminates'], workers=8)],
      ['well-conditioned systems of at most 7 unknowns'])


# --------------------------------------------------------------------- C20
check('C20', 'PoissonTrace', lambda tier, seed: [
    model('Poisson', dict(Shifts='{32, 45}' if tier == 'quick' else '{20, 32, 45}',
                          Forcings='{{5}, {1, 2, 3, 4, 5, 6, 7, 8, 9}, {4, 8}}', Emit=True),
          pick=from_harness('C20', 'from_model', 12, 100), properties=['Terminates'], workers=8)],
      ['small meshes; on curved or distorted elements the stiffness matrix is the one of the '
       'documented quadrature rule'])


# --------------------------------------------------------------------- C21
check('C21', 'MultistepTrace', lambda tier, seed: [
    model('Multistep', dict(MaxK=6 if tier == 'quick' else 9, Steps=3, Emit=True))],
      ['orders up to 6 (thorough: 9)'])


# ---------------------------------------------------------------- C22, C23
def _stokes(prop, n):
  def models(tier, seed):
    deep = thorough(tier)
    return [model('StokesStep', dict(Grids=g, Orders=k, Steps=2 if deep else 1,
                                     Starts='{"zero", "steady", "some", "decay"}',
                                     Alphas='{0, 1}', Emit=True),
                  pick=from_harness(prop, 'complete', n, 15), heap='2g', workers=1,
                  invariants=['DivergenceFree', 'Boundary', 'Images', 'Steady', 'Decay',
                              'DecayDone', 'TrueResidual', 'Algebra', 'Ends', 'Emits'])
            for g, k in [('{1}', '{1}'), ('{1}', '{2}'), ('{2}', '{1, 2}'), ('{3}', '{1, 2}')]
            + ([('{1}', '{3}'), ('{2}', '{3, 4}'), ('{3}', '{3, 4}'), ('{4}', '{1, 2, 3}')]
               if deep else [])]
  return models


check('C22', 'StokesTrace', _stokes('C22', 2),
      ['meshes of at most 9 elements in 2D, 1 in 3D; relative tolerance 2^-34'])
check('C23', 'StokesTrace', _stokes('C23', 2),
      ['meshes of at most 4 elements in 2D, 1 in 3D'])


# ---------------------------------------------------------------- C24, C25
def _sde(prop):
  return lambda tier, seed: [
      model('Sde', dict(Systems='{"additive", "geometric", "ode", "time", "pair", "logistic"}',
                        Counts='{4, 8, 16}' if tier == 'quick' else '{4, 8, 16, 32, 64}',
                        Segments='{1, 2, 4}', Drivers='{"none", "smooth", "rough"}', Emit=True),
            pick=from_harness(prop, 'complete', 12, 100), workers=4)]


check('C24', 'SdeTrace', _sde('C24'),
      ['polynomial drift and diffusion; at most 32 (thorough: 96) increments'])
check('C25', 'SdeTrace', _sde('C25'),
      ['polynomial drift and diffusion; at most 32 (thorough: 96) increments'])


# --------------------------------------------------------------------- C26
INPUT = dict(Shards=2, Buffer=3)
check('C26', 'InputTrace', lambda tier, seed: [
    model('InputPipeline', dict(INPUT, Lens='{4}', Sizes='{2}', Strides='{1}', Steps='{1}',
                                ProcCounts='{1, 2}', Batches='{2}', Explore=True, Emit=False),
          invariants=['Counted', 'Disjoint', 'OncePerEpoch', 'Remainder'],
          properties=['EpochsEnd']),
    model('InputPipeline', dict(INPUT, Lens='{4, 6, 9, 12}', Sizes='{1, 2, 3, 5}', Strides='{1, 2, 3}', Steps='{1, 2}',
                                ProcCounts='{1, 2, 4}', Batches='{1, 2}', Explore=False, Emit=True),
          invariants=['Counted', 'Emits'], pick=from_harness('C26', 'complete', 24, 200))],
      ['shards of equal length, at most 18 snapshots; processes are simulated one after another'])


# --------------------------------------------------------------------- C28
check('C28', 'ScheduleTrace', lambda tier, seed: [
    model('Schedule', dict(Epochs='{"1", "3", "5/2"}', Warmups='{"0", "1", "3/2"}', Zeros='{"0", "1/2", "1"}',
                           Transitions='{"1/2", "2"}', PerEpoch=s, Emit=True), workers=2,
          invariants=['Bounds', 'Shape', 'Ends', 'Half', 'Known', 'Emits'],
          pick=from_harness('C28', 'complete', 15, 160))
    for s in (['{3}', '{4}'] if tier == 'quick' else ['{3}', '{4}', '{7}', '{12}'])],
      ['a transition of the KL weight takes some time; accepted within 2^-19 of the top value'])


# --------------------------------------------------------------------- C29
check('C29', 'RearrangeTrace', lambda tier, seed: [
    model('Multiscale', dict(Firsts='{1, 2, 3}', Patches='{2, 3}',
                             MaxSize=12 if tier == 'quick' else 24, Emit=True),
          invariants=['Inv', 'Shells', 'Emits'], pick=from_harness('C29', 'complete', 20, 60))],
      ['patch sizes and factors that belong together; grids of at most 33 points'])


# --------------------------------------------------------------------- C27
TRAINER = ['Lineage', 'Labels', 'BatchOrder', 'RunOrder', 'Durable', 'LoseLittle', 'Done', 'Emits']
check('C27', 'TrainerTrace', lambda tier, seed: [
    model('Trainer', dict(Ends=e, LogEvery='{2, 3}', EvalEvery='{1, 3}', SaveEvery='{2, 3}',
                          EvalBatches='{2}', MaxRuns=r, Emit=True),
          invariants=TRAINER, properties=['Monotone', 'Ends_'],
          pick=from_harness('C27', 'complete', 36, 300))
    for e, r in [('{4, 7}', 2), ('{5}', 3)] + ([] if tier == 'quick' else [('{6, 8}', 3), ('{4}', 4)])],
      ['training and evaluation steps are stand-ins that record which steps led to a state'])


# --------------------------------------------------------------------- C30
check('C30', 'DatagenTrace', lambda tier, seed: [
    model('Datagen', dict(Orders='{2, 3}', Lengths='{0, 1, 7, 10, 20, 23}' if tier == 'quick' else '{0, 1, 2, 9, 10, 11, 20, 23}',
                          Cycles=2 if tier == 'quick' else 3, Every=10, Emit=True),
          invariants=['History', 'Convection', 'Contiguous', 'Gapless', 'Names', 'Emits'], properties=['Done'],
          pick=from_harness('C30', 'complete', 24, 240))],
      ['time order 2 or 3; the real discretisation has at most 3 x 3 elements and 40 steps'])


# --------------------------------------------------------------------- C31
check('C31', 'RolloutTrace', lambda tier, seed: [
    model('Rollout', dict(Orders='{2, 3}', Steps='{1, 2, 3, 4}' if tier == 'quick' else '{1, 2, 3, 4, 5, 6}',
                          Pushes='{0, 1, 2}', Spare='{0, 2}', Emit=True),
          invariants=['OwnTarget', 'Window', 'Traced', 'Divergences', 'History', 'Emits'], properties=['Done'],
          pick=from_harness('C31', 'complete', 16, 48))],
      ['the model and the discretisation are stand-ins: polynomial maps of a few nodes; 1 to 3 devices'])


# --------------------------------------------------------------------- C32
check('C32', 'OptimizerTrace', lambda tier, seed: [
    model('Optimizer', dict(Sizes='{"0", "1p-9", "-1", "12"}', Limits='{"none", "1/2"}',
                            Decays='{"0", "1/4"}', Steps=2 if tier == 'quick' else 3, Emit=True),
          invariants=['Counts', 'Bounded', 'Idle', 'First', 'Same', 'Emits'],
          pick=from_harness('C32', 'complete', 40, 400))],
      ['up to 5 parameters and 40 updates'])


# --------------------------------------------------------------------- C33
check('C33', 'PyramidTrace', lambda tier, seed: [
    model('Pyramid', dict(MaxDepth=3 if tier == 'quick' else 5, Tokens='{4, 6, 8}', Widths='{2, 4}', Headss='{1, 2}',
                          Strides='{1, 2}', KvStrides='{1, 2, 4}', Emit=True),
          invariants=['Whole', 'HeadsDivide', 'Mirror', 'Restored', 'Volume', 'Known', 'Emits'],
          properties=['Done'], pick=from_harness('C33', 'complete', 24, 240))],
      ['up to 5 layers, 12 tokens and 6 channels per width'])


# --------------------------------------------------------------------- C34
check('C34', 'LatentTrace', lambda tier, seed: [
    model('Latent', dict(Batches=b, Sampless=s, Steps=k, Emit=True),
          invariants=['OwnPath', 'NonNegative', 'Agree', 'MeanBetween', 'StartDivergence', 'Emits'],
          properties=['Increasing'], pick=from_harness('C34', 'complete', n, 10 * n))
    for b, s, k, n in [('{1, 2}', '{2}', '{1, 2}', 6), ('{1}', '{2, 3}', '{1, 2, 3}', 6)]
    + ([] if tier == 'quick' else [('{2}', '{2}', '{3}', 2), ('{2}', '{3}', '{1}', 2)])],
      ['up to 2 members, 3 samples and 3 steps'])


# --------------------------------------------------------------------- C35
def _moving(cases, tier, seed):
  """First two flows which move across the shear, with drag; then any."""
  cases = some(96, 96)(cases, 'quick', 0)
  random.Random(seed).shuffle(cases)
  first = [next(c for c in cases if c['order'] == order and c['s'][1] != '0' and c['drag'] != '0') for order in (2, 3)]
  random.Random(seed).shuffle(first)
  cases = first + [c for c in cases if c not in first]
  return [dict(__complete__='complete', case=c, k=k) for k, c in enumerate(cases[:2 if tier == 'quick' else 12])]


check('C35', 'KolmogorovTrace', lambda tier, seed: [
    model('Kolmogorov', dict(Orders='{2, 3}', Dts='{"1/50", "1/25"}', Nus='{"1/1000", "1/500"}', Drags='{"0", "1/25", "1/2"}',
                             Steps=8 if tier == 'quick' else 40, Emit=True),
          invariants=['Mirrored', 'Galilean', 'Laminar', 'MeanFlow', 'Bounded', 'Emits'],
          pick=_moving)],
      ['12 by 12 elements of order 4, a few steps of training'])


# --------------------------------------------------------------------- C36
check('C36', 'SpectrumTrace', lambda tier, seed: [
    model('Spectrum', dict(MaxWaves=1 if tier == 'quick' else 2, Amplitudes='{1, 3}' if tier == 'quick' else '{2}', Emit=True),
          invariants=['Inv', 'Shells', 'Emits'], pick=from_harness('C36', 'complete', 20, 100))],
      ['grids of at most 13 points a side for energies, about 28 for the error'])


# --------------------------------------------------------------------- C37
check('C37', 'DistributedTrace', lambda tier, seed: [
    model('Distributed', dict(Meshes=m, NumDevices=d, Loads='{1}' if tier == 'quick' else '{1, 2, 3}', Emit=True),
          invariants=['CopiesAgree', 'Together', 'Weights', 'SameOperator', 'InTime', 'Solved', 'Emits'],
          pick=from_harness('C37', 'complete', n, 10 * n))
    for m, d, n in [('{"interval", "ring"}', 3, 12), ('{"square", "cylinder", "torus"}', 2, 24)]
    + ([] if tier == 'quick' else [('{"square", "cylinder"}', 3, 12), ('{"torus"}', 4, 12)])],
      ['devices are host CPU devices emulated by XLA', 'up to 4 devices and 18 elements'])


# --------------------------------------------------------------------- C38
check('C38', 'AdjointTrace', lambda tier, seed: [
    model('Adjoint', dict(Meshes=m, NumDevices=d, MaxLength=l, Seeds='{1, 2}' if tier == 'quick' else '{1, 2, 3}', Emit=True),
          invariants=['Invariant', 'Agree', 'Tangent', 'Emits'],
          pick=from_harness('C38', 'complete', n, 10 * n))
    for m, d, l, n in [('{"interval", "ring"}', 2, 3, 12), ('{"square", "cylinder"}', 2, 2, 12)]
    + ([] if tier == 'quick' else [('{"interval", "ring"}', 3, 3, 12), ('{"square"}', 2, 3, 12)])],
      ['devices are host CPU devices emulated by XLA', 'up to 4 devices and 9 elements'])


# --------------------------------------------------------------------- C39
check('C39', 'WorkflowTrace', lambda tier, seed: [
    model('Workflow', dict(Dims=d, Ns=n, Pts=p, MaxCalls=k, Mistakes=m, Emit=True),
          invariants=['Sizes', 'Homes', 'Ready', 'Same', 'Emits'], properties=['Kept'], workers=6,
          pick=from_harness('C39', 'complete', 120, 1200))
    for d, n, p, k, m in [('{1, 2}', '{2, 3}', '{2, 3}', 4, 1), ('{1}', '{2}', '{3}', 5, 1)]
    + ([] if tier == 'quick' else [('{1}', '{2}', '{3}', 6, 1), ('{2}', '{2}', '{3}', 5, 1), ('{3}', '{2}', '{2, 3}', 4, 2)])],
      ['uniform meshes, and files of quadrilaterals', 'a call that raises any exception refuses its arguments'])
