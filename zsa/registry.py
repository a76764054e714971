"""The properties: statement, anchors, how each is decided.

`python3 -m zsa.gen` regenerates properties.jsonl and MANIFEST.json from it.
"""
D = 'zhusuan/distributions/'
F = 'zhusuan/framework/'
L = 'zhusuan/legacy/'
V = 'zhusuan/variational/'

TRUST = [
    'The analyser models TensorFlow 1.x graph semantics (op values, static '
    'shapes, dtypes, gradients, control dependencies) and the Python subset '
    'used by the package; it never imports or runs the package.',
    'Arithmetic is over the reals unless the rule says otherwise; rounding '
    'is out of scope.',
    'A construct the analyser cannot model makes the obligation "undecided": '
    'it is counted in the evidence and raises no alarm.',
]

PROPS = {}
NOT_CLAIMED = []


def P(id, fns, title, statement, over, quant, why, files, mechanism,
      technique, explain, note, state=(), assumes=(), floor=1, na=None):
    PROPS[id] = dict(
        title=title, statement=statement, over=over, quant=quant, why=why,
        files=files, mechanism=mechanism, state=list(state), fns=fns,
        technique=technique, explain=explain, note=note,
        assumes=TRUST + list(assumes), floor=floor, na=na)


P('C01', [('dist', 'c01')],
  'Gradients flow through samples exactly when they are reparameterized',
  'If a distribution is reparameterized, gradients of every sample reach '
  'every one of its continuous parameters; if it is constructed '
  'non-reparameterized, or cannot be reparameterized, no gradient flows from '
  'a sample to any parameter. A distribution that cannot be reparameterized '
  'never reports that it is.',
  ['inputs', 'configurations'],
  'every distribution, parameterisation, reparameterization flag, parameter '
  'shape and number of samples',
  'Tests compare the value of a handful of samples; a gradient leak (or a '
  'missing path) changes no sampled value and shows only in the gradient of '
  'particular parameters.',
  [D + 'base.py', D + 'univariate.py', D + 'multivariate.py'],
  [('stop_gradient on parameters or samples', '*._sample')],
  'gradient-flow (reachability) dataflow analysis on the abstract value '
  'graph of sample()',
  'Each distribution class is abstractly interpreted from source for every '
  'parameterisation, flag and symbolic parameter shape; on the value graph '
  'of sample() the rule asks whether a differentiable path leads to each '
  'parameter.',
  'Decides the path question for symbolic shapes of the listed ranks, i.e. '
  'for all sizes and values.')

P('C02', [('dist', 'c02'), ('framework', 'c02_user')],
  'Path-derivative mode drops only the score term of the log density',
  'With path derivatives enabled, the log density evaluated at a value has '
  'the same value as without, its gradient still flows through the value, '
  'and no gradient reaches the parameters directly; with path derivatives '
  'disabled, the gradient reaches every continuous parameter.',
  ['inputs', 'configurations'],
  'every distribution, parameterisation and flag combination, all parameter '
  'and value shapes',
  'Tests evaluate densities, whose values are the same in both modes; only '
  'the gradient graph differs.',
  [D + 'base.py', D + 'univariate.py', D + 'multivariate.py'],
  [('path_param', D + 'base.py:Distribution.path_param')],
  'gradient-flow dataflow analysis on the abstract value graph of '
  'log_prob()/prob()',
  'The value graph of log_prob is built with the flag on and off; the rule '
  'checks differentiable reachability of each parameter and of the value, '
  'and equality of the normal forms of both modes.',
  'All sizes and values for the listed symbolic ranks.')

P('C03', [('dist', 'c03')],
  'Every log density is the documented density formula',
  'For every distribution, the log probability it reports equals the '
  'logarithm of the textbook density (or mass) of the documented '
  'parameterisation, for every parameterisation it accepts and for '
  'parameters and values of any broadcastable shapes; the probability is its '
  'exponential. Integer-valued and floating-point inputs give the same '
  'formula.',
  ['inputs', 'configurations'],
  'all parameter and value tensors, all parameterisations and the flags that '
  'change the value (unnormalized inputs, group dimensions)',
  'Tests compare a few numbers at fixed shapes; an error in one '
  'parameterisation, broadcast pattern or dtype branch needs the particular '
  'input.',
  [D + 'univariate.py', D + 'multivariate.py', D + 'utils.py'],
  [('_log_prob / _prob', '*')],
  'abstract interpretation to an algebraic normal form, compared with an '
  'independent reference formula',
  'The source of _log_prob is abstractly interpreted on symbolic tensors; '
  'the resulting expression for one symbolic index is put in normal form and '
  'compared with the reference density formula of the specification table '
  '(zsa/distspec.py).',
  'Equality over the reals at every symbolic index; a mismatch that the '
  'normal form cannot settle and that agrees under numeric identity testing '
  'is counted undecided.',
  assumes=['Reference formulas in zsa/distspec.py are the documented '
           'densities.'])

P('C04', [('dist', 'c04')],
  'Samples follow the law whose density is reported',
  'The sampling rule of every distribution transforms independent noise (one '
  'independent draw per sample, batch element and coordinate) by a map whose '
  'push-forward is exactly the distribution of the reported log density, in '
  'every parameterisation and for reparameterized and non-reparameterized '
  'sampling alike; draws of different calls and of different objects are '
  'independent. Samples stay inside the support of the density.',
  ['inputs', 'configurations'],
  'all parameter tensors, all parameterisations, all sample shapes',
  'Sampling tests check shapes or loose moments at one parameter value; a '
  'wrong scale, a shared noise draw or a swapped parameter only shows '
  'statistically, for particular parameters.',
  [D + 'univariate.py', D + 'multivariate.py'],
  [('_sample', '*')],
  'abstract interpretation of sample() to a normal form over noise symbols, '
  'compared with a table of exact sampling laws',
  'sample() is interpreted with noise as typed symbols (standard normal, '
  'uniform, gamma, Poisson, categorical draws); the resulting map is matched '
  'with the exact transformations of the law, and the shape of each noise '
  'draw shows that draws are not shared.',
  'Exact push-forward for the recognised transformations; another correct '
  'sampling algorithm is undecided, not an alarm.')

P('C05', [('dist', 'c05')],
  'Shapes of samples and reported shapes are mutually consistent',
  'A sample drawn with n samples has shape [n] + batch shape + value shape '
  '(no leading axis when n is not given), and the log probability of a value '
  'has the broadcast shape of value and batch; the reported batch and value '
  'shapes, static and dynamic, agree with this for every combination of '
  'parameter shapes, including ones known only at run time.',
  ['inputs', 'configurations'],
  'all static, partially known and dynamic parameter shapes, n_samples '
  'omitted, a Python int or a tensor',
  'Shape tests sample a fixed table of concrete shapes.',
  [D + 'base.py', D + 'univariate.py', D + 'multivariate.py',
   D + 'utils.py'],
  [('_batch_shape/_value_shape/_get_*', '*'),
   ('sample static shape', D + 'base.py:Distribution.sample')],
  'symbolic shape inference by abstract interpretation',
  'Every distribution is interpreted with symbolic dimension sizes, unknown '
  'dimensions and unknown ranks; inferred shapes are compared symbolically.',
  'Symbolic sizes; ranks up to 5, plus unknown ranks.')

P('C06', [('dist', 'c06'), ('framework', 'c06_legacy')],
  'Group dimensions sum exactly the trailing batch axes of the log density',
  'With g group dimensions, the log probability is the ungrouped log '
  'probability summed over exactly the last g axes, and the probability is '
  'the product over them, whether g is a Python int or a tensor; a negative '
  'or non-integer g is rejected. This holds for distributions built '
  'directly, through a network and through the legacy interface.',
  ['inputs', 'configurations'],
  'all shapes, all group dimensions up to the rank, static or dynamic',
  'Tests use one or two shapes and mostly g in {0, 1}.',
  [D + 'base.py', D + 'univariate.py', D + 'multivariate.py',
   L + 'distributions/special.py'],
  [('log_prob/prob', D + 'base.py:Distribution')],
  'abstract interpretation to a normal form with symbolic reductions',
  'The grouped log density is compared, per symbolic index, with the sum of '
  'the ungrouped one over the trailing axes.',
  'Symbolic sizes; ranks up to 5.')

P('C07', [('dist', 'c07')],
  'Dtypes are preserved and mismatched dtypes are rejected',
  'Samples have exactly the dtype the distribution reports, which is the '
  'requested one (or the documented default); parameters, log densities and '
  'probabilities keep the parameters\' floating-point dtype, and no '
  'intermediate rounds to a lower precision. Parameters of mixed or '
  'unsupported dtypes, and unsupported requested dtypes, are rejected with a '
  'TypeError.',
  ['inputs', 'configurations'],
  'every distribution and every dtype of parameters, samples and values',
  'Tests cover some dtype pairs per distribution; the cross product of '
  'parameterisation, dtype and operation is not sampled.',
  [D + 'base.py', D + 'univariate.py', D + 'multivariate.py',
   D + 'utils.py'],
  [('assert_same_float_dtype etc.', D + 'utils.py')],
  'dtype inference by abstract interpretation (type-level check)',
  'Each distribution is interpreted for every dtype of parameters and '
  'samples; the dtype lattice of the value graph gives the result dtypes and '
  'lossy casts.', 'Complete over the finite dtype table.')

P('C08', [('dist', 'c08')],
  'Invalid distribution arguments are rejected, valid ones accepted',
  'Arguments that do not define a distribution are rejected with the '
  'documented error, at construction when the shapes are known and when the '
  'graph runs otherwise: parameters that cannot be broadcast, too low a '
  'rank, a value that cannot be broadcast against the batch, both or neither '
  'of two alternative parameters, or an ill-typed or non-positive count. '
  'Valid arguments, including shapes unknown until run time, are never '
  'rejected.',
  ['inputs', 'configurations'],
  'every distribution and parameter shape (static, partial, dynamic)',
  'Tests try a few bad shapes per class.',
  [D + 'univariate.py', D + 'multivariate.py', D + 'utils.py'],
  [('static checks and tf.assert_* guards', '*.__init__')],
  'path-sensitive abstract interpretation with a must-raise/must-guard rule',
  'For each invalid configuration the abstract run must end in the '
  'documented exception, or the run-time guard must dominate every use of '
  'the parameter; for valid ones no raise may be reached.',
  'Symbolic sizes over the listed rank patterns.')

P('C09', [('misc', 'c09')],
  'Log-space averages are exact and cannot overflow',
  'The log-mean-exp and log-sum-exp helpers return exactly the logarithm of '
  'the mean (sum) of exponentials over the given axes, with or without '
  'keeping them, for every shape and axis argument. They, and the '
  'importance-weighted objectives and estimators, never exponentiate an '
  'unshifted log weight, so that log weights of any magnitude give finite '
  'results. Likewise the log probabilities of the distributions '
  'parameterised by logits stay finite for finite logits of any magnitude: '
  'no exponential of an unbounded logit and no logarithm of a probability '
  'that underflows.',
  ['inputs', 'configurations'],
  'all tensors, axes (none, int, negative, list) and keepdims; log weights '
  'and logits of any magnitude',
  'Tests use moderate values, where the naive formula gives the same number, '
  'and two axis arguments.',
  ['zhusuan/utils.py', V + 'monte_carlo.py', V + 'inclusive_kl.py',
   D + 'univariate.py', D + 'multivariate.py'],
  [('subtracting the maximum', 'zhusuan/utils.py:log_mean_exp')],
  'abstract interpretation to a normal form; exp-argument boundedness '
  'analysis (difference-from-maximum domain)',
  'Helper results are compared with the reference expression for every axis '
  'argument; for every exp applied to the log weights, the rule shows the '
  'argument is a difference from a maximum over the same entries (hence at '
  'most 0). In log_prob of the logit distributions every exp, log and '
  'division that depends on the logits must have a bounded exponent or an '
  'argument bounded away from 0 (fused log-softmax, softplus and '
  'log-sum-exp operations are stable by construction).',
  'All values; ranks up to 3.')

P('C10', [('dist', 'c10')],
  'Sampling noise never hits a pole',
  'No realisation of the uniform noise used for sampling makes a sample '
  'infinite or undefined: logarithms and divisions in a sampling rule are '
  'never applied to noise that can be exactly 0 (or 1, where that is the '
  'pole).',
  ['inputs'],
  'every value the random generator can return, for every distribution that '
  'samples through uniform noise',
  'The offending draw has probability around 1e-7 per element; no sampling '
  'test hits it.',
  [D + 'utils.py', D + 'univariate.py', D + 'multivariate.py'],
  [('open_interval_standard_uniform', D + 'utils.py')],
  'interval analysis with open/closed end points on the value graph',
  'For every log, division or similar pole in the value graph of sample() '
  'whose argument is a function of noise only, the interval of the argument '
  'must exclude the pole.',
  'Sound for the interval domain; an unbounded interval is undecided.')

P('C11', [('mcmc', 'c11')],
  'HMC accepts or rejects exactly by the Metropolis-Hastings rule',
  'The acceptance rate of an HMC transition is min(1, exp(H_old - H_new)), '
  'with H the negative log joint plus kinetic energy at the start and end of '
  'the trajectory, and it is zero when the end state is not finite. Each '
  'chain is accepted with exactly that probability by its own uniform draw; '
  'on rejection every latent keeps its old value and the reported log '
  'probability is the old one, on acceptance all take the new ones.',
  ['inputs', 'configurations', 'histories'],
  'every log joint, set of latents, chain shape, step size, number of '
  'leapfrogs and adaptation state',
  'Tests run one fixed model with one latent; accepting with a slightly '
  'wrong rule changes only the distribution of long chains.',
  ['zhusuan/hmc.py'],
  [('get_acceptance_rate, HMC.sample', 'zhusuan/hmc.py')],
  'abstract interpretation to a normal form; dataflow from acceptance to '
  'latent updates',
  'HMC.sample is interpreted with an uninterpreted log joint; acceptance '
  'rate, comparison with the uniform draw and the conditional updates of all '
  'latents are compared with the reference.',
  'All models and values; 1 to 3 latents, chain ranks up to 2.')

P('C12', [('mcmc', 'c12')],
  'HMC proposals are volume-preserving leapfrog trajectories',
  'A proposal starts from the current latents and a fresh momentum drawn '
  'with the mass as variance, independently per chain, latent and '
  'coordinate, and follows the leapfrog integrator of the log joint: half '
  'momentum step, alternating full steps, half momentum step, with the given '
  'step size, mass and number of steps. Each latent\'s gradient is taken '
  'with respect to that latent at the current point of the trajectory.',
  ['inputs', 'configurations'],
  'every log joint, number of leapfrog steps, step size, mass, latents and '
  'chain shapes',
  'Tests use one latent and check a moment; an integrator that is not '
  'reversible biases samples by a small amount.',
  ['zhusuan/hmc.py'],
  [('leapfrog_integrator, random_momentum, hamiltonian',
    'zhusuan/hmc.py')],
  'abstract interpretation with loop unrolling/summarisation to a normal '
  'form, compared with a reference integrator',
  'The loop of the integrator is interpreted for symbolic step size and '
  'mass with 1..n concrete steps and as a loop summary; positions and '
  'momenta are compared with the reference recursion over an uninterpreted '
  'gradient.',
  'All models and values; step counts enumerated, body compared per '
  'iteration.')

P('C13', [('mcmc', 'c13')],
  'Adaptation follows its recursions and stops when switched off',
  'With step-size adaptation on, the step size follows dual averaging '
  'towards the target acceptance rate and the averaged step size is used '
  'when adaptation is off; with mass adaptation on, the mass is the inverse '
  'of the exponentially weighted variance of the chain and is used only '
  'after the collection period. When adaptation is '
  'switched off (statically or by the switch tensors) step size and mass are '
  'fixed, so the transition kernel no longer depends on the history.',
  ['histories', 'configurations'],
  'every sequence of acceptance rates and samples, every switch setting',
  'No test enables adaptation at all.',
  ['zhusuan/hmc.py'],
  [('StepsizeTuner, ExponentialWeightedMovingVariance',
    'zhusuan/hmc.py')],
  'abstract interpretation of the state-update equations to a normal form; '
  'effect analysis of variable writes under the switches',
  'One transition is interpreted from an arbitrary symbolic adaptation '
  'state; the new state is compared with the reference recursion, and the '
  'set of variables written is checked per switch setting.',
  'Inductive: one step from any state, hence every history.')

P('C14', [('mcmc', 'c14')],
  'Stochastic-gradient samplers apply their documented update equations',
  'One step of SGLD, PSGLD, SGHMC and SGNHT changes each latent and its '
  'auxiliary state by exactly the documented update equation, with noise of '
  'the documented variance drawn freshly and independently per latent and '
  'coordinate, for both integrator orders and for scheduled learning rates. '
  'Auxiliary statistics reported to the user are those of that step.',
  ['inputs', 'configurations', 'histories'],
  'every log joint, latents, learning rate, friction and configuration, from '
  'any auxiliary state',
  'Two of the four samplers are untested, and the others are tested by a '
  'loose moment of a long run.',
  ['zhusuan/sgmcmc.py'],
  [('_update of each sampler', 'zhusuan/sgmcmc.py')],
  'abstract interpretation to a normal form over noise symbols, compared '
  'with reference update equations',
  'sample() is interpreted with an uninterpreted log joint; the assigned '
  'value of every variable is compared with the reference equation.',
  'Inductive: one step from any state; 1 to 3 latents.')

P('C15', [('mcmc', 'c15')],
  'A sampling step is free of read/write races',
  'Within one sampling operation, whatever order the runtime executes its '
  'operations in, all latents and sampler state are read before they are '
  'overwritten (or, where the update uses the new value, after), so the '
  'result does not depend on scheduling. The values reported for the step '
  'are those of the same step.',
  ['schedules'],
  'every execution order of the operations compatible with data and control '
  'dependencies',
  'The runtime picks one schedule per run on small graphs; a racy order '
  'needs particular timing.',
  ['zhusuan/hmc.py', 'zhusuan/sgmcmc.py'],
  [('control dependencies around assignments', 'HMC.sample, SGMCMC.sample')],
  'happens-before (effect/ordering) analysis on the operation graph',
  'For each pair of a variable read and an assignment of the same variable '
  'reachable from one run of the returned operations, the rule shows an '
  'ordering by data or control dependency.',
  'All schedules; every configuration listed in the evidence.')

P('C16', [('mcmc', 'c16')],
  'Samplers evaluate the log joint of exactly the given variables',
  'Every evaluation of the log joint by a sampler receives exactly the '
  'observed values given by the user together with the current value of each '
  'latent under its own name; giving a model object is equivalent to giving '
  'its log-joint function. Latents that are not variables, and incompatible '
  'chain shapes, are rejected with the documented errors.',
  ['inputs', 'programs', 'configurations'],
  'every model, dictionary of observations and dictionary of latents',
  'Tests use one latent and no observations, where a mix-up of names cannot '
  'show.',
  ['zhusuan/hmc.py', 'zhusuan/sgmcmc.py'],
  [('merge of latents and observed', 'HMC.sample, SGMCMC.sample')],
  'abstract interpretation; provenance of the arguments of the uninterpreted '
  'log joint',
  'All calls of the log joint are intercepted in the abstract run; keys and '
  'provenance of values are compared with the user\'s dictionaries.',
  'All values; 1 to 3 latents in every insertion order.')

P('C17', [('framework', 'c17')],
  'The log joint is the sum of the local log densities of the net',
  'The log joint of a network is the sum, over its stochastic nodes and each '
  'exactly once, of the log density of the node\'s value (observed or '
  'sampled) given its parents, whatever the order of construction and '
  'queries; deterministic nodes contribute nothing. A user-supplied log '
  'joint function replaces it everywhere, and lookups of values and local '
  'log densities by name return those same tensors.',
  ['programs', 'histories'],
  'every network, observation set and interleaving of construction and '
  'queries',
  'Tests build two or three fixed networks and query once.',
  [F + 'bn.py', F + 'meta_bn.py'],
  [('log_joint, cond_log_prob, get', F + 'bn.py:BayesianNet')],
  'abstract interpretation of client programs over all construction/query '
  'histories up to a bound',
  'Client programs are generated for each history of node creation and '
  'queries and interpreted together with the package source; results are '
  'compared by value-graph identity or normal form.',
  'All values; histories up to 4 nodes and the listed query interleavings.')

P('C18', [('framework', 'c18')],
  'Node names are unique within a network',
  'Defining a second node with an existing name in one network, whatever the '
  'kinds of the two nodes, always raises an error and leaves the first node '
  'in place; nodes of the same name in different networks do not interfere.',
  ['programs', 'histories'],
  'every pair of node kinds and every network',
  'Tests repeat one stochastic node.',
  [F + 'bn.py', L + 'framework/bn.py'],
  [('duplicate check', F + 'bn.py:BayesianNet')],
  'abstract interpretation of client programs (must-raise rule)',
  'Every ordered pair of node-creating calls is interpreted with the same '
  'name and must end in an error.',
  'Complete over pairs of node kinds.')

P('C19', [('framework', 'c19')],
  'Observations replace samples, and only for the named node',
  'A node whose name is observed takes the observed value (converted to its '
  'dtype) and draws no sample; every other node takes a sample of its own '
  'distribution, drawn once and shared by all users. Observations of the '
  'wrong dtype are rejected, each observe call, whichever optional arguments '
  'the model was given, yields an independent network '
  'that shares only the model\'s variables, and observations never leak '
  'between networks or contexts, also after an error.',
  ['programs', 'histories', 'inputs'],
  'every model, set of observations and sequence of observe calls',
  'Tests observe one node once.',
  [F + 'bn.py', F + 'meta_bn.py', F + 'utils.py'],
  [('StochasticTensor.tensor', F + 'bn.py'),
   ('local context', F + 'utils.py:Context')],
  'abstract interpretation of client programs; typestate of the context '
  'stack',
  'Client programs with every subset of observations and sequences of '
  'observe calls (including failing ones) are interpreted with the package '
  'source.',
  'All values; bounded histories.')

P('C20', [('framework', 'c20')],
  'Network methods build exactly the distribution asked for',
  'Each node-creating method of a network, and each legacy node class, '
  'builds the distribution of that name with every argument given by the '
  'caller passed on unchanged to the parameter of the same meaning, with the '
  'same defaults as the distribution itself. Node attributes report that '
  'distribution\'s attributes.',
  ['programs', 'inputs'],
  'every node-creating method and every argument',
  'Tests call each method with one argument combination and check the type.',
  [F + 'bn.py', L + 'framework/bn.py', L + 'distributions/special.py'],
  [('bn.normal(...) etc.', F + 'bn.py')],
  'abstract interpretation; argument-forwarding parity analysis',
  'Each method is called with one argument at a time set to a distinctive '
  'symbolic value, and the resulting node is compared with the directly '
  'built distribution.',
  'Complete over methods and parameters.')

P('C21', [('framework', 'c21')],
  'A stochastic node behaves as its tensor in every operator',
  'Arithmetic, comparison, logical, indexing and conversion operations on a '
  'stochastic node, from the left or the right, give the operation on its '
  'value with the operands in the written order, and the node\'s static '
  'shape and dtype are those of that value; iteration and truth tests raise '
  'an error and nodes hash and compare by identity.',
  ['programs', 'inputs'],
  'every operator, operand kind and operand order',
  'Tests evaluate some operators with symmetric or fixed operands.',
  ['zhusuan/utils.py', F + 'bn.py'],
  [('TensorArithmeticMixin', 'zhusuan/utils.py')],
  'abstract interpretation of client expressions, compared by value-graph '
  'identity',
  'Every operator is applied to node/tensor operand pairs in both orders and '
  'compared with the same operator on the plain tensors.',
  'Complete over operators and operand kinds.')

P('C22', [('variational', 'c22')],
  'Variational objectives have their documented value',
  'The evidence lower bound is the mean over the sample axis of log joint '
  'minus the sum of the variational log densities, and the '
  'importance-weighted bound and the importance-sampling likelihood are the '
  'log mean of its exponential over that axis. The log joint is evaluated at '
  'exactly the observed values and the variational samples, and giving a '
  'variational network or the explicit dictionary of samples and log '
  'densities is equivalent.',
  ['inputs', 'programs', 'configurations'],
  'every model, set of latents, shape of the log densities and axis',
  'Tests compare numbers for one model with one latent through the legacy '
  'route.',
  [V + 'base.py', V + 'exclusive_kl.py', V + 'monte_carlo.py',
   'zhusuan/evaluation.py'],
  [('_objective', V + '*.py')],
  'abstract interpretation to a normal form, compared with reference '
  'formulas',
  'Objectives are interpreted with an uninterpreted log joint and symbolic '
  'log densities; the value at a symbolic index is compared with the '
  'reference.',
  'All models and values; 1 to 3 latents, ranks up to 3.')

P('C23', [('variational', 'c23')],
  'Gradient estimators have the documented gradient',
  'The surrogate cost of each gradient estimator (reparameterized, score '
  'function with or without moving-mean and learned baseline, adaptive '
  'importance sampling / wake-sleep, leave-one-out multi-sample) has, for '
  'every parameter, the gradient of its documented estimator: the '
  'multiplicative weights carry no gradient and every other path does. The '
  'moving mean follows its zero-debiased recursion and is used consistently whatever the '
  'execution order, and the baseline\'s own loss trains only the baseline.',
  ['inputs', 'programs', 'configurations', 'schedules'],
  'every model, set of latents, shapes, axis and option',
  'Tests compare gradients for one conjugate model and never enable variance '
  'reduction.',
  [V + 'exclusive_kl.py', V + 'inclusive_kl.py', V + 'monte_carlo.py'],
  [('sgvb, reinforce, importance, vimco', V + '*.py')],
  'abstract interpretation to a normal form with gradient barriers; ordering '
  'analysis of the moving-mean state',
  'The cost is put in a normal form in which gradient barriers are pushed to '
  'the leaves; its differentiable part is compared with the reference '
  'estimator.',
  'All models and values; 1 to 3 latents.')

P('C24', [('variational', 'c24')],
  'Ill-posed inference requests are rejected',
  'Building an objective or likelihood estimate raises the documented error '
  'when neither or both forms of the variational posterior are given, when '
  'the variational posterior is not a network, when a latent of the '
  'model has neither an observation nor a posterior, when a multi-sample '
  'bound has no sample axis, or when the leave-one-out estimator gets fewer '
  'than two samples. Well-posed requests are accepted.',
  ['programs', 'inputs'],
  'every model and combination of arguments, static or dynamic sample sizes',
  'Tests exercise two of these error paths.',
  [V + 'base.py', V + 'monte_carlo.py', 'zhusuan/evaluation.py'],
  [('argument checks', V + 'base.py:VariationalObjective.__init__')],
  'abstract interpretation with a must-raise rule',
  'Each ill-posed request must end in the documented error in the abstract '
  'run; each well-posed one must not raise.',
  'Complete over the listed combinations.')

P('C25', [('misc', 'c25')],
  'Annealed importance sampling computes the documented weights',
  'An annealed-importance-sampling run anneals from the prior (temperature '
  '0) to the posterior (temperature 1) through a strictly increasing '
  'schedule, targeting at each step the geometric mixture of prior and joint '
  'at that temperature. After adaptation it restarts from fresh prior '
  'samples; the log weight of a chain is the telescoping sum of log-density '
  'differences at consecutive temperatures, and the estimate is the mean of '
  'the stabilised log-mean-exp of the weights over chains.',
  ['inputs', 'histories', 'configurations'],
  'every model, proposal, number of temperatures and of adaptation steps, '
  'feed dictionary',
  'No test runs it at all.',
  ['zhusuan/evaluation.py'],
  [('AIS.run', 'zhusuan/evaluation.py')],
  'abstract interpretation of the run against a recording session stub (an '
  'interpreted client object), compared with the reference history',
  'The session is a client object that returns a fresh symbol per fetch and '
  'logs fetches and feeds; the history and the returned expression are '
  'compared with the reference, for each number of temperatures.',
  'All models and values; up to 5 temperatures on every route, and 30, 100 and 300 on one.')

P('C26', [('misc', 'c26')],
  'Flow transforms report the density of the transformed samples',
  'The normalizing flows return transformed samples together with the input '
  'log probability minus the log absolute determinant of the Jacobian of '
  'exactly the transformation applied, per sample, with shapes preserved, '
  'for every number of layers and however many flows were built before. The planar flow\'s parameters always satisfy '
  'its invertibility condition, the autoregressive network\'s outputs for a '
  'coordinate depend only on preceding coordinates, and inputs of '
  'inconsistent rank or shape are rejected. Parameters and gates of any '
  'magnitude cause no overflow of an exponential and no logarithm of a '
  'gate that underflows.',
  ['inputs', 'configurations'],
  'all samples, parameter values, leading shapes and layer counts',
  'Tests check one configuration\'s shape and, for one dimension, a '
  'determinant.',
  ['zhusuan/transform.py'],
  [('planar_normalizing_flow, inv_autoregressive_flow, linear_ar',
    'zhusuan/transform.py')],
  'abstract interpretation to a normal form; symbolic differentiation of the '
  'interpreted map; dependency analysis of the mask',
  'One layer and compositions are interpreted; the log-density correction is '
  'compared with the determinant derived from the interpreted '
  'transformation.',
  'All values; layer counts and ranks enumerated.')


P('C27', [('misc', 'c27')],
  'The effective sample size follows its autocorrelation formula',
  'The effective sample size of a chain of n values is n / (1 + 2 S), where S '
  'sums the estimated autocorrelations over the lags from one up to (and '
  'excluding) the first negative estimate; the estimate at lag t is '
  '1 - (W - c_t) / V with c_t the mean lagged product of the centred values, '
  'W the unbiased and V the biased variance, so the result is unaffected by '
  'shifting or rescaling the samples. For multi-dimensional samples exactly '
  'the given number of burn-in rows is dropped and the smallest size over the '
  'coordinates is returned.',
  ['inputs', 'configurations'],
  'every chain of values, number of coordinates and burn-in',
  'One test compares the result of two long random chains with loose bounds, '
  'which a wrong first lag, normalisation or coordinate passes.',
  ['zhusuan/diagnostics.py'],
  [('effective_sample_size, effective_sample_size_1d',
    'zhusuan/diagnostics.py')],
  'abstract interpretation to a piecewise normal form over the chain '
  'values (undecided branches joined), compared with the reference formula',
  'Both functions are interpreted on a symbolic sample array; the loop is '
  'unrolled, the data-dependent exit becomes a conditional normal form, and '
  'the result is compared with the reference on its whole domain.',
  'All values; chain lengths 3 to 5 (after burn-in), up to 3 coordinates. For '
  'lengths up to 320 (thorough: 1400) the extracted expression is compared '
  'with the formula exactly, at families of chains whose first negative '
  'estimate comes early, at a third and after half of the lags.')

P('C28', [('framework', 'c28')],
  'Backward dependencies are complete, unique and topologically ordered',
  'The operations returned for a set of seed tensors are exactly those the '
  'seeds depend on through data inputs and control inputs, without the '
  'dependencies that lead only through tensors treated as inputs. Each '
  'operation is returned once and after every operation it depends on, for '
  'any acyclic graph, any order of inputs and a single tensor or a sequence '
  'as seeds, and neither the graph nor the arguments are modified.',
  ['inputs'],
  'every operation graph, seed set and set of tensors treated as inputs',
  'Tests use a handful of small fixed graphs; the order depends on which '
  'operations share dependencies and in what order they are visited.',
  ['zhusuan/framework/utils.py'],
  [('get_backward_ops', 'zhusuan/framework/utils.py')],
  'abstract interpretation over enumerated client object graphs, with the '
  'returned order checked against the dependency relation',
  'The function is interpreted on abstract operation objects for enumerated '
  'graphs; set, multiplicity and order of the result are compared with '
  'reachability in the graph.',
  'All graphs of 3 operations, a pseudo-random family of graphs of 4 to 6 '
  'operations with multiple outputs and control edges, and chains, fans '
  'and ladders of up to 90 operations.')


def NA(id, title, statement, over, quant, why, files, mechanism, reason):
    P(id, [], title, statement, over, quant, why, files, mechanism, '', '',
      '', na=reason)


NA('C29',
   'Chains converge to the target distribution',
   'The empirical distribution of a chain produced by HMC or by the '
   'stochastic-gradient samplers (with step sizes decreasing as required) '
   'converges to the target distribution, for every target with the '
   'regularity the method assumes.',
   ['inputs', 'histories'],
   'every target density, initial state and random stream',
   'A test observes one finite chain of one target with loose bounds.',
   ['zhusuan/hmc.py', 'zhusuan/sgmcmc.py'],
   [('HMC.sample, SGMCMC.sample', 'zhusuan/hmc.py, zhusuan/sgmcmc.py')],
   'Convergence depends on the ergodicity of an arbitrary target and on '
   'infinitely long random trajectories, which no static argument about the '
   'source bounds; what the source does determine, the exact one-step '
   'transition, its volume preservation, reversal and freshness of noise, is '
   'claimed as C11 to C16.')

NA('C30',
   'Log densities are accurate to a few units in the last place',
   'For every value in the support and every valid parameter representable '
   'in the dtype, the computed log density differs from the exact one by at '
   'most a few units in the last place of its terms.',
   ['inputs'],
   'every floating-point value and parameter of every dtype',
   'Tests compare with scipy at a few points and absolute tolerances.',
   ['zhusuan/distributions/univariate.py',
    'zhusuan/distributions/multivariate.py'],
   [('_log_prob of each distribution', 'zhusuan/distributions')],
   'The error is dominated by the kernels of TensorFlow (lgamma, cholesky, '
   'matrix_triangular_solve, softplus), whose source and error bounds are '
   'not part of the repository, and by cancellation that depends on runtime '
   'values; finiteness and the absence of avoidable overflow and precision '
   'loss are claimed as C07, C09 and C10.')
