"""Source of /verif/properties.jsonl and of the per-check text of MANIFEST.json (tools/gen.py)."""
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                   observe_at=list(observe))))


R = 'emlp/reps/representation.py'
PS = 'emlp/reps/product_sum_reps.py'
LO = 'emlp/reps/linear_operators.py'
LB = 'emlp/reps/linear_operator_base.py'
G = 'emlp/groups.py'

P('P01', 'Lazy linear operators agree with the matrix they stand for',
  'Every lazy linear operator (Kronecker product/sum, direct sum, concatenation, permutation, shift, swap, rotation, '
  'Jacobian, identity, and every sum, product, scaling, power and slice built from them) denotes one matrix: its '
  'dense form, its product with a vector, its product with a matrix and its shape all describe that same matrix, '
  'real or complex.',
  'inputs programs configurations', 'all operator expressions, all factor sizes, all entries, all operand vectors and matrices',
  'The tests only reach operators through whole models at a few sizes; agreement has to hold for every size, entry and nesting.',
  [LO, LB], [('LinearOperator', LB), ('LazyKron, LazyKronsum, LazyDirectSum, ConcatLazy, LazyPerm, LazyShift, SwapMatrix, Rot90, LazyJVP', LO)],
  ['to_dense()', '@'])
P('P02', 'Transpose and adjoint views are the (conjugate) transpose',
  'For every lazy linear operator A, A.T is the transpose and A.H the conjugate transpose of the matrix that A '
  'denotes, in the dense form and in products with vectors and matrices, for real and complex entries; A.T.T and A.H.H denote A again.',
  'inputs programs', 'all operator kinds and nestings, real and complex entries, all sizes',
  'Transposed products are hardly executed by the tests, and complex operators never.',
  [LO, LB], [('_adjoint/_rmatmat/_rmatvec of each operator', LO), ('_AdjointLinearOperator, _TransposedLinearOperator', LB)], ['A.T', 'A.H'])
P('P03', 'The inverse-transpose view is the inverse of the transpose',
  'Wherever a lazy linear operator offers an inverse transpose, the operator it returns denotes the inverse of the '
  'transpose of the original matrix; it never silently returns something else.',
  'inputs programs', 'all operators that offer invT, all invertible entries and sizes',
  'Tests use groups whose matrices are orthogonal, where the transpose bugs of an inverse are invisible.',
  [LO, LB], [('invT', LO + ', ' + LB)], ['invT()'])
P('P04', 'Group action on sums and products follows the order the user wrote',
  'For every representation expression (sums, repeated sums, tensor products, powers, nested in any order and over '
  'several groups) the matrix by which a group element acts is the block-diagonal respectively Kronecker composition '
  'of the parts, in the order in which the user wrote them; the size is the size of that matrix and the lazy form acts like the dense one.',
  'inputs programs configurations', 'all expressions, group elements, sizes, and hash orders of the representations',
  'The tests sample a few groups and expressions; internal reordering depends on hash order and on repeated parts.',
  [PS, R], [('SumRep/ProductRep/DirectProduct.rho and permutations', PS), ('Rep.__lt__ ordering', R)], ['rho', 'rho_dense', 'size'])
P('P05', 'The Lie algebra action is the derivative of the group action',
  'For every representation expression the infinitesimal action of a Lie algebra element is the derivative of the '
  'group action at the identity: block-diagonal on sums, the Kronecker sum on products (powers and several groups '
  'included), and minus the transpose on duals, in the order the user wrote.',
  'inputs programs', 'all expressions, algebra elements and sizes',
  'A wrong derivative only shows where a symmetry has continuous generators in the affected slot.',
  [PS, R], [('drho of SumRep, ProductRep, DirectProduct, Dual, Base', PS + ', ' + R)], ['drho', 'drho_dense'])
P('P07', 'Canonicalisation only reorders, bijectively and consistently',
  'Putting a representation in canonical form returns an equivalent representation and a permutation of its '
  'coordinates which is a bijection, such that the canonical action is the original action with its coordinates '
  'reordered by that permutation; canonicalising again changes nothing, and taking a vector of a sum apart puts each coordinate into exactly one chunk, whose copies transform like their part.',
  'inputs programs configurations', 'all expressions, sizes, and hash orders',
  'Which order is chosen depends on hashes and sizes; tests see one order each.',
  [PS, R], [('canonicalize, compute_canonical, rep_permutation', PS), ('SumRep.as_dict, __iter__, __len__', PS)], ['canonicalize()', 'as_dict(v)'])

P('P06', 'Duals act by the inverse transpose and maps by conjugation',
  'The dual of any representation acts by the inverse transpose of each group element and by minus the transpose of '
  'each algebra element, the double dual acts as the original, and the maps R1 >> R2 (or R2 << R1) act on vec(W) as '
  'rho_out W rho_in^-1; orthogonal and permutation groups are self dual, and a symbolic representation instantiated '
  'late with a group is the same as one built from instantiated parts.',
  'inputs programs configurations', 'all representation expressions, non-orthogonal and orthogonal groups, group elements, sizes',
  'Nearly all tested groups are orthogonal, where a representation and its dual coincide and a missing inverse or transpose is invisible.',
  [R, PS], [('Dual, Rep.T, __rshift__, __lshift__', R), ('T/dual of SumRep, ProductRep, DirectProduct, Deferred*', PS)], ['.T', '>>', '<<', 'rho_dense'])
P('P09', 'Equivariant bases solve exactly the constraints of the group',
  'The constraint matrix of a representation stacks rho(h)-1 for every discrete generator and the algebra action for '
  'every Lie algebra generator, and the equivariant basis of a base representation is an orthonormal basis of its '
  'whole null space (no constraint dropped, no solution lost, nothing added), whichever solver is chosen; the basis '
  'of the dual and of mixed products is computed for the right representation.',
  'inputs configurations', 'all groups (any mix and number of generators), representations, sizes and ranks',
  'Null spaces of arbitrary constraint sets, at all sizes, on either side of the solver switch; tests see a few groups.',
  [R], [('constraint_matrix, equivariant_basis, orthogonal_complement, krylov_constraint_solve', R)], ['equivariant_basis()'])
P('P10', 'Bases and projectors of composites follow the order the user wrote',
  'The equivariant basis and projector of a composite representation are, in the coordinates of the representation '
  'the user wrote, the direct sum respectively Kronecker composition of those of its parts, with every part in its own '
  'slot, every basis vector present once, and projector = Q Q^H, in lazy and dense form.',
  'inputs programs configurations', 'all sum/product/multi-group expressions, multiplicities, sizes, hash orders',
  'A misplaced slot only shows for particular orders, sizes and multiplicities of the parts.',
  [PS, R], [('SumRep/DirectProduct.equivariant_basis, equivariant_projector, lazy_direct_matmat', PS), ('Rep.equivariant_basis, equivariant_projector', R)],
  ['equivariant_basis()', 'equivariant_projector()'])

NO, NF, NH, NT = ('emlp/nn/%s.py' % x for x in ('objax', 'flax', 'haiku', 'pytorch'))
P('P11', 'Linear layers apply the projected weight and bias, in every backend',
  'For every pair of input and output representation, and whatever values the free parameters take, the linear layer '
  'of each framework backend (objax, flax, haiku, pytorch) computes x W^T + b, where vec(W) is the projection of the free '
  'weight onto the equivariant maps rep_in >> rep_out and b the projection of the free bias onto the invariant vectors of rep_out, '
  'for single vectors and batches alike; so the layer is equivariant for all parameter values.',
  'inputs programs configurations', 'all representations, all parameter values (not only initial or trained ones), batch sizes and backends',
  'Tests check approximate equivariance of a few networks at initialisation; an error that vanishes at initialisation, or lives in one backend, passes.',
  [NO, NF, NH, NT], [('Linear', NO), ('Linear/_Linear', NF), ('Linear/_Linear', NH), ('Linear, torchify_fn', NT)], ['layer outputs', 'parameters'])
P('P12', 'The bilinear layer is an equivariant quadratic map of its input',
  'The bilinear layer of every backend computes, for input representation R, the quadratic map y = 0.1 W(x) x whose '
  'coefficients W(x) are assembled from the parameters and from those parts of x that transform like maps R -> R_out; every part of the '
  'input enters in its own slot, and applying a group element to the input transforms the output by the same element, for all parameter '
  'values; parts of x with no matching map contribute nothing.',
  'inputs programs configurations', 'all representations (sums with repeated parts, products, non-sums), all parameters, inputs and backends',
  'The bilinear path is a small perturbation (factor 0.1) of a network, and a misplaced slot needs repeated or reordered parts to show.',
  [NO, NF, NH, NT], [('bilinear_weights, BiLinear', NO), ('BiLinear', NF + ', ' + NH + ', ' + NT)], ['BiLinear(...)(x)'])
P('P13', 'Gated nonlinearities scale each part by its own invariant gate',
  'The gated representation of R adds exactly one scalar for every part of R that is neither scalar nor permutation-like, and the gated nonlinearity maps '
  'every part x_i of its input to x_i * sigmoid(g_i), g_i being the entry for scalars and permutation parts and the dedicated '
  'gate scalar (shared by the whole part) otherwise; output coordinates are those of R, so the nonlinearity commutes with the group action.',
  'inputs programs configurations', 'all representations, orders and multiplicities of the parts, all inputs, batch sizes, backends, hash orders',
  'Pairing a gate with the wrong part keeps shapes and trains well; it only breaks equivariance for particular orders or multiplicities.',
  [NO, NF, NH, NT], [('gated, gate_indices, GatedNonlinearity', NO), ('GatedNonlinearity', NF + ', ' + NH + ', ' + NT)], ['gated', 'gate_indices', 'GatedNonlinearity(...)(x)'])
P('P14', 'Networks are the documented composition of their layers',
  'EMLP and its variants (EMLPode, EMLPH, MLP, MLPode, MLPH, Standardize) are, in every backend, the composition '
  'of the documented blocks linear + bilinear + gate with the hidden representation given by ch (size, representation, or list) '
  'and a final linear layer, each block mapping between consecutive representations of the chain from rep_in to rep_out; Hamiltonian variants '
  'return the scalar, ODE variants the vector field, and Standardize the network in standardised coordinates.',
  'inputs programs configurations', 'all representations, channel specifications, number of layers, inputs and backends',
  'Skipping, repeating or mis-wiring a block leaves shapes intact; the tests train one or two configurations.',
  [NO, NF, NH, NT], [('EMLPBlock, EMLP, EMLPode, EMLPH, MLP, Standardize', NO), ('EMLP', NF + ', ' + NH + ', ' + NT)], ['EMLP(...)(x)'])
P('P15', 'Gradients reach the free parameters and are those of the layer',
  'In every backend the derivative of a layer with respect to its parameters and inputs is the derivative of the function it '
  'computes: no projection, bias, gate or bilinear path is detached or frozen, the pytorch bridge returns to every argument its own '
  'vector-Jacobian product for any subset of arguments that need one, for nested arguments and for interleaved calls, '
  'and values are unchanged by crossing the bridge.',
  'inputs histories configurations', 'all parameter values, argument structures and subsets requiring gradients, interleavings of forward and backward passes',
  'Forward tests cannot see gradients; training converges with partly wrong gradients.',
  [NT, NO, NF, NH], [('torchify_fn', NT), ('Linear/BiLinear/GatedNonlinearity', NO)], ['backward()', 'torchify_fn'])
P('P08', 'Equal means interchangeable, and cached solutions are never mixed up',
  'Representations (and groups) compare equal only if they have the same hash, size, action and algebra action, building the '
  'same expression twice gives equal objects with equal hashes, groups that differ in class, parameters, or embedding are different, reordered products and sums share their '
  'canonical form, and the basis a representation reports solves its own constraints in its own coordinates, whatever '
  'was solved before in the same process.',
  'histories inputs', 'all pairs of expressions and groups, all orders in which representations are solved',
  'Cache poisoning needs two colliding problems solved in a particular order in one process; tests solve unrelated problems.',
  [R, PS, G], [('Rep.__eq__/__hash__, solcache', R), ('SumRep/ProductRep.__eq__/__hash__', PS), ('Group.__eq__/__hash__/__repr__, Embed', G)],
  ['==', 'hash()', 'equivariant_basis()'])
P('P16', 'Named Lie groups have exactly the Lie algebra they are named after',
  'For every library group and every size, the continuous generators are matrices of the documented dimension that '
  'satisfy the defining equations of the named Lie algebra (antisymmetric, traceless, antihermitian, metric or symplectic form preserving, ...) '
  'and span all of it; groups without continuous part have none, and the number of constraints is the number of generators.',
  'inputs configurations', 'all library groups and their size parameters',
  'A missing or redundant direction in the algebra yields too many or too few equivariant maps; tests look at equivariance, which a missing generator does not break.',
  [G], [('class SO, O, SL, GL, U, SU, Sp, SO13p, SO11p, Scaling, Embed ...', G)], ['lie_algebra', 'num_constraints()'])
P('P17', 'Discrete generators generate exactly the named group',
  'The discrete generators of every library group are elements of the named group and generate it (S_n of order n!, Z_n of order n, '
  'the cube and the Rubik\'s cube groups, Z_k x (Z_n x Z_n) acting regularly on a grid with orientations, C_k and D_k as rotations by 360/k degrees and a reflection), '
  'respectively reach exactly its connected components (O(n), Lorentz groups, parity, time reversal); connected groups have none.',
  'inputs configurations', 'all library groups and their size parameters',
  'Tests check equivariance under the generators themselves, so wrong generators remain self consistent.',
  [G], [('class S, Z, C, D, Cube, RubiksCube, ZksZnxZn, O, SO13, O13, O11, Parity, TimeReversal', G)], ['discrete_generators'])
P('P18', 'Orthogonality and permutation flags tell the truth about the group',
  'is_orthogonal holds for a group exactly if all its elements are orthogonal matrices and is_permutation exactly if they are permutation matrices, for library groups and for '
  'user groups with any mix of generators and declared flags, so that representations are identified with their duals, and gated as '
  'permutations, only when that is right.',
  'inputs configurations', 'all groups: any number and mix of continuous and discrete generators, dense or lazy, declared or derived flags',
  'A wrong flag silently treats a representation as self dual or elementwise nonlinearities as equivariant; it only shows for unusual generator mixes.',
  [G, R], [('Group.__init__', G), ('Rep.is_permutation, V.T', R)], ['is_orthogonal', 'is_permutation'])
P('P19', 'Direct products and embeddings act on the right slots',
  'The generators of G1 x G2 are those of G1 acting on the first tensor factor and those of G2 on the second, none lost and none added, and an '
  'embedding acts as the given group on the chosen coordinates and as the identity on all others.',
  'inputs programs', 'all pairs of groups, sizes, generator mixes and slices',
  'Tests build a product or embedding of one or two orthogonal groups.',
  [G], [('DirectProduct, Embed, SO2eR3, O2eR3, DkeR3, Group.__mul__', G)], ['lie_algebra', 'discrete_generators'])
P('P20', 'Samples are elements of the group',
  'Every element drawn by sample() or samples(N) is an element of the group: the exponential of a combination of the algebra generators (scaled by z_scale) '
  'times powers, also negative ones, of the discrete generators; samples(N) returns N matrices with their own noise and sample() one matrix.',
  'inputs histories', 'all groups, all outcomes of the random draws',
  'A sampler that leaves the group, or ignores some generators, weakens every equivariance test, including the ones in the test suite itself.',
  [G], [('samples, sample, noise2sample, noise2samples, matrix_power_simple', G)], ['sample()', 'samples(N)'])
P('P21', 'Data set labels transform with their features',
  'In every regression data set the labels are a function of the features of the same sample that is equivariant under the declared symmetry '
  'from rep_in to rep_out, and the statistics for standardising respect that symmetry; in every puzzle data set states of different labels are '
  'never related by the group and scrambled states keep the label of their orbit; augmentation moves each sample by its own group element and its prediction back.',
  'inputs histories configurations', 'all drawn features, all group elements, all scramblings, all models',
  'Tests draw a handful of samples and train on them; a label formula that is slightly off still trains.',
  ['emlp/datasets.py'], [('Inertia, O5Synthetic, ParticleInteraction', 'emlp/datasets.py'), ('InvertedCube, BrokenRubiksCube, UBedge_flip, ULBcorner_rot, LBface_swap', 'emlp/datasets.py'),
   ('GroupAugmentation', 'emlp/datasets.py')], ['dataset[i]', 'dataset.stats', 'default_aug(model)'])
P('P22', 'Channel allocation yields tensors of exactly the requested size',
  'For every group and every positive number of channels the representation allocated for it (uniform_rep, the hidden layers of every network given ch=n) '
  'has exactly that size, consists only of tensors of the group (scalars, vectors and duals, and their products), uses every rank that fits with lower ranks getting at least as many channels, '
  'splits each rank binomially between vectors and duals (no duals for orthogonal groups), and is returned in canonical order acting on each part separately.',
  'inputs configurations', 'channel numbers and groups (symbolic sizes are not in reach: the enumerated numbers and groups are listed in the evidence)',
  'Tests use two or three channel numbers; allocation recursion and rounding differ for nearly every number.',
  [NO, R, PS], [('uniform_rep, uniform_allocation, lambertW, binomial_allocation, multinomial_allocation', NO)], ['uniform_rep(ch,group)', 'EMLP(...).network'])
P('P23', 'The equivariance error measures the failure to commute',
  'The reported equivariance error of a map, flattened map or basis W from rep_in to rep_out is the root mean square of W rho_in(g) - rho_out(g) W relative to the size of both sides, '
  'over the sampled group elements, for every non-orthogonal group and real or complex entries; so it is zero for equivariant maps and not zero for others.',
  'inputs configurations', 'all maps and bases, representations, group elements, real and complex entries',
  'The measure is what the tests themselves rely on: if it is blind, every test passes.',
  [R], [('equivariance_error, scale_adjusted_rel_error, rel_err', R)], ['equivariance_error(W,rep_in,rep_out,G)', 'scale_adjusted_rel_error(t1,t2,g)'])
P('P24', 'The iterative solver returns all solutions or raises',
  'Whatever losses and singular values its gradient descent runs into, the iterative solver returns the directions with significant singular values of a converged run, enlarging the rank '
  'until fewer solutions than columns are found, minimising half the squared constraint violation (over complex matrices for complex constraints); a run that diverges is retried with smaller steps, and a run that does not converge, singular values without a gap, or a '
  'problem beyond the memory limit raise an error instead of returning a wrong basis.',
  'histories inputs', 'all sequences of losses, numbers of solutions, singular value spectra (the enumerated ones are listed in the evidence), real and complex constraints',
  'Convergence failures are rare events of the random start; tests only see converging runs.',
  [R], [('krylov_constraint_solve, krylov_constraint_solve_upto_r', R)], ['equivariant_basis() of large representations'])
P('P25', 'Operations do not modify what they are applied to',
  'No operation on representations, groups, operators or layers changes its operands: after composing, comparing, dualising, instantiating, canonicalising, solving, sampling, multiplying, or building and applying '
  'layers, every operand has the action, size, coordinate order, hash, flags, generators, matrix entries and parameter values it had before, and arrays handed in by the user keep their contents.',
  'histories inputs', 'all sequences of public operations on shared representations, groups, operators and arrays',
  'Aliased permutations, counters and cached arrays only go wrong in the second use of an object within one process; tests build everything afresh.',
  [PS, R, G, LO, NO], [('SumRep/ProductRep/DirectProduct.compute_canonical, canonicalize', PS), ('Group.samples, DirectProduct, Embed', G), ('operator constructors and products', LO), ('gated, Linear, BiLinear', NO)],
  ['any representation, group, operator or array used twice'])
HD = 'experiments/trainer/hamiltonian_dynamics.py'
P('P26', 'Hamiltonian data follow J grad H and come in consistent chunks',
  'Rollouts of a Hamiltonian system integrate the velocity J grad H (which conserves the energy), rollouts of a neural ODE its vector field, from the given initial conditions at the given times, as (batch, time, state); '
  'every element of a trajectory data set is the first state, the times and the states of chunk_len consecutive points dt apart of one rollout of its own system, whatever the lengths and dt; '
  'stored trajectories are only reused by a data set of the same system and arguments; the energy of the double spring pendulum is invariant under its declared symmetry and representation.',
  'inputs configurations histories', 'all Hamiltonians (the enumerated ones have symbolic coefficients), initial conditions, times, numbers of systems, chunk lengths and time steps (the enumerated ones are listed in the evidence)',
  'No test runs this code; wrong signs or shifted chunks still give data a network can be trained on.',
  [HD], [('unpack, pack, symplectic_form, hamiltonian_dynamics', HD), ('HamiltonianFlow, BHamiltonianFlow, BOdeFlow', HD), ('HamiltonianDataset, DoubleSpringPendulum, SHO', HD), ('rel_err, log_rollout_error, pred_and_gt', HD)],
  ['ds[i]', 'ds.H(z)', 'BHamiltonianFlow(H,z0,T)'])
TR = 'experiments/trainer/'
P('P27', 'Training steps follow the stated loss, metrics and schedule',
  'Each training step applies the optimiser once, with the learning rate scheduled for that point of training, to the gradient of the stated loss (mean squared error, cross entropy, rollout error) of that minibatch in training mode with respect to all variables of the model; '
  'every batch is used once per epoch in order, and training resumes where it stopped; metrics are averages of the stated error over the batches, of predictions outside training mode; the equivariance error compares f(gx) with g f(x) sample by sample; '
  'the checkpoint kept is that of the best logged value; batches keep their structure and entries on the way to the device.',
  'inputs histories configurations', 'all models, batches, numbers of epochs and batches, sequences of metric values (the enumerated ones are listed in the evidence)',
  'The trainer is not executed by any test; a wrong schedule, mode or average trains something else without failing.',
  [TR + 'trainer.py', TR + 'classifier.py', TR + 'model_trainer.py', TR + 'utils.py', HD], [('Trainer.train, step, logStuff, evalAverageMetrics', TR + 'trainer.py'), ('Regressor, Classifier, cross_entropy', TR + 'classifier.py'), ('RegressorPlus, equivariance_err', TR + 'model_trainer.py'), ('IntegratedDynamicsTrainer, IntegratedODETrainer', HD), ('minibatch_to, LoaderTo', TR + 'utils.py')],
  ['trainer.train(n)', 'trainer.metrics(loader)', 'equivariance_err(model,mb)'])
P('P28', 'Experiments train the configured model on data fixed by the seed',
  'Each experiment set-up generates its data set with the requested number of samples and splits it under the given seed only, independent of the state of the random generator before; trains the requested network, between the representations documented for '
  'that experiment, for the configured group or, without one, the symmetry of that data set (whatever was set up before); in standardised coordinates and augmented if asked for; with one loader per part of the split, of which only the training one is shuffled, in batches of at most the '
  'requested size; and with the requested learning rate. A trial trains for the configured number of epochs, stores the predictions for all test batches and returns the outcome of the best checkpoint, or the error if it is not strict.',
  'configurations histories', 'all data sets, networks, groups, seeds, sizes and sequences of set-ups (the enumerated ones are listed in the evidence)',
  'The experiments are not run by any test, and training works, on other data or with another symmetry, when the set-up is wrong.',
  ['experiments/hnn.py', 'experiments/neuralode.py', 'experiments/train_regression.py', HD], [('makeTrainer', 'experiments/hnn.py'), ('makeTrainer', 'experiments/neuralode.py'), ('makeTrainer', 'experiments/train_regression.py'), ('hnn_trial, ode_trial', HD)],
  ['makeTrainer(**cfg)', 'hnn_trial(makeTrainer)(cfg)'])
P('P29', 'Bases, samples and operators are accurate to their stated tolerances',
  'In the arithmetic of the machine the equivariant bases solve their constraints, samples satisfy the defining equations of their group, and lazy and dense operators agree, within the tolerances the library documents (1e-5 for bases).',
  'inputs', 'all representations, groups and floating point types',
  'Rounding errors grow with the size and conditioning of representations no test builds.',
  [R, G, LO], [('orthogonal_complement, krylov_constraint_solve', R), ('noise2sample', G)], ['equivariant_basis()', 'samples(N)'])
P('P30', 'The iterative solver and training converge at their documented rates',
  'The gradient descent of the iterative solver converges exponentially for every constraint, and training with the default settings lowers the loss.',
  'inputs schedules', 'all constraints, random starts, data sets and networks',
  'Depends on the conditioning of constraints and data that tests do not vary.',
  [R, TR + 'trainer.py'], [('krylov_constraint_solve_upto_r', R), ('Trainer.train', TR + 'trainer.py')], ['number of iterations', 'loss curves'])
