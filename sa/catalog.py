"""Which specification modules and lints decide which property."""
CATALOG = {}


def prop(pid, specs=(), lints=(), min=1, rule='', assumptions=()):
    CATALOG[pid] = dict(specs=list(specs), lints=list(lints), min=min, rule=rule,
                        assumptions=list(assumptions))


prop('P01', ['sp_linops', 'sp_linops2', 'sp_linops3'], min=20, rule='Lazy operator views (dense, vector product, matrix product, '
     'algebraic combinators) have identical normal forms.')
prop('P02', ['sp_linops', 'sp_linops2', 'sp_linops3'], min=20, rule='Transposed and adjoint views have the normal form of the '
     '(conjugate) transpose of the dense view.')
prop('P03', ['sp_linops'], min=4, rule='inverse-transpose views have the normal form of the inverse transpose.')

prop('P04', ['sp_reps', 'sp_deep'], min=20, rule='rho of composed representations is the block diagonal / Kronecker reference in the order the user wrote.')
prop('P05', ['sp_reps', 'sp_deep'], min=20, rule='drho of composed representations is the derivative (Leibniz) reference in the order the user wrote.')
prop('P06', ['sp_solver', 'sp_deep'], min=20, rule='Duals act by the inverse transpose and minus the transpose; maps R1>>R2 act by rho_out (x) dual(rho_in).')
prop('P09', ['sp_solver', 'sp_deep'], min=20, rule='The constraint matrix stacks rho(h)-1 and drho(A) for every generator; the solver returns its null space.')
prop('P10', ['sp_solver', 'sp_deep'], min=20, rule='Basis and projector of composed representations are the block diagonal and Kronecker compositions of those of the parts, in user order.')
prop('P07', ['sp_reps', 'sp_deep'], min=20, rule='canonicalisation returns a bijection relating the representation and its canonical form.')
prop('P11', ['sp_nn'], min=20, rule='For each of the four backends the linear layer denotes x (P_W vec w)^T + P_b b, with P_W the equivariant projector of rep_in>>rep_out and P_b that of rep_out, on vectors and batches.')
prop('P12', ['sp_nn'], min=20, rule='The output of BiLinear has the normal form of the quadratic reference map, slot by slot, and its bilinear weight assembly is equivariant.')
prop('P13', ['sp_nn'], min=20, rule='gated/gate_indices pair every part with its own gate, and GatedNonlinearity has the normal form x_i*sigmoid(gate_i).')
prop('P14', ['sp_net'], min=20, rule='Networks have the normal form of (or call, in order and with the documented representations, the layers of) the documented composition.')
prop('P15', ['sp_grad'], min=20, rule='Vector-Jacobian products returned through the bridge and by autodiff of the layers have the normal form of the formal derivative; no detach on the path from parameter to output.')
prop('P08', ['sp_cache'], min=20, rule='Expressions and groups the library takes for equal have one hash, size and action; the basis returned after any of the enumerated solve histories is the null space of the own constraints.')
prop('P16', ['sp_groups'], min=20, rule='The algebra generators of each named group satisfy the defining linear equations of its Lie algebra and have the rank of its dimension.')
prop('P17', ['sp_groups'], min=20, rule='The discrete generators of each named group generate, as matrices, the documented finite group or component group (orders by Schreier-Sims on the permutations obtained by interpreting the source).')
prop('P18', ['sp_groups'], min=20, rule='The orthogonal/permutation flags computed by Group.__init__ for the enumerated library and user groups are the truth about their generators, and representations inherit them.')
prop('P19', ['sp_groups'], min=20, rule='Generators of direct products and embeddings have the normal form A(x)1, 1(x)B and the block embedding, for symbolic generators.')
prop('P20', ['sp_groups'], min=20, rule='Samples have the normal form exp(sum z_i s_i A_i) times a word in powers of the discrete generators, for symbolic coefficients and generators and enumerated integer draws.')
prop('P21', ['sp_data'], min=20, rule='Labels computed from the transformed draws have the normal form of the transformed labels; puzzle states of different labels lie in different orbits (decided on the stabiliser chain).')
prop('P22', ['sp_alloc'], min=20, rule='The representation allocated for an enumerated number of channels has exactly that size and consists of tensors of the group with the documented multiplicities.')
prop('P23', ['sp_diag'], min=20, rule='equivariance_error has the normal form of the relative root mean square difference of W rho_in(g) and rho_out(g) W; it reduces to zero for symbolic equivariant maps.')
prop('P24', ['sp_iter'], min=10, rule='With the descent summarised by the losses it observes, the iterative solver returns all solutions or raises; the loss handed to the descent has the normal form of half the squared constraint violation.')
prop('P25', ['sp_pure'], min=100, rule='Every observable of the operands (action, size, order, hash, flags, generators, dense matrix, parameter values, array contents) has the normal form it had before the operation.')
prop('P26', ['sp_dyn'], min=60, rule='The velocity handed to the ODE solver has the normal form of J grad H, the solver is called with the given initial conditions and times, and the elements of the data sets are runs of consecutive points of one rollout with their times.')
prop('P27', ['sp_train'], min=60, rule='Losses, optimiser steps, metrics and rollouts of the trainers have the normal form of their definitions for unknown models and batches; the sequence of steps and the kept checkpoint are the documented ones on the enumerated histories.')
prop('P28', ['sp_exp'], min=200, rule='For unknown data sets and networks, the trainer built by each experiment has the representations, group, standardisation, loaders, learning rate and optimiser of its configuration; data are drawn and split while the seed is in force; trials train, store and return what they document.')
