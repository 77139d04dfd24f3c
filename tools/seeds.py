SEEDS = []


def seed(id, property, edits, needs, what, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo))


R = 'emlp/reps/representation.py'
PS = 'emlp/reps/product_sum_reps.py'
LO = 'emlp/reps/linear_operators.py'
LB = 'emlp/reps/linear_operator_base.py'
G = 'emlp/groups.py'
ACT = '''
import numpy as np
from emlp.reps import V, Scalar, T
from emlp.groups import *
def close(a, b, tol=1e-3):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, (a.shape, b.shape)
    assert np.abs(a - b).max() < tol * (1 + np.abs(b).max()), np.abs(a - b).max()
'''

seed('p04-product-axis-perm', 'P04', [(PS, 'order = np.moveaxis(np.moveaxis(order,i,0)[perm,...],0,i)',
     'order = np.moveaxis(np.moveaxis(order,i,0)[np.argsort(perm),...],0,i)')],
     'a product whose factor is itself a product written out of order, with a non involutive permutation',
     'the canonical order of nested products uses the inverse of the permutation of a factor: rho acts on other coordinates',
     ACT + """
A, B = SL(2), S(3)
g, h = np.asarray(A.sample()), np.asarray(B.sample())
gi = np.linalg.inv(g).T
def blk(*ms):
    n = sum(len(m) for m in ms); W = np.zeros((n, n)); i = 0
    for m in ms:
        W[i:i+len(m), i:i+len(m)] = m; i += len(m)
    return W
a, ad, b = V(A), V(A).T, V(B)
one = np.eye(1)
k = np.kron
M = {A: g, B: h}
for x, y, gx, gy in ((a, b, g, h), (b, a, h, g)):
    rep = (x * y) * (y * x)
    close(rep.rho_dense(M), k(k(gx, gy), k(gy, gx)), 1e-2)
    rep = x * (y * x)
    close(rep.rho_dense(M), k(gx, k(gy, gx)), 1e-2)
""")
seed('p05-dual-drho', 'P05', [(R, 'return -self.rep.drho(A).T', 'return -self.rep.drho(A)')],
     'the dual of a representation of a group that is not orthogonal, with a non symmetric algebra element',
     'the algebra action of duals misses a transpose: it is no longer the derivative of the group action',
     ACT + '''
G = SL(2)
A = np.array([[0., 1.], [0., 0.]])
close(V(G).T.drho_dense(A), -A.T)
''')
seed('p06-product-dual-perm', 'P06', [(PS, 'return self.__class__(*[rep.T for rep,c in self.reps.items() for _ in range(c)],extra_perm=self.perm)',
     'return self.__class__(*[rep.T for rep,c in self.reps.items() for _ in range(c)],extra_perm=None if self.canonical else self.perm)')],
     'the dual of a product of non-orthogonal parts of equal size, written against the canonical order',
     'the dual of the product forgets the order of its factors when that order is an involution',
     ACT + """
A, B = SL(2), Sp(1)
for a, b in ((A, B), (B, A)):
    M = {a: np.asarray(a.sample()), b: np.asarray(b.sample())}
    close((V(a) * V(b)).T.rho_dense(M), np.kron(np.linalg.inv(M[a]).T, np.linalg.inv(M[b]).T), 1e-2)
""")
seed('p09-complement-conj', 'P09', [(R, 'return VH[rank:].conj().T', 'return VH[rank:].T')],
     'a group with complex generators', 'the null space of complex constraints is returned conjugated',
     ACT + '''
from emlp.reps.representation import orthogonal_complement
C = np.array([[1., 1j, 0.], [0., 1., 2j]])
Q = np.asarray(orthogonal_complement(C))
assert Q.shape == (3, 1)
close(C @ Q, 0 * (C @ Q))
''')
seed('p10-dprod-basis', 'P10', [(PS, 'return LazyPerm(self.invperm)@canon_Q\n', 'return canon_Q if self.canonical else LazyPerm(self.invperm)@canon_Q\n')],
     'a product over two groups whose canonical permutation is its own inverse but not the identity (equal sizes, written against the canonical order)',
     'the equivariant basis comes back in canonical instead of user coordinates',
     ACT + '''
A, B = S(2), S(4)
for x, y in ((V(A) ** 2, V(B)), (V(B), V(A) ** 2)):
    rep = x * y
    Q = np.asarray(rep.equivariant_basis().to_dense())
    for _ in range(4):
        M = {A: A.sample(), B: B.sample()}
        close(np.asarray(rep.rho_dense(M)) @ Q, Q)
''')
NO, NF, NH, NT = ('emlp/nn/%s.py' % x for x in ('objax', 'flax', 'haiku', 'pytorch'))
LOPS = ACT + '''
import jax.numpy as jnp
from emlp.reps.linear_operators import *
'''

seed('p01-lift-kronsum', 'P01', [(LO, '            out += jnp.moveaxis(Mev_front,0,i)\n        return out.reshape(self.shape[0],ev.shape[-1])',
     '            out += jnp.moveaxis(Mev_front,i,0)\n        return out.reshape(self.shape[0],ev.shape[-1])')],
     'a Kronecker sum of at least three factors of equal size (for two factors the two axis moves are the same)',
     'the lazy product of a Kronecker sum permutes the axes of the third and later factors',
     LOPS + '''
r = np.random.RandomState(0)
for n in (2, 3, 4):
    K = LazyKronsum([jnp.asarray(r.randn(2, 2)) for _ in range(n)])
    v = r.randn(2 ** n)
    close(K @ v, np.asarray(K.to_dense()) @ v)
    w = r.randn(2 ** n, 3)
    close(K @ w, np.asarray(K.to_dense()) @ w)
''')
seed('p02-shift-adjoint', 'P02', [(LO, 'return LazyShift(self.shape[0],-self.k)', 'return LazyShift(self.shape[0],-1)')],
     'a shift by another amount than one', 'the transpose of a shift by k is a shift by -1',
     LOPS + '''
for k in (1, 2, 3):
    S_ = LazyShift(5, k)
    close(S_.T.to_dense(), np.asarray(S_.to_dense()).T)
    close(S_.T @ (S_ @ np.arange(5.)), np.arange(5.))
''')
seed('p03-perm-invt', 'P03', [(LO, '        return LazyPerm(np.argsort(self.perm))\n    def invT(self):\n        return self',
     '        return LazyPerm(np.argsort(self.perm))\n    def invT(self):\n        return self.T')],
     'a permutation that is not an involution', 'the inverse transpose of a permutation is its inverse',
     LOPS + '''
for p in ([1, 0, 2], [1, 2, 0], [2, 0, 3, 1]):
    P_ = LazyPerm(np.array(p))
    close(P_.invT().to_dense(), np.linalg.inv(np.asarray(P_.to_dense())).T)
''')
seed('p07-canon-memo', 'P07', [(PS, '        return self.__class__(counter=self.reps),self.perm\n\n    @staticmethod',
     '''        if type(self) is not ProductRep: return self.__class__(counter=self.reps),self.perm
        key = tuple(self.reps.items())
        if key not in ProductRep._canonical:
            ProductRep._canonical[key] = self.__class__(counter=self.reps),self.perm
        return ProductRep._canonical[key]
    _canonical = {}

    @staticmethod''')],
     'two products of the same parts in different orders (V (x) V* and V* (x) V of one group that is not orthogonal) in one process',
     'the canonical form is memoised without its permutation: the second product gets the reordering of the first',
     ACT + '''
for G in (SL(2), Sp(1), SL(3)):
    for rep in (V(G) * V(G).T, V(G).T * V(G), V(G) * V(G).T * V(G), V(G).T * V(G) * V(G)):
        c, perm = rep.canonicalize()
        g = np.asarray(G.sample())
        g = g / np.abs(g).max()
        r = np.asarray(rep.rho_dense(g))
        close(c.rho_dense(g), r[perm][:, perm], 1e-2)
''')
seed('p08-product-eq', 'P08', [(PS, 'isinstance(other,ProductRep) and self.reps==other.reps and (self.perm==other.perm).all()', 'isinstance(other,ProductRep) and self.reps==other.reps')],
     'two products of the same parts written in different orders', 'products acting on differently ordered coordinates compare equal',
     ACT + '''
A, B = S(2), S(3)
M = {A: np.eye(2)[[1, 0]], B: np.eye(3)[[1, 2, 0]]}
r1, r2 = V(A) * V(B), V(B) * V(A)
assert np.abs(np.asarray(r1.rho_dense(M)) - np.asarray(r2.rho_dense(M))).max() > .5
assert r1 != r2 and not (r1 == r2)
assert V(A) * V(B) == r1
''')
seed('p11-flax-weight-rep', 'P11', [(NF, '    rep_W = repin>>repout\n', '    rep_W = repin.T>>repout\n')],
     'the flax backend with an input representation that is not self dual', 'the weights of the flax layer are equivariant for the dual input representation',
     ACT + '''
import jax
import emlp.nn.flax as nn
G = Sp(1)
rin, rout = 2 * V(G) + Scalar, V(G) * V(G).T
layer = nn.Linear(rin, rout)
G = SL(2)
for rin, rout in ((2 * V(G) + Scalar, V(G)), (V(G) * V(G).T, V(G) * V(G))):
    layer = nn.Linear(rin, rout)
    x = np.random.RandomState(0).randn(rin.size()).astype(np.float32)
    p = layer.init(jax.random.PRNGKey(0), x)
    for _ in range(3):
        g = G.sample()
        close(layer.apply(p, rin.rho_dense(g) @ x), rout.rho_dense(g) @ layer.apply(p, x), 1e-2)
''')
seed('p12-flax-bilinear-swap', 'P12', [(NF, 'bilinear_weights(repout,repin)', 'bilinear_weights(repin,repout)')],
     'a flax bilinear layer whose input and output representations differ (inside EMLP blocks they are equal)', 'the bilinear layer maps the output representation to the input representation',
     ACT + '''
import jax
import emlp.nn.flax as nn
G = SO(3)
v, t = V(G), V(G) ** 2
for rin, rout in ((v + t, t + v), (v + t + Scalar, t + v), (v + t, v), (2 * v + t, t)):
    np.random.seed(0)
    layer = nn.BiLinear(rin, rout)
    x = np.random.RandomState(0).randn(rin.size()).astype(np.float32)
    p = layer.init(jax.random.PRNGKey(0), x)
    p = jax.tree_util.tree_map(lambda a: a * 0 + np.random.RandomState(3).randn(*a.shape).astype(np.float32), p)
    y = layer.apply(p, x)
    assert y.shape == (rout.size(),), (y.shape, rout.size())
    for _ in range(3):
        g = G.sample()
        close(layer.apply(p, rin.rho_dense(g) @ x), rout.rho_dense(g) @ y, 1e-2)
''')
seed('p13-gate-order', 'P13', [(NO, 'indices[perm[i:i+rep.size()]] = channels+num_nonscalars', 'indices[i:i+rep.size()] = channels+num_nonscalars')],
     'a sum written against the canonical order of its parts', 'gates are assigned in canonical order to coordinates in user order, so parts share or split their gates',
     ACT + '''
from emlp.nn import gate_indices, gated
G = SO(3)
v, t = V(G), V(G) ** 2
for parts in ((v, t), (t, v), (v, Scalar, t), (t, Scalar, v, v)):
    rep = sum(parts[1:], parts[0])
    ids = np.asarray(gate_indices(rep))
    i, seen = 0, set()
    for p in parts:
        n = p.size()
        sl = ids[i:i + n]
        if p == Scalar:
            assert list(sl) == [i]
        else:
            assert len(set(sl)) == 1 and sl[0] >= rep.size() and sl[0] not in seen, (parts, ids)
            seen.add(sl[0])
        i += n
''')
seed('p14-flax-ch-list', 'P14', [(NF, 'return Sequential(*[EMLPBlock(rin,rout) for rin,rout in zip(reps,reps[1:])],Linear(reps[-1],rep_out))',
     'return Sequential(*[EMLPBlock(rin,rout) for rin,rout in zip(reps,reps[1:num_layers+1])],Linear(reps[min(num_layers,len(reps)-1)],rep_out))')],
     'a list of hidden representations that is longer than num_layers', 'the flax EMLP silently drops hidden layers given explicitly',
     ACT + '''
import jax
import emlp.nn.flax as nn
G = S(2)
for chs in ([V, V], [V, 2 * V, V], [V, V, V, V], [V, V, V, V, V]):
    m = nn.EMLP(V, V, G, ch=chs)
    p = m.init(jax.random.PRNGKey(0), np.zeros(2, np.float32))
    leaves = [a.shape for a in jax.tree_util.tree_leaves(p) if a.ndim == 2]
    assert len(leaves) == len(chs) + 1, (len(chs), leaves)
''')
seed('p15-shared-vjp', 'P15', [(NT, 'y,ctx.vjp_fn = vjp(*to_jax(args))', 'y,torched_fn.vjp_fn = vjp(*to_jax(args))'), (NT, 'to_pytorch(ctx.vjp_fn(*to_jax(grad_outputs)))', 'to_pytorch(torched_fn.vjp_fn(*to_jax(grad_outputs)))')],
     'one bridged function called twice before the backward pass (weight sharing, two inputs through one layer)', 'the backward pass of the first call uses the linearisation of the last one',
     ACT + '''
import torch
from emlp.nn.pytorch import torchify_fn
f = torchify_fn(lambda a, b: a * b)
x, y = torch.tensor([1., 2.], requires_grad=True), torch.tensor([3., 4.], requires_grad=True)
z, w = torch.tensor([5., 6.], requires_grad=True), torch.tensor([7., 8.], requires_grad=True)
(f(x, y).sum() + 2 * f(z, w).sum()).backward()
for t, g in ((x, [3, 4]), (y, [1, 2]), (z, [14, 16]), (w, [10, 12])):
    close(t.grad.numpy(), np.array(g))
''')
seed('p15-first-grad', 'P15', [(NT, 'if any(ctx.needs_input_grad):', 'if ctx.needs_input_grad[0]:')],
     'a bridged function whose first argument needs no gradient (frozen parameters, differentiating with respect to the input)', 'the gradient of the other arguments fails or is missing',
     ACT + '''
import torch
from emlp.nn.pytorch import torchify_fn
f = torchify_fn(lambda a, b: a * b)
for need in ((True, True), (True, False), (False, True)):
    x, y = (torch.tensor(v, requires_grad=n) for v, n in zip(([1., 2.], [3., 4.]), need))
    f(x, y).sum().backward()
    for t, o, n in ((x, y, need[0]), (y, x, need[1])):
        assert (t.grad is None) == (not n)
        if n:
            close(t.grad.numpy(), o.detach().numpy())
''')
seed('p16-sp-sign', 'P16', [(G, 'self.lie_algebra[k,j,m+i] = 1', 'self.lie_algebra[k,j,m+i] = -1')],
     'the symplectic group Sp(m) with m at least 2 (for m=1 only a sign of a generator changes)', 'off diagonal generators are antisymmetric blocks: they do not preserve the symplectic form',
     ACT + '''
for m in (1, 2, 3):
    W = np.block([[np.zeros((m, m)), np.eye(m)], [-np.eye(m), np.zeros((m, m))]])
    As = np.asarray(Sp(m).lie_algebra)
    for A in As:
        close(A.T @ W + W @ A, 0 * A)
    assert np.linalg.matrix_rank(As.reshape(len(As), -1)) == m * (2 * m + 1)
''')
seed('p17-rot-90', 'P17', [(G, 'LazyKron([kshift,Rot90(n,4//k)])', 'LazyKron([kshift,Rot90(n,k//2)])')],
     'the group Z_k x (Z_n x Z_n), grids larger than one', 'the rotation turns the grid by 90 degrees for k=2 and by 180 for k=4: another group',
     ACT + '''
for k, n in ((2, 2), (2, 3), (4, 2), (4, 3)):
    G = ZksZnxZn(k, n)
    gens = [tuple(np.asarray(h.to_dense() @ np.arange(k * n * n)).astype(int)) for h in G.discrete_generators]
    seen, todo = {tuple(range(k * n * n))}, [tuple(range(k * n * n))]
    while todo:
        w = todo.pop()
        for p in gens:
            v = tuple(p[i] for i in w)
            if v not in seen:
                seen.add(v)
                todo.append(v)
    assert len(seen) == k * n * n, (k, n, len(seen))
    t = gens[2]
    want = np.rot90(np.arange(n * n).reshape(n, n), 4 // k).reshape(-1)
    assert list(np.array(t[:n * n]) % (n * n)) == list(want)
''')
seed('p18-orth-overwrite', 'P18', [(G, 'self.is_orthogonal &= rel_err(h_dense.transpose((0,2,1))@h_dense,jnp.eye(self.d))<1e-6', 'self.is_orthogonal = rel_err(h_dense.transpose((0,2,1))@h_dense,jnp.eye(self.d))<1e-6')],
     'a group with non orthogonal algebra generators and orthogonal discrete generators', 'such a group counts as orthogonal, and its representations as self dual',
     ACT + '''
for G in (SO13(), O13(), O11(), Lorentz()):
    assert not G.is_orthogonal, G
    assert V(G).T != V(G)
for G in (SO(3), O(3), S(3)):
    assert G.is_orthogonal
''')
seed('p19-product-gens', 'P19', [(G, '[LazyKronsum([0*I1,A2]) for A2 in G2.lie_algebra]', '[LazyKronsum([0*I1,A2]) for A1,A2 in zip(G1.lie_algebra,G2.lie_algebra)]' )],
     'a product of groups whose algebras have different dimensions (the first smaller than the second)', 'generators of the second factor are lost, so bases are too large',
     ACT + '''
for A, B in ((SO(2), SO(2)), (SO(2), SO(3)), (SO(3), SO(2)), (S(2), SO(3))):
    P = A * B
    assert len(P.lie_algebra) == len(A.lie_algebra) + len(B.lie_algebra), (A, B)
    assert len(P.discrete_generators) == len(A.discrete_generators) + len(B.discrete_generators)
''')
seed('p20-power-transpose', 'P20', [(G, 'jax.lax.cond(n<0,(jnp.linalg.inv(M),-n),body,(M,n),body)', 'jax.lax.cond(n<0,(M.T,-n),body,(M,n),body)')],
     'a discrete generator that is not orthogonal and a negative power', 'samples leave the group when the discrete generators are not orthogonal',
     ACT + '''
class Shear(Group):
    def __init__(self):
        self.discrete_generators = np.array([[[1., 1.], [0., 1.]]])
        super().__init__()
np.random.seed(0)
for g in np.asarray(Shear().samples(20)):
    close(g, np.array([[1., g[0, 1]], [0., 1.]]))
    assert abs(g[0, 1] - round(float(g[0, 1]))) < 1e-3
''')
DS = 'emlp/datasets.py'
OB = 'emlp/nn/objax.py'
HD = 'experiments/trainer/hamiltonian_dynamics.py'
TR = 'experiments/trainer/trainer.py'
MT = 'experiments/trainer/model_trainer.py'
EXP = '''
import collections, collections.abc, tempfile
collections.Iterable = collections.abc.Iterable
os.environ["HOME"] = tempfile.mkdtemp()
sys.path.insert(0, os.path.join(os.getcwd(), "experiments"))
''' + ACT
seed('p21-aug-transpose', 'P21', [(DS, 'rhout_inv = jnp.linalg.inv(self.rho_out(gs))', 'rhout_inv = jnp.swapaxes(self.rho_out(gs),-1,-2)')],
     'augmentation for a group that is not orthogonal, with an output that is not a scalar', 'predictions of augmented samples are moved back by the transpose instead of the inverse',
     ACT + '''
from emlp.datasets import GroupAugmentation
for G in (SO(3), Lorentz(), SL(2)):
    np.random.seed(1)
    m = GroupAugmentation(lambda x, training: x, V, V, G)
    x = np.random.randn(4, G.d)
    close(m(x, True), x, 1e-1)
    close(m(x, False), x)
''')
seed('p21-particle-index', 'P21', [(DS, '((p2@𝜂)[:,:,None]*(p4@𝜂)[:,None,:]', '(p2[:,:,None]*(p4@𝜂)[:,None,:]')],
     'particles with spatial momenta, moved by boosts or rotations', 'the labels of the particle data set are not Lorentz invariant',
     ACT + '''
from emlp import datasets
np.random.seed(0)
X = np.random.randn(8, 16)
G = Lorentz()
Y = []
gs = [np.eye(4)] + [np.asarray(g) for g in SO13p().samples(3)]
real = np.random.randn
for g in gs:
    Z = (X.reshape(8, 4, 4) @ g.T).reshape(8, 16)
    np.random.randn = lambda *a: 4 * Z
    Y.append(datasets.ParticleInteraction(8).Y)
np.random.randn = real
for y in Y[1:]:
    close(y, Y[0], 1e-2)
''')
seed('p22-leftover', 'P22', [(OB, 'ps = np.random.binomial(rank,.5,n_leftover)', 'ps = rank*np.random.binomial(1,.5,n_leftover)')],
     'groups that are not orthogonal and numbers of channels that leave over tensors of rank two or more', 'the tensors left over are all vectors or all duals, never mixed',
     ACT + '''
from emlp.nn.objax import binomial_allocation
np.random.seed(0)
G = SL(2)
mixed = 0
for _ in range(60):
    r = binomial_allocation(1, 2, G)
    mixed += (r == T(1, 1, G))
assert 10 < mixed < 50, mixed
''')
seed('p22-canonical', 'P22', [(OB, 'sum_rep,perm = sum_rep.canonicalize()', '_,perm = sum_rep.canonicalize()')],
     'allocations whose parts are not generated in canonical order (groups that are not orthogonal)', 'uniform_rep returns an order that is not canonical',
     ACT + '''
from emlp.nn import uniform_rep
np.random.seed(0)
for G in (SO(3), SL(2), SO13()):
    for ch in (5, 20, 60, 100, 150):
        r = uniform_rep(ch, G)
        assert r.size() == ch
        assert list(r.perm) == list(range(ch)), (G, ch)
''')
seed('p23-basis-axis', 'P23', [(R, 'W = W.reshape(repout.size(),repin.size(),-1).transpose((2,0,1))[None]', 'W = W.reshape(-1,repout.size(),repin.size())[None]')],
     'a basis with more than one column (single maps are not affected)', 'the equivariance error of an equivariant basis is not zero',
     ACT + '''
from emlp.reps.representation import equivariance_error
np.random.seed(0)
G = SO(3)
r = T(2)(G)
W = np.asarray(r.equivariant_basis())[:, 0].reshape(3, 3)
assert equivariance_error(W, V(G), V(G), G) < 1e-3
Q = np.asarray(T(4)(G).equivariant_basis())
assert equivariance_error(Q, r, r, G) < 1e-3
''')
seed('p24-silent', 'P24', [(R, 'else: raise ConvergenceError("Failed to converge.")', 'else: logging.warning("Failed to converge.")')],
     'constraints too badly conditioned for the descent to converge in 20000 steps', 'vectors that violate the constraints are returned as solutions without an error',
     ACT + '''
from emlp.reps.representation import krylov_constraint_solve_upto_r
from emlp.reps.linear_operators import lazify
np.random.seed(0)
C = np.diag([1., 1., 1e-3, 0.])
try:
    Q = np.asarray(krylov_constraint_solve_upto_r(lazify(C), 2, tol=1e-5))
except Exception:
    sys.exit(0)
assert np.abs(C @ Q).max() < 1e-4, np.abs(C @ Q).max()
''')
seed('p25-perm-shift', 'P25', [(PS, 'shifted_perms.append(n+perm)', 'perm += n\n            shifted_perms.append(perm)')],
     'a sum of sums (a sum used as a second operand keeps being used afterwards)', 'adding representations shifts the permutation of the operands in place',
     ACT + '''
A, B = SL(2), S(3)
for a, b in ((V(A), V(B)), (V(B), V(A))):
    s = a + b + a
    p = np.array(s.perm)
    ip = np.array(s.invperm)
    for t in (lambda: a + s, lambda: s + s, lambda: b + s):
        t()
        assert list(s.perm) == list(p) and list(s.invperm) == list(ip)
''')
seed('p26-cache-key', 'P26', [(HD, 'f"trajectories_{n_systems}_{chunk_len}_{dt}_{integration_time}.pz"', 'f"trajectories_{n_systems}_{chunk_len}_{integration_time}.pz"')],
     'two data sets with different time steps made one after the other', 'the trajectories of another time step are reused',
     EXP + '''
from trainer.hamiltonian_dynamics import SHO
np.random.seed(0)
for dt in (.2, .5):
    ds = SHO(3, 5, dt, 6)
    for i in range(3):
        (z0, ts), zt = ds[i]
        c, s = np.cos(ts), np.sin(ts)
        close(zt, np.stack([z0[0] * c + z0[1] * s, z0[1] * c - z0[0] * s], 1), 1e-2)
''')
seed('p26-gravity', 'P26', [(HD, 'pe += m1*g*x1[...,2]+m2*g*x2[...,2]', 'pe += m1*g*x1[...,2]+m2*g*x2[...,1]')],
     'states moved by a rotation about the vertical or a reflection', 'the energy of the double spring pendulum is not invariant under its symmetry',
     EXP + '''
from trainer.hamiltonian_dynamics import DoubleSpringPendulum
np.random.seed(0)
ds = DoubleSpringPendulum(2, 5, .2, 3)
z = np.random.randn(12)
rep = ds.rep_in(ds.symmetry)
for g in ds.symmetry.samples(5):
    close(ds.H(np.asarray(rep.rho_dense(g)) @ z), ds.H(z))
''')
seed('p26-time-reversed', 'P26', [(HD, 'return pack(p, -q)', 'return pack(-p, q)')],
     'rollouts compared with the motion forward in time (energies and shapes are unchanged)', 'the dynamics run backwards in time',
     EXP + '''
from trainer.hamiltonian_dynamics import hamiltonian_dynamics
H = lambda z: (z[:2] ** 2).sum() / 2 * 3 + (z[2:] ** 2).sum() / 2
z = np.array([1., 2., 5., 7.])
close(hamiltonian_dynamics(H, z, 0.), np.array([5., 7., -3., -6.]))
''')
seed('p27-schedule', 'P27', [(TR, 'self.step(self.epoch+i/steps_per_epoch,minibatch)', 'self.step(self.epoch+i//steps_per_epoch,minibatch)')],
     'a learning rate schedule that changes within an epoch', 'the learning rate only changes between epochs',
     EXP + '''
import objax, jax.numpy as jnp
from trainer.trainer import Trainer
class M(objax.Module):
    def __init__(self):
        self.w = objax.TrainVar(jnp.zeros(1))
class Tr(Trainer):
    def loss(self, mb):
        return (self.model.w.value * mb).sum()
    def logStuff(self, step, minibatch=None):
        pass
seen = []
t = Tr(M(), {'train': [np.ones(1)] * 4}, lr_sched=lambda e: seen.append(float(e)) or 1.)
t.train(2)
assert seen == [0., .25, .5, .75, 1., 1.25, 1.5, 1.75], seen
''')
seed('p27-metric-mode', 'P27', [(MT, 'jnp.mean((self.model.predict(mb[0])-mb[1])**2)', 'jnp.mean((self.model(mb[0],training=True)-mb[1])**2)')],
     'a model that behaves differently in training (augmentation, batch norm)', 'test errors are measured in training mode',
     EXP + '''
import objax, jax.numpy as jnp
from trainer.model_trainer import RegressorPlus
class M(objax.Module):
    def __init__(self):
        self.w = objax.TrainVar(jnp.ones(1))
    def __call__(self, x, training=True):
        return x * self.w.value + (100. if training else 0.)
class L(list):
    batch_size = 2
mb = (jnp.array([[1.], [2.]]), jnp.array([[3.], [5.]]))
t = RegressorPlus(M(), {'train': L([mb]), 'test': L([mb])})
close(t.metrics(t.dataloaders['test'])['MSE'], 6.5)
close(t.loss(mb), (98. ** 2 + 97. ** 2) / 2)
''')
seed('p27-best', 'P27', [(TR, 'best = (sign*self.logger.scalar_frame[self.early_stop_metric].values).max()', 'best = (sign*self.logger.scalar_frame[self.early_stop_metric].values)[0]')],
     'early stopping on a metric that gets better and then slightly worse again', 'the checkpoint kept is that of the last value better than the first one',
     EXP + '''
import objax, jax.numpy as jnp
from trainer.trainer import Trainer
class M(objax.Module):
    def __init__(self):
        self.w = objax.TrainVar(jnp.zeros(1))
vals = iter([5., 1., 3.])
class Tr(Trainer):
    def metrics(self, loader):
        return {'MSE': next(vals)}
class L(list):
    batch_size = 1
t = Tr(M(), {'train': L([1]), 'test': L([1])}, early_stop_metric='test_MSE', log_args={'no_print': True})
for e in range(3):
    t.epoch = e
    t.logStuff(e)
assert t.ckpt['epoch'] == 1, t.ckpt['epoch']
''')
TG = 'experiments/train_regression.py'
seed('p28-split-seed', 'P28', [(TG, '        base_dataset = dataset(ndata)\n        datasets = split_dataset(base_dataset,splits=split)', '        base_dataset = dataset(ndata)\n    datasets = split_dataset(base_dataset,splits=split)')],
     'two runs with the same seed in processes whose global random state differs', 'the train/val/test split is drawn outside the seeded context',
     EXP + '''
from train_regression import makeTrainer
from emlp.datasets import O5Synthetic
from emlp.nn import MLP
from emlp.groups import O
def run(state):
    np.random.seed(state)
    t = makeTrainer(dataset=O5Synthetic, network=MLP, ndata=40, split={'train': -1, 'val': 8, 'test': 8}, bs=50,
                    net_config={'num_layers': 1, 'ch': 8, 'group': O(5)}, trainer_config={'log_dir': tempfile.mkdtemp()})
    return np.concatenate([np.asarray(mb[0]) for mb in t.dataloaders['val']])
a, b = run(1), run(2)
assert a.shape == b.shape == (8, 10), (a.shape, b.shape)
close(np.sort(a, 0), np.sort(b, 0))
''')
seed('p28-val-shuffle', 'P28', [(TG, "shuffle=(k=='train')", "shuffle=(k!='test')")],
     'more than one validation batch, read twice', 'the validation set is shuffled anew whenever it is read',
     EXP + '''
from train_regression import makeTrainer
from emlp.datasets import O5Synthetic
from emlp.nn import MLP
from emlp.groups import O
t = makeTrainer(dataset=O5Synthetic, network=MLP, ndata=200, split={'train': -1, 'val': 80, 'test': 80}, bs=10,
                net_config={'num_layers': 1, 'ch': 8, 'group': O(5)}, trainer_config={'log_dir': tempfile.mkdtemp()})
rd = lambda k: np.concatenate([np.asarray(mb[0]) for mb in t.dataloaders[k]])
close(rd('val'), rd('val'))
close(rd('test'), rd('test'))
assert np.abs(rd('train') - rd('train')).max() > 0
''')
seed('p01-kron-swapaxes', 'P01', [(LO, '            ev = jnp.moveaxis(Mev_front,0,i)\n        return ev.reshape(self.shape[0],ev.shape[-1])',
                                   '            ev = jnp.swapaxes(Mev_front,0,i)\n        return ev.reshape(self.shape[0],ev.shape[-1])')],
     'Kronecker products of three or more factors, applied to a vector or a matrix', 'the axes of the result are in another order than those of the dense matrix',
     '''
import numpy as np, jax.numpy as jnp
from emlp.reps.linear_operators import LazyKron
rs = np.random.RandomState(0)
for ns in ([2, 3], [2, 3, 4], [2, 3, 2, 3]):
    Ms = [jnp.array(rs.randn(n, n)) for n in ns]
    D = LazyKron(Ms).to_dense()
    v = jnp.array(rs.randn(D.shape[1]))
    assert np.abs(np.asarray(LazyKron(Ms) @ v) - np.asarray(D @ v)).max() < 1e-3
''')
seed('p02-concat-adjoint', 'P02', [(LO, 'adjoint(self.Ms[i])@Vs[i] for i in range(len(self.Ms))', 'adjoint(self.Ms[i])@Vs[i] for i in range(-2,min(2,len(self.Ms)-2))')],
     'stacks of five or more constraints', 'the adjoint of a stack of constraints skips the middle ones',
     '''
import numpy as np, jax.numpy as jnp
from emlp.reps.linear_operators import ConcatLazy
rs = np.random.RandomState(0)
for k in (2, 3, 4, 5, 6):
    Ms = [jnp.array(rs.randn(2, 3)) for _ in range(k)]
    D = np.concatenate([np.asarray(m) for m in Ms], 0)
    w = jnp.array(rs.randn(2 * k))
    assert np.abs(np.asarray(ConcatLazy(Ms).H @ w) - D.T @ np.asarray(w)).max() < 1e-3, k
''')
