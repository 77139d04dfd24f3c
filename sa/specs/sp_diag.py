"""The library's own measures of equivariance"""
from reflib import *
import emlp.reps.representation as rr
import emlp.groups as groups
import jax


SAMPLES = {}


def fed(self, N):
    """N group elements of the scenario's choice"""
    SAMPLES['asked'] = N
    gs = SAMPLES['gs']
    return jnp.stack([gs[i % len(gs)] for i in range(N)])


class SymG(Group):
    """a group with symbolic elements"""
    def __init__(self, d, tag='', orth=False):
        self.d = d
        self.tag = tag
        self.is_orthogonal = orth
        self.is_permutation = False
        self.args = (d, tag)

    def __repr__(self):
        return 'SymG' + str(self.d) + self.tag

    def __eq__(self, o):
        return repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


def rms(x):
    return jnp.sqrt(jnp.mean(x * jnp.conj(x)).real)


def measure(t1, t2, g):
    """root mean square difference over the sum of the root mean squares or the distance of g from 1"""
    return rms(t1 - t2), rms(t1) + rms(t2), rms(g - np.eye(g.shape[-1]))


def reference(W, ri, ro, gs):
    n = [ro.size(), ri.size()]
    Ws = jnp.moveaxis(W.reshape(n[0], n[1], -1), 2, 0)
    a, b = [], []
    for g in gs:
        A, B = ri.rho_dense(g), ro.rho_dense(g)
        a.append(jnp.stack([w @ A for w in Ws]))
        b.append(jnp.stack([B @ w for w in Ws]))
    return jnp.stack(a), jnp.stack(b)


def error_of(mk, kind, tier='quick'):
    dense()
    Group.samples = fed
    G = SymG(2)
    ri, ro = mk(G)
    g0 = array('g0', 2, 2)
    gs = [g0]
    SAMPLES['gs'] = gs
    n = ro.size() * ri.size()
    if kind == 'basis':
        W = array('W', n, 2)
    elif kind == 'flat':
        W = array('W', n)
    else:
        W = array('W', ro.size(), ri.size())
    ok, e = attempt('the error can be computed', lambda: rr.equivariance_error(W, ri, ro, G))
    if not ok:
        return
    a, b = reference(W, ri, ro, gs)
    t1, t2, t3 = measure(a, b, jnp.stack(gs))
    expect_eq('it is the relative error between W rho_in(g) and rho_out(g) W', e, t1 / jnp.maximum(jnp.maximum(t2, t3), 1e-7))


E_ = [('V -> V', lambda G: (V(G), V(G))), ('V -> V*', lambda G: (V(G), V(G).T)), ('V -> scalar', lambda G: (V(G), Scalar)), ('V+1 -> V', lambda G: (V(G) + Scalar, V(G))), ('V**2 -> V', lambda G: (V(G) ** 2, V(G))),
      ('V -> V**2', lambda G: (V(G), V(G) * V(G))), ('V* -> V+V*', lambda G: (V(G).T, V(G) + V(G).T))]
for nm_, mk_ in E_:
    for kind_ in ('matrix', 'flat', 'basis'):
        scenario('P23', name='equivariance_error %s (%s)' % (nm_, kind_))(lambda mk=mk_, k=kind_: error_of(mk, k))


# ---------------------------------------------------------------- it is zero for equivariant maps, and only then
def exact(G):
    """elements with rational entries: sin = 3/5, cos = 4/5 along each generator, and the discrete generators"""
    out = []
    for A in G.lie_algebra:
        A = mat_(A)
        A2 = A @ A
        if same(A2 @ A, -A) == 'proved':
            out.append(np.eye(G.d) + A * 3 / 5 + A2 * (1 - 4 / 5))
        elif same(A2 @ A, A) == 'proved':
            out.append(np.eye(G.d) + A * 3 / 4 + A2 * (5 / 4 - 1))
    return out + [mat_(h) for h in G.discrete_generators]


def mat_(x):
    return x.to_dense() if hasattr(x, 'to_dense') else jnp.asarray(x)


def decide(mk, W, zero):
    dense()
    Group.samples = fed
    G, ri, ro = mk()
    SAMPLES['gs'] = exact(G)
    ok, e = attempt('the error can be computed', lambda: rr.equivariance_error(W(), ri, ro, G))
    if not ok:
        return
    expect('a single number is reported', len(e.shape) == 0)
    if zero:
        expect_eq('the error of an equivariant map is zero', e, 0 * e)
    else:
        expect('the error of a map that is not equivariant is not zero', not_zero(e))


def not_zero(e):
    return same(e, 0 * e) != 'proved'


eye2, eye3 = lambda: np.eye(2), lambda: np.eye(3)
eps2 = lambda: np.array([[0., 1.], [-1., 0.]])
S_ = lambda n: array('s', n)


def sym_outer():
    """v v^T - trace"""
    return jnp.eye(4)


for nm_, mk_, W_, zero_ in (
        ('identity of SO(3)', lambda: (groups.SO(3), V(groups.SO(3)), V(groups.SO(3))), lambda: scalar('c') * np.eye(3), True),
        ('rotations of the plane', lambda: (groups.SO(2), V(groups.SO(2)), V(groups.SO(2))), lambda: scalar('a') * np.eye(2) + scalar('b') * eps2(), True),
        ('rotations of the plane under reflections', lambda: (groups.O(2), V(groups.O(2)), V(groups.O(2))), lambda: scalar('a') * np.eye(2) + scalar('b') * eps2(), False),
        ('any matrix for the trivial group', lambda: (groups.Trivial(2), V(groups.Trivial(2)), V(groups.Trivial(2))), lambda: array('W', 2, 2), None),
        ('any matrix for SO(2)', lambda: (groups.SO(2), V(groups.SO(2)), V(groups.SO(2))), lambda: array('W', 2, 2), False),
        ('circulant for Z(3)', lambda: (groups.Z(3), V(groups.Z(3)), V(groups.Z(3))), lambda: jnp.stack([jnp.stack([array('c', 3)[(i - j) % 3] for j in range(3)]) for i in range(3)]), True),
        ('circulant for S(3)', lambda: (groups.S(3), V(groups.S(3)), V(groups.S(3))), lambda: jnp.stack([jnp.stack([array('c', 3)[(i - j) % 3] for j in range(3)]) for i in range(3)]), False),
        ('sums and identity for S(3)', lambda: (groups.S(3), V(groups.S(3)), V(groups.S(3))), lambda: scalar('a') * np.eye(3) + scalar('b') * np.ones((3, 3)), True),
        ('metric of the boosts as a map to the dual', lambda: (groups.SO11p(), V(groups.SO11p()), V(groups.SO11p()).T), lambda: scalar('a') * np.diag(np.array([1., -1.])), True),
        ('metric of the boosts as a map to vectors', lambda: (groups.SO11p(), V(groups.SO11p()), V(groups.SO11p())), lambda: scalar('a') * np.diag(np.array([1., -1.])), False),
        ('invariant tensors of O(2)', lambda: (groups.O(2), Scalar, V(groups.O(2)) ** 2), lambda: scalar('a') * np.eye(2).reshape(4, 1), True),
        ('volume form of O(2)', lambda: (groups.O(2), Scalar, V(groups.O(2)) ** 2), lambda: scalar('a') * eps2().reshape(4, 1), False),
        ('volume form of SO(2)', lambda: (groups.SO(2), Scalar, V(groups.SO(2)) ** 2), lambda: scalar('a') * eps2().reshape(4, 1), True),
        ('basis of maps of SO(2)', lambda: (groups.SO(2), V(groups.SO(2)), V(groups.SO(2))), lambda: jnp.stack([np.eye(2).reshape(4), eps2().reshape(4)], 1), True),
        ('basis with one bad column', lambda: (groups.SO(2), V(groups.SO(2)), V(groups.SO(2))), lambda: jnp.stack([np.eye(2).reshape(4), np.ones(4)], 1), False)):
    if zero_ is not None:
        scenario('P23', name='error of ' + nm_)(lambda mk=mk_, W=W_, z=zero_: decide(mk, W, z))


@scenario('P23', name='scale of the error')
def scale():
    dense()
    for n, m in ((2, 3), (1, 4)):
        a, b, g = array('a', n, m), array('b', n, m), array('g', 2, 2)
        t1, t2, t3 = measure(a, b, g)
        expect_eq('relative to the larger of the operands and the distance to the identity', rr.scale_adjusted_rel_error(a, b, g), t1 / jnp.maximum(jnp.maximum(t2, t3), 1e-7))
        c, e = array('c', n, m, real=False), array('e', n, m, real=False)
        t1, t2, t3 = measure(c, e, g)
        expect_eq('also for complex operands', rr.scale_adjusted_rel_error(c, e, g), t1 / jnp.maximum(jnp.maximum(t2, t3), 1e-7))
        expect_eq('equal operands have no error', rr.scale_adjusted_rel_error(a, a, g), 0 * rr.scale_adjusted_rel_error(a, b, g))
