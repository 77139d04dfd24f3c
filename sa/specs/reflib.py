"""Reference semantics of representation expressions, in the user's order."""
from _spec import *
import jax.numpy as jnp
import numpy as np
from emlp.reps.representation import Rep, V, Vector, Scalar, Dual, T
from emlp.groups import Group


def kron(a, b):
    return jnp.einsum('ij,kl->ikjl', a, b).reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


def ksum(a, b):
    return kron(a, identity(b.shape[0])) + kron(identity(a.shape[0]), b)


def blocks(ms):
    tot_c = sum([x.shape[1] for x in ms])
    rows = []
    before = 0
    for x in ms:
        r = x.shape[0]
        c = x.shape[1]
        after = tot_c - before - c
        rows.append(jnp.concatenate([jnp.zeros((r, before)), x, jnp.zeros((r, after))], 1))
        before = before + c
    return jnp.concatenate(rows, 0)


class Custom(Rep):
    """a user supplied representation, known only through rho, drho and its size"""
    def __init__(self, G, tag, n, rank=1, is_perm=False):
        self.G = G
        self.tag = tag
        self.n = n
        self.rank = rank
        self.is_permutation = is_perm

    def __call__(self, G):
        return Custom(G, self.tag, self.n, self.rank)

    def size(self):
        return self.n

    def rho(self, M):
        return array('rho_' + self.tag, self.n, self.n)

    def drho(self, A):
        return array('drho_' + self.tag, self.n, self.n)

    def equivariant_basis(self):
        return array('Q_' + self.tag, self.n, self.rank)

    def __str__(self):
        return 'W' + self.tag


class Leaf(object):
    def __init__(self, rep):
        self.rep = rep

    def reps(self):
        return self.rep

    def rho(self, Ms):
        return densify_(self.rep.rho(Ms[self.rep.G])) if not self.rep is Scalar else jnp.eye(1)

    def drho(self, As):
        return densify_(self.rep.drho(As[self.rep.G])) if not self.rep is Scalar else jnp.zeros((1, 1))

    def proj(self):
        Q = self.rep.equivariant_basis()
        return Q @ jnp.conj(jnp.einsum('ij->ji', Q))


def densify_(x):
    return x


class Sum(object):
    def __init__(self, *xs):
        self.xs = xs

    def reps(self):
        r = self.xs[0].reps()
        for x in self.xs[1:]:
            r = r + x.reps()
        return r

    def rho(self, Ms):
        return blocks([x.rho(Ms) for x in self.xs])

    def drho(self, As):
        return blocks([x.drho(As) for x in self.xs])

    def proj(self):
        return blocks([x.proj() for x in self.xs])


class RSum(Sum):
    """a + (b + c)"""
    def reps(self):
        r = self.xs[-1].reps()
        for x in self.xs[:-1][::-1]:
            r = x.reps() + r
        return r


class Prod(object):
    def __init__(self, *xs):
        self.xs = xs

    def reps(self):
        r = self.xs[0].reps()
        for x in self.xs[1:]:
            r = r * x.reps()
        return r

    def rho(self, Ms):
        r = self.xs[0].rho(Ms)
        for x in self.xs[1:]:
            r = kron(r, x.rho(Ms))
        return r

    def drho(self, As):
        r = self.xs[0].drho(As)
        for x in self.xs[1:]:
            r = ksum(r, x.drho(As))
        return r

    def proj(self):
        r = self.xs[0].proj()
        for x in self.xs[1:]:
            r = kron(r, x.proj())
        return r


class RProd(Prod):
    def reps(self):
        r = self.xs[-1].reps()
        for x in self.xs[:-1][::-1]:
            r = x.reps() * r
        return r


class Times(object):
    """n * rep"""
    def __init__(self, n, x):
        self.n = n
        self.x = x

    def reps(self):
        return self.n * self.x.reps()

    def rho(self, Ms):
        return blocks([self.x.rho(Ms)] * self.n)

    def drho(self, Ms):
        return blocks([self.x.drho(Ms)] * self.n)

    def proj(self):
        return blocks([self.x.proj()] * self.n)


class RTimes(Times):
    """rep * n"""
    def reps(self):
        return self.x.reps() * self.n


class PlusInt(Sum):
    """rep + k: k further scalars"""
    def __init__(self, x, k, zero):
        self.x = x
        self.k = k
        self.xs = [x] + [zero] * k

    def reps(self):
        return self.x.reps() + self.k


class IntPlus(PlusInt):
    """k + rep"""
    def __init__(self, k, x, zero):
        self.x = x
        self.k = k
        self.xs = [zero] * k + [x]

    def reps(self):
        return self.k + self.x.reps()


class PySum(Sum):
    """sum([...])"""
    def reps(self):
        return sum([x.reps() for x in self.xs])


def dual_of(x):
    if isinstance(x, DualOf):
        return x.x
    if isinstance(x, Sum):
        return Sum(*[dual_of(y) for y in x.xs])
    if isinstance(x, Prod):
        return Prod(*[dual_of(y) for y in x.xs])
    return x if x.reps() is Scalar else DualOf(x)


class Hom(Prod):
    """x >> y: linear maps from x to y, flattened row by row"""
    def __init__(self, x, y):
        self.x = x
        self.y = y
        self.xs = [y, dual_of(x)]

    def reps(self):
        return self.x.reps() >> self.y.reps()


class Hom2(Hom):
    """y << x"""
    def reps(self):
        return self.y.reps() << self.x.reps()


class Pow(object):
    def __init__(self, x, n):
        self.n = n
        self.x = x

    def reps(self):
        return self.x.reps() ** self.n

    def rho(self, Ms):
        return Prod(*([self.x] * self.n)).rho(Ms)

    def drho(self, Ms):
        return Prod(*([self.x] * self.n)).drho(Ms)


class DualOf(object):
    def __init__(self, x):
        self.x = x

    def reps(self):
        return self.x.reps().T

    def rho(self, Ms):
        return jnp.linalg.inv(self.x.rho(Ms)).T

    def drho(self, As):
        return -self.x.drho(As).T

    def proj(self):
        Q = self.reps().equivariant_basis()
        return Q @ jnp.conj(jnp.einsum('ij->ji', Q))


class World(object):
    """leaf representations over unknown groups, for given base sizes (symbolic or instantiated)"""
    def __init__(self, d1, d2, d3, d4, na, nb, nc, ma, mb, ranks):
        class G1(Group):
            """an arbitrary non-orthogonal group"""
            is_orthogonal = False
            is_permutation = False
            d = d1
            lie_algebra = [array('G1.A0', d1, d1), array('G1.A1', d1, d1)]
            discrete_generators = [array('G1.h0', d1, d1)]

        class G2(Group):
            is_orthogonal = False
            is_permutation = False
            d = d2
            lie_algebra = [array('G2.A0', d2, d2)]
            discrete_generators = [array('G2.h0', d2, d2), array('G2.h1', d2, d2)]

        class G3(Group):
            """an arbitrary orthogonal group"""
            is_orthogonal = True
            is_permutation = False
            d = d3
            lie_algebra = [array('O3.A0', d3, d3)]
            discrete_generators = [array('O3.h0', d3, d3)]

        class GP(Group):
            """an arbitrary permutation group"""
            is_orthogonal = True
            is_permutation = True
            d = d4
            discrete_generators = [array('P.h0', d4, d4)]
        self.g1, self.g2, self.g3, self.gp = G1(), G2(), G3(), GP()
        gs = [self.g1, self.g2, self.g3, self.gp]
        self.Ms = {g: array('M%d' % (i + 1), g.d, g.d) for i, g in enumerate(gs)}
        self.Ns = {g: array('N%d' % (i + 1), g.d, g.d) for i, g in enumerate(gs)}
        self.v1 = Leaf(V(self.g1))
        self.v1d = DualOf(self.v1)
        self.v2 = Leaf(V(self.g2))
        self.v2d = DualOf(self.v2)
        self.v3 = Leaf(V(self.g3))
        self.vp = Leaf(V(self.gp))
        self.s0 = Leaf(Scalar)
        self.a = Leaf(Custom(self.g1, 'a', na, ranks['a']))
        self.b = Leaf(Custom(self.g1, 'b', nb, ranks['b']))
        self.c = Leaf(Custom(self.g1, 'c', nc, ranks['c']))
        self.a2 = Leaf(Custom(self.g1, 'a2', na, ranks['a2']))      # same size as a, another representation
        self.xa = Leaf(Custom(self.g2, 'xa', ma, ranks['xa']))
        self.xb = Leaf(Custom(self.g2, 'xb', mb, ranks['xb']))


SYM = World(dim('d1'), dim('d2'), dim('d3'), dim('d4'), dim('na'), dim('nb'), dim('nc'), dim('ma'), dim('mb'),
            {t: dim('r_' + t) for t in ('a', 'b', 'c', 'a2', 'xa', 'xb')})
I231 = World(2, 3, 2, 3, 2, 3, 1, 2, 3, {'a': 1, 'b': 2, 'c': 1, 'a2': 2, 'xa': 1, 'xb': 2})
I222 = World(2, 2, 2, 2, 2, 2, 2, 2, 2, {'a': 1, 'b': 1, 'c': 1, 'a2': 1, 'xa': 1, 'xb': 2})
I312 = World(3, 2, 1, 2, 3, 1, 2, 3, 2, {'a': 2, 'b': 1, 'c': 1, 'a2': 1, 'xa': 1, 'xb': 1})
