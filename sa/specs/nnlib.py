"""Uniform access to the four network backends."""
from reflib import *
import fwparams
import emlp.nn.objax as no
import emlp.nn.flax as nf
import emlp.nn.haiku as nh
import emlp.nn.pytorch as nt
import torch
from _native_torch import to_numpy
import haiku as hk
import flax
import objax
import jax

from emlp.reps.representation import Rep as _Rep


class Solutions(object):
    """summary of Rep.equivariant_basis (its contract is decided by P09): for every canonical representation an
    unknown orthonormal basis, the same one for equal representations, in the coordinates of the representation"""
    def __init__(self):
        self.known = []
        self.rank = None

    def of(self, rep):
        for r, q in self.known:
            if r == rep:
                return q
        n = rep.size()
        k = self.rank if self.rank is not None else dim(fresh_name('rank'))
        q = array(fresh_name('Q_' + str(rep)), n, k)
        self.known.append((rep, q))
        return q


SOL = Solutions()


def basis_summary(self):
    if self == Scalar:
        return jnp.ones((1, 1))
    canon, perm = self.canonicalize()
    return SOL.of(canon)[np.argsort(perm)]


_Rep.equivariant_basis = basis_summary


def concrete():
    dense()
    SOL.rank = 1


def jx(y):
    return to_numpy(y) if isinstance(y, torch.Tensor) else y


class Backend(object):
    def __init__(self, name, mod):
        self.name = name
        self.mod = mod

    def prepare(self, m, x):
        """callable on jax arrays"""
        if self.name == 'objax':
            return m
        if self.name == 'flax':
            p = m.init('key', x)
            return lambda z: m.apply(p, z)
        if self.name == 'haiku':
            t = hk.without_apply_rng(hk.transform(m))
            p = t.init('key', x)
            return lambda z: t.apply(p, z)
        return lambda z: jnp.asarray(jx(m(torch.as_tensor(z))))

    def gate(self, m):
        """the nonlinearity has no parameters: call it directly"""
        if self.name == 'torch':
            return lambda z: jnp.asarray(jx(m(torch.as_tensor(z))))
        if self.name == 'flax':
            return lambda z: m.apply({}, z)
        return m


BACKENDS = [Backend('objax', no), Backend('flax', nf), Backend('haiku', nh), Backend('torch', nt)]


def params():
    return [e[3] if len(e) < 5 else e[4].value for e in fwparams.REG]


def find(shape):
    """the last created parameter of that shape"""
    r = None
    for p in params():
        if len(p.shape) == len(shape) and all([a == b for a, b in zip(p.shape, shape)]):
            r = p
    return r
