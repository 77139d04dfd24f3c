from _native_torch import Tensor, to_torch, fresh_tensor, FloatTensor
from torch import nn, autograd, utils
from torch.nn import functional
import jax.numpy as _jnp

float32 = 'float32'
float64 = 'float64'
long = 'int64'


def device(x):
    return x


def from_numpy(a):
    import numpy as np
    if not isinstance(a, np.ndarray):
        raise TypeError('expected np.ndarray (got %s)' % type(a).__name__)
    return to_torch(a)


def as_tensor(a, dtype=None, device=None):
    return to_torch(a)


def tensor(a, dtype=None, device=None, requires_grad=False):
    return to_torch(a)


def randn(*shape, **k):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    return fresh_tensor('torch.randn', shape)


rand = randn


def zeros(*shape, **k):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    return to_torch(_jnp.zeros(shape))


def ones(*shape, **k):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    return to_torch(_jnp.ones(shape))


def sigmoid(x):
    return x.sigmoid()


def matmul(a, b):
    return a @ b


def cat(xs, dim=0):
    return to_torch(_jnp.concatenate([x for x in xs], dim))


def manual_seed(s):
    return None


def einsum(eq, *xs):
    return to_torch(_jnp.einsum(eq, *xs))


class _Cuda(object):
    def is_available(self):
        return False


cuda = _Cuda()


class no_grad(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


FILES = {}


def save(obj, f, *a, **k):
    FILES[f] = obj


def load(f, *a, **k):
    if f not in FILES:
        raise FileNotFoundError(f)
    return FILES[f]
