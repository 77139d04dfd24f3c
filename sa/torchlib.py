"""Tensor operations of the torch stand-in (sa/stubs/torch) in terms of the array model."""
from .core import *
from .arrays import *
from . import arrays
from .interp import Native, Opaque, _MISSING
from . import models
from .models import with_lib


INFN = [0]      # inside Function.forward/backward, where autograd does not look


def step(it, d):
    INFN[0] += int(d)


def attr(it, name):
    N = Native
    if name == 'to_numpy':
        return N(name, lambda it, a: with_lib(a, 'np'))
    if name == 'in_function':
        return N(name, step)
    if name in ('Tensor', 'FloatTensor'):
        return models.tcls(it, 'torch.Tensor')
    if name == 'to_torch':
        return N(name, lambda it, a: with_lib(models.A('jnp', a), 'torch'))
    if name == 'fresh_tensor':
        return N(name, lambda it, nm, shape: with_lib(models.fresh(it, nm, models.shape_arg(it, (shape,))
                                                      if shape != () else (), 'f', 'jnp'), 'torch'))
    return _MISSING


REAL = set("""T abs add add_ all any argmax argsort backward bmm clone contiguous cpu cuda data detach device dim div
double dtype einsum expand expand_as exp flatten float grad grad_fn half index_select int is_cuda is_leaf item log
long masked_fill matmul max mean min mm mul ndim neg new_zeros norm numel numpy permute pow prod relu
repeat requires_grad requires_grad_ reshape retain_grad round shape sigmoid sin size softmax sort split sqrt squeeze
std stride sub sum tanh to tolist trace transpose triu tril type unsqueeze unbind var view zero_ sigmoid_ chunk
gather scatter cumsum clamp clip cos copy_ diag diagonal fill_ mT mH H t view_as where swapaxes outer dot mv
__array__ __len__ is_floating_point is_complex conj real imag moveaxis""".split())


def tensor_attr(it, a, name):
    N = Native
    if name == 'detach':
        return N(name, lambda it: with_lib(models.detach(with_lib(a, 'jnp')), 'torch') if not INFN[0] else a)
    if name in ('cpu', 'cuda', 'to', 'float', 'contiguous', 'clone', 'requires_grad_', 'double'):
        return N(name, lambda it, *x, **k: a)
    if name == 'data':
        return with_lib(models.detach(with_lib(a, 'jnp')), 'torch') if not INFN[0] else a
    if name in ('sigmoid', 'tanh', 'relu', 'exp', 'abs', 'sqrt'):
        return N(name, lambda it: with_lib(models.unary(name)(it, with_lib(a, 'jnp')), 'torch'))
    if name == 'unsqueeze':
        return N(name, lambda it, d: models.NP['expand_dims'](it, 'torch', a, d))
    if name in ('matmul', 'mm', 'bmm', 'mv'):
        return N(name, lambda it, b: it.binop('MatMult', a, b))
    if name == 't':
        return N(name, lambda it: transpose(a))
    if name in ('dim',):
        return N(name, lambda it: a.ndim)
    if name == 'numel':
        return N(name, lambda it: a.size().norm())
    if name in REAL:
        raise Undecided('torch tensor attribute %s' % name)
    return _MISSING
