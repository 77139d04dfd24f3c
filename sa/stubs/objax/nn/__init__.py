from objax.nn import init
from objax.nn.init import xavier_normal
from objax.variable import TrainVar, StateVar
from objax.module import Module, ModuleList
import jax.numpy as jn
import jax


class Linear(Module):
    def __init__(self, nin, nout, use_bias=True, w_init=xavier_normal):
        self.w_init = w_init
        self.b = TrainVar(jn.zeros(nout)) if use_bias else None
        self.w = TrainVar(w_init((nin, nout)))

    def __call__(self, x):
        y = jn.dot(x, self.w.value)
        if self.b is not None:
            y = y + self.b.value
        return y


class Sequential(ModuleList):
    def __call__(self, *args, **kwargs):
        xs = list(self._list)
        if not xs:
            return args if len(args) > 1 else args[0]
        for f in xs:
            args = f(*args)
            if not isinstance(args, tuple):
                args = (args,)
        return args[0] if len(args) == 1 else args


class BatchNorm0D(Module):
    def __init__(self, n, momentum=.999, eps=1e-6):
        self.n = n


class Dropout(Module):
    def __init__(self, keep):
        self.keep = keep
