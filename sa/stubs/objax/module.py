from objax.variable import BaseVar, VarCollection


def collect(x, scope, out):
    if isinstance(x, BaseVar):
        out[scope] = x
    elif isinstance(x, Module):
        for k, v in x.vars().items():
            out[scope + k] = v
    elif isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            if isinstance(y, (BaseVar, Module)):
                collect(y, scope + '[%d]' % i, out)


class Module(object):
    def vars(self, scope=''):
        out = {}
        for k, v in self.__dict__.items():
            if isinstance(v, (BaseVar, Module)):
                collect(v, scope + '(' + type(self).__name__ + ').' + k, out)
        return out


class ModuleList(Module):
    def __init__(self, xs=()):
        self._list = list(xs)

    def vars(self, scope=''):
        out = {}
        collect(self._list, scope, out)
        return out

    def __iter__(self):
        return iter(self._list)

    def __len__(self):
        return len(self._list)

    def __getitem__(self, i):
        return self._list[i]

    def append(self, x):
        self._list.append(x)


class Jit(Module):
    def __init__(self, f, vc=None, static_argnums=None):
        self.f = f
        self.vc = vc

    def __call__(self, *a):
        return self.f(*a)


class ForceArgs(Module):
    def __init__(self, module, **kw):
        self.module_ = module
        self.kw = kw

    def __call__(self, *a, **k):
        kk = dict(k)
        kk.update(self.kw)
        return self.module_(*a, **kk)


GRADS = []


class GradValues(Module):
    """gradient (unknown) and values of f with respect to the variables"""
    def __init__(self, f, variables, input_argnums=None):
        self.f = f
        self.variables = variables

    def __call__(self, *a, **k):
        from _spec import opaque, fresh_name
        v = self.f(*a, **k)
        g = opaque(fresh_name('grads'))
        GRADS.append((g, self, a, v))
        return g, [v]


Grad = GradValues


class Vectorize(Module):
    def __init__(self, f, vc=None, batch_axis=0):
        self.f = f
