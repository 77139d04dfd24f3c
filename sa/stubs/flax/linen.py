import fwparams
import jax
import jax.numpy as jnp


class _Init(object):
    def __getattr__(self, name):
        if name in ('zeros', 'ones'):
            return name
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: name


initializers = _Init()


def compact(f):
    return f


class Module(object):
    def __init_subclass__(cls):
        pass

    def __init__(self, *args, **kw):
        names = []
        for c in type(self).__mro__[::-1]:
            for n in c.__dict__.get('__annotations__', {}):
                if n not in names:
                    names.append(n)
        if len(args) > len(names):
            raise TypeError('too many positional arguments for %s' % type(self).__name__)
        given = dict(zip(names, args))
        for k, v in kw.items():
            if k in ('name', 'parent'):
                continue
            if k not in names or k in given:
                raise TypeError('unexpected keyword argument %s' % k)
            given[k] = v
        for n in names:
            if n in given:
                setattr(self, n, given[n])
            elif not hasattr(type(self), n):
                raise TypeError('missing argument %s' % n)
        self._pcache = {}
        if hasattr(self, 'setup'):
            self.setup()

    def param(self, name, init, *args):
        if name not in self._pcache:
            if isinstance(init, str) or callable(init):
                shape = args[0] if args else ()
            self._pcache[name] = fwparams.make('flax', name, shape)
        v = self._pcache[name]
        if args and tuple(args[0]) != tuple(v.shape):
            raise ValueError('parameter shape changed')
        return v

    def variable(self, col, name, init, *a):
        raise NotImplementedError

    def init(self, rng, *a, **k):
        self(*a, **k)
        return {'params': self}

    def apply(self, params, *a, **k):
        return self(*a, **k)


class Dense(Module):
    features: int

    def __call__(self, x):
        w = self.param('kernel', 'lecun', (x.shape[-1], self.features))
        b = self.param('bias', 'zeros', (self.features,))
        return x @ w + b


def swish(x):
    return jax.nn.sigmoid(x) * x


def sigmoid(x):
    return jax.nn.sigmoid(x)


class Sequential(Module):
    layers: list

    def __call__(self, x):
        for f in self.layers:
            x = f(x)
        return x
