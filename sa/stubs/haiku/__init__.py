import fwparams
import jax
from haiku import initializers

_stack = []
_frames = []


class Frame(object):
    def __init__(self, params):
        self.counts = {}
        self.params = params


class Module(object):
    def __init_subclass__(cls):
        if '__call__' in cls.__dict__:
            inner = cls.__dict__['__call__']

            def wrapped(self, *a, **k):
                _stack.append(self)
                try:
                    return inner(self, *a, **k)
                finally:
                    _stack.pop()
            cls.__call__ = wrapped

    def __init__(self, name=None):
        if not _frames:
            raise ValueError('All `hk.Module`s must be initialized inside an `hk.transform`.')
        base = name if name is not None else type(self).__name__
        fr = _frames[-1]
        n = fr.counts.get(base, 0)
        fr.counts[base] = n + 1
        self.module_name = base if n == 0 else '%s_%d' % (base, n)


def get_parameter(name, shape, dtype=None, init=None):
    fr = _frames[-1]
    key = (_stack[-1].module_name if _stack else '~', name)
    if key not in fr.params:
        fr.params[key] = fwparams.make('haiku', name, shape)
    v = fr.params[key]
    if tuple(v.shape) != tuple(shape):
        raise ValueError('%r with retrieved shape does not match shape' % (name,))
    return v


class Linear(Module):
    def __init__(self, output_size, with_bias=True, w_init=None, b_init=None, name=None):
        super().__init__(name)
        self.output_size = output_size
        self.with_bias = with_bias

    def __call__(self, x):
        w = get_parameter('w', (x.shape[-1], self.output_size))
        y = x @ w
        if self.with_bias:
            y = y + get_parameter('b', (self.output_size,))
        return y


class Sequential(Module):
    def __init__(self, layers, name=None):
        super().__init__(name)
        self.layers = tuple(layers)

    def __call__(self, x, *a, **k):
        for i, f in enumerate(self.layers):
            x = f(x, *a, **k) if i == 0 else f(x)
        return x


class Transformed(object):
    def __init__(self, f):
        self.f = f
        self.params = {}

    def run(self, a, k):
        _frames.append(Frame(self.params))
        try:
            return self.f(*a, **k)
        finally:
            _frames.pop()

    def init(self, rng, *a, **k):
        self.run(a, k)
        return self.params

    def apply(self, params, rng, *a, **k):
        return self.run(a, k)


class NoRng(Transformed):
    def apply(self, params, *a, **k):
        return self.run(a, k)


def transform(f, **k):
    return Transformed(f)


def without_apply_rng(t):
    n = NoRng(t.f)
    n.params = t.params
    return n
