import itertools


class Named(type):
    def __str__(self):
        return self.__name__

    def __repr__(self):
        return self.__name__


def export(fn):
    return fn


class Wrapper(object):
    def __init__(self, obj):
        self._wrapped_obj = obj

    def __getattr__(self, attr):
        return getattr(self._wrapped_obj, attr)

    def __len__(self):
        return len(self._wrapped_obj)


class imap(Wrapper):
    def __init__(self, func, loader):
        self._wrapped_obj = loader
        self._func = func

    def __iter__(self):
        return iter([self._func(x) for x in self._wrapped_obj])


class islice(Wrapper):
    def __init__(self, loader, *args):
        self._wrapped_obj = loader
        self._args = args

    def __iter__(self):
        return iter(itertools.islice(list(self._wrapped_obj), *self._args))


class Eval(object):
    def __init__(self, model, on=True):
        self.model = model
        self.on = on

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


class FixedNumpySeed(object):
    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


FixedPytorchSeed = FixedNumpySeed


def cosLr(num_epochs, cycles=1):
    return lambda e: 1
