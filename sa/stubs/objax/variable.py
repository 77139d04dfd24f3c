import fwparams
from _spec import array, fresh_name


class BaseVar(object):
    def __init__(self, tensor=None, reduce=None):
        self._value = tensor

    @property
    def value(self):
        return self._value

    @value.setter
    def value(self, v):
        self._value = v

    def assign(self, v):
        self._value = v


class TrainVar(BaseVar):
    def __init__(self, tensor, reduce=None):
        # a trainable variable takes every value, not only the initial one
        self._value = array(fresh_name('p_var'), *tensor.shape)
        fwparams.REG.append(['objax', 'var', tensor.shape, self._value, self])


class StateVar(BaseVar):
    pass


class TrainRef(BaseVar):
    pass


class StateRef(BaseVar):
    pass


class VarCollection(dict):
    pass
