"""Parameters created by the framework stand-ins, in order of creation: [kind, name, shape, value]."""
from _spec import array, fresh_name
REG = []


def make(kind, name, shape):
    shape = tuple(shape)
    v = array(fresh_name('p_' + name), *shape)
    REG.append([kind, name, shape, v])
    return v


def reset():
    del REG[:]
