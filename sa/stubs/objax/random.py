from _spec import array, fresh_name


def normal(shape, mean=0, stddev=1, generator=None):
    return array(fresh_name('objax.normal'), *shape)


def uniform(shape=(), generator=None):
    return array(fresh_name('objax.uniform'), *shape)


def randint(shape, low, high, generator=None):
    return array(fresh_name('objax.randint'), *shape)


def truncated_normal(shape, stddev=1, lower=-2, upper=2, generator=None):
    return array(fresh_name('objax.truncated_normal'), *shape)
