from _spec import array, fresh_name


def _mk(name):
    def f(shape, *a, **k):
        return array(fresh_name('objax.' + name), *shape)
    return f


kaiming_normal = _mk('kaiming_normal')
xavier_normal = _mk('xavier_normal')
orthogonal = _mk('orthogonal')
kaiming_truncated_normal = _mk('kaiming_truncated_normal')
xavier_truncated_normal = _mk('xavier_truncated_normal')
truncated_normal = _mk('truncated_normal')
identity = _mk('identity')
