def TruncatedNormal(stddev=1., mean=0.):
    return 'TruncatedNormal'


def RandomNormal(stddev=1., mean=0.):
    return 'RandomNormal'


def VarianceScaling(*a, **k):
    return 'VarianceScaling'


def Constant(c):
    return 'Constant'
