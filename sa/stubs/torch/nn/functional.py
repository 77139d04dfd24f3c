def linear(x, w, b=None):
    y = x @ w.T
    return y if b is None else y + b


def sigmoid(x):
    return x.sigmoid()


def silu(x):
    return x * x.sigmoid()


def softplus(x):
    raise NotImplementedError
