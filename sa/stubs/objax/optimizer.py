class Adam(object):
    def __init__(self, vc, beta1=.9, beta2=.999, eps=1e-8):
        self.vc = vc
        self.calls = []

    def __call__(self, lr, grads, **k):
        self.calls.append((lr, grads))


class SGD(Adam):
    pass


class Momentum(Adam):
    pass
