import fwparams
from torch.nn import functional
from _native_torch import fresh_tensor, to_torch


def Parameter(t, requires_grad=True):
    v = to_torch(t)
    fwparams.REG.append(['torch', 'param', tuple(v.shape), v])
    return v


class Module(object):
    def __init__(self):
        pass

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def to(self, *a, **k):
        return self

    def cpu(self):
        return self

    def eval(self):
        return self

    def train(self, mode=True):
        return self

    def parameters(self):
        out = []
        for v in self.__dict__.values():
            for e in fwparams.REG:
                if e[3] is v and e[0] == 'torch':
                    out.append(v)
            if isinstance(v, Module):
                out = out + list(v.parameters())
        return out

    def forward(self, *a, **k):
        raise NotImplementedError


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True):
        self.in_features = in_features
        self.out_features = out_features
        self.weight = Parameter(fresh_tensor('torch.weight', (out_features, in_features)))
        self.bias = Parameter(fresh_tensor('torch.bias', (out_features,))) if bias else None

    def forward(self, x):
        return functional.linear(x, self.weight, self.bias)


class Sequential(Module):
    def __init__(self, *args):
        self._list = list(args)

    def parameters(self):
        out = []
        for v in self._list:
            if isinstance(v, Module):
                out = out + list(v.parameters())
        return out

    def __iter__(self):
        return iter(self._list)

    def __len__(self):
        return len(self._list)

    def __getitem__(self, i):
        return self._list[i]

    def forward(self, x):
        for f in self._list:
            x = f(x)
        return x


class ModuleList(Sequential):
    pass


class Sigmoid(Module):
    def forward(self, x):
        return x.sigmoid()


class SiLU(Module):
    def forward(self, x):
        return x * x.sigmoid()
