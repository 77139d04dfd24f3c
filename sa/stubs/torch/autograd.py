from _spec import free_bool
from _native_torch import Tensor, in_function


class Ctx(object):
    def save_for_backward(self, *a):
        self.saved_tensors = a


class _Rec(object):
    def __init__(self):
        self.last = None
        self.all = []


rec = _Rec()


class Function(object):
    @classmethod
    def apply(cls, *args):
        ctx = Ctx()
        ctx.needs_input_grad = tuple([bool(rec_needs(args[i]) and (needs[0] != 'last' or i == len(args) - 1)) for i in range(len(args))])
        in_function(1)
        try:
            out = cls.forward(ctx, *args)
        finally:
            in_function(-1)
        rec.last = (cls, ctx, args, out)
        rec.all.append(rec.last)
        return out


needs = ['yes']


def rec_needs(a):
    if not isinstance(a, Tensor):
        return False
    if needs[0] in ('yes', 'last'):
        return True
    if needs[0] == 'no':
        return False
    return free_bool('requires_grad')


def backward(entry, *cts):
    """what autograd does with one applied function"""
    cls, ctx, args, out = entry
    in_function(1)
    try:
        r = cls.backward(ctx, *cts)
    finally:
        in_function(-1)
    return r if isinstance(r, tuple) else (r,)
