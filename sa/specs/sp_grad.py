from nnlib import *
import jax
from torch import autograd
from _native_torch import in_function
from emlp.nn.pytorch import torchify_fn, to_jax, to_pytorch
from emlp.reps.representation import bilinear_weights


# ------------------------------------------------------------------ P15: gradients cross the torch/jax border
def fns():
    n, m = dim('n'), dim('m')
    A = array('A', m, n)
    x, w = array('x', n), array('w', m)
    return [
        ('linear', lambda a: A @ a, (x,)),
        ('quadratic form', lambda a, b: (a * a).sum() * b, (x, w)),
        ('outer product', lambda a, b: jnp.einsum('i,j->ij', a, b), (x, w)),
        ('composition', lambda a: jax.nn.sigmoid(A @ a) * w, (x,)),
        ('batch', lambda a, b: a @ b.T, (array('X', dim('k'), n), A)),
        ('scalar output', lambda a: (a * a).sum(), (x,)),
        ('unused argument', lambda a, b: 2 * a, (x, w)),
        ('three arguments', lambda a, b, c: (a @ c).sum() * b, (array('X', dim('k'), n), w, x)),
    ]


def torchify(i, need):
    nm, f, args = fns()[i]
    autograd.needs[0] = need
    ok, g = attempt('torchify', lambda: torchify_fn(f))
    if not ok:
        return
    targs = [torch.as_tensor(a) for a in args]
    ok, y = attempt('call', lambda: g(*targs))
    if not ok:
        return
    ref = f(*args)
    expect('returns a torch tensor', isinstance(y, torch.Tensor))
    expect_eq('value', jx(y), ref)
    ok, y2 = attempt('call again', lambda: g(*targs))
    if ok:
        expect_eq('value of the second call', jx(y2), ref)
    if need == 'no':
        return
    if autograd.rec.last is None:
        undecided('the result comes from an autograd Function')
        return
    ct = array('ct', *ref.shape)
    back = jax.vjp(f, *args)[1](ct)
    first = autograd.rec.all[0]
    # a call in between must not disturb the gradients of an earlier one
    ok, r = attempt('backward', lambda: autograd.backward(first, torch.as_tensor(ct)))
    if not ok:
        return
    expect('one gradient per argument', len(r) == len(args), '%d gradients for %d arguments' % (len(r), len(args)))
    if len(r) != len(args):
        return
    for k in range(len(args)):
        expect('gradient %d is a torch tensor' % k, isinstance(r[k], torch.Tensor))
        expect_eq('gradient %d is the vector-Jacobian product' % k, jx(r[k]), back[k])


for i in range(8):
    for need in ('yes', 'no', 'last'):
        scenario('P15', name='torchify %d %s' % (i, need))(lambda i=i, need=need: torchify(i, need))


def two_calls():
    """gradients are taken at the arguments of their own call"""
    autograd.needs[0] = 'yes'
    n = dim('n')
    x, z = array('x', n), array('z', n)
    g = torchify_fn(lambda a: a * a * a)
    y1, y2 = g(torch.as_tensor(x)), g(torch.as_tensor(z))
    if len(autograd.rec.all) != 2:
        undecided('the result comes from an autograd Function')
        return
    ct = array('ct', n)
    ok, r = attempt('backward of the first call', lambda: autograd.backward(autograd.rec.all[0], torch.as_tensor(ct)))
    if ok:
        expect_eq('gradient of the first call', jx(r[0]), 3 * x * x * ct)
    ok, r = attempt('backward of the second call', lambda: autograd.backward(autograd.rec.all[1], torch.as_tensor(ct)))
    if ok:
        expect_eq('gradient of the second call', jx(r[0]), 3 * z * z * ct)


scenario('P15', name='two calls')(two_calls)


def two_functions():
    autograd.needs[0] = 'yes'
    n = dim('n')
    x = array('x', n)
    f, g = torchify_fn(lambda a: 2 * a), torchify_fn(lambda a: a * a)
    y = g(f(torch.as_tensor(x)))
    expect_eq('composition of two torchified functions', jx(y), 4 * x * x)
    if len(autograd.rec.all) != 2:
        undecided('the result comes from an autograd Function')
        return
    ct = array('ct', n)
    d2 = autograd.backward(autograd.rec.all[1], torch.as_tensor(ct))[0]
    d1 = autograd.backward(autograd.rec.all[0], d2)[0]
    expect_eq('chain rule', jx(d1), 8 * x * ct)


scenario('P15', name='two functions')(two_functions)


def inside(f):
    """as called by an autograd Function"""
    in_function(1)
    r = f()
    in_function(-1)
    return r


def trees():
    n = dim('n')
    x, w = array('x', n), array('w', dim('m'))
    tx, tw = torch.as_tensor(x), torch.as_tensor(w)
    for nm, t, ref in (('list', [tx, tw], [x, w]), ('tuple', (tx, (tw, tx)), (x, (w, x))), ('dict', {'a': tx, 'b': [tw]}, {'a': x, 'b': [w]})):
        ok, r = attempt('to_jax of a ' + nm, lambda: inside(lambda: to_jax(t)))
        if ok:
            expect_eq('structure to jax: ' + nm, flatten(r), flatten(ref))
            expect('types to jax: ' + nm, all([not isinstance(z, torch.Tensor) for z in flatten(r)]))
        ok, r = attempt('to_pytorch of a ' + nm, lambda: to_pytorch(ref))
        if ok:
            expect_eq('structure to torch: ' + nm, [jx(z) for z in flatten(r)], flatten(ref))
            expect('types to torch: ' + nm, all([isinstance(z, torch.Tensor) for z in flatten(r)]))
    ok, r = attempt('other leaves', lambda: (to_jax([tx, 3]), to_pytorch([x, 'name'])))
    if ok:
        expect('other leaves pass through', r[0][1] == 3 and r[1][1] == 'name')


def flatten(t):
    if isinstance(t, dict):
        return flatten([t[k] for k in sorted(t)])
    if isinstance(t, (list, tuple)):
        r = []
        for z in t:
            r = r + flatten(z)
        return r
    return [t]


scenario('P15', name='pytrees')(trees)


# every parameter and the input receive gradients: nothing on the path from them to the output is detached
def flows(be, what, mk, nin):
    pin_random('first')
    autograd.needs[0] = 'yes'
    fwparams.reset()
    ok, m = attempt('build', mk)
    if not ok:
        return
    x = array('x', nin)
    ok, f = attempt('prepare', lambda: be.prepare(m, x))
    if not ok:
        return
    ok, y = attempt('apply', lambda: f(x))
    if not ok:
        return
    expect('no value on the path to the output is cut off from differentiation', not cut_gradient(y))
    expect('the output depends on the input', mentions(y, x))
    used = [p for p in params() if mentions(y, p)]
    expect('the output depends on trainable parameters', len(used) > 0)
    if be.name == 'torch':
        for i in range(len(autograd.rec.all)):
            e = autograd.rec.all[i]
            ct = array(fresh_name('ct'), *e[3].shape)
            ok, r = attempt('backward of function %d' % i, lambda: autograd.backward(e, torch.as_tensor(ct)))
            if ok:
                expect('function %d has one gradient per argument' % i, len(r) == len(e[2]), str(len(r)))
                for k in range(min(len(r), len(e[2]))):
                    expect_eq('function %d: gradient %d has the shape of the argument' % (i, k),
                              list(r[k].shape), list(e[2][k].shape))


LAYERS = [
    ('Linear', lambda be, w: (lambda: be.mod.Linear(w.a.reps(), w.b.reps()), w.a.reps().size())),
    ('BiLinear', lambda be, w: (lambda: be.mod.BiLinear(Sum(w.b, w.s0, w.c).reps(), w.b.reps()), Sum(w.b, w.s0, w.c).reps().size())),
    ('GatedNonlinearity', lambda be, w: (lambda: be.mod.GatedNonlinearity(w.b.reps()), w.b.reps().size() + 1)),
    ('EMLPBlock', lambda be, w: (lambda: be.mod.EMLPBlock(w.s0.reps(), Sum(w.c, w.s0).reps()), 1)),
]
for be in BACKENDS:
    for nm, f in LAYERS[:2] + LAYERS[3:]:
        scenario('P15', name='%s %s' % (be.name, nm))(lambda be=be, f=f, nm=nm: (concrete(), flows(be, nm, *f(be, I231))))
