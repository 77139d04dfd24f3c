"""The iterative null space solver: what it returns, and that failing is never silent"""
from _spec import *
import numpy as np
import jax
import jax.numpy as jnp
import optax
import emlp.reps.representation as rr
from emlp.reps.linear_operators import lazify


# ---------------------------------------------------------------- the rank is doubled until nothing is missed
class Box(object):
    """a constraint of which only the shape is known"""
    def __init__(self, m, n):
        self.shape = (m, n)


CALLS = []


def truncated(true_rank):
    """solver up to rank r: all solutions if there are at most r of them, r of them otherwise"""
    def f(C, r, tol=1e-5, lr=1e-2):
        CALLS.append(r)
        k = min(true_rank, int(r))
        return array('Q', C.shape[1], true_rank)[:, :k]
    return f


def ranks(k):
    dense()
    rr.krylov_constraint_solve_upto_r = truncated(k)
    C = Box(7, 50)
    Q = None
    try:
        Q = rr.krylov_constraint_solve(C)
    except Exception as e:
        expect('a constraint with %d solutions is solved' % k, False, type(e).__name__ + ' ' + str(e))
        return
    if len(CALLS) == 0:
        undecided('all %d solutions are returned' % k, 'the solver up to a given rank was not called')
        return
    if Q is not None:
        expect_eq('all %d solutions are returned' % k, Q, array('Q', 50, k))
        expect('the solver was asked for more than there are', CALLS[-1] > k)


for k_ in (0, 1, 4, 5, 6, 9, 10, 11, 19, 20, 21, 40, 41):
    scenario('P24', name='%d solutions' % k_)(lambda k=k_: ranks(k))


@scenario('P24', name='constraints too large for the memory')
def too_large():
    dense()
    rr.krylov_constraint_solve_upto_r = truncated(3)
    r = None
    try:
        r = rr.krylov_constraint_solve(Box(10 ** 9, 50))
    except Exception as e:
        r = 'raised'
    expect('a problem beyond the memory is refused', type(r) is str and r == 'raised')
    expect('before it is attempted', len(CALLS) == 0)


# ---------------------------------------------------------------- one run of the descent
class Script(object):
    """losses the descent is going to see"""
    def __init__(self, losses, svals):
        self.losses = losses
        self.svals = svals
        self.n = 0
        self.fun = None
        self.seen = []
        self.lrs = []
        self.updates = 0
        self.downhill = []

    def value_and_grad(self, f, *a, **k):
        self.fun = f

        def g(W):
            v = self.losses[self.n] if self.n < len(self.losses) else self.losses[-1]
            self.n = self.n + 1
            if self.n < 20:
                self.seen.append(W)
            return v, array('grad', W.shape[0], W.shape[1], real=not jnp.iscomplexobj(W))
        return g

    def sgd(self, lr, *a, **k):
        self.lrs.append(lr)

        def init(W):
            return 'state'

        def update(grad, state, W=None):
            self.downhill.append(grad)
            return grad, state
        return init, update

    def apply(self, W, up):
        self.updates = self.updates + 1
        return array('W_%d' % min(self.updates, 3), W.shape[0], W.shape[1])

    def svd(self, W, full_matrices=True):
        k = min(W.shape[0], W.shape[1])
        self.last = W
        return array('U', W.shape[0], k), np.array(self.svals[:k]), array('Vt', k, W.shape[1])


def run(losses, svals, n=6, r=4, C=None):
    dense()
    s = Script(losses, svals)
    jax.value_and_grad = s.value_and_grad
    optax.sgd = s.sgd
    optax.apply_updates = s.apply
    np.linalg.svd = s.svd
    np.log = lambda x: 1.            # only the progress bar takes logarithms
    C = lazify(array('C', 3, n)) if C is None else C
    out = None
    try:
        out = rr.krylov_constraint_solve_upto_r(C, r)
    except Exception as e:
        out = type(e).__name__
    return s, out


SV = [1., .5, 1e-9, 1e-9]


@scenario('P24', name='converged')
def converged():
    s, Q = run([1., .5, .1, 1e-12, 1e-12], SV)
    expect('a converged run returns a basis', type(Q) is not str)
    if type(Q) is not str:
        expect_eq('it consists of the directions with significant singular values', Q, array('U', 6, 4)[:, :2])
        expect_eq('of the final iterate', s.last, array('W_%d' % min(s.updates, 3), 6, 4))
    W = array('w', 6, 4)
    C = array('C', 3, 6)
    y = C @ W
    expect_eq('the loss is half the squared norm of the violated constraints', s.fun(W), (y * y).sum() / 2)
    expect('the start has one column per direction sought', tuple(s.seen[0].shape) == (6, 4))
    expect('and is random', len(drawn()) > 0)


@scenario('P24', name='converged at different ranks')
def conv_ranks():
    for sv, k in (([1., .5, .3, .2], 4), ([1., 1e-9, 1e-9, 1e-9], 1), ([1e-9, 1e-9, 1e-9, 1e-10], 0), ([1., 1., 1., 1e-7], 3)):
        s, Q = run([1., .5, 1e-12, 1e-12], sv)
        expect('%d significant directions: a basis is returned' % k, type(Q) is not str)
        if type(Q) is not str:
            expect_eq('%d significant directions are returned' % k, Q, array('U', 6, 4)[:, :k])


@scenario('P24', name='complex constraints')
def complex_c():
    s, Q = run([1., 1e-12, 1e-12], SV, C=lazify(array('C', 3, 6, real=False)))
    W = array('w', 6, 4, real=False)
    y = array('C', 3, 6, real=False) @ W
    expect_eq('the loss is half the squared norm of the violated constraints', s.fun(W), ((y * jnp.conj(y)).sum() / 2).real)
    W0 = s.seen[0]
    expect('the search starts among the complex matrices', jnp.iscomplexobj(W0))
    if jnp.iscomplexobj(W0):
        a, b = entries_of_draws(jnp.real(W0)), entries_of_draws(jnp.imag(W0))
        expect('with real and imaginary parts that are drawn independently', len(a) == 24 and len(b) == 24
               and len([x for x in a if x in b]) == 0, '%d %d' % (len(a), len(b)))
    g = array('grad', 6, 4, real=False)
    expect('gradients are handed on', len(s.downhill) > 0)
    for d in s.downhill:
        expect_eq('steps go against the conjugate of what jax calls the gradient', d, jnp.conj(g))
    expect('a basis is returned', type(Q) is not str)


@scenario('P24', name='real constraints')
def real_c():
    s, Q = run([1., 1e-12, 1e-12], SV)
    expect('the search stays among the real matrices', not jnp.iscomplexobj(s.seen[0]))
    for d in s.downhill:
        expect_eq('steps go against the gradient', d, array('grad', 6, 4))


@scenario('P24', name='never converging')
def stuck():
    s, out = run([1.], SV)
    expect('a run that does not converge raises ConvergenceError', type(out) is str and out == 'ConvergenceError', str(out))


@scenario('P24', name='slow', tier='thorough')
def slow():
    s, out = run([1.] * 15000 + [1e-12], SV)
    expect('a run that converges late still returns', type(out) is not str)


@scenario('P24', name='diverging')
def diverging():
    s, out = run([1.] * 101 + [1e6], SV)
    expect('a run that diverges for every step size raises ConvergenceError', type(out) is str and out == 'ConvergenceError', str(out))
    expect('after smaller and smaller steps', len(s.lrs) > 1 and all([s.lrs[i + 1] < s.lrs[i] for i in range(len(s.lrs) - 1)]))


@scenario('P24', name='diverging once')
def diverging_once():
    s, Q = run([1.] * 101 + [1e6] * 3 + [1e-12] * 1000, SV)
    expect('the run with smaller steps is returned', type(Q) is not str)
    if type(Q) is not str:
        expect_eq('with its basis', Q, array('U', 6, 4)[:, :2])


@scenario('P24', name='no gap')
def gap():
    s, out = run([1., .5, 1e-12, 1e-12], [1., 2e-4, 9e-5, 1e-9])
    expect('singular values without a gap are refused', type(out) is str, str(out))
