"""Training of the experiments: losses, optimiser steps, metrics, loaders"""
from reflib import *
import jax
import jax.experimental.ode as ode
import objax
import torch
from objax.module import GRADS
from _native_torch import to_torch

ode.odeint = lambda f, z0, T, *a, **k: array('sol', T.shape[0], *z0.shape)
import trainer.trainer as tt
import trainer.classifier as tc
import trainer.model_trainer as tm
import trainer.hamiltonian_dynamics as hd
import trainer.utils as tu


class Model(objax.Module):
    """a model with unknown outputs that depend on whether it is in training mode"""
    def __init__(self, n_in, n_out, f=None):
        self.w = objax.TrainVar(jnp.zeros((n_out, n_in)))
        self.u = objax.TrainVar(jnp.zeros((n_out, n_in)))
        self.f = f
        self.modes = []

    def __call__(self, x, training=None):
        self.modes.append(training)
        return x @ (self.w.value if training else self.u.value).T


class Loader(object):
    def __init__(self, batches, bs=None):
        self.batches = batches
        if bs is not None:
            self.batch_size = bs

    def __iter__(self):
        return iter(self.batches)

    def __len__(self):
        return len(self.batches)


def batch(i, n=2, a=3, b=2):
    return array('x%d' % i, n, a), array('y%d' % i, n, b)


def mse(p, y):
    d = p - y
    return (d * d).sum() / (y.shape[0] * y.shape[1])


KINDS_ = {'Regressor': lambda: tc.Regressor, 'RegressorPlus': lambda: tm.RegressorPlus}
for kind_, cls_ in KINDS_.items():
    @scenario('P27', name='%s: loss' % kind_)
    def reg_loss(cls=cls_):
        dense()
        m = Model(3, 2)
        t = cls()(m, {'train': Loader([])})
        x, y = batch(0)
        expect_eq('mean squared error in training mode', t.loss((x, y)), mse(x @ m.w.value.T, y))
        expect('the model is run once, in training mode', m.modes == [True])

    @scenario('P27', name='%s: step' % kind_)
    def reg_step(cls=cls_):
        dense()
        del GRADS[:]
        m = Model(3, 2)
        lr = lambda e: 10 + e
        t = cls()(m, {'train': Loader([])}, objax.optimizer.Adam, lr)
        mb = batch(0)
        loss = t.step(3, mb)
        expect('one gradient is taken', len(GRADS) == 1)
        g, gv, a, v = GRADS[0]
        expect('with respect to all variables of the model', [k for k in gv.variables] == [k for k in m.vars()] and len(gv.variables) == 2)
        expect_eq('of the loss at this minibatch', v, mse(mb[0] @ m.w.value.T, mb[1]))
        expect('the optimiser works on the variables of the model', [k for k in t.optimizer.vc] == [k for k in m.vars()])
        expect('and makes one step', len(t.optimizer.calls) == 1)
        r, gg = t.optimizer.calls[0]
        expect('with the learning rate scheduled for this epoch', r == 13)
        expect('with that gradient', gg is g)
        expect_eq('the loss is returned', loss[0], v)


def sched(e):
    return 1000 * e + 7


for n_, k_ in ((1, 1), (2, 3), (3, 2)):
    @scenario('P27', name='training %d epochs of %d batches' % (n_, k_))
    def training(n=n_, k=k_):
        dense()
        del GRADS[:]
        m = Model(3, 2)
        bs = [batch(i) for i in range(k)]
        t = tc.Regressor(m, {'train': Loader(bs)}, objax.optimizer.Adam, sched)
        t.train(n)
        expect('every batch is used once in each epoch', len(GRADS) == n * k)
        for e in range(n):
            for i in range(k):
                g, gv, a, v = GRADS[e * k + i]
                expect_eq('in the order of the loader', v, mse(bs[i][0] @ m.w.value.T, bs[i][1]))
                expect_eq('the schedule sees the epoch and the fraction of it', jnp.asarray(t.optimizer.calls[e * k + i][0]), jnp.asarray(sched(e + i / k)))
        expect('the epochs are counted', t.epoch == n)
        t.train(n)
        expect('training goes on with the following epoch', t.epoch == 2 * n)
        expect_eq('also for the schedule', jnp.asarray(t.optimizer.calls[n * k][0]), jnp.asarray(sched(n)))
        t.train_to(2 * n + 1)
        expect('training up to an epoch stops there', t.epoch == 2 * n + 1 and len(GRADS) == (2 * n + 1) * k)
        t.train_to(2 * n + 1)
        expect('training up to the epoch that is reached does nothing', t.epoch == 2 * n + 1 and len(GRADS) == (2 * n + 1) * k)


@scenario('P27', name='training backwards')
def backwards():
    dense()
    m = Model(3, 2)
    t = tc.Regressor(m, {'train': Loader([batch(0)])})
    t.train(2)
    try:
        t.train_to(1)
        refused = False
    except AssertionError:
        refused = True
    expect('training to an earlier epoch is refused', refused)


# ---------------------------------------------------------------- metrics
@scenario('P27', name='averages over a loader')
def averages():
    dense()
    m = Model(3, 2)
    t = tc.Regressor(m, {'train': Loader([])})
    for bs in (None, 1, 2, 5):
        xs = [array('v%d' % i) for i in range(3)]
        r = t.evalAverageMetrics(Loader(xs, bs), lambda mb: 2 * mb)
        expect_eq('the average over the batches', r, 2 * (xs[0] + xs[1] + xs[2]) / 3)
    try:
        t.evalAverageMetrics(Loader([], 2), lambda mb: mb)
        refused = False
    except KeyError:
        refused = True
    expect('an empty loader is refused', refused)


@scenario('P27', name='Regressor: metrics')
def reg_metrics():
    dense()
    m = Model(3, 2)
    P = array('P', 2, 3)
    m.predict = lambda x: x @ P.T
    t = tc.Regressor(m, {'train': Loader([])})
    bs = [batch(0), batch(1)]
    r = t.metrics(Loader(bs, 2))
    expect('one metric', list(r) == ['MSE'])
    expect_eq('the mean squared error of the predictions', r['MSE'], sum([mse(x @ P.T, y) for x, y in bs]) / 2)


@scenario('P27', name='RegressorPlus: metrics')
def regp_metrics():
    dense()
    m = Model(3, 2)
    t = tm.RegressorPlus(m, {'train': Loader([])})
    bs = [batch(0), batch(1)]
    r = t.metrics(Loader(bs, 2))
    expect('one metric', list(r) == ['MSE'])
    expect_eq('the mean squared error of the predictions, outside training mode', r['MSE'], sum([mse(x @ m.u.value.T, y) for x, y in bs]) / 2)
    expect('never in training mode', m.modes == [False, False])


for ys_ in ([0, 1, 2], [2, 2, 0], [1, 0, 1]):
    @scenario('P27', name='cross entropy of labels %s' % str(ys_))
    def ce(ys=ys_):
        dense()
        n, c = len(ys), 3
        lp = array('lp', n, c)
        tot = sum([lp[i, ys[i]] for i in range(n)])
        expect_eq('minus the mean log probability of the labels', tc.cross_entropy(lp, jnp.array(ys)), -tot / n)
        for cls in (tc.Classifier, tm.ClassifierPlus):
            m = Model(2, c)
            t = cls(m, {'train': Loader([])})
            x = array('x', n, 2)
            lg = x @ m.w.value.T
            want = sum([jnp.log(jnp.exp(lg[i]).sum()) - lg[i, ys[i]] for i in range(n)]) / n
            expect_eq('the loss is the cross entropy of the logits', t.loss((x, jnp.array(ys))), want)
            expect('in training mode', m.modes == [True])


@scenario('P27', name='Classifier: accuracy')
def acc():
    dense()
    m = Model(2, 3)
    outs = {0: np.array([[1, 3, 2, 0], [5, 4, 0, 6], [0, 1, 2, -1]]), 1: np.array([[1, 0, 0, 7], [0, 0, 1, 0], [0, 2, 1, 1]])}
    t = tc.Classifier(m, {'train': Loader([])})
    m.predict = lambda x: jnp.asarray(outs[x])
    r = t.metrics(Loader([(0, jnp.array([1, 1, 2])), (1, jnp.array([2, 2, 0]))], 3))
    expect('one metric', list(r) == ['Acc'])
    expect_eq('the fraction of right predictions', jnp.asarray(r['Acc']), jnp.asarray(3) / 6)


@scenario('P27', name='ClassifierPlus: step')
def cls_step():
    dense()
    del GRADS[:]
    m = Model(2, 3)
    t = tm.ClassifierPlus(m, {'train': Loader([])}, objax.optimizer.Adam, sched)
    x = array('x', 2, 2)
    t.step(2, (x, jnp.array([1, 2])))
    expect('one gradient and one step', len(GRADS) == 1 and len(t.optimizer.calls) == 1)
    g, gv, a, v = GRADS[0]
    expect('with respect to all variables of the model', [k for k in gv.variables] == [k for k in m.vars()])
    lg = x @ m.w.value.T
    expect_eq('of the cross entropy', v, sum([jnp.log(jnp.exp(lg[i]).sum()) - lg[i, i + 1] for i in range(2)]) / 2)
    expect('with the scheduled learning rate and that gradient', t.optimizer.calls[0][0] == 2007 and t.optimizer.calls[0][1] is g)


# ---------------------------------------------------------------- what is logged, and the checkpoint that is kept
class Fed(tt.Trainer):
    """a trainer whose metric is known"""
    def metrics(self, loader):
        return {'MSE': loader.vals[self.k], 'Acc': -1 * loader.vals[self.k]}

    def loss(self, mb):
        return array('loss')


class Vals(Loader):
    pass


def fed_trainer(vals, stop):
    m = Model(3, 2)
    ls = {}
    for k in ('train', 'val', 'test', '_hidden'):
        ls[k] = Vals([1])
        ls[k].vals = [v + (100 if k == 'test' else 1000 if k == '_hidden' else 5000 if k == 'train' else 0) for v in vals]
    ls['empty'] = Loader([])
    t = Fed(m, ls, early_stop_metric=stop)
    t.k = 0
    return t


for vals_ in ([3, 1, 2], [1, 2, 3], [3, 2, 1], [2, 1, 1]):
    for stop_ in (None, 'val_MSE', 'test_Acc'):
        @scenario('P27', name='metrics %s, early stopping on %s' % (str(vals_), stop_))
        def stopping(vals=vals_, stop=stop_):
            dense()
            t = fed_trainer(vals, stop)
            for i in range(len(vals)):
                t.k = i
                t.epoch = 10 + i
                t.logStuff(i)
            rows = [d for n, d, s in t.logger.scalars if n == 'metrics']
            steps = [s for n, d, s in t.logger.scalars if n == 'metrics']
            expect('one row per call, at its step', steps == list(range(len(vals))))
            for i in range(len(vals)):
                expect('the metrics of every evaluation loader, under its name', rows[i] == {'val_MSE': vals[i], 'val_Acc': -vals[i], 'test_MSE': vals[i] + 100, 'test_Acc': -vals[i] - 100})
            best = max([i for i in range(len(vals)) if vals[i] == min(vals)]) if stop else len(vals) - 1
            expect('with the metrics of that moment', len(t.ckpt['outcome'].rows) == 1 and t.ckpt['outcome'].rows[0] == rows[best])
            expect('the checkpoint kept is the best one, the latest among equals', t.ckpt['epoch'] == 10 + best)


@scenario('P27', name='evaluation during training')
def evaluated():
    dense()
    m = Model(3, 2)
    P = array('P', 2, 3)
    m.predict = lambda x: x @ P.T
    bs = [batch(0), batch(1)]
    t = tc.Regressor(m, {'train': Loader(bs), 'val': Loader([batch(5)], 2)}, objax.optimizer.Adam, sched)
    t.train(2)
    steps = [s for n, d, s in t.logger.scalars if n == 'metrics']
    expect('logged at each step and at the end', steps == [0, 1, 2, 3, 3])
    x, y = batch(5)
    for n, d, s in t.logger.scalars:
        expect('only evaluation loaders', list(d) == ['val_MSE'])
        expect_eq('their metrics', d['val_MSE'], mse(x @ P.T, y))


# ---------------------------------------------------------------- equivariance error of a model
class GModel(objax.Module):
    """a linear model on a representation, with a known matrix"""
    def __init__(self, G, ri, ro, W):
        self.G, self.rep_in, self.rep_out = G, ri(G), ro(G)
        self.W = W
        self.predict = lambda x: x @ W.T
        self.model = Inner(self)


class Inner(object):
    def __init__(self, m):
        self.G, self.rep_in, self.rep_out = m.G, m.rep_in, m.rep_out


FEED = {}


def fed_samples(self, N):
    return jnp.stack([FEED['gs'][i % len(FEED['gs'])] for i in range(N)])


def rms(x):
    return jnp.sqrt((x ** 2).mean())


RS_ = {'V -> V': (lambda: Vector, lambda: Vector), 'V -> scalar': (lambda: Vector, lambda: Scalar), 'V+1 -> V': (lambda: Vector + Scalar, lambda: Vector),
       'V* -> V': (lambda: T(0, 1), lambda: Vector), 'V**2 -> V': (lambda: T(2), lambda: Vector)}
for nm_, (ri_, ro_) in RS_.items():
    @scenario('P27', name='equivariance error of a model %s' % nm_)
    def equiv(ri=ri_, ro=ro_):
        dense()
        import emlp.groups as groups
        Group.samples = fed_samples
        G = groups.SL(2)
        g = [array('g%d' % i, 2, 2) for i in range(2)]
        FEED['gs'] = g
        a, b = ri()(G).size(), ro()(G).size()
        m = GModel(G, ri(), ro(), array('W', b, a))
        x, y = array('x', 2, a), array('y', 2, b)
        e = tm.equivariance_err(m, (x, y))
        y1 = jnp.stack([m.W @ (m.rep_in.rho_dense(g[i]) @ x[i]) for i in range(2)])
        y2 = jnp.stack([m.rep_out.rho_dense(g[i]) @ (m.W @ x[i]) for i in range(2)])
        gs = jnp.stack(g)
        expect_eq('the relative difference of f(gx) and g f(x)', e, rms(y1 - y2) / (rms(y1) + rms(y2) + jnp.abs(gs - np.eye(2)).mean()))
        FEED['gs'] = [jnp.array([[1, 2], [1, 3]]), jnp.array([[2, 1], [1, 1]])]
        e2 = tm.equivariance_err(m, (x, y), G)
        expect('an explicit group can be given', len(e2.shape) == 0)


@scenario('P27', name='equivariance error of an equivariant model')
def equiv0():
    dense()
    import emlp.groups as groups
    Group.samples = fed_samples
    G = groups.SL(2)
    FEED['gs'] = [array('g%d' % i, 2, 2) for i in range(2)]
    c = array('c')
    m = GModel(G, Vector, Vector, c * np.eye(2))
    x, y = array('x', 2, 2), array('y', 2, 2)
    e = tm.equivariance_err(m, (x, y))
    expect_eq('it is zero', e, 0 * c)


@scenario('P27', name='logging the equivariance error')
def log_equiv():
    dense()
    import emlp.groups as groups
    Group.samples = fed_samples
    G = groups.SL(2)
    FEED['gs'] = [array('g%d' % i, 2, 2) for i in range(2)]
    for cls in (tm.RegressorPlus, tm.ClassifierPlus):
        m = Model(2, 2)
        inner = GModel(G, Vector, Vector, array('W', 2, 2))
        m.model = inner
        bs = [(array('x%d' % i, 2, 2), array('y%d' % i, 2, 2)) for i in range(7)]
        t = cls(m, {'train': Loader([]), 'test': Loader(bs, 2)})
        t.metrics = lambda loader: {}
        t.logStuff(4)
        n, d, s = t.logger.scalars[0]
        expect('logged at the step', s == 4 and list(d) == ['test_equivar_err'])
        want = sum([tm.equivariance_err(m, bs[i]) for i in (0, 5)]) / 2
        expect_eq('the average over every fifth batch of the test set', d['test_equivar_err'], want)


# ---------------------------------------------------------------- losses of the rollouts
for ode_ in (False, True):
    @scenario('P27', name='rollout loss (%s)' % ('neural ODE' if ode_ else 'Hamiltonian'))
    def rollout_loss(ode=ode_):
        dense()
        seen = []

        def solver(f, z0, T, *a, **k):
            seen.append((f, z0, T))
            return array('sol', T.shape[0], *z0.shape)
        hd.odeint = solver
        S = array('S', 2, 2)

        class M(objax.Module):
            def __init__(self):
                self.w = objax.TrainVar(jnp.zeros((2, 2)))

            def __call__(self, z, t=None, training=None):
                return self.w.value @ z if ode else z @ self.w.value @ z
        m = M()
        t = (hd.IntegratedODETrainer if ode else hd.IntegratedDynamicsTrainer)(m, {'train': Loader([])})
        del GRADS[:]
        z0, ts, zs = array('z0', 2, 2), jnp.stack([array('t', 3), array('t', 3)]), array('zs', 2, 3, 2)
        v = t.loss(((z0, ts), zs))
        expect_eq('mean squared error of the rolled out states', v, ((array('sol', 3, 2, 2).transpose((1, 0, 2)) - zs) ** 2).sum() / 12)
        f, y0, T = seen[0]
        expect_eq('from the initial conditions', y0, z0)
        expect_eq('at the times of the batch', T, ts[0])
        y = array('y', 2, 2)
        W = m.w.value
        J = np.array([[0, 1], [-1, 0]])
        for b in range(2):
            expect_eq('by the model', f(y, 0)[b], W @ y[b] if ode else J @ ((W + W.T) @ y[b]))
        t.step(0, ((z0, ts), zs))
        g, gv, a, vv = GRADS[0]
        expect_eq('the gradient is that of this loss', vv, v)
        expect('for the variables of the model', [k for k in gv.variables] == [k for k in m.vars()])
        r = t.metrics(Loader([((z0, ts), zs)], 2))
        expect_eq('the metric is the same error', r['MSE'], v)


# ---------------------------------------------------------------- batches on their way to the device
def leafs(x):
    if isinstance(x, dict):
        return [y for k in x for y in leafs(x[k])]
    if isinstance(x, (list, tuple)):
        return [y for v in x for y in leafs(v)]
    return [x]


def same_shape(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all([same_shape(a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all([same_shape(x, y) for x, y in zip(a, b)])
    return not isinstance(b, (dict, list, tuple))


def npa(nm):
    return np.asarray(array(nm, 2))


MB_ = {'an array': lambda: npa('a'), 'a tensor': lambda: to_torch(npa('a')), 'a pair': lambda: (npa('a'), to_torch(npa('b'))), 'a list': lambda: [npa('a'), npa('b'), npa('c')],
       'nested': lambda: ((npa('a'), [npa('b'), to_torch(npa('c'))]), npa('d')), 'a dictionary': lambda: {'x': npa('a'), 'y': (npa('b'), npa('c'))}}
for nm_, mk_ in MB_.items():
    @scenario('P27', name='moving %s to the device' % nm_)
    def moving(mk=mk_):
        dense()
        mb = mk()
        r = tu.minibatch_to(mb)
        expect('the structure is kept', same_shape(mb, r))
        for x, y in zip(leafs(mb), leafs(r)):
            v = x.numpy() if isinstance(x, torch.Tensor) else x
            expect_eq('with the same entries', y, v)
            expect('as arrays', not isinstance(y, torch.Tensor))


@scenario('P27', name='a loader onto the device')
def loader_to():
    dense()
    bs = [(npa('a%d' % i), npa('b%d' % i)) for i in range(3)]
    L = tu.LoaderTo(Loader(bs, 7))
    for again in range(2):
        out = [b for b in L]
        expect('every batch, each time it is iterated', len(out) == 3)
        for b, o in zip(bs, out):
            expect_eq('in order (inputs)', o[0], b[0])
            expect_eq('in order (targets)', o[1], b[1])
    expect('the batch size is passed on', L.batch_size == 7 and len(L) == 3)
