"""Set-up of the experiments: data under the seed, network for the right representations and group, loaders, trainer"""
from reflib import *
import jax
import objax
import torch
import jax.experimental.ode as ode
import oil.utils.utils as ou
import oil.datasetup.datasets as od

STATE = ['unseeded']
SPLITS = []


class Seed(object):
    """what the global generator was last seeded with"""
    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        self.before = STATE[0]
        STATE[0] = self.seed
        return self

    def __exit__(self, *args):
        STATE[0] = self.before
        return False


class TorchSeed(Seed):
    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


def seeded(s=None):
    STATE[0] = s


np.random.seed = seeded
np.random.get_state = lambda *a: STATE[0]


def set_state(s):
    STATE[0] = s


np.random.set_state = set_state


class Part(ou.Wrapper):
    def __init__(self, base, name, n):
        self._wrapped_obj = base
        self.split = name
        self.n = n

    def __len__(self):
        return self.n


def split_dataset(dataset, splits):
    SPLITS.append((dataset, dict(splits), STATE[0]))
    return dict([(k, Part(dataset, k, n)) for k, n in splits.items()])


ou.FixedNumpySeed = Seed
ou.FixedPytorchSeed = TorchSeed
od.split_dataset = split_dataset
ode.odeint = lambda f, z0, T, *a, **k: array('sol', T.shape[0], *z0.shape)
import hnn
import neuralode
import train_regression
import trainer.hamiltonian_dynamics as hd
import trainer.model_trainer as tm

MADE = []


class Grp(Group):
    def __init__(self, d):
        self.d = d
        self.lie_algebra = np.zeros((0, d, d))
        self.discrete_generators = np.stack([np.eye(d)])
        self.is_orthogonal = True
        self.is_permutation = True
        self.args = (d,)


class Data(object):
    def __init__(self, *args, **kw):
        self.args = args
        self.kw = kw
        self.seen = STATE[0]
        self.rep_in = 2 * V
        self.rep_out = V + 1
        self.symmetry = Grp(3)
        self.stats = (array('mx', 6), array('sx', 6), array('my', 4), array('sy', 4))
        MADE.append(self)

    def __len__(self):
        return 40

    def default_aug(self, model):
        return Aug(model)


class Other(Data):
    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.symmetry = Grp(5)


class Net(objax.Module):
    def __init__(self, rep_in, rep_out, group, ch=384, num_layers=3):
        self.rep_in, self.rep_out, self.G = rep_in, rep_out, group
        self.ch, self.num_layers = ch, num_layers
        self.w = objax.TrainVar(array('w', 4, 6))

    def __call__(self, x, training=True):
        return x @ self.w.value.T


class Aug(objax.Module):
    def __init__(self, model):
        self.model = model

    def __call__(self, x, training=True):
        return 3 * self.model(x, training=training)


def n_asked(ds):
    for k in ('n_systems', 'N'):
        if k in ds.kw:
            return ds.kw[k]
    return ds.args[0] if len(ds.args) else None


EXPS = {'hnn': (hnn.makeTrainer, hd.IntegratedDynamicsTrainer, lambda d: Scalar),
        'neuralode': (neuralode.makeTrainer, hd.IntegratedODETrainer, lambda d: d.rep_in),
        'train_regression': (train_regression.makeTrainer, tm.RegressorPlus, lambda d: d.rep_out)}
G7 = Grp(7)


def net_of(m):
    while not isinstance(m, Net) and hasattr(m, 'model'):
        m = m.model
    return m


def build(make, **kw):
    kw = dict(kw)
    return attempt('the trainer is built', lambda: make(**kw))


def setup(exp, group, bs, seed):
    dense()
    make, cls, out = EXPS[exp]
    split = {'train': 20, 'val': 9, 'test': 11}
    cfg = {'num_layers': 2, 'ch': 17, 'group': group}
    ok, t = build(make, dataset=Data, network=Net, ndata=40, seed=seed, bs=bs, lr=.25, split=dict(split), net_config=cfg, log_level='warning')
    if not ok:
        return
    expect('one data set is generated', len(MADE) == 1)
    if len(MADE) != 1:
        return
    ds = MADE[0]
    expect('with as many samples as asked for', n_asked(ds) == 40)
    expect('under the seed', ds.seen == seed, str(ds.seen))
    expect('it is split once, as asked for, under the seed', len(SPLITS) == 1 and SPLITS[0][0] is ds and SPLITS[0][1] == split and SPLITS[0][2] == seed)
    expect('the trainer is of the kind the experiment is about', isinstance(t, cls))
    net = net_of(t.model)
    expect('it trains the network', isinstance(net, Net))
    if isinstance(net, Net):
        expect('which takes the representation of the data', net.rep_in == ds.rep_in)
        expect('to the documented representation', net.rep_out == out(ds))
        want = ds.symmetry if group is None else group
        expect('for the configured group, or the symmetry of the data', net.G is want or net.G == want)
        expect('with the configured sizes', net.ch == 17 and net.num_layers == 2)
    for k, n in split.items():
        ok, ld = attempt('there is a loader for ' + k, lambda: t.dataloaders[k])
        if ok:
            expect('over that part of the data: ' + k, ld.dataset.split == k)
            expect('in batches of the size asked for, or all of it: ' + k, ld.batch_size == min(bs, n))
            expect('only training data are shuffled: ' + k, (True if ld.shuffle else False) == (k == 'train'))
    rest = [k for k in t.dataloaders if k not in split]
    expect('other loaders only repeat the training data', all([t.dataloaders[k].dataset.split == 'train' for k in rest]))
    for e in (0, 1, 7.5, 1999):
        expect_eq('the learning rate is the one asked for', jnp.asarray(t.lr_sched(e)), jnp.asarray(.25))
    expect('the optimiser works on all variables of the network', [k for k in t.optimizer.vc] == [k for k in t.model.vars()] and len([k for k in t.model.vars()]) == 1)


for exp_ in EXPS:
    for group_, gn_ in ((None, 'symmetry of the data'), (G7, 'configured group')):
        for bs_ in (10, 500):
            scenario('P28', name='%s: %s, batches of %d' % (exp_, gn_, bs_))(lambda e=exp_, g=group_, b=bs_: setup(e, g, b, 100 + b))


def defaults(exp):
    """the first call with the default settings"""
    dense()
    make, cls, out = EXPS[exp]
    d = make.__kwdefaults__
    ok, t = build(make, dataset=Data, network=Net, split={'train': 20, 'val': 9, 'test': 11}, net_config={'ch': 5, 'num_layers': 1, 'group': None})
    if not ok:
        return
    expect('the default number of samples is generated', n_asked(MADE[0]) == d['ndata'])
    expect('under the default seed', MADE[0].seen == d['seed'])
    expect_eq('the default learning rate is used', jnp.asarray(t.lr_sched(3)), jnp.asarray(d['lr']))
    n, known, rest = d['ndata'], 0, 0
    for k in d['split']:
        v = d['split'][k]
        if v == -1:
            rest = rest + 1
        else:
            known = known + (v if v > 1 else v * n)
    expect('the default split is one of the default number of samples, with training, validation and test data',
           known <= n and rest <= 1 and (rest == 0 or known < n) and 'train' in d['split'] and 'test' in d['split'] and 'val' in d['split'])
    expect('the default batch size is an upper limit', t.dataloaders['train'].batch_size == min(d['bs'], 20))


for exp_ in EXPS:
    scenario('P28', name='%s: default settings' % exp_)(lambda e=exp_: defaults(e))


def twice(exp):
    dense()
    make, cls, out = EXPS[exp]
    kw = dict(network=Net, split={'train': 20, 'val': 9, 'test': 11})
    if exp != 'train_regression':
        ok, a = build(make, dataset=Data, net_config={'ch': 5, 'num_layers': 1, 'group': None}, **kw)
        ok2, b = build(make, dataset=Other, net_config={'ch': 5, 'num_layers': 1, 'group': None}, **kw)
    else:
        ok, a = build(make, dataset=Data, **kw)
        ok2, b = build(make, dataset=Other, **kw)
    if ok and ok2:
        expect('the first network is for the symmetry of the first data set', net_of(a.model).G == MADE[0].symmetry)
        expect('the second network is for the symmetry of the second data set', net_of(b.model).G == MADE[1].symmetry, repr(net_of(b.model).G))


for exp_ in EXPS:
    scenario('P28', name='%s: one data set after the other' % exp_)(lambda e=exp_: twice(e))


def standard(aug):
    dense()
    ok, t = build(train_regression.makeTrainer, dataset=Data, network=Net, ndata=40, split={'train': 20, 'val': 9, 'test': 11}, aug=aug,
                  net_config={'ch': 5, 'num_layers': 1, 'group': None})
    if not ok:
        return
    ds = MADE[0]
    x = array('x', 2, 6)
    mx, sx, my, sy = ds.stats
    y = ((x - mx) / sx) @ net_of(t.model).w.value.T
    expect_eq('predictions are made in standardised coordinates' + (', augmented' if aug else ''), t.model(x, training=True), sy * (3 * y if aug else y) + my)


scenario('P28', name='train_regression: standardisation')(lambda: standard(False))
scenario('P28', name='train_regression: augmentation')(lambda: standard(True))


# ---------------------------------------------------------------- trials
class Log(object):
    def __init__(self):
        self.rows = []

    def add_scalars(self, *a, **k):
        self.rows.append(a)


class Loader(object):
    def __init__(self, dataset, batches):
        self.dataset = dataset
        self.batches = batches

    def __iter__(self):
        return iter(self.batches)

    def __len__(self):
        return len(self.batches)


class FakeTrainer(object):
    def __init__(self, fail=False):
        self.logger = Log()
        self.trained = []
        self.fail = fail
        self.model = 'model'
        self.dataloaders = {'test': Loader('data', ['b0', 'b1', 'b2'])}
        self.ckpt = {'outcome': 'first'}

    def train(self, n):
        if self.fail:
            raise ValueError('it failed')
        self.trained.append(n)
        self.ckpt = {'outcome': 'best'}


TRIALS = {'hnn_trial': (hd.hnn_trial, 'pred_and_gt'), 'ode_trial': (hd.ode_trial, 'pred_and_gt_ode')}


def prediction(ds, model, mb):
    expect('predictions are those of the trained model on the data set', ds == 'data' and model == 'model')
    return array('pred_' + mb, 2, 5, 4, 2)


def trial(name, i):
    dense()
    cls, pred = TRIALS[name]
    if pred == 'pred_and_gt':
        hd.pred_and_gt = prediction
        hd.pred_and_gt_ode = lambda ds, m, b: array('other', 2, 5, 4, 2)
    else:
        hd.pred_and_gt_ode = prediction
        hd.pred_and_gt = lambda ds, m, b: array('other', 2, 5, 4, 2)
    for k in list(torch.FILES):
        torch.FILES.pop(k)
    got, t = [], FakeTrainer()

    def make(**kw):
        got.append(kw)
        return t
    cfg = {'num_epochs': 7, 'network': 'Net', 'net_config': {'group': 'G', 'ch': 3}, 'lr': .1, 'save': False, 'resume': False, 'local_rank': 0}
    ok, r = attempt('the trial runs', lambda: cls(make)(cfg, i) if i is not None else cls(make)(cfg))
    if not ok:
        return
    expect('one trainer is made', len(got) == 1)
    kw = got[0]
    expect('from the configuration', kw.get('num_epochs') == 7 and kw.get('network') == 'Net' and kw.get('net_config', {}).get('ch') == 3 and kw.get('lr') == .1)
    expect('without the entries meant for the trial', 'local_rank' not in kw and 'resume' not in kw)
    expect('it is trained for the configured number of epochs', t.trained == [7])
    expect('the outcome is that of the checkpoint after training', r[1] == 'best')
    expect('together with the configuration', r[0].get('num_epochs') == 7 and r[0].get('lr') == .1)
    expect('predictions are stored in one file', len(torch.FILES) == 1)
    if len(torch.FILES) == 1:
        want = jnp.concatenate([array('pred_' + b, 2, 5, 4, 2) for b in ('b0', 'b1', 'b2')])
        expect_eq('those of all test batches, in order', [torch.FILES[k] for k in torch.FILES][0], want)
    if i is not None:
        expect('every trial logs to its own place', ('%d' % i) in kw.get('trainer_config', {}).get('log_suffix', ''))


def failing(name):
    dense()
    cls, pred = TRIALS[name]
    cfg = {'num_epochs': 7, 'network': 'Net', 'net_config': {'group': 'G'}}
    for strict in (True, False):
        r = None
        try:
            r = cls(lambda **kw: FakeTrainer(True), strict)(dict(cfg), 1)
        except ValueError as e:
            r = 'raised'
        if strict:
            expect('a strict trial raises what went wrong', type(r) is str)
        else:
            expect('other trials return it as outcome', type(r) is tuple and isinstance(r[1], ValueError))


for t_ in TRIALS:
    for i_ in (None, 0, 3):
        scenario('P28', name='%s %s' % (t_, str(i_)))(lambda t=t_, i=i_: trial(t, i))
    scenario('P28', name='%s of a failing training' % t_)(lambda t=t_: failing(t))
