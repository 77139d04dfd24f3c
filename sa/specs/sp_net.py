from nnlib import *
from emlp.reps.representation import bilinear_weights
import jax
from emlp.reps.representation import Rep as _Rep


# ------------------------------------------------------------------ P14: assembly of blocks and networks
def live(y):
    """parameters on which the output depends, in order of creation"""
    r = []
    for p in params():
        if len(p.shape) > 0 and mentions(y, p):
            r.append(p)
    return r


def take(ps, shape):
    """removes and returns the first parameter of that shape"""
    for i in range(len(ps)):
        p = ps[i]
        if len(p.shape) == len(shape) and all([a == b for a, b in zip(p.shape, shape)]):
            del ps[i]
            return p
    return None


def lin_ref(ps, rin, rout, x):
    W, b = take(ps, (rout.size(), rin.size())), take(ps, (rout.size(),))
    if W is None or b is None:
        return None
    W = ((rin >> rout).equivariant_projector() @ W.reshape(-1)).reshape(rout.size(), rin.size())
    return jnp.einsum('...i,ji->...j', x, W) + rout.equivariant_projector() @ b


def block_ref(ps, rin, rout, x):
    g = no.gated(rout)
    lin = lin_ref(ps, rin, g, x)
    if lin is None:
        return None
    n, f = bilinear_weights(g, g)
    if n != 0:
        q = take(ps, (n,))
        if q is None:
            return None
        lin = lin + .1 * jnp.einsum('...ij,...j->...i', f(q, lin), lin)
    return jax.nn.sigmoid(lin[..., no.gate_indices(rout)]) * lin[..., :rout.size()]


def registered(be, m, ps):
    """every parameter the output depends on is known to the framework"""
    if be.name == 'objax':
        vs = [v.value for v in m.vars().values()]
    elif be.name == 'torch':
        vs = list(m.parameters())
    else:
        return
    for p in ps:
        expect('%s the parameter of shape %s is registered with the framework' % (be.name, str(list(p.shape))),
               any([v is p for v in vs]))


def block(be, w, ein, eout, batch=None):
    pin_random('first')
    rin, rout = ein.reps(), eout.reps()
    fwparams.reset()
    ok, m = attempt('build', lambda: be.mod.EMLPBlock(rin, rout))
    if not ok:
        return
    x = array('x', rin.size()) if batch is None else array('x', batch, rin.size())
    ok, f = attempt('prepare', lambda: be.prepare(m, x))
    if not ok:
        return
    ok, y = attempt('apply', lambda: f(x))
    if not ok:
        return
    ps = live(y)
    registered(be, m, ps)
    n = len(ps)
    ref = block_ref(ps, rin, rout, x)
    if ref is None:
        expect('the block depends on a weight, a bias and the bilinear parameters', False, 'it depends on %d parameters' % n)
        return
    expect('no further parameters', len(ps) == 0, str(len(ps)))
    expect_eq('block = gate(lin + bilinear(lin)), lin = linear(x)', y, ref)


BLK = [
    ('1->V', lambda w: (w.s0, w.v1)), ('1->V+1', lambda w: (w.s0, Sum(w.v1, w.s0))), ('c->c+1', lambda w: (w.c, Sum(w.c, w.s0))),
    ('1->1+a', lambda w: (w.s0, Sum(w.s0, w.a))), ('1->Vp', lambda w: (w.s0, w.vp)), ('c+1->c', lambda w: (Sum(w.c, w.s0), w.c)),
    ('1->V2+V1', lambda w: (w.s0, Sum(w.v2, w.v1))),
]
for be in BACKENDS:
    for nm, f in BLK:
        scenario('P14', name='%s block %s' % (be.name, nm))(lambda be=be, f=f: (concrete(), block(be, I231, *f(I231))))
        scenario('P14', name='%s block %s batch' % (be.name, nm), tier='thorough')(lambda be=be, f=f: (concrete(), block(be, I231, *f(I231), batch=2)))


# ---------------------------------------------------------------- networks, with the layers summarised by unknown functions
class Log(object):
    def __init__(self):
        self.items = []


LOG = Log()


def fake(kind):
    """the contract of the layers is decided by P11-P13 and by the blocks above: here each layer is an unknown map"""
    def make_layer(rin, rout):
        m = array(fresh_name('map_' + kind), rout.size(), rin.size())
        LOG.items.append((kind, rin, rout, m))
        return lambda x, *a, **k: jnp.einsum('...i,ji->...j', jx(x), m)
    return make_layer


def hidden(ch, num_layers, group):
    """documented meaning of the argument ch"""
    if isinstance(ch, int):
        return [no.uniform_rep(ch, group)] * num_layers
    if isinstance(ch, _Rep):
        return [ch(group)] * num_layers
    return [c(group) if isinstance(c, _Rep) else no.uniform_rep(c, group) for c in ch]


def net(be, mk, group, rep_in, rep_out, ch, num_layers, call):
    pin_random('first')
    be.mod.EMLPBlock = fake('block')
    be.mod.Linear = fake('linear')
    fwparams.reset()
    kw = {}
    if ch is not None:
        kw['ch'] = ch
    if num_layers is not None:
        kw['num_layers'] = num_layers
    ok, m = attempt('build', lambda: mk(rep_in, rep_out, group, **kw))
    if not ok:
        return
    rin, rout = rep_in(group), rep_out(group)
    mids = hidden(384 if ch is None else ch, 3 if num_layers is None else num_layers, group)
    x = array('x', dim('batch'), rin.size())
    ok, y = attempt('apply', lambda: call(be, m, x))
    if not ok:
        return
    if len(params()) > 0:
        undecided('the network is built from EMLPBlock and Linear', 'parameters created outside of the layers')
        return
    reps = [rin] + mids
    items = LOG.items
    want = [('block', a, b) for a, b in zip(reps[:-1], reps[1:])] + [('linear', reps[-1], rout)]
    expect('number of layers', len(items) == len(want), '%d instead of %d' % (len(items), len(want)))
    if len(items) != len(want):
        return
    items = sorted_like(items)
    for i in range(len(want)):
        k, a, b = want[i]
        expect('layer %d is a %s' % (i, k), items[i][0] == k, items[i][0])
        expect('layer %d maps from the right representation' % i, items[i][1] == a, str(items[i][1]))
        expect('layer %d maps to the right representation' % i, items[i][2] == b, str(items[i][2]))
    z = x
    for it in items:
        z = jnp.einsum('...i,ji->...j', z, it[3])
    expect_eq('the layers are applied in sequence', y, z)


def sorted_like(items):
    """blocks first, in order of creation, then the linear layer"""
    return [i for i in items if i[0] == 'block'] + [i for i in items if i[0] != 'block']


def call_net(be, m, x):
    if be.name == 'objax':
        return jx(m(x, training=True))
    if be.name == 'torch':
        return jx(m(torch.as_tensor(x)))
    return be.prepare(m, x)(x)


W2 = I231
VS = V + Scalar
CASES = [
    ('ch rep', V, V, VS, None), ('ch rep, 1 layer', 2 * V + Scalar, V, VS, 1), ('ch rep, 2 layers', VS, V + V, 2 * V, 2),
    ('ch rep, 0 layers', VS, V, VS, 0), ('ch list of reps', VS, Scalar, [V + 2 * Scalar, 3 * V], None),
    ('ch int', V, VS, 7, 2), ('ch list of ints', V, Scalar, [5, 3, 8], None), ('ch mixed list', VS, V, [5, VS], None),
    ('ch list of one', VS, V, [VS], 5), ('ch tuple', V, V, (VS, V), None),
    ('ch list of four', V, VS, [V, VS, 2 * V, 3 * V], None), ('ch list of six', V, V, [V, VS, 2 * V, 3 * V, VS, V], 2), ('ch list, repeated', V, V, [VS, VS, VS, VS], None),
    ('ch empty list', VS, V, [], None), ('ch list of five ints', V, V, [3, 4, 5, 4, 3], 1), ('4 layers', V, V, VS, 4), ('ch rep equal to the input', VS, VS, VS, 2),
]
for be in BACKENDS:
    for nm, a, b, ch, k in CASES:
        scenario('P14', name='%s EMLP %s' % (be.name, nm))(
            lambda be=be, a=a, b=b, ch=ch, k=k: net(be, be.mod.EMLP, W2.g1, a, b, ch, k, call_net))
for nm, a, b, ch, k in CASES:
    scenario('P14', name='EMLPode ' + nm)(
        lambda be=BACKENDS[0], a=a, b=b, ch=ch, k=k: net(be, be.mod.EMLPode, W2.g1, a, b, ch, k, lambda be, m, x: m(x, 0.)))


def ham(a, ch):
    """EMLPH sums the network output over the batch"""
    pin_random('first')
    no.EMLPBlock = fake('block')
    no.Linear = fake('linear')
    ok, m = attempt('build', lambda: no.EMLPH(a, Scalar, W2.g1, ch=ch, num_layers=2))
    if not ok:
        return
    x = array('x', dim('batch'), a(W2.g1).size())
    z = x
    for it in sorted_like(LOG.items):
        z = jnp.einsum('...i,ji->...j', z, it[3])
    ok, y = attempt('H', lambda: m.H(x))
    if ok:
        expect_eq('H(x) is the sum of the outputs', y, jnp.sum(z))
    ok, y = attempt('call', lambda: m(x))
    if ok:
        expect_eq('the model is H', y, jnp.sum(z))


scenario('P14', name='EMLPH')(lambda: ham(2 * V, VS))


# ---------------------------------------------------------------- baselines
def affine(ps, nin, nout, x, transposed):
    W, b = take(ps, (nout, nin) if transposed else (nin, nout)), take(ps, (nout,))
    if W is None or b is None:
        return None
    return jnp.einsum('...i,ji->...j' if transposed else '...i,ij->...j', x, W) + b


def mlp(be, mk, layers, call, after=lambda y: y, ch=None):
    fwparams.reset()
    ch = dim('ch') if ch is None else ch
    G = SYM.g1
    ok, m = attempt('build', lambda: mk(2 * V, V + Scalar, G, ch=ch, num_layers=layers))
    if not ok:
        return
    nin, nout = 2 * G.d, G.d + 1
    x = array('x', dim('batch'), nin)
    ok, y = attempt('apply', lambda: call(be, m, x))
    if not ok:
        return
    ps = live(y)
    registered(be, m, ps)
    tr = be.name == 'torch'
    z = x
    for i in range(layers):
        z = affine(ps, z.shape[-1], ch, z, tr)
        if z is None:
            break
        z = jax.nn.sigmoid(z) * z
    if z is not None:
        z = affine(ps, z.shape[-1], nout, z, tr)
    if z is None:
        expect('every layer has a weight and a bias', False, str([p.shape for p in live(y)]))
        return
    expect_eq('the output is that of the multilayer perceptron with swish activations', y, after(z))


for be in BACKENDS:
    for k in (0, 1, 2):
        scenario('P14', name='%s MLP %d' % (be.name, k), tier='quick' if k < 2 else 'thorough')(
            lambda be=be, k=k: mlp(be, be.mod.MLP, k, call_net))
scenario('P14', name='MLPode')(lambda: mlp(BACKENDS[0], no.MLPode, 1, lambda be, m, x: m(x, 0.)))
scenario('P14', name='MLPH')(lambda: mlp(BACKENDS[0], no.MLPH, 1, lambda be, m, x: m(x), jnp.sum))
scenario('P14', name='MLPH.H')(lambda: mlp(BACKENDS[0], no.MLPH, 1, lambda be, m, x: m.H(x), jnp.sum))


# ---------------------------------------------------------------- Standardize
def standardize(be, two):
    nx, ny = dim('nx'), dim('ny')
    M = array('M', ny, nx)
    mx, sx, my, sy = array('mx', nx), array('sx', nx), array('my', ny), array('sy', ny)
    seen = []

    class Model(object):
        def __call__(self, x, training=True):
            seen.append(training)
            return wrap(jnp.einsum('...i,ji->...j', jx(x), M))
    wrap = torch.as_tensor if be.name == 'torch' else lambda z: z
    st = (wrap(mx), wrap(sx)) if two else (wrap(mx), wrap(sx), wrap(my), wrap(sy))
    ok, m = attempt('build', lambda: be.mod.Standardize(Model(), st))
    if not ok:
        return
    x = array('x', dim('batch'), nx)
    for tr in (True, False):
        ok, y = attempt('apply', lambda: jx(m(wrap(x), training=tr)))
        if ok:
            z = jnp.einsum('...i,ji->...j', (x - mx) / sx, M)
            expect_eq('normalises inputs' if two else 'normalises inputs, unnormalises outputs', y, z if two else sy * z + my)
            expect('passes the training flag on', seen[-1] == tr)


for be in (BACKENDS[0], BACKENDS[3]):
    scenario('P14', name=be.name + ' Standardize 2')(lambda be=be: standardize(be, True))
    scenario('P14', name=be.name + ' Standardize 4')(lambda be=be: standardize(be, False))


def standardized_net(be):
    fwparams.reset()
    m = be.mod.MLP(2 * V, V, SYM.g1, ch=dim('ch'), num_layers=1)
    wrap = torch.as_tensor if be.name == 'torch' else lambda z: z
    d = SYM.g1.d
    x = array('x', dim('batch'), 2 * d)
    mx, sx = array('mx', 2 * d), array('sx', 2 * d)
    s = be.mod.Standardize(m, (wrap(mx), wrap(sx)))
    ok, y = attempt('apply a standardized network', lambda: jx(s(wrap(x), training=True)))
    if ok:
        expect_eq('network of the normalised input', y, jx(m(wrap((x - mx) / sx))))


for be in (BACKENDS[0], BACKENDS[3]):
    scenario('P14', name=be.name + ' Standardize(MLP)')(lambda be=be: standardized_net(be))
