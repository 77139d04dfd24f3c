"""The data sets of emlp.datasets: labels transform with the features"""
from reflib import *
import emlp.groups as groups
import emlp.datasets as datasets
from emlp.datasets import *
from emlp.reps.linear_operators import densify


def perm_of(h):
    n = h.shape[0]
    return [int(x) for x in (h @ np.arange(n)).tolist()]


def matrices(G):
    """one element of infinite order of every one-parameter subgroup of the given generators (which is dense in it),
    with its name, and the discrete generators"""
    out = []
    for i, A in enumerate(G.lie_algebra):
        A = densify(A)
        d = A.shape[0]
        A2 = A @ A
        A3 = A2 @ A
        if same(A3, -A) == 'proved':
            out.append(('rotation %d by arccos(4/5)' % i, np.eye(d) + A * 3 / 5 + A2 * (1 - 4 / 5)))
        elif same(A3, A) == 'proved':
            out.append(('boost %d of cosh 5/4' % i, np.eye(d) + A * 3 / 4 + A2 * (5 / 4 - 1)))
        else:
            undecided('algebra generator %d' % i, 'no closed form of its one-parameter group')
    for i, h in enumerate(G.discrete_generators):
        out.append(('discrete generator %d' % i, densify(h)))
    return out


def regression(make, N):
    dense()
    ok, D = attempt('the data set can be built', make)
    if not ok:
        return
    G = D.symmetry
    X = jnp.asarray(D.X)
    Y = jnp.asarray(D.Y)
    ri = D.rep_in(G)
    ro = D.rep_out(G)
    expect('there are as many samples as were asked for', len(D) == N)
    expect('features are (samples, size of rep_in)', tuple(X.shape) == (N, ri.size()))
    expect('labels are (samples, size of rep_out)', tuple(Y.shape) == (N, ro.size()))
    for i in range(N):
        x, y = D[i]
        expect_eq('sample %d is its features' % i, jnp.asarray(x), X[i])
        expect_eq('and its label %d' % i, jnp.asarray(y), Y[i])
    expect('features vary freely', all([len(mentioned(X[i])) >= X.shape[1] for i in range(N)]))
    for nm, g in matrices(G):
        gi = densify(ri.rho(g))
        go = densify(ro.rho(g))
        gX = X @ gi.T
        expect_eq('labels transform under ' + nm, moved(Y, X, gX), Y @ go.T)
        mx, sx, my, sy = D.stats
        for what, m, s, r in (('features', mx, sx, gi), ('labels', my, sy, go)):
            one = jnp.ones((r.shape[0],))
            m = m * one
            s = s * one
            expect_eq('the mean subtracted from the %s is invariant under %s' % (what, nm), r @ m, m)
            expect_eq('the scale of the %s commutes with %s' % (what, nm), r * s, s[:, None] * r)


def mentioned(x):
    return entries_of_draws(x)


for nm_, mk_, N_, tier_ in (('Inertia, one body', lambda: Inertia(2, 1), 2, 'quick'), ('Inertia, two bodies', lambda: Inertia(1, 2), 1, 'quick'), ('Inertia, three bodies', lambda: Inertia(2, 3), 2, 'quick'),
                            ('Inertia', lambda: Inertia(1), 1, 'thorough'), ('O5Synthetic', lambda: O5Synthetic(2), 2, 'quick'), ('ParticleInteraction', lambda: ParticleInteraction(2), 2, 'quick'),
                            ('ParticleInteraction, one sample', lambda: ParticleInteraction(1), 1, 'quick')):
    scenario('P21', name=nm_, tier=tier_)(lambda mk=mk_, N=N_: regression(mk, N))


# ---------------------------------------------------------------- classification of puzzle states
def state(x, G):
    return jnp.asarray(x).reshape(6, G.d)


def classes(make, d):
    """training examples: labels tell the orbits apart"""
    dense()
    ok, D = attempt('the data set can be built', make)
    if not ok:
        return
    G = D.symmetry
    ps = [perm_of(h) for h in G.discrete_generators]
    expect('there is no continuous symmetry', len(G.lie_algebra) == 0)
    X = jnp.asarray(D.X)
    ys = [int(y) for y in np.array(D.Y).tolist()]
    n = len(D)
    expect('features are (samples, 6 tensors)', tuple(X.shape) == (n, D.rep_in(G).size()))
    expect('one label per sample', len(ys) == n)
    expect('there are as many outputs as classes', sorted(set(ys)) == list(range(D.rep_out(G).size())))
    reps = {}
    for i in range(n):
        S = state(X[i], G)
        x, y = D[i]
        expect_eq('sample %d is its features' % i, jnp.asarray(x), X[i])
        expect('and its label %d' % i, int(y) == ys[i])
        expect_eq('every position of state %d has one colour' % i, S.sum(0), jnp.ones(d))
        for lab in list(reps):
            T_ = reps[lab]
            if lab == ys[i]:
                if same(S, T_) != 'proved':
                    note('several states of one class')
            else:
                expect('no element of the group carries state %d to a state of the other class' % i, not same_orbit(ps, S, T_) and not same_orbit(ps, T_, S))
        if ys[i] not in reps:
            reps[ys[i]] = S
    m, s = D.stats[:2]
    expect('features are not shifted or scaled', same(m * jnp.ones(3), jnp.zeros(3)) == 'proved' and same(s * jnp.ones(3), jnp.ones(3)) == 'proved')


def fixed_samples(self, N):
    hs = [densify(h) for h in self.discrete_generators]
    ws = [np.eye(self.d), hs[0], hs[0] @ hs[-1], hs[-1] @ hs[0] @ hs[len(hs) // 2], hs[0].T @ hs[len(hs) // 2]]
    return jnp.stack([ws[i % 5] for i in range(N)])


def scrambled(make, make_train, pat, picks):
    """test examples: scrambled, with the label of the orbit they lie in"""
    dense()
    pin_random(pat)
    Group.samples = fixed_samples
    ok, D = attempt('the scrambled data set can be built', make)
    if not ok:
        return
    tr = make_train()
    G = D.symmetry
    ps = [perm_of(h) for h in G.discrete_generators]
    X = jnp.asarray(D.X)
    ys = np.array(D.Y)
    n = len(D)
    expect('features are (samples, 6 tensors)', tuple(X.shape) == (n, D.rep_in(G).size()))
    expect('one label per sample', tuple(ys.shape) == (n,))
    trs = []
    for i in range(len(tr)):
        S, y = state(tr.X[i], G), int(np.array(tr.Y)[i])
        if not any([y == y2 and same(S, S2) == 'proved' for S2, y2 in trs]):
            trs.append((S, y))
    for j in picks:
        if j >= n:
            continue
        y = int(ys[j])
        S = state(X[j], G)
        for S0, y0 in trs:
            if y0 == y:
                expect('scrambled state %d is a training state of its label moved by the group' % j, any([same_orbit(ps, S1, S) for S1, y1 in trs if y1 == y]))
            else:
                expect('scrambled state %d is not reached from a state of another label' % j, not same_orbit(ps, S0, S))


for nm_, mk_, d_ in (('InvertedCube', lambda **k: InvertedCube(**k), 6), ('BrokenRubiksCube', lambda **k: BrokenRubiksCube(**k), 48)):
    scenario('P21', name=nm_ + ', training states')(lambda mk=mk_, d=d_: classes(lambda: mk(train=True), d))
    for pat_ in ('first', 'rev'):
        scenario('P21', name='%s, scrambled states (%s)' % (nm_, pat_))(
            lambda mk=mk_, pat=pat_: scrambled(lambda: mk(train=False), lambda: mk(train=True), pat, (0, 1, 13, 49, 51, 99, 100, 217, 221, 438, 439)))


# ---------------------------------------------------------------- broken cubes
def breaker(f, what, order):
    dense()
    s = array('state', 6, 48)
    before = jnp.asarray(s)
    st = np.array(s)
    ok, r = attempt('the state can be broken', lambda: f(st))
    if not ok:
        return
    expect_eq('the given state is not changed', jnp.asarray(st), before)
    src = [int(x) for x in np.array(f(np.stack([np.arange(48)] * 6)))[0].tolist()]
    expect('stickers are rearranged', sorted(src) == list(range(48)))
    expect_eq('every colour moves with its sticker', jnp.asarray(r), jnp.stack([before[:, k] for k in src], 1))
    ps = [perm_of(h) for h in groups.RubiksCube().discrete_generators]
    expect('exactly the stickers of the %s move' % what, len([i for i in range(48) if src[i] != i]) == order)
    expect('no sequence of moves does this', perm_group_order(ps + [src]) > perm_group_order(ps))


for nm_, f_, what_, k_ in (('UBedge_flip', lambda s: datasets.UBedge_flip(s), 'UB edge', 2), ('ULBcorner_rot', lambda s: datasets.ULBcorner_rot(s), 'ULB corner', 3),
                           ('ULBcorner_rot twice', lambda s: datasets.ULBcorner_rot(s, i=2), 'ULB corner', 3), ('LBface_swap', lambda s: datasets.LBface_swap(s), 'L and B faces', 2)):
    scenario('P21', name=nm_)(lambda f=f_, w=what_, k=k_: breaker(f, w, k))


# ---------------------------------------------------------------- augmentation
class Model(object):
    def __init__(self, n, m):
        self.A = array('net', m, n, n)
        self.calls = []

    def __call__(self, x, training=True):
        self.calls.append(training)
        return jnp.einsum('oij,bi,bj->bo', self.A, x, x)


def augmented(mk, N):
    dense()
    D = mk()
    G = D.symmetry
    ri, ro = D.rep_in(G), D.rep_out(G)
    n, m = ri.size(), ro.size()
    gs = [g for _, g in matrices(G)]
    gs = [gs[i % len(gs)] for i in range(N)]
    f = Model(n, m)
    ok, a = attempt('the augmented model can be built', lambda: D.default_aug(f))
    if not ok:
        return
    Group.samples = lambda self, k: jnp.stack(gs[:k])
    x = array('x', N, n)
    ok, y = attempt('evaluation passes the data through', lambda: a(x, False))
    if ok:
        expect_eq('without training the model is applied as it is', y, f(x, False))
    expect('the model is told about evaluation', not any(f.calls))
    f.calls = []
    ok, y = attempt('training can be augmented', lambda: a(x, True))
    if ok:
        expect('the model is told about training', len(f.calls) > 0 and all(f.calls))
        for i in range(N):
            gi, go = densify(ri.rho(gs[i])), densify(ro.rho(gs[i]))
            # rho_out(g) is undone: compare after applying it again
            expect_eq('sample %d is moved by its own group element and moved back' % i, go @ y[i], f((gi @ x[i])[None])[0])


for nm_, mk_ in (('Inertia', lambda: Inertia(1, 1)), ('O5Synthetic', lambda: O5Synthetic(1)), ('ParticleInteraction', lambda: ParticleInteraction(1))):
    scenario('P21', name='augmentation of ' + nm_)(lambda mk=mk_: augmented(mk, 2))


class Twisted(object):
    """data set attributes of a group whose elements are not orthogonal"""
    def __init__(self, sym, ri, ro):
        self.symmetry, self.rep_in, self.rep_out = sym, ri, ro

    def default_aug(self, f):
        return datasets.GroupAugmentation(f, self.rep_in, self.rep_out, self.symmetry)


for nm_, mk_ in (('boosts, vectors to vectors', lambda: Twisted(groups.SO11p(), V, V)), ('boosts, vectors to duals', lambda: Twisted(groups.SO11p(), V, V.T)), ('boosts, duals to maps', lambda: Twisted(groups.SO11p(), V.T, V * V.T)),
                 ('rotations, pairs to vectors', lambda: Twisted(groups.SO(3), V + Scalar, V)), ('cycles, vectors to tensors', lambda: Twisted(groups.Z(3), V, V * V))):
    scenario('P21', name='augmentation over ' + nm_)(lambda mk=mk_: augmented(mk, 3))
