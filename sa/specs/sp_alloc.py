"""uniform_rep: allocation of channels to tensor types"""
from reflib import *
import emlp.nn.objax as no


def tensors(r):
    """[(p, q)] of the parts of a representation, None for a part that is no tensor of the base representation"""
    out = []
    for part in parts(r):
        out.append(rank_of(part))
    return out


def parts(r):
    if hasattr(r, 'reps') and type(r).__name__.startswith('SumRep'):
        return [p for p, c in r.reps.items() for _ in range(c)]
    return [r]


def rank_of(p):
    if p == Scalar:
        return (0, 0)
    if hasattr(p, 'reps'):
        fs = [f for f, c in p.reps.items() for _ in range(c)]
    else:
        fs = [p]
    a = len([f for f in fs if isinstance(f, type(V))])
    b = len([f for f in fs if isinstance(f, Dual)])
    return (a, b) if a + b == len(fs) else None


def maxrank(ch, d):
    r = 0
    while (r + 2) * d ** (r + 1) <= ch:
        r += 1
    return r


def uniform(ch, G, pat):
    dense()
    if pat:
        pin_random(pat)
    ok, r = attempt('channels can be allocated', lambda: no.uniform_rep(ch, G))
    if not ok:
        return
    d = G.d
    expect('all %d channels are used, no more' % ch, r.size() == ch)
    ts = tensors(r)
    expect('every part is a tensor T(p,q) of the group', all([t is not None for t in ts]))
    if not all([t is not None for t in ts]):
        return
    expect('the sizes of the parts add up', sum([d ** (p + q) for p, q in ts]) == ch)
    expect('every part belongs to the group', all([p == Scalar or not hasattr(p, 'G') or p.G is G or p.G == G for p in parts(r)]))
    m = maxrank(ch, d)
    by = [[t for t in ts if t[0] + t[1] == k] for k in range(m + 1)]
    expect('no tensor is of a rank whose share of the channels would not hold it', sum([len(b) for b in by]) == len(ts))
    chans = [len(b) * d ** k for k, b in enumerate(by)]
    expect('every rank that fits is used', all([c > 0 for c in chans]))
    expect('lower ranks get at least as many channels', all([chans[k] >= chans[k + 1] for k in range(m)]))
    expect('the first share is spread evenly', all([c >= d ** m for c in chans]))
    if G.is_orthogonal:
        expect('an orthogonal group has no duals', all([q == 0 for p, q in ts]))
    else:
        for k, b in enumerate(by):
            n = len(b) // 2 ** k
            expect('rank %d is split binomially' % k, all([len([t for t in b if t == (j, k - j)]) >= n * choose(k, j) for j in range(k + 1)]))
    c, perm = r.canonicalize()
    expect('it is in canonical order', [int(i) for i in np.array(perm).tolist()] == list(range(ch)))
    if d ** 2 * ch < 200:
        M = array('g', d, d)
        want = []
        for p in parts(r):
            want.append(densify_(p.rho(M)))
        expect_eq('it acts on each part separately', r.rho_dense(M), blocks(want))


def densify_(x):
    return x.to_dense() if hasattr(x, 'to_dense') else x


def choose(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


class Grp(Group):
    def __init__(self, d, orth):
        self.d = d
        self.is_orthogonal = orth
        self.is_permutation = False
        self.lie_algebra = np.zeros((0, d, d))
        self.discrete_generators = np.stack([np.eye(d)])
        self.args = (d, orth)

    def __repr__(self):
        return 'Grp(%d,%s)' % (self.d, self.orth_())

    def orth_(self):
        return 'o' if self.is_orthogonal else 'n'

    def __eq__(self, other):
        return repr(self) == repr(other)

    def __hash__(self):
        return hash(repr(self))


CH = {1: [1, 2, 3, 5], 2: [1, 2, 3, 4, 5, 7, 12, 13, 31, 32, 33, 80, 450], 3: [1, 5, 6, 7, 26, 27, 28, 50, 108, 109, 128], 4: [1, 8, 47, 48, 64, 100], 5: [9, 10, 75, 96], 8: [128, 130]}
for d_, chs in CH.items():
    for ch_ in chs:
        scenario('P22', name='%d channels, orthogonal group on R^%d' % (ch_, d_), **({'traces': (2, 20)} if ch_ > 400 else {}))(lambda ch=ch_, d=d_: uniform(ch, Grp(d, True), 'first'))
        for pat_ in ('first', 'last', 'rev'):
            scenario('P22', name='%d channels, group on R^%d (%s)' % (ch_, d_, pat_), tier='quick' if ch_ < 60 and pat_ != 'rev' or ch_ > 400 and pat_ == 'last' else 'thorough', **({'traces': (2, 20)} if ch_ > 400 else {}))(lambda ch=ch_, d=d_, p=pat_: uniform(ch, Grp(d, False), p))


def bound(ch, d):
    dense()
    r = no.lambertW(ch, d)
    expect('rank %s fits' % str(r), (r + 1) * d ** r <= ch)
    expect('the next rank does not', (r + 2) * d ** (r + 1) > ch)


@scenario('P22', name='the largest rank')
def bounds():
    dense()
    for d in (1, 2, 3, 4, 5, 8):
        for ch in (1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 26, 27, 31, 32, 47, 48, 49, 80, 81, 107, 108, 109, 384, 512):
            bound(ch, d)


# ---------------------------------------------------------------- the distribution of the tensors that are left over
class Dice(object):
    """every outcome of the random numbers asked for, with its probability"""
    def __init__(self):
        self.script = []
        self.ways = []
        self.pos = 0
        self.prob = 1

    def roll(self, weights):
        if self.pos == len(self.script):
            self.script.append(0)
            self.ways.append(len(weights))
        k = self.script[self.pos]
        self.pos = self.pos + 1
        self.prob = self.prob * weights[k]
        return k

    def many(self, weights, size):
        if size is None:
            return self.roll(weights)
        n = 1
        shape = size if isinstance(size, (tuple, list)) else (size,)
        for s in shape:
            n = n * int(s)
        return np.array([self.roll(weights) for _ in range(n)]).astype(int).reshape(tuple([int(s) for s in shape]))

    def binomial(self, n, p, size=None):
        n = int(n)
        return self.many([choose(n, k) * p ** k * (1 - p) ** (n - k) for k in range(n + 1)], size)

    def randint(self, low, high=None, size=None, *a, **k):
        lo, hi = (0, int(low)) if high is None else (int(low), int(high))
        x = self.many([1 / (hi - lo)] * (hi - lo), size)
        return x + lo

    def next(self):
        i = len(self.script) - 1
        while i >= 0 and self.script[i] + 1 >= self.ways[i]:
            i = i - 1
        if i < 0:
            return False
        self.script = self.script[:i] + [self.script[i] + 1]
        self.ways = self.ways[:i + 1]
        self.pos = 0
        self.prob = 1
        return True


def spread(ch, d):
    dense()
    G = Grp(d, False)
    dice = Dice()
    np.random.binomial = dice.binomial
    np.random.randint = dice.randint
    mean, total, left, runs = {}, 0, len(drawn()), 0
    while True:
        ts = tensors(no.uniform_rep(ch, G))
        runs = runs + 1
        total = total + dice.prob
        if any([t is None for t in ts]):
            expect('every part is a tensor T(p,q) of the group', False)
            return
        for t in ts:
            mean[t] = mean.get(t, 0) + dice.prob
        if runs > 100 or not dice.next():
            break
    if len(drawn()) > left or runs > 100:
        undecided('tensors are split binomially on average', 'other random numbers are drawn')
        return
    if total != 1:
        undecided('tensors are split binomially on average', 'the outcomes are not all of them')
        return
    m = max([p + q for p, q in mean])
    for k in range(m + 1):
        n = sum([mean.get((j, k - j), 0) for j in range(k + 1)])
        for j in range(k + 1):
            expect('on average T(%d,%d) is a share of %d/%d of the tensors of that rank' % (j, k - j, choose(k, j), 2 ** k),
                   mean.get((j, k - j), 0) * 2 ** k == n * choose(k, j), '%s of %s' % (str(mean.get((j, k - j), 0)), str(n)))


for ch_, d_, t_ in ((12, 2, 'quick'), (16, 2, 'quick'), (24, 2, 'thorough'), (28, 2, 'thorough'), (56, 2, 'thorough'), (64, 2, 'thorough'), (29, 3, 'quick'), (4, 3, 'quick'), (10, 4, 'quick'), (96, 4, 'thorough')):
    scenario('P22', name='%d channels on R^%d, all outcomes of the draws' % (ch_, d_), tier=t_)(lambda ch=ch_, d=d_: spread(ch, d))
