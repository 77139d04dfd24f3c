from reflib import *


# expressions decided with symbolic sizes
SIMPLE = [
    ('a+b', lambda w: Sum(w.a, w.b)), ('b+a+a', lambda w: Sum(w.b, w.a, w.a)),
    ('a+b+a', lambda w: Sum(w.a, w.b, w.a)), ('a+a2+a (equal sizes)', lambda w: Sum(w.a, w.a2, w.a)),
    ('a+b+c', lambda w: Sum(w.a, w.b, w.c)), ('a+(b+(c+a))', lambda w: RSum(w.a, w.b, w.c, w.a)),
    ('2a+b+3a', lambda w: Sum(Times(2, w.a), w.b, Times(3, w.a))),
    ('2(a+b)+b', lambda w: Sum(Times(2, Sum(w.a, w.b)), w.b)),
    ('a*b', lambda w: Prod(w.a, w.b)), ('b*a*a', lambda w: Prod(w.b, w.a, w.a)),
    ('a*b*a', lambda w: Prod(w.a, w.b, w.a)), ('a*a2*a (equal sizes)', lambda w: Prod(w.a, w.a2, w.a)),
    ('a*(b*(c*a))', lambda w: RProd(w.a, w.b, w.c, w.a)), ('a*b*c', lambda w: Prod(w.a, w.b, w.c)),
    ('a*b+c', lambda w: Sum(Prod(w.a, w.b), w.c)),
    ('scalar+a', lambda w: Sum(w.s0, w.a)), ('a+scalar+a', lambda w: Sum(w.a, w.s0, w.a)),
    ('scalar*a', lambda w: Prod(w.s0, w.a)), ('a*scalar*b', lambda w: Prod(w.a, w.s0, w.b)),
    ('a**3', lambda w: Pow(w.a, 3)), ('a**2*b', lambda w: Prod(Pow(w.a, 2), w.b)),
    ('a**2+a**1+b', lambda w: Sum(Pow(w.a, 2), Pow(w.a, 1), w.b)),
    ('a+3', lambda w: PlusInt(w.a, 3, w.s0)), ('2+a', lambda w: IntPlus(2, w.a, w.s0)), ('a+b+1', lambda w: PlusInt(Sum(w.a, w.b), 1, w.s0)),
    ('a+0', lambda w: PlusInt(w.a, 0, w.s0)), ('0+V', lambda w: IntPlus(0, w.v1, w.s0)), ('V+2', lambda w: PlusInt(w.v1, 2, w.s0)), ('1+V*', lambda w: IntPlus(1, w.v1d, w.s0)),
    ('(V+1)*b', lambda w: Prod(PlusInt(w.v1, 1, w.s0), w.b)), ('V1*V2+2', lambda w: PlusInt(Prod(w.v1, w.v2), 2, w.s0)),
    ('sum([b,a,b])', lambda w: PySum(w.b, w.a, w.b)), ('a*3', lambda w: RTimes(3, w.a)), ('a*1', lambda w: RTimes(1, w.a)), ('(b+a)*2', lambda w: RTimes(2, Sum(w.b, w.a))), ('1*(b+a)', lambda w: Times(1, Sum(w.b, w.a))),
    ('a>>b', lambda w: Hom(w.a, w.b)), ('b<<a', lambda w: Hom2(w.a, w.b)), ('V>>V', lambda w: Hom(w.v1, w.v1)),
    ('V*>>a', lambda w: Hom(w.v1d, w.a)), ('V<<a', lambda w: Hom2(w.a, w.v1)), ('scalar>>V', lambda w: Hom(w.s0, w.v1)),
    ('V', lambda w: w.v1), ('V*', lambda w: w.v1d), ('V+V*', lambda w: Sum(w.v1, w.v1d)),
    ('V*+V', lambda w: Sum(w.v1d, w.v1)), ('V*+V+V*', lambda w: Sum(w.v1d, w.v1, w.v1d)),
    ('V(x)V*', lambda w: Prod(w.v1, w.v1d)), ('V*(x)V', lambda w: Prod(w.v1d, w.v1)),
    ('V*(x)V(x)V*', lambda w: Prod(w.v1d, w.v1, w.v1d)),
    ('V**2+V*+1', lambda w: Sum(Pow(w.v1, 2), w.v1d, w.s0)),
    ('V+a', lambda w: Sum(w.v1, w.a)), ('V(x)a(x)V*', lambda w: Prod(w.v1, w.a, w.v1d)),
    ('V1*V2', lambda w: Prod(w.v1, w.v2)), ('V2*V1', lambda w: Prod(w.v2, w.v1)),
    ('V1*V2*V1', lambda w: Prod(w.v1, w.v2, w.v1)), ('V2*V1*V2', lambda w: Prod(w.v2, w.v1, w.v2)),
    ('V1*V2*V1*V2', lambda w: Prod(w.v1, w.v2, w.v1, w.v2)),
    ('(V1*V2)*(V1*V2)', lambda w: Prod(Prod(w.v1, w.v2), Prod(w.v1, w.v2))),
    ('V1*V3*V2', lambda w: Prod(w.v1, w.v3, w.v2)), ('V1*(V2*V1)', lambda w: RProd(w.v1, w.v2, w.v1)),
    ('V1+V2', lambda w: Sum(w.v1, w.v2)), ('V2+V1+V2', lambda w: Sum(w.v2, w.v1, w.v2)),
    ('V1*V1**V2', lambda w: Prod(w.v1, w.v1d, w.v2)), ('V1*V2*V1*', lambda w: Prod(w.v1, w.v2, w.v1d)),
    ('a*V2*b', lambda w: Prod(w.a, w.v2, w.b)), ('V1*xa*V1*', lambda w: Prod(w.v1, w.xa, w.v1d)),
    ('xa*V1*xb', lambda w: Prod(w.xa, w.v1, w.xb)), ('V3*V1+V1', lambda w: Sum(Prod(w.v3, w.v1), w.v1)),
]
# expressions whose index algebra needs instantiated sizes (entries stay symbolic)
DEEP = [
    ('(a+b)*c', lambda w: Prod(Sum(w.a, w.b), w.c)), ('c*(a+b)', lambda w: Prod(w.c, Sum(w.a, w.b))),
    ('(a+b)*(c+a)', lambda w: Prod(Sum(w.a, w.b), Sum(w.c, w.a))),
    ('(b+a)*(b+a)', lambda w: Prod(Sum(w.b, w.a), Sum(w.b, w.a))),
    ('(a+b+a)*b', lambda w: Prod(Sum(w.a, w.b, w.a), w.b)),
    ('(2a+b)*(2c)', lambda w: Prod(Sum(Times(2, w.a), w.b), Times(2, w.c))),
    ('a*b+b*a', lambda w: Sum(Prod(w.a, w.b), Prod(w.b, w.a))),
    ('b*a+b*a+a', lambda w: Sum(Prod(w.b, w.a), Prod(w.b, w.a), w.a)),
    ('(a+b)*c+a', lambda w: Sum(Prod(Sum(w.a, w.b), w.c), w.a)),
    ('(a*b+c)*b', lambda w: Prod(Sum(Prod(w.a, w.b), w.c), w.b)),
    ('c*(a*b+c)', lambda w: Prod(w.c, Sum(Prod(w.a, w.b), w.c))),
    ('(a+1)*b', lambda w: Prod(Sum(w.a, w.s0), w.b)), ('b*(1+a)', lambda w: Prod(w.b, Sum(w.s0, w.a))),
    ('(V+a)*(V*+a)', lambda w: Prod(Sum(w.v1, w.a), Sum(w.v1d, w.a))),
    ('(V*+V)*V', lambda w: Prod(Sum(w.v1d, w.v1), w.v1)),
    ('V>>(a+V)', lambda w: Hom(w.v1, Sum(w.a, w.v1))), ('(V1+V2)>>V1', lambda w: Hom(Sum(w.v1, w.v2), w.v1)), ('(V1*V2+1)>>V2', lambda w: Hom(PlusInt(Prod(w.v1, w.v2), 1, w.s0), w.v2)),
    ('V1*V2+V2*V1', lambda w: Sum(Prod(w.v1, w.v2), Prod(w.v2, w.v1))),
    ('(V1+V2)*V1', lambda w: Prod(Sum(w.v1, w.v2), w.v1)), ('V2*(V1+V2)', lambda w: Prod(w.v2, Sum(w.v1, w.v2))),
    ('(V1+a)*V2', lambda w: Prod(Sum(w.v1, w.a), w.v2)),
    ('(V1+V2)*(V1+V2)', lambda w: Prod(Sum(w.v1, w.v2), Sum(w.v1, w.v2))),
    ('(V1*+V2)*(V2+V1)', lambda w: Prod(Sum(w.v1d, w.v2), Sum(w.v2, w.v1))),
    ('V1**V2*V1', lambda w: Prod(w.v1d, w.v2, w.v1)), ('V2*(V1*V2*)', lambda w: RProd(w.v2, w.v1, w.v2d)),
    ('V1*V2*V1**V2*', lambda w: Prod(w.v1, w.v2, w.v1d, w.v2d)),
    ('V1*V2*V3*V1*V2', lambda w: Prod(w.v1, w.v2, w.v3, w.v1, w.v2)),
    ('V3*(V1*V2)*V1*', lambda w: Prod(w.v3, Prod(w.v1, w.v2), w.v1d)),
    ('(V1*V2+V3)*V2', lambda w: Prod(Sum(Prod(w.v1, w.v2), w.v3), w.v2)),
]


def rho_of(w, e):
    MS = w.Ms
    ok, r = attempt('build', lambda: e.reps())
    if not ok:
        return
    W = e.rho(MS)
    ok, sz = attempt('size', lambda: r.size())
    if ok:
        expect_eq('size', sz, W.shape[0])
    ok, R = attempt('rho', lambda: r.rho_dense(MS))
    if ok:
        expect_eq('rho', R, W)
    x = array('x', W.shape[0])
    ok, y = attempt('rho@vector', lambda: r.rho(MS) @ x)
    if ok:
        expect_eq('rho@vector', y, W @ x)


def drho_of(w, e):
    NS = w.Ns
    ok, r = attempt('build', lambda: e.reps())
    if not ok:
        return
    W = e.drho(NS)
    ok, R = attempt('drho', lambda: r.drho_dense(NS))
    if ok:
        expect_eq('drho', R, W)
    x = array('x', W.shape[0])
    ok, y = attempt('drho@vector', lambda: r.drho(NS) @ x)
    if ok:
        expect_eq('drho@vector', y, W @ x)


def canon_of(w, e):
    MS = w.Ms
    ok, r = attempt('build', lambda: e.reps())
    if not ok:
        return
    ok, cp = attempt('canonicalize', lambda: r.canonicalize())
    if not ok:
        return
    c, perm = cp
    expect_perm('permutation is a bijection', perm)
    W = e.rho(MS)
    ok, R = attempt('canonical rho', lambda: c.rho_dense(MS))
    if ok:
        expect_eq('canonical rho is the reordered rho', R, W[perm][:, perm])
    ok, cp2 = attempt('canonicalize twice', lambda: c.canonicalize())
    if ok:
        expect_eq('canonical form is already ordered', cp2[1], jnp.arange(W.shape[0]))
        expect('canonical form is a fixed point', cp2[0] == c)
    ok, h = attempt('canonical form is hashable', lambda: hash(c))


def both(pid, name, f, exprs=None):
    for nm, e in (SIMPLE if exprs is None else exprs):
        scenario(pid, name=name + ' ' + nm)(lambda e=e: f(SYM, e(SYM)))
    for wn, w in (('231', I231), ('222', I222)):
        for nm, e in DEEP:
            tier = 'thorough' if wn == '231' and nm == 'V1*V2*V3*V1*V2' else 'quick'
            scenario(pid, name=name + ' ' + nm + ' sizes ' + wn, tier=tier)(lambda w=w, e=e: (dense(), f(w, e(w))))


both('P04', 'rho', rho_of)
both('P05', 'drho', drho_of)
both('P07', 'canonical', canon_of)


# ---------------------------------------------------------------- user representations that only define rho
from emlp.reps.linear_operators import LazyKron, LazyDirectSum, LazyPerm, Lazy


class OnlyRho(Rep):
    def __init__(self, G, f, n):
        self.G = G
        self.f = f
        self.n = n

    def __call__(self, G):
        return OnlyRho(G, self.f, self.n)

    def size(self):
        return self.n

    def rho(self, M):
        return self.f(M)

    def __str__(self):
        return 'OnlyRho'


def tr(M):
    return jnp.einsum('ij->ji', M)


CYC = [1, 2, 0]
RHOS = [
    ('M', 1, lambda M: M, lambda A: A),
    ('lazy M', 1, lambda M: Lazy(M), lambda A: A),
    ('M (x) M', 2, lambda M: LazyKron([M, M]), lambda A: ksum(A, A)),
    ('dense M (x) M', 2, lambda M: kron(M, M), lambda A: ksum(A, A)),
    ('M + M', 'd', lambda M: LazyDirectSum([M], [2]), lambda A: blocks([A, A])),
    ('inverse transpose', 1, lambda M: tr(jnp.linalg.inv(M)), lambda A: -tr(A)),
    ('conjugate', 1, lambda M: jnp.conj(M), lambda A: jnp.conj(A)),
    ('M (x) inverse transpose', 2, lambda M: LazyKron([M, Lazy(tr(jnp.linalg.inv(M)))]), lambda A: ksum(A, -tr(A))),
    ('reordered', 1, lambda M: LazyPerm(np.array(CYC)) @ Lazy(M) @ LazyPerm(np.argsort(np.array(CYC))),
     lambda A: A[np.array(CYC)][:, np.array(CYC)]),
]


def only_rho(f, g, real, deg):
    d = 3
    if deg == 2:
        d = 2
    dense()

    class Gu(Group):
        is_orthogonal = False
        is_permutation = False
        lie_algebra = [array('A0', d, d, real=real)]
        discrete_generators = [array('h0', d, d, real=real)]
    Gu.d = d
    G = Gu()
    n = 2 * d if deg == 'd' else d ** deg
    r = OnlyRho(G, f, n)
    A = array('A', d, d, real=real)
    W = g(A)
    ok, D = attempt('drho', lambda: r.drho_dense(A))
    if ok:
        expect_eq('drho of a representation given by rho only', D, W)
    x = array('x', n, real=real)
    X = array('X', n, 2, real=real)
    for nm, h, want in [('@vector', lambda: r.drho(A) @ x, W @ x), ('@matrix', lambda: r.drho(A) @ X, W @ X),
                        ('.T@vector', lambda: r.drho(A).T @ x, tr(W) @ x),
                        ('.H@matrix', lambda: r.drho(A).H @ X, jnp.conj(tr(W)) @ X)]:
        ok, y = attempt('drho' + nm, h)
        if ok:
            expect_eq('drho' + nm, y, want)
    # inside composites
    V1 = V(G)
    for nm, e, want in [('sum', lambda: r + V1, blocks([W, A]) if n <= d else blocks([A, W])),
                        ('dual', lambda: r.T, -tr(W))]:
        ok, y = attempt('drho of ' + nm, lambda: e().drho_dense(A))
        if ok and nm == 'dual':
            expect_eq('drho of ' + nm, y, want)
        if ok and nm == 'sum':
            expect_eq('drho of ' + nm, y, blocks([W, A]))


for nm_, deg_, f_, g_ in RHOS:
    for real_ in (True, False):
        scenario('P05', name='only rho: ' + nm_ + (' real' if real_ else ' complex'))(
            lambda f_=f_, g_=g_, real_=real_, deg_=deg_: only_rho(f_, g_, real_, deg_))


# ---------------------------------------------------------------- taking vectors apart
def apart(w, e):
    dense()
    r = e.reps()
    if not type(r).__name__.startswith('SumRep'):
        return
    n = r.size()
    W = e.rho(w.Ms)
    v = array('v', 2, n)
    ok, d = attempt('as_dict', lambda: r.as_dict(v))
    if not ok:
        return
    ok, dg = attempt('as_dict of the moved vector', lambda: r.as_dict(v @ W.T))
    tot = 0
    for part in d:
        c = d[part]
        expect('a chunk is (batch, copies, size of the part)', c.ndim == 3 and c.shape[0] == 2 and c.shape[2] == part.size())
        tot = tot + c.shape[1] * c.shape[2]
        if ok:
            expect_eq('every copy of a part transforms by the part', dg[part], jnp.einsum('ij,bcj->bci', densely(part.rho(w.Ms)), c))
    expect('the chunks exhaust the vector', tot == n)
    ids = r.as_dict(np.arange(n))
    flat = []
    for part in ids:
        flat = flat + [int(i) for i in np.array(ids[part]).reshape(-1).tolist()]
    expect('every coordinate is in one chunk', sorted(flat) == list(range(n)))
    ps = list(r)
    expect('there are as many parts as len says', len(ps) == len(r))
    expect('the sizes of the parts add up', sum([p.size() for p in ps]) == n)
    expect('every part is iterated as often as it occurs', all([len([p for p in ps if p == q]) == d[q].shape[1] for q in d]))


def densely(x):
    return x.to_dense() if hasattr(x, 'to_dense') else x


for wn_, w_ in (('231', I231), ('222', I222)):
    for nm_, e_ in SIMPLE + DEEP:
        if '+' in nm_ and len(nm_) < 14:
            scenario('P07', name='taking vectors of %s apart, sizes %s' % (nm_, wn_))(lambda w=w_, e=e_: apart(w, e(w)))
