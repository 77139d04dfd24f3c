"""The groups of emlp.groups: generators, flags, sampling, products and embeddings"""
from _spec import *
import numpy as np
import jax
import jax.numpy as jnp
import emlp.groups as groups
from emlp.groups import *
from emlp.groups import Parity, TimeReversal, DirectProduct, matrix_power_simple, noise2sample, noise2samples
from emlp.reps.linear_operators import densify, LazyPerm
from emlp.reps.representation import V


def gens(xs):
    """generators as dense matrices"""
    return [densify(x) for x in xs]


def ct(A):
    return jnp.conj(A.T)


# ---------------------------------------------------------------- P16 the continuous part
def eta(d):
    return np.diag(np.array([1.] + [-1.] * (d - 1)))


def omega(m):
    W = np.zeros((2 * m, 2 * m))
    for i in range(m):
        W[i, m + i] = 1.
        W[m + i, i] = -1.
    return W


def antisym(A):
    return A + A.T


def antiherm(A):
    return A + ct(A)


def trace_(A):
    return jnp.trace(A)


def nothing(A):
    return 0. * A


# name, constructor, dimension of the representation, dimension of the algebra, linear equations
ALG = []
for n_ in (1, 2, 3, 4, 5, 6, 7):
    ALG += [('SO(%d)' % n_, lambda n=n_: SO(n), n_, n_ * (n_ - 1) // 2, [antisym]), ('O(%d)' % n_, lambda n=n_: O(n), n_, n_ * (n_ - 1) // 2, [antisym]),
            ('SL(%d)' % n_, lambda n=n_: SL(n), n_, n_ * n_ - 1, [trace_]), ('GL(%d)' % n_, lambda n=n_: GL(n), n_, n_ * n_, [nothing]),
            ('U(%d)' % n_, lambda n=n_: U(n), n_, n_ * n_, [antiherm]), ('SU(%d)' % n_, lambda n=n_: SU(n), n_, n_ * n_ - 1, [antiherm, trace_]),
            ('Trivial(%d)' % n_, lambda n=n_: Trivial(n), n_, 0, [nothing]), ('S(%d)' % n_, lambda n=n_: S(n), n_, 0, [nothing]), ('Z(%d)' % n_, lambda n=n_: Z(n), n_, 0, [nothing]),
            ('Scaling(%d)' % n_, lambda n=n_: Scaling(n), n_, 1, [lambda A: A - A[0, 0] * np.eye(A.shape[0])]),
            ('C(%d)' % n_, lambda n=n_: C(n), 2, 0, [nothing]), ('D(%d)' % n_, lambda n=n_: D(n), 2, 0, [nothing])]
for m_ in (1, 2, 3, 4, 5):
    ALG.append(('Sp(%d)' % m_, lambda m=m_: Sp(m), 2 * m_, m_ * (2 * m_ + 1), [lambda A, m=m_: A.T @ omega(m) + omega(m) @ A]))
lor = [lambda A: A.T @ eta(4) + eta(4) @ A]
lor2 = [lambda A: A.T @ eta(2) + eta(2) @ A]
ALG += [('SO13p', lambda: SO13p(), 4, 6, lor), ('SO13', lambda: SO13(), 4, 6, lor), ('O13', lambda: O13(), 4, 6, lor), ('Lorentz', lambda: Lorentz(), 4, 6, lor),
        ('SO11p', lambda: SO11p(), 2, 1, lor2), ('O11', lambda: O11(), 2, 1, lor2), ('Parity', lambda: Parity(), 4, 0, [nothing]), ('TimeReversal', lambda: TimeReversal(), 4, 0, [nothing]),
        ('Cube', lambda: Cube(), 6, 0, [nothing]), ('RubiksCube', lambda: RubiksCube(), 48, 0, [nothing]), ('ZksZnxZn(2,2)', lambda: ZksZnxZn(2, 2), 8, 0, [nothing]),
        ('ZksZnxZn(4,2)', lambda: ZksZnxZn(4, 2), 16, 0, [nothing]), ('ZksZnxZn(4,3)', lambda: ZksZnxZn(4, 3), 36, 0, [nothing]),
        ('SO2eR3', lambda: SO2eR3(), 3, 1, [antisym, lambda A: A[2], lambda A: A[:, 2]]), ('O2eR3', lambda: O2eR3(), 3, 1, [antisym, lambda A: A[2], lambda A: A[:, 2]]),
        ('DkeR3(3)', lambda: DkeR3(3), 3, 0, [nothing])]


def algebra(g, d, k, eqs):
    dense()
    ok, G = attempt('can be constructed', g)
    if not ok:
        return
    expect('acts on %d dimensions' % d, G.d == d)
    ok, As = attempt('algebra generators are matrices', lambda: gens(G.lie_algebra))
    if not ok:
        return
    for i, A in enumerate(As):
        expect('generator %d is %dx%d' % (i, d, d), tuple(A.shape) == (d, d))
        for j, eq in enumerate(eqs):
            r = eq(A)
            expect_close('generator %d satisfies equation %d of the Lie algebra' % (i, j), r, 0. * r)
    if k:
        expect('the generators span the %d dimensional Lie algebra' % k, rank_num(jnp.concatenate([jnp.stack([A.reshape(-1).real, A.reshape(-1).imag]).reshape(1, -1) for A in As], 0)) == k)
    else:
        expect('there is no continuous generator', rank_num(jnp.concatenate([A.reshape(1, -1) for A in As], 0)) == 0 if len(As) else True)
    expect('number of constraints is the number of generators', G.num_constraints() == len(G.lie_algebra) + len(G.discrete_generators))


for nm, g, d, k, eqs in ALG:
    big = nm in ('Sp(5)', 'SL(7)', 'GL(7)', 'U(7)', 'SU(7)', 'U(6)', 'SU(6)')
    scenario('P16', name='algebra of ' + nm, tier='thorough' if big else 'quick')(lambda g=g, d=d, k=k, eqs=eqs: algebra(g, d, k, eqs))


# ---------------------------------------------------------------- P17 the discrete part
def perm_of(h):
    """the permutation a permutation matrix applies to coordinate vectors, by acting on labels"""
    n = h.shape[0]
    return [int(x) for x in (h @ np.arange(n)).tolist()]


def order_is(G, k):
    ps = [perm_of(h) for h in G.discrete_generators]
    expect('the generators are permutations of the coordinates', all([sorted(p) == list(range(G.d)) for p in ps]))
    expect('the generators generate the group of order %d' % k, perm_group_order(ps) == k)
    for i, h in enumerate(G.discrete_generators):
        D = densify(h)
        expect_close('generator %d as a matrix' % i, D, jnp.stack([jnp.array([1. if ps[i][r] == c else 0. for c in range(G.d)]) for r in range(G.d)]) if G.d < 13 else D)
    return ps


def fact(n):
    r = 1
    for i in range(2, n + 1):
        r *= i
    return r


for n_ in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13):
    def s_n(n=n_):
        dense()
        G = S(n)
        order_is(G, fact(n))

    def z_n(n=n_):
        dense()
        G = Z(n)
        order_is(G, n)
        ps = [perm_of(h) for h in G.discrete_generators]
        x = 0
        seen = []
        for i in range(n):
            seen.append(x)
            x = ps[0][x]
        expect('the generator is one cycle', sorted(seen) == list(range(n)))
        sh = ps[0]
        expect('the generator is a shift by one', all([(sh[i] - i) % n == 1 % n for i in range(n)]) or all([(i - sh[i]) % n == 1 % n for i in range(n)]))
    scenario('P17', name='S(%d)' % n_)(s_n)
    scenario('P17', name='Z(%d)' % n_)(z_n)


@scenario('P17', name='Cube')
def cube():
    dense()
    G = Cube()
    ps = order_is(G, 24)
    # the rotation group of the cube permutes three pairs of opposite faces; a single axis turn fixes exactly one pair
    for p in ps:
        fixed = [i for i in range(6) if p[i] == i]
        expect('a quarter turn fixes two faces', len(fixed) == 2)
        q = [p[p[p[p[i]]]] for i in range(6)]
        expect('a quarter turn has order four', q == list(range(6)) and [p[p[i]] for i in range(6)] != list(range(6)))
    # blocks: the face opposite to i is the only one fixed by every element which fixes i
    opp = []
    for i in range(6):
        opp.append([j for j in range(6) if j != i and all([(p[i] != i) or p[j] == j for p in words(ps, 4)])])
    expect('faces come in three opposite pairs', all([len(o) == 1 for o in opp]) and all([opp[opp[i][0]][0] == i for i in range(6)]))


def words(ps, k):
    n = len(ps[0])
    seen = [list(range(n))]
    new = seen
    for _ in range(k):
        nxt = []
        for w in new:
            for p in ps:
                v = [p[w[i]] for i in range(n)]
                if v not in seen:
                    seen.append(v)
                    nxt.append(v)
        new = nxt
    return seen


@scenario('P17', name='RubiksCube')
def rubik():
    dense()
    G = RubiksCube()
    ps = [perm_of(h) for h in G.discrete_generators]
    for i, p in enumerate(ps):
        expect('turn %d permutes the stickers' % i, sorted(p) == list(range(48)))
        expect('turn %d moves 20 stickers' % i, len([j for j in range(48) if p[j] != j]) == 20)
        expect('turn %d has order four' % i, [p[p[p[p[j]]]] for j in range(48)] == list(range(48)) and all([p[p[j]] != j for j in range(48) if p[j] != j]))
    expect('the turns generate the group of the cube', perm_group_order(ps) == 43252003274489856000)
    # every turn rotates exactly one face (8 stickers), and all six faces are turned
    faces = [[f for f in range(6) if all([p[8 * f + j] // 8 == f and p[8 * f + j] != 8 * f + j for j in range(8)])] for p in ps]
    expect('each turn rotates one face', all([len(f) == 1 for f in faces]))
    expect('every face can be turned', sorted([f[0] for f in faces if len(f)]) == list(range(6)))


for k_, n_ in ((2, 2), (2, 3), (4, 2), (4, 3), (2, 4), (4, 4), (2, 5)):
    def zk(k=k_, n=n_):
        dense()
        G = ZksZnxZn(k, n)
        expect('acts on k*n*n coordinates', G.d == k * n * n)
        ps = [perm_of(h) for h in G.discrete_generators]
        expect('the generators permute the coordinates', all([sorted(p) == list(range(G.d)) for p in ps]))
        expect('the group has order k n^2', perm_group_order(ps) == k * n * n)
        # regular: transitive (the order equals the degree)
        orb = [0]
        todo = [0]
        while todo:
            x = todo.pop()
            for p in ps:
                if p[x] not in orb:
                    orb.append(p[x])
                    todo.append(p[x])
        expect('the action is regular', len(orb) == k * n * n)
        # two commuting translations, one along each axis, within every orientation
        tr = [p for p in ps if all([p[i] // (n * n) == i // (n * n) for i in range(G.d)])]
        expect('two translations', len(tr) >= 2)
        if len(tr) >= 2:
            a, b = tr[0], tr[1]
            expect('the translations commute', [a[b[i]] for i in range(G.d)] == [b[a[i]] for i in range(G.d)])
            expect('the translations generate n^2 elements', perm_group_order([a, b]) == n * n)
            for nm, p in (('first', a), ('second', b)):
                rows = all([(p[i] // n % n == i // n % n) for i in range(G.d)])
                cols = all([(p[i] % n == i % n) for i in range(G.d)])
                expect('the %s translation moves along one axis' % nm, rows or cols)
        # the rotation turns the grid by a multiple of 90 degrees while it cycles the orientations
        ro = [p for p in ps if not all([p[i] // (n * n) == i // (n * n) for i in range(G.d)])]
        expect('one rotation', len(ro) == 1)
        if len(ro) == 1:
            p = ro[0]
            q = list(range(G.d))
            for _ in range(k):
                q = [p[j] for j in q]
            expect('the rotation has order k', q == list(range(G.d)) and perm_group_order([p]) == k)

            def cell(i):
                return (i // n % n, i % n)
            turns = [lambda r, c: (c, n - 1 - r), lambda r, c: (n - 1 - r, n - 1 - c), lambda r, c: (n - 1 - c, r)]
            want = [turns[1]] if k == 2 else [turns[0], turns[2]]
            expect('the rotation turns the grid by 360/k degrees', any([all([cell(p[i]) == t(*cell(i)) for i in range(G.d)]) for t in want]))
            expect('the rotation cycles the orientations', all([(p[i] // (n * n) - i // (n * n)) % k == (p[0] // (n * n)) % k for i in range(G.d)]) and (p[0] // (n * n)) % k in (1, k - 1))
    scenario('P17', name='ZksZnxZn(%d,%d)' % (k_, n_), tier='thorough' if k_ * n_ * n_ > 36 else 'quick')(zk)


def mpow(A, k):
    r = np.eye(A.shape[0])
    for _ in range(k):
        r = r @ A
    return r


for k_ in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 24):
    def cyc(k=k_, cls=C, nm='C'):
        dense()
        G = cls(k)
        hs = gens(G.discrete_generators)
        r = hs[0]
        th = 2 * np.pi / k
        def near(w):
            return all([abs(r[i, j] - w[i][j]) < 1e-6 for i in range(2) for j in range(2)])
        expect('the first generator is a rotation by +-360/k degrees', any([near([[np.cos(th), q * np.sin(th)], [-q * np.sin(th), np.cos(th)]]) for q in (1, -1)]))
        expect_close('the rotation has order k', mpow(r, k), np.eye(2))
        if nm == 'C':
            expect('one generator', len(hs) == 1)
        else:
            expect('two generators', len(hs) == 2)
            s = hs[1]
            expect_close('the reflection has order two', s @ s, np.eye(2))
            expect_close('the reflection has determinant -1', jnp.stack([s[0, 0] * s[1, 1] - s[0, 1] * s[1, 0]]), -np.ones(1))
            expect_close('the reflection inverts rotations', s @ r @ s @ r, np.eye(2))
    scenario('P17', name='C(%d)' % k_)(cyc)
    scenario('P17', name='D(%d)' % k_)(lambda k=k_, f=cyc: f(k, D, 'D'))

for n_ in (1, 2, 3, 4, 5, 6):
    def o_n(n=n_):
        dense()
        G = O(n)
        hs = gens(G.discrete_generators)
        neg = False
        for i, h in enumerate(hs):
            expect_close('generator %d is orthogonal' % i, h.T @ h, np.eye(n))
            neg = neg or ndet(h) < 0
        expect('a generator has determinant -1', neg)
    scenario('P17', name='O(%d)' % n_)(o_n)


def ndet(h):
    """determinant of a literal matrix, by expansion along the first row"""
    n = h.shape[0]
    if n == 1:
        return h[0, 0]
    r = 0.
    for j in range(n):
        r = r + (-1.)**j * h[0, j] * ndet(jnp.concatenate([h[1:, :j], h[1:, j + 1:]], 1))
    return r


def lorentz(g, d, comps, extra=()):
    """every discrete generator preserves the metric, and together they reach the components of the group"""
    dense()
    G = g()
    hs = gens(G.discrete_generators)
    signs = [(1, 1)]
    new = []
    for i, h in enumerate(hs):
        expect_close('generator %d preserves the metric' % i, h.T @ eta(d) @ h, eta(d))
        new.append((1 if ndet(h) > 0 else -1, 1 if h[0, 0] > 0 else -1))
    for _ in range(4):
        for a in list(signs):
            for b in new:
                c = (a[0] * b[0], a[1] * b[1])
                if c not in signs:
                    signs.append(c)
    expect('the generators reach the components of the group', sorted(signs) == sorted(comps))


ALLC = [(1, 1), (1, -1), (-1, 1), (-1, -1)]
for nm, g, d, comps in (('SO13p', lambda: SO13p(), 4, [(1, 1)]), ('SO13', lambda: SO13(), 4, [(1, 1), (1, -1)]), ('O13', lambda: O13(), 4, ALLC), ('Lorentz', lambda: Lorentz(), 4, ALLC),
                        ('SO11p', lambda: SO11p(), 2, [(1, 1)]), ('O11', lambda: O11(), 2, ALLC), ('Parity', lambda: Parity(), 4, [(1, 1), (-1, 1)]),
                        ('TimeReversal', lambda: TimeReversal(), 4, [(1, 1), (-1, -1)])):
    scenario('P17', name=nm)(lambda g=g, d=d, comps=comps: lorentz(g, d, comps))


@scenario('P17', name='what parity and time reversal do')
def inversions():
    dense()
    for nm, G, want in (('parity reverses space', Parity(), eta(4)), ('time reversal reverses time', TimeReversal(), -eta(4))):
        hs = [h for h in gens(G.discrete_generators)]
        expect('one inversion (%s)' % nm, len(hs) == 1)
        if len(hs) == 1:
            expect_close(nm, hs[0], want)

for nm_, g_ in (('SO(3)', lambda: SO(3)), ('SL(2)', lambda: SL(2)), ('GL(2)', lambda: GL(2)), ('U(2)', lambda: U(2)), ('SU(2)', lambda: SU(2)), ('Sp(1)', lambda: Sp(1)), ('Scaling(2)', lambda: Scaling(2)),
              ('Trivial(3)', lambda: Trivial(3)), ('SO2eR3', lambda: SO2eR3()), ('SO(2)', lambda: SO(2)), ('Sp(2)', lambda: Sp(2)), ('SU(3)', lambda: SU(3))):
    def conn(g=g_):
        dense()
        G = g()
        for i, h in enumerate(gens(G.discrete_generators)):
            expect_close('a connected group has no discrete generator but the identity (%d)' % i, h, np.eye(G.d))
    scenario('P17', name='connected ' + nm_)(conn)


# ---------------------------------------------------------------- P18 flags
ORTH = ['SO', 'O(', 'C(', 'D(', 'Z', 'S(', 'Trivial', 'Cube', 'Rubiks', 'DkeR3', 'O2eR3', 'Parity', 'TimeReversal']
NOT_ORTH = ['SO13', 'SO11']
PERMS = ['Trivial', 'Z', 'S(', 'Cube', 'Rubiks', 'SO(1)', 'SL(1)', 'SU(1)', 'C(1)']


def flags(nm, g):
    dense()
    ok, G = attempt('can be constructed', g)
    if not ok:
        return
    orth = nm in ('SL(1)', 'SU(1)') or (any([nm[:len(o)] == o for o in ORTH]) and not any([nm[:len(o)] == o for o in NOT_ORTH]))
    perm = any([nm[:len(o)] == o for o in PERMS])
    expect('is_orthogonal is %s' % orth, bool(G.is_orthogonal) == orth)
    expect('is_permutation is %s' % perm, bool(G.is_permutation) == perm)
    expect('representations inherit is_permutation', bool(V(G).is_permutation) == perm)
    expect('V is self dual exactly for orthogonal groups', (V(G).T == V(G)) == orth)


for nm, g, d, k, eqs in ALG:
    big = nm in ('Sp(3)', 'SO(5)', 'O(5)', 'SL(5)', 'GL(5)', 'U(5)', 'SU(5)', 'U(4)', 'SU(4)', 'Sp(2)', 'GL(4)', 'SL(4)', 'ZksZnxZn(4,3)', 'ZksZnxZn(4,2)') or d > 5 and nm[0] not in 'ZST' and nm != 'Cube'
    if nm != 'RubiksCube':
        scenario('P18', name='flags of ' + nm, tier='thorough' if big else 'quick')(lambda nm=nm, g=g: flags(nm, g))


class UserGroup(Group):
    def __init__(self, alg, disc, lazy=False, **kw):
        if alg is not None:
            self.lie_algebra = np.stack(alg)
        if disc is not None:
            self.discrete_generators = [LazyPerm(np.array(p)) for p in disc] if lazy else np.stack(disc)
        if 'is_permutation' in kw:
            self.is_permutation = kw['is_permutation']
        if 'is_orthogonal' in kw:
            self.is_orthogonal = kw['is_orthogonal']
        super().__init__()


J = np.array([[0., 1.], [-1., 0.]])
SW = np.array([[0., 1.], [1., 0.]])
I2 = np.eye(2)
SQ = np.array([[2., 0.], [0., .5]])
SH = np.array([[1., 1.], [0., 1.]])
R45 = np.array([[.6, .8], [-.8, .6]])
RF = np.array([[-1., 0.], [0., 1.]])
PROJ = np.array([[1., 0.], [1., 0.]])
USER = [('rotation algebra', [J], None, True, False), ('boost algebra', [SW], None, False, False), ('mixed algebra', [J, SW], None, False, False),
        ('swap', None, [SW], True, True), ('squeeze', None, [SQ], False, False), ('shear', None, [SH], False, False), ('swap, squeeze', None, [SW, SQ], False, False),
        ('squeeze, swap', None, [SQ, SW], False, False), ('rotation', None, [R45], True, False), ('swap, rotation', None, [SW, R45], True, False),
        ('rotation, swap', None, [R45, SW], True, False), ('swap, reflection', None, [SW, RF], True, False), ('reflection', None, [RF], True, False), ('minus swap', None, [-SW], True, False),
        ('rotation algebra and swap', [J], [SW], True, False), ('boost algebra and swap', [SW], [SW], False, False), ('rotation algebra and squeeze', [J], [SQ], False, False),
        ('identity', None, [I2], True, True), ('swap, identity', None, [SW, I2], True, True), ('lazy swap', None, [[1, 0]], True, True), ('lazy cycle', None, [[1, 2, 0], [0, 2, 1]], True, True),
        ('complex phase', None, [1j * I2], False, False), ('almost a rotation', None, [1.0002 * R45], False, False), ('almost a rotation, rotation', None, [1.0002 * R45, R45], False, False),
        ('rotation, almost a rotation', None, [R45, R45 + .0001 * RF], False, False), ('almost a rotation algebra', [J + .0002 * SW], None, False, False), ('rotation algebra and almost one', [J, J + .0001 * I2], None, False, False),
        ('almost a swap', None, [SW + .0002 * I2], False, False), ('swap and almost a swap', None, [SW, 1.0001 * SW], False, False), ('three cycle and reflections', [0 * J], [SW, -I2, RF], True, False), ('zero algebra', [0 * J], None, True, False), ('scaled swap', None, [2 * SW], False, False)]
for nm_, al_, di_, o_, p_ in USER:
    def uflags(nm=nm_, al=al_, di=di_, o=o_, p=p_):
        dense()
        G = UserGroup(al, di, lazy=nm[:4] == 'lazy')
        expect('is_orthogonal is %s' % o, bool(G.is_orthogonal) == o)
        expect('is_permutation is %s' % p, bool(G.is_permutation) == p)
        expect('dimension', G.d == (3 if nm == 'lazy cycle' else 2))
        expect('number of constraints', G.num_constraints() == len(al or []) + len(di or []))
    scenario('P18', name='flags of a user group: ' + nm_)(uflags)


@scenario('P18', name='declared flags')
def declared():
    dense()
    G = UserGroup(None, [[1, 0]], lazy=True, is_permutation=True)
    expect('a permutation group is orthogonal', bool(G.is_orthogonal) and bool(G.is_permutation))
    G = UserGroup(None, [SQ], is_orthogonal=False)
    expect('a declared flag is kept', not G.is_orthogonal and not G.is_permutation)
    expect('products of permutation groups are permutation groups', bool((S(2) * Z(2)).is_permutation) and bool((S(2) * Z(2)).is_orthogonal))
    expect('products with a non orthogonal group are not orthogonal', not bool((S(2) * SL(2)).is_orthogonal) and not bool((SL(2) * S(2)).is_permutation))
    expect('products of orthogonal groups are orthogonal, not permutations', bool((S(2) * SO(2)).is_orthogonal) and not bool((SO(2) * S(2)).is_permutation))


# ---------------------------------------------------------------- P19 products and embeddings
def kron(a, b):
    return jnp.einsum('ij,kl->ikjl', a, b).reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


class Sym(Group):
    is_orthogonal = False
    is_permutation = False

    def __init__(self, tag, d, na, nh, as_array=False):
        self.d = d
        if na:
            self.lie_algebra = [array('%s.A%d' % (tag, i), d, d) for i in range(na)]
        if nh:
            self.discrete_generators = [array('%s.h%d' % (tag, i), d, d) for i in range(nh)]
        if as_array:
            self.lie_algebra = jnp.stack(self.lie_algebra) if na else np.zeros((0, d, d))
            self.discrete_generators = jnp.stack(self.discrete_generators) if nh else np.zeros((0, d, d))
        super().__init__(tag)


def same_set(label, got, want):
    """the same matrices, in any order"""
    expect(label + ': number', len(got) == len(want))
    for i, w in enumerate(want):
        if i < len(got):
            expect_eq(label + ' %d' % i, got[i], w)


for na1, nh1, na2, nh2, d1_, d2_ in ((1, 1, 1, 1, 2, 2), (2, 0, 0, 2, 2, 3), (0, 2, 1, 0, 3, 2), (0, 1, 0, 1, 2, 2), (1, 0, 1, 0, 1, 2)):
    def prod_(na1=na1, nh1=nh1, na2=na2, nh2=nh2, d1=d1_, d2=d2_):
        dense()
        A, B = Sym('G1', d1, na1, nh1), Sym('G2', d2, na2, nh2)

        class DP(DirectProduct):
            is_orthogonal = False
            is_permutation = False
        for nm, mk in (('product', lambda: DP(A, B)),):
            ok, P = attempt('a product can be built', mk)
            if not ok:
                continue
            i1, i2 = identity(d1), identity(d2)
            expect('dimension', P.d == d1 * d2)
            same_set('algebra generators', gens(P.lie_algebra), [kron(x, i2) for x in A.lie_algebra] + [kron(i1, x) for x in B.lie_algebra])
            same_set('discrete generators', gens(P.discrete_generators), [kron(x, i2) for x in A.discrete_generators] + [kron(i1, x) for x in B.discrete_generators])
            x = array('x', d1 * d2)
            for i, h in enumerate(P.discrete_generators):
                expect_eq('discrete generator %d acts on vectors' % i, h @ x, densify(h) @ x)
            for i, h in enumerate(P.lie_algebra):
                expect_eq('algebra generator %d acts on vectors' % i, h @ x, densify(h) @ x)
    scenario('P19', name='direct product %d%d%d%d sizes %d %d' % (na1, nh1, na2, nh2, d1_, d2_))(prod_)


@scenario('P19', name='the product operator builds the direct product')
def op():
    dense()
    for a, b in ((S(2), SO(2)), (SO(2), S(3)), (SL(2), SO(2)), (Z(3), Z(2)), (SO(2), SO(2)), (Trivial(2), SO(2))):
        P = a * b
        expect('dimension', P.d == a.d * b.d)
        same_set('algebra of ' + repr(P), gens(P.lie_algebra), [kron(densify(x), identity(b.d)) for x in a.lie_algebra] + [kron(identity(a.d), densify(x)) for x in b.lie_algebra])
        same_set('generators of ' + repr(P), gens(P.discrete_generators), [kron(densify(x), identity(b.d)) for x in a.discrete_generators] + [kron(identity(a.d), densify(x)) for x in b.discrete_generators])


for nm_, d_, D_, sl_, pos_ in (('0:2 in 3', 2, 3, slice(2), [0, 1]), ('1:3 in 3', 2, 3, slice(1, 3), [1, 2]), ('1:3 in 5', 2, 5, slice(1, 3), [1, 2]), ('all', 2, 2, slice(2), [0, 1]), ('last', 1, 3, slice(2, 3), [2])):
    def emb(d=d_, D=D_, sl=sl_, pos=pos_):
        dense()
        A = Sym('G1', d, 2, 2, as_array=True)

        class E(Embed):
            is_orthogonal = False
            is_permutation = False
        ok, G = attempt('an embedding can be built', lambda: E(A, D, sl))
        if not ok:
            return
        expect('dimension', G.d == D)
        for what, xs, ys, one in (('algebra', G.lie_algebra, A.lie_algebra, 0.), ('discrete', G.discrete_generators, A.discrete_generators, 1.)):
            expect(what + ' generators: number', len(xs) == 2)
            for i in range(2):
                for r in range(D):
                    for c in range(D):
                        want = ys[i][pos.index(r), pos.index(c)] if r in pos and c in pos else (one if r == c else 0.)
                        expect_eq('%s generator %d acts on the slice and fixes the rest (%d,%d)' % (what, i, r, c), xs[i][r, c], want)
    scenario('P19', name='embedding ' + nm_)(emb)


@scenario('P19', name='embeddings of the library')
def embs():
    dense()
    for nm, g, base in (('SO2eR3', lambda: SO2eR3(), SO(2)), ('O2eR3', lambda: O2eR3(), O(2)), ('DkeR3(3)', lambda: DkeR3(3), D(3)), ('DkeR3(4)', lambda: DkeR3(4), D(4))):
        G = g()
        for what, xs, ys, one in (('algebra', G.lie_algebra, base.lie_algebra, 0.), ('discrete', G.discrete_generators, base.discrete_generators, 1.)):
            expect(nm + ' ' + what + ': number of generators', len(xs) == len(ys))
            for i in range(len(ys)):
                want = jnp.stack([jnp.stack([ys[i][r, c] if r < 2 and c < 2 else jnp.array(one if r == c else 0.) for c in range(3)]) for r in range(3)])
                expect_close('%s %s generator %d rotates about the z axis' % (nm, what, i), xs[i], want)


# ---------------------------------------------------------------- P20 sampling
class SymN(Group):
    is_orthogonal = False
    is_permutation = False

    def __init__(self, d, As, hs, z_scale=None):
        self.d = d
        if As:
            self.lie_algebra = As
        if hs:
            self.discrete_generators = hs
        if z_scale is not None:
            self.z_scale = z_scale
        super().__init__()


def chain(Ms, d):
    r = np.eye(d)
    for M in Ms:
        r = r @ M
    return r


def power(M, k):
    if k < 0:
        return chain([jnp.linalg.inv(M)] * (-k), M.shape[0])
    return chain([M] * k, M.shape[0])


for d_ in (1, 2):
    for k_ in (-3, -2, -1, 0, 1, 2, 3, 4):
        def mps(d=d_, k=k_):
            dense()
            M = array('O.M' if d == 2 and k < -1 else 'M', d, d)
            ok, r = attempt('a power can be taken', lambda: matrix_power_simple(M, k))
            if ok:
                expect_eq('the power is the product of copies of the element or its inverse', r, power(M, k))
            ok, r = attempt('a power can be taken, exponent from an array', lambda: matrix_power_simple(M, np.array([7, k])[1]))
            if ok:
                expect_eq('the power is the product of copies of the element or its inverse (array exponent)', r, power(M, k))
        scenario('P20', name='power %d of a %dx%d element' % (k_, d_, d_))(mps)


for d_, n_ in ((1, 1), (2, 1), (2, 2), (2, 3), (3, 2)):
    def alg_sample(d=d_, n=n_):
        dense()
        As = array('A', n, d, d)
        z = array('z', n)
        A = sum([z[i] * As[i] for i in range(n)])
        want = jax.scipy.linalg.expm(A)
        ok, r = attempt('an element can be sampled', lambda: noise2sample(z, np.zeros((0, 3)).astype(int), As, np.zeros((0, d, d))))
        if ok:
            expect_eq('the sample is the exponential of the combination of algebra generators', r, want)
        pin_random('first')
        ok, r = attempt('elements can be sampled', lambda: noise2samples(array('z2', 2, n), np.zeros((2, 0, 3)).astype(int), As, np.zeros((0, d, d))))
        if ok:
            zz = array('z2', 2, n)
            for j in range(2):
                expect_eq('every sample is the exponential of its own combination (%d)' % j, r[j], jax.scipy.linalg.expm(sum([zz[j, i] * As[i] for i in range(n)])))
    scenario('P20', name='noise to sample, %d algebra generators of size %d' % (n_, d_))(alg_sample)


def orders(n):
    if n == 0:
        return [[]]
    return [o[:i] + [n - 1] + o[i:] for o in orders(n - 1) for i in range(n)]


def words_of(hs, ks, d):
    """products over the rounds of the powers of all generators, every round in some order"""
    M = len(hs)
    ws = [np.eye(d)]
    for k in range(len(ks[0])):
        ws = [w @ chain([power(hs[i], ks[i][k]) for i in o], d) for w in ws for o in orders(M)]
    return ws


for pat_ in ('first', 'rev', 'last'):
    for nm_, ks_, na_ in (('one generator', [[2, -1, 1]], 0), ('one generator, one round', [[-2]], 0), ('one generator and an algebra', [[1, 2]], 1), ('two generators', [[1, 2], [2, 0]], 0),
                          ('two generators, inverses', [[1, -1], [-1, 2]], 0), ('two generators and an algebra', [[1], [2]], 2), ('two generators, three rounds', [[1, 0, 1], [0, 1, 1]], 0), ('three generators', [[1], [0], [2]], 0)):
        def disc_sample(pat=pat_, ks=ks_, na=na_):
            dense()
            pin_random(pat)
            d = 2
            hs = [array(('O.h%d' if True else '') % i, d, d) for i in range(len(ks))]
            As = array('A', na, d, d) if na else np.zeros((0, d, d))
            z = array('z', na) if na else np.zeros((0,))
            ok, r = attempt('an element can be sampled', lambda: noise2sample(z, np.array(ks), As, jnp.stack(hs)))
            if ok:
                g = jax.scipy.linalg.expm(sum([z[i] * As[i] for i in range(na)])) if na else np.eye(d)
                expect_any('the sample is a product of the drawn powers of the generators', r, [g @ w for w in words_of(hs, ks, d)])
        scenario('P20', name='noise to sample: %s (%s)' % (nm_, pat_), tier='quick' if pat_ != 'last' else 'thorough')(disc_sample)


def group_elements(G):
    ps = [perm_of(h) for h in G.discrete_generators]
    return words(ps, 60)


for pat_ in ('first', 'rev', 'last'):
    for nm_, g_ in (('S(3)', lambda: S(3)), ('Z(4)', lambda: Z(4)), ('Z(5)', lambda: Z(5)), ('Cube', lambda: Cube()), ('S(1)', lambda: S(1)), ('Z(2)xZ(3)', lambda: Z(2) * Z(3)), ('ZksZnxZn(2,2)', lambda: ZksZnxZn(2, 2))):
        def member(pat=pat_, g=g_):
            dense()
            pin_random(pat)
            G = g()
            d = G.d
            els = group_elements(G) if len(G.discrete_generators) else [list(range(d))]
            ok, r = attempt('an element can be sampled', lambda: G.sample())
            if not ok:
                return
            expect('the sample is a matrix of the representation', tuple(r.shape) == (d, d))
            q = [int(x) for x in jnp.round(r @ np.arange(d)).tolist()]
            expect_close('the sample is a permutation matrix', r, jnp.stack([jnp.array([1. if q[i] == j else 0. for j in range(d)]) for i in range(d)]))
            expect('the sample is an element of the group', q in els)
            ok, rs = attempt('elements can be sampled', lambda: G.samples(3))
            if ok:
                expect('three samples', tuple(rs.shape) == (3, d, d))
                for i in range(3):
                    q = [int(x) for x in jnp.round(rs[i] @ np.arange(d)).tolist()]
                    expect_close('sample %d is a permutation matrix' % i, rs[i], jnp.stack([jnp.array([1. if q[a] == b else 0. for b in range(d)]) for a in range(d)]))
                    expect('sample %d is an element of the group' % i, q in els)
        scenario('P20', name='samples of %s (%s)' % (nm_, pat_), tier='quick' if pat_ == 'first' or nm_ in ('S(3)', 'Z(4)') else 'thorough')(member)


for pat_ in ('first', 'last', 'rev'):
    for nm_, g_ in (('O(2)', lambda: O(2)), ('D(3)', lambda: D(3)), ('C(5)', lambda: C(5)), ('Parity', lambda: Parity()), ('TimeReversal', lambda: TimeReversal()), ('Trivial(3)', lambda: Trivial(3))):
        def discr(pat=pat_, g=g_):
            dense()
            pin_random(pat)
            G = g()
            if len(G.lie_algebra):
                class Finite(Group):
                    def __init__(self):
                        self.discrete_generators = G.discrete_generators
                        super().__init__()
                G = Finite()
            d = G.d
            for i, r in enumerate([G.sample()] + list(G.samples(2))):
                expect('sample %d is a matrix of the representation' % i, tuple(r.shape) == (d, d))
                expect_close('sample %d is orthogonal' % i, r.T @ r, np.eye(d))
        scenario('P20', name='samples of %s stay in the group (%s)' % (nm_, pat_), tier='quick' if pat_ == 'first' else 'thorough')(discr)


for d_, na_, nh_, sc_, N_ in ((2, 1, 0, None, 1), (2, 2, 0, None, 2), (3, 1, 0, None, 3), (2, 2, 0, 'array', 2), (2, 2, 0, 'scalar', 2), (1, 1, 0, 'array', 2), (2, 1, 1, None, 2), (2, 2, 1, 'array', 2)):
    def drawn_(d=d_, na=na_, nh=nh_, sc=sc_, N=N_):
        dense()
        pin_random('first')
        As = [array('A%d' % i, d, d) for i in range(na)]
        hs = [np.eye(d)[::-1]] * nh
        scale = {None: None, 'array': array('c', na), 'scalar': scalar('c')}[sc]
        G = SymN(d, As, hs, scale)
        n0 = len(drawn())
        ok, r = attempt('elements can be sampled', lambda: G.samples(N))
        if not ok:
            return
        expect('N matrices of the representation', tuple(r.shape) == (N, d, d))
        new = [a for k, a in drawn()[n0:] if k in ('randn', 'normal', 'standard_normal', 'jax.normal')]
        if len(new) != 1 or tuple(new[0].shape) != (N, na):
            undecided('each sample has its own coefficients', 'noise is not drawn as one (N, generators) array')
            return
        z = new[0]
        for j in range(N):
            A = sum([z[j, i] * (1. if scale is None else scale[i] if sc == 'array' else scale) * As[i] for i in range(na)])
            e = jax.scipy.linalg.expm(A)
            expect_any('sample %d is the exponential of its own scaled combination, times discrete elements' % j, r[j], [e] + [e @ hs[0] for _ in range(nh)])
        ok, s = attempt('one element can be sampled', lambda: G.sample())
        if ok:
            expect('one sample is a matrix', tuple(s.shape) == (d, d))
            new = [a for k, a in drawn()[n0 + 1:] if k in ('randn', 'normal', 'standard_normal', 'jax.normal')]
            if len(new) == 1 and tuple(new[0].shape) == (1, na):
                z = new[0]
                A = sum([z[0, i] * (1. if scale is None else scale[i] if sc == 'array' else scale) * As[i] for i in range(na)])
                e = jax.scipy.linalg.expm(A)
                expect_any('a single sample follows the same rule', s, [e] + [e @ hs[0] for _ in range(nh)])
    scenario('P20', name='samples: %d algebra, %d discrete generators of size %d, scale %s, N=%d' % (na_, nh_, d_, sc_, N_))(drawn_)


@scenario('P20', name='exponential map')
def expmap():
    dense()
    A = array('A', 2, 2)
    expect_eq('exp is the matrix exponential', SO(2).exp(A), jax.scipy.linalg.expm(A))


@scenario('P20', name='noise scale of the Lorentz groups')
def zscale():
    dense()
    for G in (SO13p(), SO13(), O13(), Lorentz()):
        z = G.z_scale
        expect('one scale per algebra generator', z is None or len(np.array(z)) == len(G.lie_algebra))
