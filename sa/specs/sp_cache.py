"""P08: equality, hashing and the solution cache"""
from reflib import *
from emlp.groups import Group, Embed, DirectProduct, Z, SO, Trivial, O, ZksZnxZn
from emlp.reps.linear_operators import densify


def P_(x):
    """perform the construction twice: rebuilding must give an equal representation"""
    return x


EXPRS = [
    ('V1', lambda w: w.v1), ('V1*', lambda w: w.v1d), ('V2', lambda w: w.v2), ('V3', lambda w: w.v3), ('scalar', lambda w: w.s0),
    ('a', lambda w: w.a), ('a2', lambda w: w.a2), ('a*', lambda w: DualOf(w.a)), ('xa', lambda w: w.xa),
    ('a+b', lambda w: Sum(w.a, w.b)), ('b+a', lambda w: Sum(w.b, w.a)), ('a+a2', lambda w: Sum(w.a, w.a2)),
    ('a2+a', lambda w: Sum(w.a2, w.a)), ('2a', lambda w: Times(2, w.a)), ('3a', lambda w: Times(3, w.a)),
    ('V1+V1*', lambda w: Sum(w.v1, w.v1d)), ('V1*+V1', lambda w: Sum(w.v1d, w.v1)), ('V1+V2', lambda w: Sum(w.v1, w.v2)), ('V2+V1', lambda w: Sum(w.v2, w.v1)),
    ('a+b+a', lambda w: Sum(w.a, w.b, w.a)), ('a+a+b', lambda w: Sum(w.a, w.a, w.b)), ('b+a+a', lambda w: Sum(w.b, w.a, w.a)),
    ('a*b', lambda w: Prod(w.a, w.b)), ('b*a', lambda w: Prod(w.b, w.a)), ('a*a2', lambda w: Prod(w.a, w.a2)), ('a2*a', lambda w: Prod(w.a2, w.a)),
    ('V1**2', lambda w: Pow(w.v1, 2)), ('V1**3', lambda w: Pow(w.v1, 3)), ('V1*V1*', lambda w: Prod(w.v1, w.v1d)), ('V1*x V1', lambda w: Prod(w.v1d, w.v1)),
    ('V1*V2', lambda w: Prod(w.v1, w.v2)), ('V2*V1', lambda w: Prod(w.v2, w.v1)), ('1+a', lambda w: Sum(w.s0, w.a)), ('a+1', lambda w: Sum(w.a, w.s0)),
    ('a*b+a', lambda w: Sum(Prod(w.a, w.b), w.a)), ('a+a*b', lambda w: Sum(w.a, Prod(w.a, w.b))), ('a+b*a', lambda w: Sum(w.a, Prod(w.b, w.a))),
]


def pair(w, nm1, e1, nm2, e2):
    """if the library takes two expressions for equal, they must be interchangeable"""
    r1, r2 = e1(w).reps(), e2(w).reps()
    ok, q = attempt('%s == %s' % (nm1, nm2), lambda: r1 == r2)
    if not ok:
        return
    ok, q2 = attempt('%s == %s' % (nm2, nm1), lambda: r2 == r1)
    if ok:
        expect('equality of %s and %s is symmetric' % (nm1, nm2), bool(q) == bool(q2))
    if q:
        expect('%s and %s are equal, so have one hash' % (nm1, nm2), hash(r1) == hash(r2))
        expect_eq('%s and %s are equal, so have one size' % (nm1, nm2), r1.size(), r2.size())
        expect_eq('%s and %s are equal, so have one action' % (nm1, nm2), r1.rho_dense(w.Ms), e2(w).rho(w.Ms))
        expect_eq('%s and %s are equal, so have one algebra action' % (nm1, nm2), r1.drho_dense(w.Ns), e2(w).drho(w.Ns))
    else:
        expect('an unequal pair', True)


for wn, w in (('231', I231), ('222', I222)):
    for i, (nm, e) in enumerate(EXPRS):
        def sc(w=w, i=i, nm=nm, e=e):
            dense()
            r, s = e(w).reps(), e(w).reps()
            ok, q = attempt('equality', lambda: r == s)
            if ok:
                expect('building %s twice gives equal representations' % nm, q)
            ok, h = attempt('hash', lambda: hash(r) == hash(s))
            if ok:
                expect('building %s twice gives one hash' % nm, h)
            ok, q = attempt('inequality', lambda: r != s)
            if ok:
                expect('building %s twice: != is False' % nm, not q)
            for nm2, e2 in EXPRS[i + 1:]:
                pair(w, nm, e, nm2, e2)
        scenario('P08', name='equality of ' + nm + ' sizes ' + wn)(sc)


# ---- groups which differ must not compare equal; equal ones must share a hash
class UG(Group):
    """one user class, different parameters"""
    is_orthogonal = False
    is_permutation = False

    def __init__(self, *args):
        self.d = 2
        tag = '_'.join([str(a) for a in args])
        self.discrete_generators = [array('U' + tag + '.h', 2, 2)]
        super().__init__(*args)


class UH(Group):
    is_orthogonal = False
    is_permutation = False

    def __init__(self, *args):
        self.d = 2
        self.discrete_generators = [array('UH' + str(args[0]) + '.h', 2, 2)]
        super().__init__(*args)


class Src(Group):
    """something to embed"""
    is_orthogonal = False
    is_permutation = False
    d = 2
    lie_algebra = np.array([[[0., 1.], [0., 0.]]])
    discrete_generators = np.array([[[1., 0.], [0., 2.]]])


GROUPS = [
    ('UG(1)', lambda: UG(1)), ('UG(2)', lambda: UG(2)), ('UG(1,11)', lambda: UG(1, 11)), ('UG(11,1)', lambda: UG(11, 1)), ('UG(111)', lambda: UG(111)),
    ('UH(1)', lambda: UH(1)), ('UG("1")', lambda: UG('1')),
    ('UG(1,1,11)', lambda: UG(1, 1, 11)),
    ('Trivial(2)', lambda: Trivial(2)), ('Trivial(3)', lambda: Trivial(3)), ('SO(2)', lambda: SO(2)), ('O(2)', lambda: O(2)), ('Z(2)', lambda: Z(2)), ('SO(3)', lambda: SO(3)),
    ('Embed 0:2 in 3', lambda: Embed(Src(), 3, slice(2))), ('Embed 1:3 in 3', lambda: Embed(Src(), 3, slice(1, 3))), ('Embed 0:2 in 4', lambda: Embed(Src(), 4, slice(2))),
    ('SO(2) x Z(2)', lambda: SO(2) * Z(2)), ('Z(2) x SO(2)', lambda: Z(2) * SO(2)), ('SO(2) x SO(2)', lambda: SO(2) * SO(2)),
    ('SO(2) x Trivial(2)', lambda: SO(2) * Trivial(2)), ('SO(2) x Z(2) x Z(2)', lambda: SO(2) * Z(2) * Z(2)),
    ('ZksZnxZn(2,2)', lambda: ZksZnxZn(2, 2)), ('ZksZnxZn(4,2)', lambda: ZksZnxZn(4, 2)),
]
def groups_differ(names):
    dense()
    built = [(nm, g(), g()) for nm, g in GROUPS if nm in names]
    for i, (nm, x, y) in enumerate(built):
        expect('%s built twice is one group' % nm, x == y)
        expect('%s built twice has one hash' % nm, hash(x) == hash(y))
        expect('representations of %s built twice are equal' % nm, V(x) == V(y))
        expect('%s built twice: powers are equal' % nm, V(x)**2 == V(y)**2)
        for nm2, z, _ in built[i + 1:]:
            expect('%s and %s are different groups' % (nm, nm2), not (x == z))
            expect('%s and %s are different groups, !=' % (nm, nm2), x != z)
            expect('representations of %s and %s are different' % (nm, nm2), not (V(x) == V(z)))


FAMILIES = [('user groups', [nm for nm, g in GROUPS if nm[0] == 'U']), ('embeddings', [nm for nm, g in GROUPS if nm[0] == 'E']),
            ('plain', ['UG(1)', 'Trivial(2)', 'Trivial(3)', 'SO(2)', 'SO(3)', 'O(2)']), ('lazy', ['SO(2)', 'Z(2)', 'ZksZnxZn(2,2)']),
            ('products', ['SO(2) x Z(2)', 'Z(2) x SO(2)', 'SO(2) x SO(2)', 'SO(2)', 'Z(2)'])]
for fam, names in FAMILIES:
    scenario('P08', name='group equality: ' + fam)(lambda names=names: groups_differ(names))


# ---- what was solved before does not change a solution
def constraints(e, w):
    r = e.reps()
    rows = []
    for h in r.G.discrete_generators:
        rows.append(e.rho({r.G: h}) - identity(r.size()))
    for A in r.G.lie_algebra:
        rows.append(e.drho({r.G: A}))
    return jnp.concatenate(rows, 0)


HIST = [
    ('V1', lambda w: w.v1), ('V1*', lambda w: w.v1d), ('V2', lambda w: w.v2), ('V3', lambda w: w.v3), ('V1**2', lambda w: Pow(w.v1, 2)),
    ('V1*V1*', lambda w: Prod(w.v1, w.v1d)), ('V1* x V1', lambda w: Prod(w.v1d, w.v1)), ('V1*V1*V1*', lambda w: Prod(w.v1, w.v1d, w.v1)),
    ('V1* V1 V1', lambda w: Prod(w.v1d, w.v1, w.v1)), ('Vp', lambda w: w.vp), ('V3**2', lambda w: Pow(w.v3, 2)),
]


def relevant(a, b):
    return True


def history(w, order):
    done = {}
    for nm, e in order:
        ex = e(w)
        r = ex.reps()
        ok, Q = attempt('basis of ' + nm, lambda: r.equivariant_basis())
        if ok:
            expect_nullspace('the basis of %s solves its own constraints, whatever was solved before' % nm, Q, constraints(ex, w))
        if nm in done and ok:
            expect_eq('%s solved again gives the same basis' % nm, Q, done[nm])
        if ok:
            done[nm] = Q


def rot(xs, k):
    return xs[k:] + xs[:k]


SMALL = [x for x in HIST if x[0] not in ('V1*V1*V1*', 'V1* V1 V1', 'V1**2', 'V3**2')]
MID = [x for x in HIST if x[0] not in ('V1*V1*V1*', 'V1* V1 V1')]
for k in range(3):
    scenario('P08', name='history %d' % k)(lambda k=k: (dense(), history(I222, rot(MID, 3 * k) + MID[:2])))
scenario('P08', name='history cubic')(lambda: (dense(), history(I222, HIST[7:9] + HIST[4:7])))
for k in range(2):
    scenario('P08', name='history 231 %d' % k)(lambda k=k: (dense(), history(I231, rot(SMALL, 3 * k) + SMALL[:2])))
scenario('P08', name='history 231 backwards')(lambda: (dense(), history(I231, SMALL[::-1])))


def gleaf(g):
    return Leaf(V(g))


@scenario('P08', name='history over groups of one class')
def h_groups():
    dense()
    for g in (UG(1), UG(2), UG(1, 11), UG(11, 1), UH(1), UG(1)):
        e = Leaf(V(g))
        r = e.reps()
        Q = r.equivariant_basis()
        expect_nullspace('basis for %s' % repr(g), Q, constraints(e, None))


@scenario('P08', name='history over embeddings')
def h_embed():
    dense()
    for nm, g in GROUPS:
        if nm[:5] == 'Embed':
            e = Leaf(V(g()))
            Q = e.reps().equivariant_basis()
            expect_nullspace('basis for ' + nm, Q, constraints(e, None))


@scenario('P08', name='history over products of groups')
def h_prod():
    dense()
    for nm, g in GROUPS:
        if nm in ('SO(2) x Z(2)', 'Z(2) x SO(2)', 'SO(2) x SO(2)', 'SO(2) x Trivial(2)'):
            r = V(g())
            Q = r.equivariant_basis()
            rows = [densify(h) - identity(4) for h in r.G.discrete_generators] + [densify(A) for A in r.G.lie_algebra]
            expect_nullspace('basis for ' + nm, Q, jnp.concatenate(rows, 0))


@scenario('P08', name='a representation solved under one group, then another')
def h_late():
    dense()
    for sym in (V, V.T, V * V.T):
        for g in (I222.g1, I222.g2, I222.g1):
            r = sym(g)
            Q = r.equivariant_basis()
            w = I222
            leaf = Leaf(V(g))
            e = leaf if sym is V else DualOf(leaf) if sym is not V and sym == V.T else Prod(leaf, DualOf(leaf))
            expect_nullspace('basis of %s' % str(sym), Q, constraints(e, w))


# equal problems share one solution: canonical forms agree
@scenario('P08', name='reordered expressions share their canonical form')
def canon():
    dense()
    for w in (I231, I222):
        for nm, f, g in (('a+b', lambda: Sum(w.a, w.b), lambda: Sum(w.b, w.a)), ('a*b', lambda: Prod(w.a, w.b), lambda: Prod(w.b, w.a)),
                         ('V*V*', lambda: Prod(w.v1, w.v1d), lambda: Prod(w.v1d, w.v1)), ('a+b+a', lambda: Sum(w.a, w.b, w.a), lambda: Sum(w.b, w.a, w.a))):
            c1, p1 = f().reps().canonicalize()
            c2, p2 = g().reps().canonicalize()
            expect(nm + ' and its reordering have one canonical form', c1 == c2)
            expect(nm + ' and its reordering have one canonical hash', hash(c1) == hash(c2))
