"""Operations do not modify what they are applied to"""
from nnlib import *
import emlp.groups as groups
from emlp.groups import Embed
from emlp.reps.representation import bilinear_weights, equivariance_error
from emlp.reps.product_sum_reps import SumRep
from emlp.reps.linear_operators import *
from emlp.reps.linear_operators import densify, lazify
from _spec import *


class Seen(object):
    """what a user can observe of a representation"""
    def __init__(self, w, r):
        self.str = str(r)
        self.hash = hash(r)
        self.size = r.size()
        self.rho = r.rho_dense(w.Ms)
        self.drho = r.drho_dense(w.Ns)
        self.perm = r.is_permutation
        c, p = r.canonicalize()
        self.canon = str(c)
        self.order = np.array(p).copy()

    def check(self, w, r, nm, after):
        expect('%s reads the same after %s' % (nm, after), str(r) == self.str)
        expect('%s has the hash it had before %s' % (nm, after), hash(r) == self.hash)
        expect('%s has the size it had before %s' % (nm, after), r.size() == self.size)
        expect('%s is permutation-like as before %s' % (nm, after), bool(r.is_permutation) == bool(self.perm))
        expect_eq('%s acts as before %s' % (nm, after), r.rho_dense(w.Ms), self.rho)
        expect_eq('%s acts infinitesimally as before %s' % (nm, after), r.drho_dense(w.Ns), self.drho)
        c, p = r.canonicalize()
        expect('%s has the canonical form it had before %s' % (nm, after), str(c) == self.canon)
        expect_eq('%s has the canonical order it had before %s' % (nm, after), p, self.order)


UNARY = [
    ('.T', lambda w, r: r.T), ('.T.T', lambda w, r: r.T.T), ('canonicalize', lambda w, r: r.canonicalize()[0].canonicalize()), ('2*', lambda w, r: 2 * r), ('**2', lambda w, r: r ** 2),
    ('square', lambda w, r: r * r), ('double', lambda w, r: r + r), ('r+scalar', lambda w, r: r + Scalar), ('scalar+r', lambda w, r: Scalar + r), ('r*scalar', lambda w, r: r * Scalar), ('r+1', lambda w, r: r + 1),
    ('rho', lambda w, r: r.rho(w.Ms) @ array('x', r.size(), 2)), ('drho', lambda w, r: r.drho(w.Ns).T @ array('x', r.size())),
    ('==', lambda w, r: (r == r, r != Scalar, r == r.T)), ('str', lambda w, r: (str(r), repr(r))), ('sorting', lambda w, r: sorted([r, Scalar, r.T])),
    ('basis', lambda w, r: densify_(r.equivariant_basis())), ('projector', lambda w, r: densify_(r.equivariant_projector())),
    ('maps to itself', lambda w, r: (r >> r).size()), ('gated', lambda w, r: no.gated(r)), ('gate indices', lambda w, r: no.gate_indices(r)),
    ('bilinear weights', lambda w, r: bilinear_weights(r, r)[1](array('w', bilinear_weights(r, r)[0]), array('x', r.size()))),
    ('sum from integers', lambda w, r: SumRep(r, 2, r)), ('taking a vector apart', lambda w, r: (list(r), len(r), r.as_dict(array('v', r.size()))) if isinstance(r, SumRep) else None),
    ('Linear layer', lambda w, r: no.Linear(r, r)(array('x', 2, r.size()))), ('EMLP block', lambda w, r: no.EMLPBlock(r, r)(array('x', 2, r.size()))),
]
BINARY = [
    ('+', lambda w, r, s: r + s), ('*', lambda w, r, s: r * s), ('>>', lambda w, r, s: r >> s), ('<<', lambda w, r, s: r << s), ('+ of sums', lambda w, r, s: (r + s) + (s + r) + s),
    ('comparison', lambda w, r, s: (r == s, r < s, s < r, hash(r) == hash(s))), ('distributing', lambda w, r, s: (r + s) * (s + r)), ('dual of a sum', lambda w, r, s: (r + s).T),
    ('Linear layer', lambda w, r, s: no.Linear(r, s)(array('x', 2, r.size()))), ('bilinear layer', lambda w, r, s: no.BiLinear(r, s)(array('x', 2, r.size()))),
    ('basis of both', lambda w, r, s: densify_((r + s).equivariant_basis())), ('basis of maps', lambda w, r, s: densify_((r >> s).equivariant_basis())),
]
POOL = [
    ('V', lambda w: w.v1), ('V*', lambda w: w.v1d), ('V2', lambda w: w.v2), ('a', lambda w: w.a), ('Vp', lambda w: w.vp), ('V+V*', lambda w: Sum(w.v1, w.v1d)), ('b+a+b', lambda w: Sum(w.b, w.a, w.b)),
    ('2V+1', lambda w: Sum(Times(2, w.v1), w.s0)), ('V*V*', lambda w: Prod(w.v1, w.v1d)), ('V*V**V', lambda w: Prod(w.v1d, w.v1, w.v1d)), ('b*a', lambda w: Prod(w.b, w.a)), ('V2*V1', lambda w: Prod(w.v2, w.v1)), ('V1*V2*V1', lambda w: Prod(w.v1, w.v2, w.v1)),
    ('V*V*+V', lambda w: Sum(Prod(w.v1, w.v1d), w.v1)), ('Vp+1', lambda w: Sum(w.vp, w.s0)), ('V1+V2', lambda w: Sum(w.v2, w.v1)), ('V3**2+V3', lambda w: Sum(Pow(w.v3, 2), w.v3)),
]
ONE = [p for p in POOL if p[0] in ('V', 'V*', 'V2', 'a', 'V+V*', 'b+a+b', 'V*V*', '2V+1')]


def tolerate(f, *a):
    """what an operation yields is decided elsewhere; here only what it leaves behind"""
    try:
        f(*a)
    except Exception as e:
        note('raised %s' % type(e).__name__)


def unary(w, nm, e):
    concrete()
    pin_random('first')
    r = e(w).reps()
    seen = Seen(w, r)
    for op, f in UNARY:
        if r.size() > 6 and op in ('Linear layer', 'EMLP block', 'bilinear weights', 'basis', 'projector', '**2', 'square'):
            continue
        tolerate(f, w, r)
        seen.check(w, r, nm, op)


def binary(w, nm, e, nm2, e2):
    concrete()
    pin_random('last')
    r, s = e(w).reps(), e2(w).reps()
    s1, s2 = Seen(w, r), Seen(w, s)
    for op, f in BINARY:
        if r.size() * s.size() > 16 and op in ('Linear layer', 'bilinear layer', 'basis of maps', 'distributing'):
            continue
        tolerate(f, w, r, s)
        s1.check(w, r, nm, op + ' with ' + nm2)
        s2.check(w, s, nm2, op + ' after ' + nm)


for nm_, e_ in POOL:
    scenario('P25', name='operations on ' + nm_, tier='thorough' if nm_ in ('V1+V2', 'V1*V2*V1', 'b*a') else 'quick')(lambda nm=nm_, e=e_: unary(I222, nm, e))
for i_, (nm_, e_) in enumerate(ONE):
    for nm2_, e2_ in ONE[i_:]:
        scenario('P25', name='operations on %s and %s' % (nm_, nm2_), tier='quick' if (i_ + len(nm2_)) % 2 == 0 and not 'b+a+b' in (nm_, nm2_) else 'thorough')(lambda nm=nm_, e=e_, nm2=nm2_, e2=e2_: binary(I222, nm, e, nm2, e2))


# ---------------------------------------------------------------- symbolic representations applied to several groups
SYMREPS = [('V', lambda: V), ('V*', lambda: V.T), ('V**2', lambda: V ** 2), ('V+V*', lambda: V + V.T), ('2V+1', lambda: 2 * V + Scalar), ('V*(V+1)', lambda: V * (V + Scalar)), ('scalar', lambda: Scalar), ('T(1,1)', lambda: T(1, 1)), ('V>>V', lambda: V >> V), ('3 scalars', lambda: 3 * Scalar)]


def late(nm, mk):
    concrete()
    pin_random('first')
    w = I222
    r = mk()
    gs = [w.g1, w.g2, w.g3, w.gp]
    name = str(r)
    insts = [r(g) for g in gs]
    seen = [Seen(w, x) for x in insts]
    for i, g in enumerate(gs):
        again = r(g)
        seen[i].check(w, again, '%s for group %d' % (nm, i), 'being used for the others')
        for op, f in UNARY[:15]:
            tolerate(f, w, again)
        for j in range(4):
            seen[j].check(w, insts[j], '%s for group %d' % (nm, j), 'use of group %d' % i)
    expect('the symbolic %s reads as before' % nm, str(r) == name)


for nm_, mk_ in SYMREPS:
    scenario('P25', name='late instantiation of ' + nm_)(lambda nm=nm_, mk=mk_: late(nm, mk))


# ---------------------------------------------------------------- groups
class SeenG(object):
    def __init__(self, G):
        self.d = G.d
        self.repr = repr(G)
        self.hash = hash(G)
        self.alg = [densify(A) for A in G.lie_algebra]
        self.dis = [densify(h) for h in G.discrete_generators]
        self.flags = (bool(G.is_orthogonal), bool(G.is_permutation))
        self.n = G.num_constraints()

    def check(self, G, nm, after):
        expect('%s is named as before %s' % (nm, after), repr(G) == self.repr)
        expect('%s has the hash it had before %s' % (nm, after), hash(G) == self.hash)
        expect('%s has the flags it had before %s' % (nm, after), (bool(G.is_orthogonal), bool(G.is_permutation)) == self.flags)
        expect('%s has the number of constraints it had before %s' % (nm, after), G.num_constraints() == self.n and G.d == self.d)
        for what, was, now in (('algebra generator', self.alg, G.lie_algebra), ('discrete generator', self.dis, G.discrete_generators)):
            expect('%s has as many %ss as before %s' % (nm, what, after), len(now) == len(was))
            for i, x in enumerate(was):
                if i < len(now):
                    expect_eq('%s %d of %s is unchanged by %s' % (what, i, nm, after), densify(now[i]), x)


GOPS = [
    ('a sample', lambda G: G.sample()), ('samples', lambda G: (G.samples(1), G.samples(3))), ('multiplication', lambda G: G * G), ('a product', lambda G: (G * groups.Trivial(2), groups.Z(2) * G)), ('an embedding', lambda G: Embed(G, G.d + 1, slice(G.d))),
    ('comparison', lambda G: (G == G, G != groups.Z(2), G < groups.Z(2), hash(G))), ('representations', lambda G: (V(G).T.rho(G.sample()), (V(G) + V(G).T).is_permutation)), ('constraints', lambda G: densify((V(G) * V(G).T).constraint_matrix())),
    ('printing', lambda G: (str(G), repr(G))), ('building it again', lambda G: type(G)(*G.args)), ('iteration', lambda G: [list(G.lie_algebra), list(G.discrete_generators)]),
    ('equivariance error', lambda G: equivariance_error(np.eye(G.d), V(G), V(G), G)),
]
GPOOL = [('SO(2)', lambda: groups.SO(2)), ('O(2)', lambda: groups.O(2)), ('Z(3)', lambda: groups.Z(3)), ('S(3)', lambda: groups.S(3)), ('SO11p', lambda: groups.SO11p()), ('SO13p', lambda: groups.SO13p()), ('O11', lambda: groups.O11()), ('SL(2)', lambda: groups.SL(2)), ('U(2)', lambda: groups.U(2)),
         ('Sp(1)', lambda: groups.Sp(1)), ('C(4)', lambda: groups.C(4)), ('D(4)', lambda: groups.D(4)), ('Scaling(2)', lambda: groups.Scaling(2)), ('SO(2) x Z(2)', lambda: groups.SO(2) * groups.Z(2)), ('Trivial(2)', lambda: groups.Trivial(2)), ('Cube', lambda: groups.Cube()),
         ('ZksZnxZn(2,2)', lambda: groups.ZksZnxZn(2, 2)), ('SO2eR3', lambda: groups.SO2eR3())]


def group_ops(nm, mk):
    concrete()
    pin_random('first')
    G = mk()
    seen = SeenG(G)
    for op, f in GOPS:
        if nm in ('Cube', 'ZksZnxZn(2,2)') and op in ('multiplication', 'a product', 'constraints', 'an embedding'):
            continue
        tolerate(f, G)
        seen.check(G, nm, op)


for nm_, mk_ in GPOOL:
    scenario('P25', name='group operations on ' + nm_)(lambda nm=nm_, mk=mk_: group_ops(nm, mk))


@scenario('P25', name='generators given by the user')
def user_generators():
    concrete()
    A, h = np.array(array('A', 2, 2, 2)), np.array(array('h', 2, 2, 2))
    a, b = jnp.asarray(A), jnp.asarray(h)

    class Own(Group):
        lie_algebra = A
        discrete_generators = h
        is_orthogonal = False
        is_permutation = False
        d = 2
    pin_random('first')
    G = Own()
    for op, f in GOPS:
        if op in ('samples', 'a product', 'multiplication', 'equivariance error'):
            continue
        tolerate(f, G)
        expect_eq('the algebra generators given are not changed by ' + op, jnp.asarray(A), a)
        expect_eq('the discrete generators given are not changed by ' + op, jnp.asarray(h), b)
    s = array('noise', 1, 2)
    z = np.array(s)
    k = np.array(np.ones((1, 2)).astype(int))
    tolerate(lambda: G.noise2samples(z, k))
    expect_eq('noise is not changed', jnp.asarray(z), s)
    expect_eq('nor are exponents', jnp.asarray(k), jnp.ones((1, 2)))


# ---------------------------------------------------------------- operators and their operands
def op_pool():
    P, Q, R = array('P', 2, 2, real=False), array('Q', 3, 3, real=False), array('R', 2, 2, real=False)
    return [('lazy', lambda: lazify(P)), ('identity', lambda: I(3)), ('kron', lambda: LazyKron([lazify(P), Q])), ('kron of arrays', lambda: LazyKron([P, Q])), ('kronsum', lambda: LazyKronsum([P, Q])), ('direct sum', lambda: LazyDirectSum([P, Q], [2, 1])),
            ('permutation', lambda: LazyPerm(np.array([2, 0, 1]))), ('shift', lambda: LazyShift(3, 1)), ('swap', lambda: SwapMatrix((0, 2), 3)), ('rotation', lambda: Rot90(2, 1)), ('concatenation', lambda: ConcatLazy([lazify(P), lazify(R)])),
            ('sum', lambda: lazify(P) + lazify(R)), ('product', lambda: lazify(P) @ lazify(R)), ('scaled', lambda: 3 * lazify(P)), ('power', lambda: lazify(P) ** 2), ('adjoint', lambda: lazify(P).H), ('transpose', lambda: lazify(P).T)]


AOPS = [
    ('.T', lambda A: densify(A.T)), ('.H', lambda A: densify(A.H)), ('invT', lambda A: densify(A.invT())), ('negation', lambda A: densify(-A)), ('scaling', lambda A: densify(2 * A)), ('doubling', lambda A: densify(A + A)), ('difference', lambda A: densify(A - A)),
    ('squaring', lambda A: densify(A @ A)), ('to_dense', lambda A: A.to_dense()), ('power', lambda A: densify(A ** 3)), ('printing', lambda A: (str(A), repr(A), A.shape)), ('dividing', lambda A: densify(A * .5)),
]


def operators(nm, mk):
    concrete()
    A = mk()
    D = A.to_dense()
    x0, X0 = array('x', A.shape[1], real=False), array('X', A.shape[1], 2, real=False)
    y0 = array('y', A.shape[0], real=False)
    x, X, y = np.array(x0), np.array(X0), np.array(y0)
    for op, f in AOPS + [('@vector', lambda A: A @ x), ('@matrix', lambda A: A @ X), ('.T@', lambda A: A.T @ y), ('.H@', lambda A: A.H @ y), ('matvec', lambda A: A.matvec(x)), ('matmat', lambda A: A.matmat(X)), ('rmatvec', lambda A: A.rmatvec(y))]:
        tolerate(f, A)
        expect_eq('the operator is the same after ' + op, A.to_dense(), D)
        expect_eq('the vector is the same after ' + op, jnp.asarray(x), x0)
        expect_eq('the matrix is the same after ' + op, jnp.asarray(X), X0)
        expect_eq('the left vector is the same after ' + op, jnp.asarray(y), y0)


for nm_ in ('lazy', 'identity', 'kron', 'kron of arrays', 'kronsum', 'direct sum', 'permutation', 'shift', 'swap', 'rotation', 'concatenation', 'sum', 'product', 'scaled', 'power', 'adjoint', 'transpose'):
    scenario('P25', name='operations on the operator ' + nm_)(lambda nm=nm_: operators(nm, dict(op_pool())[nm]))


@scenario('P25', name='arrays handed to constructors')
def constructor_arguments():
    concrete()
    P, Q = np.array(array('P', 2, 2)), np.array(array('Q', 3, 3))
    p, q = jnp.asarray(P), jnp.asarray(Q)
    perm = np.array([2, 0, 1])
    Ms, mult = [P, Q], [2, 1]
    for nm, f in (('kron', lambda: LazyKron(Ms)), ('kronsum', lambda: LazyKronsum(Ms)), ('direct sum', lambda: LazyDirectSum(Ms, mult)), ('permutation', lambda: LazyPerm(perm)), ('lazify', lambda: lazify(P)), ('concatenation', lambda: ConcatLazy([lazify(P), lazify(P)]))):
        A = f()
        for op, g in AOPS:
            tolerate(g, A)
        tolerate(lambda: A @ array('v', A.shape[1]))
        expect_eq('the first matrix is not changed by ' + nm, jnp.asarray(P), p)
        expect_eq('the second matrix is not changed by ' + nm, jnp.asarray(Q), q)
        expect('the permutation is not changed by ' + nm, [int(i) for i in perm.tolist()] == [2, 0, 1])
        expect('the lists are not changed by ' + nm, len(Ms) == 2 and mult == [2, 1] and Ms[0] is P and Ms[1] is Q)


# ---------------------------------------------------------------- layers
LAYERS = [('Linear', lambda m, r, s: m.Linear(r, s), 'r'), ('BiLinear', lambda m, r, s: m.BiLinear(r, r), 'r'), ('EMLPBlock', lambda m, r, s: m.EMLPBlock(r, s), 'r')]
RS = [('V3 -> V3', lambda w: (w.v3, w.v3)), ('V+1 -> V', lambda w: (Sum(w.v1, w.s0), w.v1)), ('V*V* -> V*', lambda w: (Prod(w.v1, w.v1d), w.v1d)), ('Vp+1 -> Vp', lambda w: (Sum(w.vp, w.s0), w.vp))]


def layers(be, nm, mk):
    concrete()
    pin_random('first')
    w = I222
    r, s = [x.reps() for x in mk(w)]
    s1, s2 = Seen(w, r), Seen(w, s)
    n = r.size()
    for ln, lf, _ in LAYERS:
        if n > 4 and ln != 'Linear':
            continue
        fwparams.reset()
        m = lf(be.mod, r, s)
        x0 = array('x', 2, n)
        f = be.prepare(m, x0)
        x = np.array(x0)
        f(jnp.asarray(x))
        before = [jnp.asarray(jx(p)) for p in params()]
        x = np.array(x0)
        y = f(x)
        expect_eq('the input of %s is not changed' % ln, jnp.asarray(x), x0)
        after = [jnp.asarray(jx(p)) for p in params()]
        expect('%s keeps its parameters' % ln, len(after) >= len(before))
        for i, p in enumerate(before):
            expect_eq('parameter %d of %s is not changed by its use' % (i, ln), after[i], p)
        s1.check(w, r, 'the input representation', ln)
        s2.check(w, s, 'the output representation', ln)
        ok, y2 = attempt('%s can be applied again' % ln, lambda: f(x))
        if ok:
            expect_eq('%s gives the same result again' % ln, y2, y)


for be_ in BACKENDS:
    for nm_, mk_ in RS:
        scenario('P25', name='%s layers %s' % (be_.name, nm_), tier='quick' if be_.name in ('objax', 'torch') else 'thorough')(lambda be=be_, nm=nm_, mk=mk_: layers(be, nm, mk))
