from reflib import *
import emlp.reps.representation as R
from emlp.reps.linear_operators import densify

RULE_TOL = 1e-3


# ---------------------------------------------------------------- P06 duals
def dual_rho(e, Ms):
    if isinstance(e, Leaf):
        return jnp.linalg.inv(e.rho(Ms)).T
    if isinstance(e, DualOf):
        return e.x.rho(Ms)
    if isinstance(e, Times):
        return blocks([dual_rho(e.x, Ms)] * e.n)
    if isinstance(e, Pow):
        xs = [e.x] * e.n
    else:
        xs = e.xs
    ds = [dual_rho(x, Ms) for x in xs]
    if isinstance(e, Sum):
        return blocks(ds)
    r = ds[0]
    for x in ds[1:]:
        r = kron(r, x)
    return r


def dual_drho(e, As):
    return -e.drho(As).T


DUALS = [
    ('V', lambda w: w.v1), ('a', lambda w: w.a), ('V+a', lambda w: Sum(w.v1, w.a)), ('a+b+a', lambda w: Sum(w.a, w.b, w.a)),
    ('a*b', lambda w: Prod(w.a, w.b)), ('b*a*b', lambda w: Prod(w.b, w.a, w.b)), ('V*a', lambda w: Prod(w.v1, w.a)),
    ('V**2', lambda w: Pow(w.v1, 2)), ('V1*V2', lambda w: Prod(w.v1, w.v2)), ('V2*V1*V2', lambda w: Prod(w.v2, w.v1, w.v2)),
    ('V1+V2', lambda w: Sum(w.v1, w.v2)), ('2a+b', lambda w: Sum(Times(2, w.a), w.b)), ('scalar+a', lambda w: Sum(w.s0, w.a)),
    ('V2*(V1*V2)', lambda w: RProd(w.v2, w.v1, w.v2)), ('a+a2+a', lambda w: Sum(w.a, w.a2, w.a)),
]
DUALD = [
    ('(a+b)*c', lambda w: Prod(Sum(w.a, w.b), w.c)), ('b*a+a*b+a', lambda w: Sum(Prod(w.b, w.a), Prod(w.a, w.b), w.a)),
    ('c*(a+b)', lambda w: Prod(w.c, Sum(w.a, w.b))), ('(V1+V2)*V1', lambda w: Prod(Sum(w.v1, w.v2), w.v1)),
    ('V1*V2+V2*V1', lambda w: Sum(Prod(w.v1, w.v2), Prod(w.v2, w.v1))),
]


def dual_of(w, e):
    r = e.reps()
    ok, t = attempt('dual', lambda: r.T)
    if not ok:
        return
    W = dual_rho(e, w.Ms)
    ok, sz = attempt('dual size', lambda: t.size())
    if ok:
        expect_eq('dual size', sz, r.size())
    ok, D = attempt('dual rho', lambda: t.rho_dense(w.Ms))
    if ok:
        expect_eq('the dual acts by the inverse transpose', D, W)
    ok, D = attempt('dual drho', lambda: t.drho_dense(w.Ns))
    if ok:
        expect_eq('the dual algebra action is minus the transpose', D, dual_drho(e, w.Ns))
    ok, tt = attempt('double dual', lambda: r.T.T)
    if ok:
        ok, D = attempt('double dual rho', lambda: tt.rho_dense(w.Ms))
        if ok:
            expect_eq('the double dual acts as the original', D, e.rho(w.Ms))


for nm, e in DUALS:
    scenario('P06', name='dual of ' + nm)(lambda e=e: dual_of(SYM, e(SYM)))
for wn, w in (('231', I231), ('222', I222)):
    for nm, e in DUALD + DUALS:
        scenario('P06', name='dual of ' + nm + ' sizes ' + wn)(lambda w=w, e=e: (dense(), dual_of(w, e(w))))

MAPS = [
    ('V>>V', lambda w: (w.v1, w.v1)), ('a>>b', lambda w: (w.a, w.b)), ('V>>a', lambda w: (w.v1, w.a)),
    ('a>>scalar', lambda w: (w.a, w.s0)), ('scalar>>a', lambda w: (w.s0, w.a)), ('V>>V*', lambda w: (w.v1, w.v1d)),
    ('V1>>V2', lambda w: (w.v1, w.v2)), ('V**2>>V', lambda w: (Pow(w.v1, 2), w.v1)),
    ('V>>V1*V2', lambda w: (w.v1, Prod(w.v1, w.v2))), ('a*b>>b', lambda w: (Prod(w.a, w.b), w.b)),
]
MAPD = [
    ('a+b>>c', lambda w: (Sum(w.a, w.b), w.c)), ('c>>a+b', lambda w: (w.c, Sum(w.a, w.b))),
    ('a+b>>b+c', lambda w: (Sum(w.a, w.b), Sum(w.b, w.c))), ('V+a>>a+V', lambda w: (Sum(w.v1, w.a), Sum(w.a, w.v1))),
    ('V+1>>2V', lambda w: (Sum(w.v1, w.s0), Times(2, w.v1))), ('V1+V2>>V2', lambda w: (Sum(w.v1, w.v2), w.v2)),
    ('a+b+a>>b+a', lambda w: (Sum(w.a, w.b, w.a), Sum(w.b, w.a))),
]


def map_of(w, ei, eo):
    a, b = ei.reps(), eo.reps()
    W = kron(eo.rho(w.Ms), dual_rho(ei, w.Ms))
    for nm, f in (('>>', lambda: a >> b), ('<<', lambda: b << a)):
        ok, r = attempt('build ' + nm, f)
        if not ok:
            continue
        ok, D = attempt('rho ' + nm, lambda: r.rho_dense(w.Ms))
        if ok:
            expect_eq('the maps %s act by rho_out (x) dual(rho_in)' % nm, D, W)
    X = array('W', W.shape[0])
    M = X.reshape(b.size(), a.size())
    ok, y = attempt('matrix action', lambda: (a >> b).rho(w.Ms) @ X)
    if ok:
        expect_eq('acting on vec(W) gives vec(rho_out W rho_in^-1)', y,
                  (eo.rho(w.Ms) @ M @ dual_rho(ei, w.Ms).T).reshape(-1))


for nm, f in MAPS:
    scenario('P06', name='maps ' + nm)(lambda f=f: map_of(SYM, *f(SYM)))
for wn, w in (('231', I231), ('222', I222)):
    for nm, f in MAPS + MAPD:
        scenario('P06', name='maps ' + nm + ' sizes ' + wn)(lambda w=w, f=f: (dense(), map_of(w, *f(w))))


@scenario('P06', name='orthogonal groups are self dual')
def orth():
    for w in (SYM, I231):
        r = w.v3.reps()
        expect('V* is V', r.T == r)
        expect_eq('rho of V*', r.T.rho_dense(w.Ms), w.v3.rho(w.Ms))
        expect_eq('drho of V*', r.T.drho_dense(w.Ns), w.v3.drho(w.Ns))
        s = r * r + r
        expect_eq('(V**2+V)* acts as V**2+V', s.T.rho_dense(w.Ms), s.rho_dense(w.Ms))
        p = w.vp.reps()
        expect('permutation V* is V', p.T == p)
    expect('scalar is self dual', Scalar.T == Scalar)


# symbolic reps (no group yet): instantiating afterwards is the same as before
DEFERRED = [
    ('V+V', lambda V, S: V + V), ('V*V', lambda V, S: V * V), ('V*V.T', lambda V, S: V * V.T),
    ('V.T*V', lambda V, S: V.T * V), ('V+V.T+S', lambda V, S: V + V.T + S), ('V**3', lambda V, S: V**3),
    ('S+V**2+V', lambda V, S: S + V**2 + V), ('(V+S)*V', lambda V, S: (V + S) * V),
    ('V*(V+S)', lambda V, S: V * (V + S)), ('(V*V.T).T', lambda V, S: (V * V.T).T),
    ('(V+V.T).T', lambda V, S: (V + V.T).T), ('2*V+3*S', lambda V, S: 2 * V + 3 * S),
    ('V>>V', lambda V, S: V >> V), ('V**2>>V', lambda V, S: V**2 >> V), ('V+3', lambda V, S: V + 3),
    ('3+V', lambda V, S: 3 + V), ('V<<V.T', lambda V, S: V << V.T), ('2*(V+V.T)*V', lambda V, S: 2 * (V + V.T) * V),
]


def deferred(g, Ms, f):
    ok, late = attempt('instantiate late', lambda: f(R.V, R.Scalar)(g))
    ok2, early = attempt('instantiate early', lambda: f(R.V(g), R.Scalar))
    if not ok or not ok2:
        return
    expect_eq('size', late.size(), early.size())
    ok, D = attempt('rho', lambda: late.rho_dense(Ms))
    if ok:
        expect_eq('rho', D, early.rho_dense(Ms))


for nm, f in DEFERRED:
    scenario('P06', name='instantiate ' + nm)(lambda f=f: (dense(), deferred(I231.g1, I231.Ms, f)))
    scenario('P06', name='instantiate %s orthogonal' % nm)(lambda f=f: (dense(), deferred(I231.g3, I231.Ms, f)))


@scenario('P06', name='T(p,q)')
def tpq():
    dense()
    w = I231
    for p, q in ((0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (2, 1)):
        e = Prod(*([w.v1] * p + [w.v1d] * q)) if p + q else w.s0
        for nm, r in (('group given', R.T(p, q, w.g1)), ('group later', R.T(p, q)(w.g1))):
            ok, D = attempt('T(%d,%d) %s' % (p, q, nm), lambda: r.rho_dense(w.Ms))
            if ok:
                expect_eq('T(%d,%d) %s' % (p, q, nm), D, e.rho(w.Ms))


# ---------------------------------------------------------------- P10 basis and projector
def herm(Q):
    return jnp.conj(jnp.einsum('ij->ji', Q))


def mat(x):
    return densify(x)


class Same(object):
    """a group of equivalent parts solved as one problem: the basis is what the solver returns for them"""


def basis_of(w, e, P):
    r = e.reps()
    n = r.size()
    ok, Q = attempt('basis', lambda: r.equivariant_basis())
    if ok:
        k = Q.shape[-1]
        expect_eq('basis rows', Q.shape[0], n)
        c = array('c', k)
        ok, Qc = attempt('basis @ coefficients', lambda: Q @ c)
        if ok:
            ok, D = attempt('dense basis', lambda: mat(Q))
            if ok:
                expect_eq('basis @ coefficients is the dense basis applied', Qc, D @ c)
                expect_eq('span of the basis', D @ herm(D), P)
    ok, Pl = attempt('projector', lambda: r.equivariant_projector())
    if ok:
        expect_eq('projector shape', Pl.shape[0], n)
        ok, D = attempt('dense projector', lambda: mat(Pl))
        if ok:
            expect_eq('projector is Q Q^H in the order of the user', D, P)
        x = array('x', n)
        ok, y = attempt('projector @ vector', lambda: Pl @ x)
        if ok:
            expect_eq('projector @ vector', y, P @ x)


# the parts know their own solutions (Custom.equivariant_basis), or are solved by the generic solver
def small(w):
    """the problems fit the dense solver"""
    assume(30000000 - 3 * w.g1.d * w.g1.d)


def leafproj(w, e):
    """reference projector: block diagonal over sums; Kronecker over parts of different groups;
    a part is whatever the library finds for that part alone"""
    if isinstance(e, Sum):
        return blocks([leafproj(w, x) for x in e.xs])
    if isinstance(e, Times):
        return blocks([leafproj(w, e.x)] * e.n)
    if isinstance(e, Leaf) and isinstance(e.rep, Custom):
        return e.proj()
    Q = mat(e.reps().equivariant_basis())
    return Q @ herm(Q)


BASES = [
    ('a', lambda w: w.a), ('a+b', lambda w: Sum(w.a, w.b)), ('b+a', lambda w: Sum(w.b, w.a)), ('a+b+a', lambda w: Sum(w.a, w.b, w.a)),
    ('3a', lambda w: Times(3, w.a)), ('2b+a+b', lambda w: Sum(Times(2, w.b), w.a, w.b)), ('a+a2+a', lambda w: Sum(w.a, w.a2, w.a)),
    ('scalar+a', lambda w: Sum(w.s0, w.a)), ('a+scalar', lambda w: Sum(w.a, w.s0)), ('a+2scalar+b', lambda w: Sum(w.a, Times(2, w.s0), w.b)),
    ('V', lambda w: w.v1), ('V+V*', lambda w: Sum(w.v1, w.v1d)), ('V*+V+V*', lambda w: Sum(w.v1d, w.v1, w.v1d)),
    ('V+a', lambda w: Sum(w.v1, w.a)), ('a+V+a', lambda w: Sum(w.a, w.v1, w.a)), ('xa+a', lambda w: Sum(w.xa, w.a)),
    ('a+xa+V1', lambda w: Sum(w.a, w.xa, w.v1)), ('2scalar', lambda w: Times(2, w.s0)),
]
SYMBOLIC = ('a', 'a+b', 'b+a', 'scalar+a', 'a+scalar', 'V', 'xa+a', '2scalar', 'a*xa', 'xa*a')
for nm, e in BASES:
    if nm in SYMBOLIC:
        scenario('P10', name='basis of ' + nm)(lambda e=e: (small(SYM), basis_of(SYM, e(SYM), leafproj(SYM, e(SYM)))))
for wn, w in (('231', I231), ('222', I222)):
    for nm, e in BASES:
        scenario('P10', name='basis of ' + nm + ' sizes ' + wn)(lambda w=w, e=e: (dense(), basis_of(w, e(w), leafproj(w, e(w)))))
DIRECT = [
    ('a*xa', lambda w: (w.a, w.xa)), ('xa*a', lambda w: (w.xa, w.a)), ('V1*V2', lambda w: (w.v1, w.v2)), ('V2*V1', lambda w: (w.v2, w.v1)),
    ('V3*xa*a', lambda w: (w.v3, w.xa, w.a)), ('a*V3*xa', lambda w: (w.a, w.v3, w.xa)), ('V1*xb', lambda w: (w.v1, w.xb)),
    ('V1*vp', lambda w: (w.v1, w.vp)),
]


def kprod(ps):
    r = ps[0]
    for p in ps[1:]:
        r = kron(r, p)
    return r


def basis_direct(w, es):
    basis_of(w, Prod(*es), kprod([leafproj(w, x) for x in es]))


for nm, e in DIRECT:
    if nm in SYMBOLIC:
        scenario('P10', name='basis of direct product ' + nm)(lambda e=e: (small(SYM), basis_direct(SYM, e(SYM))))
    for wn, w in (('231', I231), ('222', I222)):
        scenario('P10', name='basis of direct product ' + nm + ' sizes ' + wn)(lambda w=w, e=e: (dense(), basis_direct(w, e(w))))


def basis_mixed(w):
    """sums of direct products"""
    d = Prod(w.a, w.xa)
    Pd = kron(leafproj(w, w.a), leafproj(w, w.xa))
    basis_of(w, Sum(d, w.b), blocks([Pd, leafproj(w, w.b)]))
    basis_of(w, Sum(w.b, d, w.b), blocks([leafproj(w, w.b), Pd, leafproj(w, w.b)]))
    basis_of(w, Sum(Prod(w.xa, w.a), w.a), blocks([kron(leafproj(w, w.xa), leafproj(w, w.a)), leafproj(w, w.a)]))
    e = Prod(Sum(w.a, w.b), w.xa)
    basis_of(w, e, blocks([kron(leafproj(w, w.a), leafproj(w, w.xa)), kron(leafproj(w, w.b), leafproj(w, w.xa))]))


for wn, w in (('231', I231), ('222', I222)):
    scenario('P10', name='basis of sums of direct products sizes ' + wn)(lambda w=w: (dense(), basis_mixed(w)))


def reordered(w, f, g):
    """two orders of the same parts are the same problem up to a permutation of coordinates"""
    r, s = f(w).reps(), g(w).reps()
    rc, rp = r.canonicalize()
    sc, sp = s.canonicalize()
    if not rc == sc:
        note('different canonical forms')
        return
    Pr, Ps = mat(r.equivariant_projector()), mat(s.equivariant_projector())
    expect_eq('solution spaces agree after reordering', Pr[rp][:, rp], Ps[sp][:, sp])
    Q = mat(r.equivariant_basis())
    expect_eq('basis and projector of the product agree', Q @ herm(Q), Pr)


REORD = [
    ('a*b and b*a', lambda w: Prod(w.a, w.b), lambda w: Prod(w.b, w.a)),
    ('V*V* and V**V', lambda w: Prod(w.v1, w.v1d), lambda w: Prod(w.v1d, w.v1)),
    ('b*a*b and b*b*a', lambda w: Prod(w.b, w.a, w.b), lambda w: Prod(w.b, w.b, w.a)),
    ('a*b+c and c+b*a', lambda w: Sum(Prod(w.a, w.b), w.c), lambda w: Sum(w.c, Prod(w.b, w.a))),
    ('(a+b)*c and c*(b+a)', lambda w: Prod(Sum(w.a, w.b), w.c), lambda w: Prod(w.c, Sum(w.b, w.a))),
    ('V1*V2*V1 and V2*V1*V1', lambda w: Prod(w.v1, w.v2, w.v1), lambda w: Prod(w.v2, w.v1, w.v1)),
]
for wn, w in (('231', I231), ('222', I222), ('312', I312)):
    for nm, f, g in REORD:
        scenario('P10', name='reordered ' + nm + ' sizes ' + wn)(lambda w=w, f=f, g=g: (dense(), reordered(w, f, g)))


# ---------------------------------------------------------------- P09 the constraints, and solving them
def constraints_of(w, e, gs):
    r = e.reps()
    n = r.size()
    ok, C = attempt('constraint matrix', lambda: r.constraint_matrix())
    if not ok:
        return
    ok, D = attempt('dense constraints', lambda: mat(C))
    if not ok:
        return
    rows = []
    for h in r.G.discrete_generators:
        rows.append(e.rho({r.G: h}) - identity(n))
    for A in r.G.lie_algebra:
        rows.append(e.drho({r.G: A}))
    W = jnp.concatenate(rows, 0) if rows else jnp.zeros((1, n))
    expect_same_rows('one block of constraints per generator', D, W, rows)
    x = array('x', n)
    ok, y = attempt('constraints @ vector', lambda: C @ x)
    if ok:
        expect_eq('constraints @ vector', y, D @ x)


def expect_same_rows(label, D, W, blocks_):
    # the blocks may be stacked in any order and with either sign: the null space is the same
    expect_eq(label + ' (count)', D.shape[0], W.shape[0])
    if same(D.shape[0], W.shape[0]) != 'proved' or len(blocks_) < 2 or same(D, W) == 'proved':
        expect_eq(label, D, W)
        return
    n = blocks_[0].shape[0]
    left = list(range(len(blocks_)))
    unsure = False
    for j in range(len(blocks_)):
        part = D[j * n:(j + 1) * n]
        hit = None
        for i in left:
            if hit is None:
                plus, minus = same(part, blocks_[i]), same(part, -blocks_[i])
                if plus == 'proved' or minus == 'proved':
                    hit = i
                unsure = unsure or plus == 'undecided' or minus == 'undecided'
        if hit is None:
            if unsure:

                undecided(label, "no block equals block %d as far as can be told" % j)
                return
            expect_eq(label, D, W)
            return
        left.remove(hit)
    expect(label, True)


CONS = [
    ('V', lambda w: w.v1), ('V*', lambda w: w.v1d), ('V2', lambda w: w.v2), ('a', lambda w: w.a), ('V3', lambda w: w.v3),
    ('Vp', lambda w: w.vp), ('V*V*', lambda w: Prod(w.v1, w.v1d)), ('V*a', lambda w: Prod(w.v1, w.a)), ('V**2', lambda w: Pow(w.v1, 2)),
    ('b*a*b', lambda w: Prod(w.b, w.a, w.b)), ('V2**2', lambda w: Pow(w.v2, 2)),
]
for nm, e in CONS:
    scenario('P09', name='constraints of ' + nm)(lambda e=e: constraints_of(SYM, e(SYM), None))
for wn, w in (('231', I231), ('222', I222)):
    for nm, e in CONS:
        scenario('P09', name='constraints of ' + nm + ' sizes ' + wn)(lambda w=w, e=e: (dense(), constraints_of(w, e(w), None)))


def solved(e, w, small_):
    small_()
    r = e.reps()
    n = r.size()
    rows = []
    for h in r.G.discrete_generators:
        rows.append(e.rho({r.G: h}) - identity(n))
    for A in r.G.lie_algebra:
        rows.append(e.drho({r.G: A}))
    W = jnp.concatenate(rows, 0)
    ok, Q = attempt('basis', lambda: r.equivariant_basis())
    if ok:
        expect_nullspace('the basis is the null space of all constraints', Q, W)
    ok, Q2 = attempt('basis (cached)', lambda: r.equivariant_basis())
    if ok:
        expect_eq('asking again gives the same basis', Q2, Q)


class GC(Group):
    """complex generators"""
    is_orthogonal = False
    is_permutation = False
    d = dim('dc')
    lie_algebra = [array('GC.A0', dim('dc'), dim('dc'), real=False)]
    discrete_generators = [array('GC.h0', dim('dc'), dim('dc'), real=False)]


GCI = GC()
for nm, e, d in (('V', lambda: SYM.v1, dim('d1')), ('V2', lambda: SYM.v2, dim('d2')), ('V3', lambda: SYM.v3, dim('d3')),
                 ('Vp', lambda: SYM.vp, dim('d4')), ('V*', lambda: SYM.v1d, dim('d1')), ('V complex', lambda: Leaf(V(GCI)), dim('dc'))):
    scenario('P09', name='solution of ' + nm)(lambda e=e, d=d: solved(e(), SYM, lambda: assume(30000000 - 3 * d * d)))


for wn, w in (('231', I231), ('222', I222)):
    for nm, e in CONS:
        if nm != 'a' and not (wn == '231' and ('3' in nm or '2' in nm or 'b' in nm)):
            scenario('P09', name='solution of ' + nm + ' sizes ' + wn)(lambda w=w, e=e: (dense(), solved(e(w), w, lambda: None)))


@scenario('P09', name='a group without generators')
def nogen():
    class G0(Group):
        is_orthogonal = True
        is_permutation = True
        d = dim('d1')
    g = G0()
    r = V(g)
    C = mat(r.constraint_matrix())
    expect_eq('no constraint', C, jnp.zeros((1, dim('d1'))))
    x = array('x', dim('d1'))
    expect_eq('no constraint on a vector', r.constraint_matrix() @ x, jnp.zeros(1))


@scenario('P09', name='scalar')
def scal():
    expect_eq('the scalar is invariant', Scalar.equivariant_basis(), jnp.ones((1, 1)))
    expect_eq('its projector is the identity', mat(Scalar.equivariant_projector()), jnp.ones((1, 1)))
