from _spec import *
import jax.numpy as jnp
import numpy as np
from emlp.reps.linear_operator_base import LinearOperator, Lazy
from emlp.reps.linear_operators import (LazyKron, LazyKronsum, LazyDirectSum, ConcatLazy, LazyPerm,
                                        LazyShift, I, LazyJVP, lazify, densify, Rot90, SwapMatrix)

n, m, p, q, k = dim('n'), dim('m'), dim('p'), dim('q'), dim('k')


def kron(a, b):
    return jnp.einsum('ij,kl->ikjl', a, b).reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


def ksum(a, b):
    return kron(a, identity(b.shape[0])) + kron(identity(a.shape[0]), b)


def blocks(ms):
    tot_c = sum([x.shape[1] for x in ms])
    rows = []
    before = 0
    for x in ms:
        r = x.shape[0]
        c = x.shape[1]
        after = tot_c - before - c
        rows.append(jnp.concatenate([jnp.zeros((r, before)), x, jnp.zeros((r, after))], 1))
        before = before + c
    return jnp.concatenate(rows, 0)


def view(label, op, D, products=True):
    """every forward view of op equals the dense matrix D"""
    expect_eq(label + '.shape', tuple(op.shape), tuple(D.shape))
    v = array('v', D.shape[1])
    X = array('X', D.shape[1], k)
    ok, d = attempt(label + '.to_dense', lambda: op.to_dense())
    if ok:
        expect_eq(label + '.to_dense', d, D)
    ok, d = attempt(label + '.densify', lambda: densify(op))
    if ok:
        expect_eq(label + '.densify', d, D)
    if not products:
        return
    for nm, f, want in [('@vector', lambda: op @ v, D @ v), ('@matrix', lambda: op @ X, D @ X),
                        ('*vector', lambda: op * v, D @ v), ('.dot(matrix)', lambda: op.dot(X), D @ X),
                        ('@onecolumn', lambda: op @ v.reshape(-1, 1), (D @ v).reshape(-1, 1)),
                        ('(vector)', lambda: op(v), D @ v)]:
        ok, d = attempt(label + nm, f)
        if ok:
            expect_eq(label + nm, d, want)


def tview(label, op, D, real=True, which=('T', 'H')):
    """transposed views"""
    DT = jnp.einsum('ij->ji', D)
    DH = DT if real else jnp.conj(DT)
    v = array('w', D.shape[0], real=real)
    X = array('Y', D.shape[0], k, real=real)
    u = array('u', D.shape[1], real=real)
    for nm, f, W in [('.T', lambda: op.T, DT), ('.H', lambda: op.H, DH)]:
        if nm[1] not in which:
            continue
        ok, t = attempt(label + nm, f)
        if not ok:
            continue
        expect_eq(label + nm + '.shape', tuple(t.shape), tuple(W.shape))
        for nm2, g, want in [('.to_dense', lambda: densify(t), W), ('@matrix', lambda: t @ X, W @ X),
                             ('@vector', lambda: t @ v, W @ v)]:
            ok, d = attempt(label + nm + nm2, g)
            if ok:
                expect_eq(label + nm + nm2, d, want)
    ok, t = attempt(label + '.T.T', lambda: op.T.T)
    if ok:
        ok, d = attempt(label + '.T.T@vector', lambda: t @ u)
        if ok:
            expect_eq(label + '.T.T@vector', d, D @ u)
    ok, t = attempt(label + '.H.H', lambda: op.H.H)
    if ok:
        ok, d = attempt(label + '.H.H@vector', lambda: t @ u)
        if ok:
            expect_eq(label + '.H.H@vector', d, D @ u)
    ok, d = attempt(label + '.rmatvec', lambda: op.rmatvec(v))
    if ok:
        expect_eq(label + '.rmatvec', d, DH @ v)
    ok, d = attempt(label + '.rmatmat', lambda: op.rmatmat(X))
    if ok:
        expect_eq(label + '.rmatmat', d, DH @ X)


A = array('A', n, m)
B = array('B', p, q)
C = array('C', m, p)
S = array('S', n, n)
R = array('R', m, m)
Q = array('Q', p, p)


def permmat(pm):
    return identity(n)[pm]


@scenario('P01')
def lazy():
    view('Lazy', Lazy(A), A)
    expect('lazify is idempotent', lazify(Lazy(A)) is not None)
    view('lazify(array)', lazify(A), A)
    view('lazify(operator)', lazify(Lazy(A)), A)
    expect_eq('densify(array)', densify(A), A)


@scenario('P01')
def ident():
    view('I', I(n), identity(n))


@scenario('P01')
def kron2_rect():
    view('Kron', LazyKron([A, B]), kron(A, B))
    view('Kron(lazy)', LazyKron([Lazy(A), B]), kron(A, B))


@scenario('P01')
def kron3():
    view('Kron3', LazyKron([S, R, Q]), kron(S, kron(R, Q)))


@scenario('P01')
def kron_single():
    view('Kron1', lazify(LazyKron([A])), A)
    view('Kronsum1', lazify(LazyKronsum([S])), S)


@scenario('P01')
def kron_single_nested():
    view('Kron1(Kron)', LazyKron([LazyKron([S, R])]), kron(S, R))
    view('Kronsum1(Kronsum)', LazyKronsum([LazyKronsum([S, R])]), ksum(S, R))
    view('Kron1(Kronsum)', LazyKron([LazyKronsum([S, R])]), ksum(S, R))


@scenario('P01')
def swap():
    sw = np.array([0, 1])
    D = jnp.concatenate([identity(n + 2)[1:2], identity(n + 2)[0:1], identity(n + 2)[2:]], 0)
    view('Swap', SwapMatrix(sw, n + 2), D)


@scenario('P01')
def kronsum2():
    view('Kronsum', LazyKronsum([S, R]), ksum(S, R))
    view('Kronsum(lazy)', LazyKronsum([S, Lazy(R)]), ksum(S, R))


@scenario('P01')
def kronsum3():
    view('Kronsum3', LazyKronsum([S, R, Q]), ksum(S, ksum(R, Q)))


@scenario('P01')
def nested_kron():
    view('Kron(Kronsum)', LazyKron([LazyKronsum([S, R]), Q]), kron(ksum(S, R), Q))
    view('Kronsum(Kron)', LazyKronsum([LazyKron([S, R]), Q]), ksum(kron(S, R), Q))


@scenario('P01')
def directsum():
    view('DirectSum', LazyDirectSum([S, R], [1, 1]), blocks([S, R]))
    view('DirectSum(lazy)', LazyDirectSum([Lazy(S), LazyKron([R, Q])], [1, 1]), blocks([S, kron(R, Q)]))


@scenario('P01')
def directsum_mult():
    view('DirectSum*2', LazyDirectSum([S, R], [2, 1]), blocks([S, S, R]))
    view('DirectSum*1,3', LazyDirectSum([S, R], [1, 3]), blocks([S, R, R, R]))


@scenario('P01')
def directsum_default():
    view('DirectSum(default multiplicities)', LazyDirectSum([S, R]), blocks([S, R]))


@scenario('P01')
def directsum_numpy():
    view('DirectSum(numpy)', LazyDirectSum([array('Sn', n, n, lib='np'), R], [1, 2]),
         blocks([array('Sn', n, n), R, R]))


@scenario('P01')
def concat():
    A2 = array('A2', n, m)
    A3 = array('A3', n, m)
    view('Concat', ConcatLazy([A, A2, A3]), jnp.concatenate([A, A2, A3], 0))
    view('Concat(lazy)', ConcatLazy([Lazy(A), A2]), jnp.concatenate([A, A2], 0))
    view('Concat(single)', ConcatLazy([Lazy(A)]), A)


@scenario('P01')
def lperm():
    pm = perm('pi', n)
    view('Perm', LazyPerm(pm), permmat(pm))


@scenario('P01')
def shift():
    for s in (1, 2, -1):
        view('Shift(%d)' % s, LazyShift(n + 3, s), jnp.roll(identity(n + 3), s, 0))
    view('Shift(default)', LazyShift(n + 1), jnp.roll(identity(n + 1), 1, 0))


@scenario('P01')
def rot90():
    for kk in (1, 2, 3):
        d = jnp.rot90(identity(n * n).reshape(n, n, n * n), kk).reshape(n * n, n * n)
        view('Rot90(%d)' % kk, Rot90(n, kk), d)


@scenario('P01')
def jvp_op():
    E = array('E', n, n)
    F = array('F', n, n)
    op = LazyJVP(lambda X: Lazy(X @ X), E, F)
    view('JVP', op, E @ F + F @ E)
    op = LazyJVP(lambda X: LazyKron([X, X]), E, F)
    view('JVP(Kron)', op, kron(E, F) + kron(F, E))


@scenario('P01')
def algebra():
    B1 = array('B1', n, m)
    a = scalar('a')
    LA, LB, LC = Lazy(A), Lazy(B1), Lazy(C)
    view('A+B', LA + LB, A + B1)
    view('A-B', LA - LB, A - B1)
    view('A+array', LA + B1, A + B1)
    view('array+A', B1 + LA, A + B1)
    view('-A', -LA, -A)
    view('a*A', a * LA, a * A)
    view('A*a', LA * a, a * A)
    view('2A', 2 * LA, 2 * A)
    view('A@C', LA @ LC, A @ C)
    view('A*C', LA * LC, A @ C)
    view('A.dot(C)', LA.dot(LC), A @ C)


@scenario('P01')
def algebra2():
    LA, LC, LS = Lazy(A), Lazy(C), Lazy(S)
    B1 = array('B1', n, m)
    view('(A+B)C', (LA + Lazy(B1)) @ LC, (A + B1) @ C)
    view('S(A C)', LS @ (LA @ LC), S @ A @ C)
    view('2(SA)-A', 2 * (LS @ LA) - LA, 2 * (S @ A) - A)


@scenario('P01')
def power():
    LS = Lazy(S)
    view('S**0', LS ** 0, identity(n))
    view('S**1', LS ** 1, S)
    view('S**2', LS ** 2, S @ S)
    view('S**3', LS ** 3, S @ S @ S)


@scenario('P01')
def mixed():
    pm = perm('pi', n)
    view('Perm@Lazy@Perm', LazyPerm(pm) @ Lazy(S) @ LazyPerm(np.argsort(pm)),
         S[pm][:, pm])


@scenario('P01')
def shapes_rejected():
    """products with mismatched inner sizes are refused, never silently computed"""
    for nm, f in [('matvec', lambda: Lazy(A) @ array('v', m + 1)),
                  ('matmat', lambda: Lazy(A) @ array('X', m + 1, k)),
                  ('kron', lambda: LazyKron([A, B]) @ array('v', m * q + 1)),
                  ('product', lambda: Lazy(A) @ Lazy(array('X', m + 1, k))),
                  ('sum', lambda: Lazy(A) + Lazy(array('X', n, m + 1))),
                  ('directsum', lambda: LazyDirectSum([S, R], [2, 1]) @ array('v', n + m)),
                  ('rmatvec', lambda: Lazy(A).rmatvec(array('v', n + 1))),
                  ('rmatmat', lambda: Lazy(A).rmatmat(array('v', n + 1, k)))]:
        try:
            f()
            expect('size mismatch refused: ' + nm, False, 'no exception')
        except (ValueError, TypeError):
            expect('size mismatch refused: ' + nm, True)


@scenario('P01')
def inputs_untouched():
    """applying an operator does not modify its (mutable) operand"""
    for nm, op, sz in [('Perm', LazyPerm(perm('pi', n)), n), ('Shift', LazyShift(n + 1), n + 1),
                       ('DirectSum', LazyDirectSum([S, R], [2, 1]), 2 * n + m),
                       ('Kronsum', LazyKronsum([S, R]), n * m), ('I', I(n), n)]:
        v = array('v', sz, lib='np')
        op @ v
        expect_eq('operand unchanged: ' + nm, v, array('v', sz))


# ------------------------------------------------------------------ transposes
@scenario('P02')
def t_lazy():
    tview('Lazy', Lazy(A), A)


@scenario('P02')
def t_lazy_complex():
    Z = array('Z', n, m, real=False)
    tview('Lazy(complex)', Lazy(Z), Z, real=False)


@scenario('P02')
def t_kron():
    tview('Kron', LazyKron([S, R]), kron(S, R))
    tview('Kron(rect)', LazyKron([A, B]), kron(A, B))
    tview('Kron(lazy)', LazyKron([Lazy(A), Lazy(B)]), kron(A, B))


@scenario('P02')
def t_kron_complex():
    Z = array('Z', n, n, real=False)
    tview('Kron(complex)', LazyKron([Z, Z]), kron(Z, Z), real=False)


@scenario('P02')
def t_kronsum():
    tview('Kronsum', LazyKronsum([S, R]), ksum(S, R))
    tview('Kronsum3', LazyKronsum([S, R, Q]), ksum(S, ksum(R, Q)))


@scenario('P02')
def t_kronsum_complex():
    Z = array('Z', n, n, real=False)
    tview('Kronsum(complex)', LazyKronsum([Z, Z]), ksum(Z, Z), real=False)


@scenario('P02')
def t_directsum():
    tview('DirectSum', LazyDirectSum([S, R], [1, 1]), blocks([S, R]))


@scenario('P02')
def t_directsum_mult():
    tview('DirectSum*2', LazyDirectSum([S, R], [2, 1]), blocks([S, S, R]))


@scenario('P02')
def t_directsum_complex():
    Z = array('Z', n, n, real=False)
    tview('DirectSum(complex)', LazyDirectSum([Z, Z], [1, 1]), blocks([Z, Z]), real=False)


@scenario('P02')
def t_perm():
    pm = perm('pi', n)
    tview('Perm', LazyPerm(pm), permmat(pm))


@scenario('P02')
def t_shift():
    for s in (1, 2, -1):
        tview('Shift(%d)' % s, LazyShift(n + 3, s), jnp.roll(identity(n + 3), s, 0))


@scenario('P02')
def t_rot90():
    d = jnp.rot90(identity(n * n).reshape(n, n, n * n), 1).reshape(n * n, n * n)
    tview('Rot90', Rot90(n, 1), d)


@scenario('P02')
def t_ident():
    tview('I', I(n), identity(n))


@scenario('P02')
def t_concat():
    A2 = array('A2', n, m)
    D = jnp.concatenate([A, A2], 0)
    op = ConcatLazy([A, A2])
    Y = array('Y', 2 * n, k)
    for nm, f, want in [('.T@matrix', lambda: op.T @ Y, jnp.einsum('ij->ji', D) @ Y),
                        ('.H@matrix', lambda: op.H @ Y, jnp.einsum('ij->ji', D) @ Y),
                        ('.rmatmat', lambda: op.rmatmat(Y), jnp.einsum('ij->ji', D) @ Y),
                        ('.T@vector', lambda: op.T @ Y[:, 0], (jnp.einsum('ij->ji', D) @ Y)[:, 0])]:
        ok, d = attempt('Concat' + nm, f)
        if ok:
            expect_eq('Concat' + nm, d, want)


@scenario('P02')
def t_jvp():
    E = array('E', n, n)
    F = array('F', n, n)
    D = jnp.einsum('ij->ji', E @ F + F @ E)
    op = LazyJVP(lambda X: Lazy(X @ X), E, F)
    Y = array('Y', n, k)
    for nm, f, want in [('.T@matrix', lambda: op.T @ Y, D @ Y), ('.rmatmat', lambda: op.rmatmat(Y), D @ Y),
                        ('.T@vector', lambda: op.T @ Y[:, 0], (D @ Y)[:, 0])]:
        ok, d = attempt('JVP' + nm, f)
        if ok:
            expect_eq('JVP' + nm, d, want)


@scenario('P02')
def t_algebra():
    B1 = array('B1', n, m)
    a = scalar('a')
    LA, LB, LC, LS = Lazy(A), Lazy(B1), Lazy(C), Lazy(S)
    tview('A+B', LA + LB, A + B1)
    tview('A-B', LA - LB, A - B1)
    tview('a*A', a * LA, a * A)
    tview('A@C', LA @ LC, A @ C)
    tview('2(SA)-A', 2 * (LS @ LA) - LA, 2 * (S @ A) - A)


@scenario('P02')
def t_power():
    tview('S**2', Lazy(S) ** 2, S @ S)


@scenario('P02')
def t_algebra_complex():
    Z = array('Z', n, n, real=False)
    W = array('W', n, n, real=False)
    a = 1 + 2j
    tview('Z+W', Lazy(Z) + Lazy(W), Z + W, real=False)
    tview('a*Z', a * Lazy(Z), a * Z, real=False)
    tview('Z@W', Lazy(Z) @ Lazy(W), Z @ W, real=False)


# ------------------------------------------------------------------ inverse transpose
def iview(label, f, want):
    ok, t = attempt(label, f)
    if ok:
        ok, d = attempt(label + '.to_dense', lambda: densify(t))
        if ok:
            expect_eq(label, d, want)


def invT(a):
    return jnp.einsum('ij->ji', jnp.linalg.inv(a))


@scenario('P03')
def i_basic():
    iview('Lazy', lambda: Lazy(S).invT(), invT(S))
    iview('I', lambda: I(n).invT(), identity(n))
    pm = perm('pi', n)
    iview('Perm', lambda: LazyPerm(pm).invT(), permmat(pm))
    iview('Shift', lambda: LazyShift(n + 2, 1).invT(), jnp.roll(identity(n + 2), 1, 0))
    d = jnp.rot90(identity(n * n).reshape(n, n, n * n), 1).reshape(n * n, n * n)
    iview('Rot90', lambda: Rot90(n, 1).invT(), d)


@scenario('P03')
def i_kron():
    iview('Kron(lazy)', lambda: LazyKron([Lazy(S), Lazy(R)]).invT(), kron(invT(S), invT(R)))


@scenario('P03')
def i_kron_dense():
    iview('Kron(dense)', lambda: LazyKron([S, R]).invT(), kron(invT(S), invT(R)))


@scenario('P03')
def i_directsum():
    iview('DirectSum(lazy)', lambda: LazyDirectSum([Lazy(S), Lazy(R)], [1, 1]).invT(),
          blocks([invT(S), invT(R)]))


@scenario('P03')
def i_directsum_mult():
    iview('DirectSum(multiplicity)', lambda: LazyDirectSum([Lazy(S), Lazy(R)], [2, 1]).invT(),
          blocks([invT(S), invT(S), invT(R)]))


@scenario('P03')
def i_directsum_dense():
    iview('DirectSum(dense)', lambda: LazyDirectSum([S, R], [1, 1]).invT(), blocks([invT(S), invT(R)]))


@scenario('P03')
def i_product():
    T_ = array('Tm', n, n)
    iview('Product', lambda: (Lazy(S) @ Lazy(T_)).invT(), invT(S) @ invT(T_))
    pm = perm('pi', n)
    iview('Perm@Lazy', lambda: (LazyPerm(pm) @ Lazy(S)).invT(), invT(S)[pm])


@scenario('P03')
def i_scaled():
    iview('Scaled', lambda: (2 * Lazy(S)).invT(), invT(S) / 2)


@scenario('P03')
def i_sum():
    """the inverse transpose of a sum is not the sum of the inverse transposes"""
    ok, t = attempt('Sum', lambda: (Lazy(S) + Lazy(S)).invT())
    if ok:
        expect_eq('Sum', densify(t), invT(S) / 2)
