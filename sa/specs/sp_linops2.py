"""Operator expressions with literal sizes and symbolic entries: every leaf, alone and under every combinator."""
from sp_linops import *


def mk(name, r, c, real=True):
    return array(name, r, c, real=real)


def bmat(P):
    """matrix with M[i] = I[P[i]]"""
    return identity(len(P))[np.array(P)]


def rotmat(nn_, kk):
    return jnp.rot90(identity(nn_ * nn_).reshape(nn_, nn_, nn_ * nn_), kk).reshape(nn_ * nn_, nn_ * nn_)


def custom(D, parts):
    """a user operator implementing only the named methods"""
    DH = jnp.conj(jnp.einsum('ij->ji', D))
    kw = {}
    if 'rmatvec' in parts:
        kw['rmatvec'] = lambda x: DH @ x
    if 'matmat' in parts:
        kw['matmat'] = lambda X: D @ X
    if 'rmatmat' in parts:
        kw['rmatmat'] = lambda X: DH @ X
    return LinearOperator(shape=(D.shape[0], D.shape[1]), matvec=lambda x: D @ x, **kw)


class OnlyMatmat(LinearOperator):
    def __init__(self, D):
        super().__init__(None, (D.shape[0], D.shape[1]))
        self.D = D

    def _matmat(self, X):
        return self.D @ X

    def _adjoint(self):
        return OnlyMatmat(jnp.conj(jnp.einsum('ij->ji', self.D)))


class OnlyMatvec(LinearOperator):
    def __init__(self, D):
        super().__init__(None, (D.shape[0], D.shape[1]))
        self.D = D

    def _matvec(self, x):
        return self.D @ x

    def _adjoint(self):
        return OnlyMatvec(jnp.conj(jnp.einsum('ij->ji', self.D)))


def leaves4(real=True):
    """(name, operator, matrix, has transposed products) of size 4"""
    L = []
    a4 = mk('a4', 4, 4, real)
    s2, r2, t3 = mk('s2', 2, 2, real), mk('r2', 2, 2, real), mk('t3', 3, 3, real)
    one = mk('one', 1, 1, real)
    L.append(('Lazy', lambda: Lazy(a4), a4))
    L.append(('Kron', lambda: LazyKron([s2, Lazy(r2)]), kron(s2, r2)))
    L.append(('Kronsum', lambda: LazyKronsum([Lazy(s2), r2]), ksum(s2, r2)))
    L.append(('DirectSum', lambda: LazyDirectSum([one, t3], [1, 1]), blocks([one, t3])))
    L.append(('DirectSum2', lambda: LazyDirectSum([Lazy(one), s2], [2, 1]), blocks([one, one, s2])))
    L.append(('DirectSum02', lambda: LazyDirectSum([s2], [2]), blocks([s2, s2])))
    L.append(('Perm', lambda: LazyPerm(np.array([1, 2, 3, 0])), bmat([1, 2, 3, 0])))
    L.append(('Perm3', lambda: LazyPerm(np.array([2, 0, 1, 3])), bmat([2, 0, 1, 3])))
    L.append(('Shift', lambda: LazyShift(4, 1), jnp.roll(identity(4), 1, 0)))
    L.append(('Shift3', lambda: LazyShift(4, 3), jnp.roll(identity(4), 3, 0)))
    for q_ in (1, 2, 3):
        L.append(('Rot%d' % q_, lambda q_=q_: Rot90(2, q_), rotmat(2, q_)))
    L.append(('Swap', lambda: SwapMatrix(np.array([0, 2]), 4), bmat([2, 1, 0, 3])))
    L.append(('Swap of a tuple', lambda: SwapMatrix((0, 2), 4), bmat([2, 1, 0, 3])))
    L.append(('Swap of a list', lambda: SwapMatrix([3, 1], 4), bmat([0, 3, 2, 1])))
    L.append(('I', lambda: I(4), identity(4)))
    L.append(('JVP', lambda: LazyJVP(lambda X: LazyKron([X, X]), s2, r2), kron(s2, r2) + kron(r2, s2)))
    L.append(('custom', lambda: custom(a4, ('rmatvec', 'matmat', 'rmatmat')), a4))
    L.append(('custom matvec only', lambda: custom(a4, ('rmatvec',)), a4))
    L.append(('subclass matmat', lambda: OnlyMatmat(a4), a4))
    L.append(('subclass matvec', lambda: OnlyMatvec(a4), a4))
    return L


def look(label, f, D, real=True, T=True):
    ok, op = attempt(label, f)
    if not ok:
        return
    r, c = D.shape
    v, X = array('v', c, real=real), array('X', c, 2, real=real)
    expect_eq(label + '.shape', tuple(op.shape), (r, c))
    for nm, g, want in (('.to_dense', lambda: densify(op), D), ('@vector', lambda: op @ v, D @ v),
                        ('@matrix', lambda: op @ X, D @ X), ('@numpy vector', lambda: op @ np.array(v), D @ v),
                        ('@numpy matrix', lambda: op @ np.array(X), D @ X)):
        ok, d = attempt(label + nm, g)
        if ok:
            expect_eq(label + nm, d, want)


def tlook(label, f, D, real=True):
    ok, op = attempt(label, f)
    if not ok:
        return
    DT = jnp.einsum('ij->ji', D)
    DH = DT if real else jnp.conj(DT)
    r, c = D.shape
    w, Y = array('w', r, real=real), array('Y', r, 2, real=real)
    u = array('u', c, real=real)
    for nm, t, W in (('.T', lambda: op.T, DT), ('.H', lambda: op.H, DH)):
        ok, t_ = attempt(label + nm, t)
        if not ok:
            continue
        expect_eq(label + nm + '.shape', tuple(t_.shape), (c, r))
        for nm2, g, want in (('.to_dense', lambda: densify(t_), W), ('@vector', lambda: t_ @ w, W @ w),
                             ('@matrix', lambda: t_ @ Y, W @ Y)):
            ok, d = attempt(label + nm + nm2, g)
            if ok:
                expect_eq(label + nm + nm2, d, want)
    for nm, t in (('.T.T', lambda: op.T.T), ('.H.H', lambda: op.H.H)):
        ok, d = attempt(label + nm + '@vector', lambda: t() @ u)
        if ok:
            expect_eq(label + nm + '@vector', d, D @ u)


NO_H = ()      # no adjoint of a Jacobian operator in products
RECT = ()


def combos(nm, f, D, real):
    """the operator alone and under every combinator with itself and with a generic partner"""
    b4 = mk('b4', 4, 4, real)
    c2 = mk('c2', 4, 2, real)
    h = scalar('h')
    d2 = mk('d2', 2, 2, real)
    pi = [1, 3, 0, 2]
    P = bmat(pi)
    lp = lambda: LazyPerm(np.array(pi))
    out = [(nm, f, D)]
    out.append((nm + '+B', lambda: f() + Lazy(b4), D + b4))
    out.append((nm + '-Perm', lambda: f() - lp(), D - P))
    out.append(('h*' + nm, lambda: h * f(), h * D))
    out.append((nm + '@B', lambda: f() @ Lazy(b4), D @ b4))
    out.append((nm + '@rect', lambda: f() @ Lazy(c2), D @ c2))
    out.append(('Perm@' + nm + '@Perm', lambda: lp() @ f() @ lp(), P @ D @ P))
    out.append((nm + '**2', lambda: f() ** 2, D @ D))
    out.append(('Kron(d,' + nm + ')', lambda: LazyKron([Lazy(d2), f()]), kron(d2, D)))
    out.append(('Kron(' + nm + ',d)', lambda: LazyKron([f(), d2]), kron(D, d2)))
    out.append(('Kronsum(' + nm + ',d)', lambda: LazyKronsum([f(), d2]), ksum(D, d2)))
    out.append(('Kronsum(d,' + nm + ')', lambda: LazyKronsum([d2, f()]), ksum(d2, D)))
    out.append(('DirectSum(' + nm + ',d)', lambda: LazyDirectSum([f(), d2], [2, 1]), blocks([D, D, d2])))
    out.append(('DirectSum(d,' + nm + ')', lambda: LazyDirectSum([d2, f()], [1, 1]), blocks([d2, D])))
    out.append(('Concat(' + nm + ',B)', lambda: ConcatLazy([f(), b4]), jnp.concatenate([D, b4], 0)))
    return out


def tcombos(nm, f, D, real):
    return combos(nm, f, D, real)


def run1(nm, f, D, real):
    dense()
    for a_, b_, c_ in combos(nm, f, D, real):
        look(a_, b_, c_, real)


NOADJ = ('JVP',)       # transposed products of a Jacobian in composition need products only


def run2(nm, f, D, real):
    dense()
    for a_, b_, c_ in tcombos(nm, f, D, real):
        if nm in NOADJ and '(' in a_ or a_.startswith('Concat'):
            continue
        tlook(a_, b_, c_, real)


for real_ in (True, False):
    for nm_, f_, D_ in leaves4(real_):
        tag = nm_ + ('' if real_ else ' complex')
        scenario('P01', name='4: ' + tag)(lambda nm_=nm_, f_=f_, D_=D_, real_=real_: run1(nm_, f_, D_, real_))
        scenario('P02', name='4: ' + tag)(lambda nm_=nm_, f_=f_, D_=D_, real_=real_: run2(nm_, f_, D_, real_))
