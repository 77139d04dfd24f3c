"""Long operator expressions with literal sizes: many factors, many terms, high multiplicities, wide operands."""
from sp_linops2 import *


def fold(f, ms):
    out = ms[0]
    for x in ms[1:]:
        out = f(out, x)
    return out


def wide(label, f, D, real=True, widths=(1, 3, 5)):
    """products with operands of other widths"""
    ok, op = attempt(label, f)
    if not ok:
        return
    for w in widths:
        X = array('X%d' % w, D.shape[1], w, real=real)
        ok, d = attempt(label + '@matrix%d' % w, lambda: op @ X)
        if ok:
            expect_eq(label + '@matrix%d' % w, d, D @ X)
        Y = array('Y%d' % w, D.shape[0], w, real=real)
        ok, d = attempt(label + '.H@matrix%d' % w, lambda: op.H @ Y)
        if ok:
            expect_eq(label + '.H@matrix%d' % w, d, jnp.conj(D.T) @ Y)


def factors(shapes, real, lazy):
    ms = [mk('f%d' % i, r, c, real) for i, (r, c) in enumerate(shapes)]
    return ms, [Lazy(x) if i in lazy else x for i, x in enumerate(ms)]


def deep(real):
    L = []

    def add(name, f, D):
        L.append((name, f, D))

    for shapes in ([(2, 2), (3, 3), (2, 2)], [(2, 3), (1, 2), (3, 1)], [(3, 2), (2, 1), (2, 3)],
                   [(2, 2), (1, 1), (2, 2), (3, 3)], [(2, 1), (3, 2), (1, 2), (2, 3)],
                   [(2, 2), (2, 2), (1, 1), (2, 2), (1, 1)], [(1, 2), (2, 1), (1, 2), (3, 1), (2, 2), (1, 1)]):
        for lz in ((), (0, 2)):
            ms, ops = factors(shapes, real, lz)
            add('Kron%s%s' % (shapes, lz), lambda ops=ops: LazyKron(ops), fold(kron, ms))
    for ns in ([2, 3, 2], [3, 1, 2, 2], [2, 2, 1, 2, 1], [1, 2, 1, 2, 2, 1]):
        for lz in ((), (1,)):
            ms, ops = factors([(i, i) for i in ns], real, lz)
            add('Kronsum%s%s' % (ns, lz), lambda ops=ops: LazyKronsum(ops), fold(ksum, ms))
    for cnt in (3, 4, 5, 7):
        ms, ops = factors([(2, 3)] * cnt, real, (1,))
        add('Concat%d' % cnt, lambda ops=ops: ConcatLazy(ops), jnp.concatenate(ms, 0))
    for ns, mult in (([2, 1], [5, 3]), ([1, 2, 3], [4, 1, 2]), ([2, 1, 2, 1], [1, 2, 1, 3]), ([1, 2], [6, 4]),
                     ([1, 1, 2, 2, 1], [1, 1, 1, 1, 1]), ([2, 3], [0, 2])):
        ms, ops = factors([(i, i) for i in ns], real, (0,))
        add('DirectSum%s*%s' % (ns, mult), lambda ops=ops, mult=mult: LazyDirectSum(ops, mult),
            blocks([x for x, c in zip(ms, mult) for _ in range(c)]))
    npm = [array('p%d' % i, r, r, real=real, lib='np') for i, r in enumerate((2, 3, 1))]
    add('numpy Kron', lambda: LazyKron([npm[0], Lazy(npm[1])]), kron(npm[0], npm[1]))
    add('numpy Kronsum', lambda: LazyKronsum([npm[0], Lazy(npm[1])]), ksum(npm[0], npm[1]))
    add('numpy DirectSum', lambda: LazyDirectSum([npm[0], Lazy(npm[1]), npm[2]], [2, 1, 3]),
        blocks([npm[0], npm[0], npm[1], npm[2], npm[2], npm[2]]))
    add('numpy Concat', lambda: ConcatLazy([Lazy(npm[0]), npm[0]]), jnp.concatenate([npm[0], npm[0]], 0))
    for cnt in (3, 4, 5, 6):
        shapes = [(2 + i % 2, 2 + (i + 1) % 2) for i in range(cnt)]
        ms, ops = factors(shapes, real, range(cnt))
        add('Product%d' % cnt, lambda ops=ops: fold(lambda a, b: a @ b, ops), fold(lambda a, b: a @ b, ms))
    for cnt in (3, 4, 5, 6):
        ms, ops = factors([(3, 2)] * cnt, real, range(cnt))
        add('Sum%d' % cnt, lambda ops=ops: fold(lambda a, b: a + b, ops), fold(lambda a, b: a + b, ms))
        add('Difference%d' % cnt, lambda ops=ops: fold(lambda a, b: a - b, ops), fold(lambda a, b: a - b, ms))
    s3 = mk('s3', 3, 3, real)
    for e in (0, 1, 2, 3, 4, 5):
        add('Power%d' % e, lambda e=e: Lazy(s3) ** e, fold(lambda a, b: a @ b, [identity(3)] + [s3] * e))
    h, g = scalar('h'), scalar('g')
    add('scaled twice', lambda: h * (g * Lazy(s3)), h * (g * s3))
    add('scaled both sides', lambda: (h * Lazy(s3)) * g, h * g * s3)
    add('minus minus', lambda: -(-Lazy(s3)), s3)
    add('minus sum', lambda: -(Lazy(s3) + h * Lazy(s3)), -(s3 + h * s3))
    for P in ([1, 2, 0], [2, 0, 1], [1, 2, 3, 4, 0], [4, 2, 0, 1, 3], [1, 0, 3, 4, 2], [5, 3, 1, 0, 2, 4], [3, 4, 5, 6, 0, 1, 2]):
        add('Perm%s' % P, lambda P=P: LazyPerm(np.array(P)), bmat(P))
        add('Perm%s**3' % P, lambda P=P: LazyPerm(np.array(P)) ** 3, fold(lambda a, b: a @ b, [bmat(P)] * 3))
    for n_ in (2, 3, 5, 6):
        for k_ in (0, 1, 2, -1, n_ - 1, n_ + 1):
            add('Shift(%d,%d)' % (n_, k_), lambda n_=n_, k_=k_: LazyShift(n_, k_), jnp.roll(identity(n_), k_, 0))
    for n_ in (2, 3):
        for k_ in (0, 1, 2, 3, 4, 5, -1):
            add('Rot(%d,%d)' % (n_, k_), lambda n_=n_, k_=k_: Rot90(n_, k_), rotmat(n_, k_ % 4))
    for rows, P in (([0, 2, 4], [4, 1, 2, 3, 0]), ([1, 3, 0, 2], [3, 2, 1, 0, 4]), ([4, 0], [4, 1, 2, 3, 0]), ([2], [0, 1, 2, 3, 4])):
        add('Swap%s' % rows, lambda rows=rows: SwapMatrix(np.array(rows), 5), bmat(P))
    t2, u2 = mk('t2', 2, 2, real), mk('u2', 2, 2, real)
    add('Kron(Sum,Product,Perm)', lambda: LazyKron([Lazy(t2) + Lazy(u2), Lazy(t2) @ Lazy(u2), LazyPerm(np.array([1, 0]))]),
        fold(kron, [t2 + u2, t2 @ u2, bmat([1, 0])]))
    add('Perm@Kron3@Perm', lambda: LazyPerm(np.array([3, 5, 7, 0, 2, 4, 6, 1])) @ LazyKron([t2, u2, t2]) @ LazyPerm(np.array([2, 1, 0, 7, 5, 6, 4, 3])),
        bmat([3, 5, 7, 0, 2, 4, 6, 1]) @ fold(kron, [t2, u2, t2]) @ bmat([2, 1, 0, 7, 5, 6, 4, 3]))
    add('Perm@Kronsum3@Perm', lambda: LazyPerm(np.array([3, 5, 7, 0, 2, 4, 6, 1])) @ LazyKronsum([t2, u2, t2]) @ LazyPerm(np.array([2, 1, 0, 7, 5, 6, 4, 3])),
        bmat([3, 5, 7, 0, 2, 4, 6, 1]) @ fold(ksum, [t2, u2, t2]) @ bmat([2, 1, 0, 7, 5, 6, 4, 3]))
    add('Concat of differences', lambda: ConcatLazy([LazyKron([t2, u2]) - I(4), LazyKronsum([t2, u2]), LazyPerm(np.array([1, 2, 3, 0])) - I(4)]),
        jnp.concatenate([kron(t2, u2) - identity(4), ksum(t2, u2), bmat([1, 2, 3, 0]) - identity(4)], 0))
    add('DirectSum of Krons', lambda: LazyDirectSum([LazyKron([t2, u2]), LazyKronsum([t2, t2]), LazyKron([Lazy(u2)])], [2, 1, 3]),
        blocks([kron(t2, u2), kron(t2, u2), ksum(t2, t2), u2, u2, u2]))
    add('JVP of a cube', lambda: LazyJVP(lambda X: LazyKron([X, X, X]), t2, u2),
        kron(u2, kron(t2, t2)) + kron(t2, kron(u2, t2)) + kron(t2, kron(t2, u2)))
    add('JVP of a permuted sum', lambda: LazyJVP(lambda X: LazyPerm(np.array([1, 3, 5, 0, 2, 4])) @ LazyDirectSum([X, LazyKron([X, X])], [1, 1]), t2, u2),
        bmat([1, 3, 5, 0, 2, 4]) @ blocks([u2, kron(t2, u2) + kron(u2, t2)]))
    return L


def go1(nm, f, D, real):
    dense()
    look(nm, f, D, real)


def go2(nm, f, D, real):
    dense()
    tlook(nm, f, D, real)
    wide(nm, f, D, real)


for real_ in (True, False):
    for nm_, f_, D_ in deep(real_):
        tag = nm_ + ('' if real_ else ' complex')
        scenario('P01', name='deep: ' + tag)(lambda nm_=nm_, f_=f_, D_=D_, real_=real_: go1(nm_, f_, D_, real_))
        scenario('P02', name='deep: ' + tag)(lambda nm_=nm_, f_=f_, D_=D_, real_=real_: go2(nm_, f_, D_, real_))
