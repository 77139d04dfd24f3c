from nnlib import *
from emlp.reps.representation import bilinear_weights
from emlp.reps.product_sum_reps import SumRep


# ------------------------------------------------------------------ P11
def linear(be, w, ein, eout):
    rin, rout = ein.reps(), eout.reps()
    nin, nout = rin.size(), rout.size()
    fwparams.reset()
    ok, m = attempt('build', lambda: be.mod.Linear(rin, rout))
    if not ok:
        return
    x = array('x', dim('batch'), nin)
    ok, f = attempt('prepare', lambda: be.prepare(m, x))
    if not ok:
        return
    ok, y = attempt('apply to a batch', lambda: f(x))
    W, b = find((nout, nin)), find((nout,))
    if not ok:
        return
    if W is None or b is None:
        undecided('the layer has a weight of shape (nout,nin) and a bias of shape (nout,)')
        return
    Pw = (rin >> rout).equivariant_projector()
    Pb = rout.equivariant_projector()
    We = (Pw @ W.reshape(-1)).reshape(nout, nin)
    be_ = Pb @ b
    ref = jnp.einsum('ki,ji->kj', x, We) + be_
    expect_eq('output is x (P w)^T + P b', y, ref)
    x1 = array('x1', nin)
    ok, y1 = attempt('apply to a vector', lambda: f(x1))
    if ok:
        expect_eq('output on a single vector', y1, jnp.einsum('i,ji->j', x1, We) + be_)
    ok, y2 = attempt('apply again', lambda: f(x))
    if ok:
        expect_eq('the layer is deterministic', y2, y)


LIN = [
    ('V->V', lambda w: (w.v1, w.v1)), ('a->b', lambda w: (w.a, w.b)), ('V*->V', lambda w: (w.v1d, w.v1)),
    ('V->V*', lambda w: (w.v1, w.v1d)), ('V3->V3*V3', lambda w: (w.v3, Prod(w.v3, w.v3))),
    ('scalar->a', lambda w: (w.s0, w.a)), ('V1->V2', lambda w: (w.v1, w.v2)), ('a*b->V', lambda w: (Prod(w.a, w.b), w.v1)),
]
LIND = [
    ('a+b->b+a', lambda w: (Sum(w.a, w.b), Sum(w.b, w.a))), ('V+a->a+V', lambda w: (Sum(w.v1, w.a), Sum(w.a, w.v1))),
    ('V+1->2V+1', lambda w: (Sum(w.v1, w.s0), Sum(Times(2, w.v1), w.s0))), ('b+a+b->a', lambda w: (Sum(w.b, w.a, w.b), w.a)),
    ('a->b+a+b', lambda w: (w.a, Sum(w.b, w.a, w.b))), ('V*+V->V', lambda w: (Sum(w.v1d, w.v1), w.v1)),
    ('V3+1->V3', lambda w: (Sum(w.v3, w.s0), w.v3)), ('Vp+1->Vp', lambda w: (Sum(w.vp, w.s0), w.vp)),
    ('V1*V2->V1', lambda w: (Prod(w.v1, w.v2), w.v1)), ('V2+V1->V1+V2', lambda w: (Sum(w.v2, w.v1), Sum(w.v1, w.v2))),
]
for be in BACKENDS:
    for nm, f in LIN:
        scenario('P11', name=be.name + ' Linear ' + nm)(lambda be=be, f=f: linear(be, SYM, *f(SYM)))
    for wn, w in (('231', I231), ('222', I222)):
        for nm, f in LIND:
            scenario('P11', name=be.name + ' Linear ' + nm + ' sizes ' + wn,
                     tier='quick' if wn == '222' or be.name == 'objax' else 'thorough')(
                lambda be=be, f=f, w=w: (concrete(), linear(be, w, *f(w))))


# ------------------------------------------------------------------ P12
def flat(a):
    return a.reshape(-1)


def n_matched(rin, rout):
    """number of weights: one per copy of a part of rep_in>>rep_out and (up to its size) copy of that part in rep_in"""
    W = dict_of((rin >> rout).canonicalize()[0])
    X = dict_of(rin)
    n = 0
    for r in X:
        if r == Scalar:
            continue
        k = X[r] if X[r] < r.size() else r.size()
        for s in W:
            if s == r:
                n = n + W[s] * k
    return n


def dict_of(rep):
    return rep.reps if isinstance(rep, SumRep) else {rep: 1}


def inv_t(e, Ms):
    """rho(g)^-T, factor by factor"""
    if isinstance(e, Sum):
        return blocks([inv_t(x, Ms) for x in e.xs])
    if isinstance(e, Times):
        return blocks([inv_t(e.x, Ms)] * e.n)
    if isinstance(e, Prod):
        r = inv_t(e.xs[0], Ms)
        for x in e.xs[1:]:
            r = kron(r, inv_t(x, Ms))
        return r
    if isinstance(e, DualOf):
        return e.x.rho(Ms)
    m = e.rho(Ms)
    if e.rep is Scalar or (e.rep.G.is_orthogonal and not isinstance(e.rep, Custom)):
        return m
    return jnp.linalg.inv(m).T


def bilinear(w, ein, eout, pat, layers=True):
    pin_random(pat)
    rin, rout = ein.reps(), eout.reps()
    nin, nout = rin.size(), rout.size()
    ok, r = attempt('build', lambda: bilinear_weights(rout, rin))
    if not ok:
        return
    n, f = r
    ref_n = n_matched(rin, rout)
    expect_eq('number of parameters', n, ref_n)
    p = array('p', n)
    x = array('x', nin)
    ok, W = attempt('weights of a vector', lambda: f(p, x))
    if not ok:
        return
    expect('weight shape', list(W.shape) == [nout, nin])
    expect('every parameter acts', len(entries_used(W, p)) == n, 'used: ' + str(entries_used(W, p)))
    Rin, Rout = ein.rho(w.Ms), eout.rho(w.Ms)
    gx = jnp.einsum('ij,j->i', Rin, x)
    Wg = f(p, gx)
    # W(g x) rho_in(g) == rho_out(g) W(x), free of inverses
    RW = kron(Rout, inv_t(ein, w.Ms))
    expect_eq('W(g x) = rho_out(g) W(x) rho_in(g)^-1', flat(Wg), jnp.einsum('ij,j->i', RW, flat(W)))
    # linear in the parameters and in x
    p2, x2 = array('p2', n), array('x2', nin)
    expect_eq('linear in the parameters', f(p + 3 * p2, x), W + 3 * f(p2, x))
    expect_eq('linear in the input', f(p, x + 3 * x2), W + 3 * f(p, x2))
    xb = array('xb', 2, nin)
    ok, Wb = attempt('weights of a batch', lambda: f(p, xb))
    if ok:
        expect_eq('batch shape', list(Wb.shape), [2, nout, nin])
        expect_eq('batch entry 0', Wb[0], f(p, xb[0]))
        expect_eq('batch entry 1', Wb[1], f(p, xb[1]))
    xbb = array('xbb', 2, 3, nin)
    ok, Wb = attempt('weights of a batch of batches', lambda: f(p, xbb))
    if ok:
        expect_eq('batch of batches shape', list(Wb.shape), [2, 3, nout, nin])
        if list(Wb.shape) == [2, 3, nout, nin]:
            for i, j in ((0, 0), (0, 2), (1, 0), (1, 2)):
                expect_eq('batch of batches entry %d,%d' % (i, j), Wb[i, j], f(p, xbb[i, j]))
    if layers:
        for be in BACKENDS:
            bilinear_layer(be, rin, rout, pat, n, f, x, xb)


def bilinear_layer(be, rin, rout, pat, n, f, x, xb):
    fwparams.reset()
    ok, m = attempt(be.name + ' build', lambda: be.mod.BiLinear(rin, rout))
    if not ok:
        return
    ok, g = attempt(be.name + ' prepare', lambda: be.prepare(m, x))
    if not ok:
        return
    ok, y = attempt(be.name + ' apply', lambda: g(x))
    q = find((n,))
    if q is None:
        undecided(be.name + ' has one parameter vector of the announced size')
        return
    if ok:
        expect_eq(be.name + ' output is 0.1 W(x) x', y, .1 * jnp.einsum('ij,j->i', f(q, x), x))
    ok, yb = attempt(be.name + ' apply to a batch', lambda: g(xb))
    if ok:
        expect_eq(be.name + ' batch shape', list(yb.shape), [2, rout.size()])
        expect_eq(be.name + ' batch output', yb[1], .1 * jnp.einsum('ij,j->i', f(q, xb[1]), xb[1]))
    xbb = array('xbb', 2, 3, rin.size())
    ok, yb = attempt(be.name + ' apply to a batch of batches', lambda: g(xbb))
    if ok:
        expect_eq(be.name + ' batch of batches shape', list(yb.shape), [2, 3, rout.size()])
        if list(yb.shape) == [2, 3, rout.size()]:
            expect_eq(be.name + ' batch of batches output', yb[0, 2],
                      .1 * jnp.einsum('ij,j->i', f(q, xbb[0, 2]), xbb[0, 2]))


BIL = [
    ('b+1+a -> b', lambda w: (Sum(w.b, w.s0, w.a), w.b)),
    ('a+ba* -> b', lambda w: (Sum(w.a, Prod(w.b, DualOf(w.a))), w.b)),
    ('ba*+a -> b', lambda w: (Sum(Prod(w.b, DualOf(w.a)), w.a), w.b)),
    ('V3+V3V3 -> V3', lambda w: (Sum(w.v3, Prod(w.v3, w.v3)), w.v3)),
    ('2V+1 -> V+1', lambda w: (Sum(Times(2, w.v1), w.s0), Sum(w.v1, w.s0))),
    ('1+3V+1 -> 1+V', lambda w: (Sum(w.s0, Times(3, w.v1), w.s0), Sum(w.s0, w.v1))),
    ('V+V* -> 1+V*', lambda w: (Sum(w.v1, w.v1d), Sum(w.s0, w.v1d))),
    ('a+V1+1 -> V1+a', lambda w: (Sum(w.a, w.v1, w.s0), Sum(w.v1, w.a))),
    ('V2+V1+1 -> V1', lambda w: (Sum(w.v2, w.v1, w.s0), w.v1)),
    ('Vp+1 -> 2Vp', lambda w: (Sum(w.vp, w.s0), Times(2, w.vp))),
    ('V -> V', lambda w: (w.v1, w.v1)), ('1+V3 -> V3', lambda w: (Sum(w.s0, w.v3), w.v3)),
    ('V3 -> 1+V3', lambda w: (w.v3, Sum(w.s0, w.v3))),
    ('V1 -> 5', lambda w: (w.v1, Times(5, w.s0))), ('V1+1 -> 4+2V1', lambda w: (Sum(w.v1, w.s0), Sum(Times(4, w.s0), Times(2, w.v1)))),
    ('V3 -> 5', lambda w: (w.v3, Times(5, w.s0))),
    ('V3+vp -> 4+1', lambda w: (Sum(w.v3, w.vp, w.v3), Times(5, w.s0))), ('V+V* -> 4', lambda w: (Sum(w.v1, w.v1d), Times(4, w.s0))),
]
for nm, f in BIL:
    for pat in ('first', 'rev', 'last'):
        for wn, w in (('222', I222), ('231', I231)):
            scenario('P12', name='%s sizes %s draw %s' % (nm, wn, pat), tier='quick' if wn == '222' or pat == 'rev' else 'thorough')(
                lambda f=f, w=w, pat=pat: (concrete(), bilinear(w, *f(w), pat, layers=pat == 'rev')))


# ------------------------------------------------------------------ P13
def parts(e, off):
    """[(start, size, self gated)] of the summands of an expression, in user order"""
    if isinstance(e, Sum):
        r = []
        for x in e.xs:
            r = r + parts(x, off)
            off = off + x.reps().size()
        return r
    if isinstance(e, Times):
        r = []
        for k in range(e.n):
            r = r + parts(e.x, off)
            off = off + e.x.reps().size()
        return r
    rep = e.reps()
    return [(off, rep.size(), selfgate(e))]


def selfgate(e):
    if isinstance(e, DualOf):
        return selfgate(e.x)
    if isinstance(e, Leaf):
        return e.rep is Scalar or (e.rep.G.is_permutation and not isinstance(e.rep, Custom))
    return all([selfgate(x) for x in e.xs])


def cyc(n):
    """a literal permutation matrix without fixed points"""
    return jnp.eye(n)[np.array([(i + 1) % n for i in range(n)])]


def gated_nl(w, e):
    r = e.reps()
    n = r.size()
    ok, gr = attempt('gated', lambda: no.gated(r))
    if not ok:
        return
    ps = parts(e, 0)
    k = len([1 for p in ps if not p[2]])
    ok, sz = attempt('size of the gated representation', lambda: gr.size())
    if not ok:
        return
    expect_eq('one gate per part which is neither scalar nor permutation', sz, n + k)
    Ms = dict(w.Ms)
    Ms[w.gp] = cyc(w.gp.d)
    R = e.rho(Ms)
    Rg = blocks([R, jnp.eye(k)]) if k else R
    ok, act = attempt('action on the gated representation', lambda: gr.rho_dense(Ms))
    if ok:
        expect_eq('the gates come last and are invariant', act, Rg)
    x = array('x', n + k)
    xb = array('xb', 2, n + k)
    for be in BACKENDS:
        ok, m = attempt(be.name + ' build', lambda: be.mod.GatedNonlinearity(r))
        if not ok:
            continue
        f = be.gate(m)
        ok, y = attempt(be.name + ' apply', lambda: f(x))
        if not ok:
            continue
        if list(y.shape) != [n]:
            expect(be.name + ' output has the size of the representation', False, 'shape ' + str(list(y.shape)))
            continue
        gates = []
        for p in ps:
            mine = []
            for i in range(p[0], p[0] + p[1]):
                used = [z[0] for z in entries_used(y[i], x)]
                g = [z for z in used if z != i]
                g = g[0] if len(g) else i
                expect_eq('%s entry %d is its value times the sigmoid of one entry' % (be.name, i), y[i],
                          jax.nn.sigmoid(x[g]) * x[i])
                if p[2]:
                    expect('%s entry %d of a scalar or permutation part gates itself' % (be.name, i), g == i,
                           'gated by entry ' + str(g))
                else:
                    mine.append(g)
            if not p[2]:
                expect('%s part at %d has one gate' % (be.name, p[0]), all([g == mine[0] for g in mine]), str(mine))
                expect('%s part at %d is gated by an added scalar' % (be.name, p[0]), mine[0] >= n, str(mine[0]))
                expect('%s part at %d has its own gate' % (be.name, p[0]), mine[0] not in gates, str(mine[0]))
                gates.append(mine[0])
        expect_eq(be.name + ' commutes with the group action', f(jnp.einsum('ij,j->i', Rg, x)), jnp.einsum('ij,j->i', R, y))
        ok, yb = attempt(be.name + ' apply to a batch', lambda: f(xb))
        if ok:
            expect_eq(be.name + ' batch shape', list(yb.shape), [2, n])
            expect_eq(be.name + ' batch row 0', yb[0], f(xb[0]))
            expect_eq(be.name + ' batch row 1', yb[1], f(xb[1]))


GAT = [
    ('V', lambda w: w.v1), ('Vp', lambda w: w.vp), ('1', lambda w: w.s0), ('a', lambda w: w.a),
    ('a+b', lambda w: Sum(w.a, w.b)), ('b+a+1', lambda w: Sum(w.b, w.a, w.s0)), ('1+a', lambda w: Sum(w.s0, w.a)),
    ('a+1+b+1', lambda w: Sum(w.a, w.s0, w.b, w.s0)), ('a+b+a', lambda w: Sum(w.a, w.b, w.a)),
    ('2V+1', lambda w: Sum(Times(2, w.v1), w.s0)), ('1+V+V*+V', lambda w: Sum(w.s0, w.v1, w.v1d, w.v1)),
    ('Vp+V', lambda w: Sum(w.vp, w.v1)), ('V+2Vp+1', lambda w: Sum(w.v1, Times(2, w.vp), w.s0)),
    ('V2+V1', lambda w: Sum(w.v2, w.v1)), ('V1V2+V1', lambda w: Sum(Prod(w.v1, w.v2), w.v1)),
    ('V1V2', lambda w: Prod(w.v1, w.v2)), ('VV', lambda w: Prod(w.v1, w.v1)), ('V3V3+V3+1', lambda w: Sum(Prod(w.v3, w.v3), w.v3, w.s0)),
    ('VpVp+V3', lambda w: Sum(Prod(w.vp, w.vp), w.v3)),
    ('VpV3', lambda w: Prod(w.vp, w.v3)), ('VpV3+1', lambda w: Sum(Prod(w.vp, w.v3), w.s0)),
    ('1+1', lambda w: Sum(w.s0, w.s0)), ('a2+1+a', lambda w: Sum(w.a2, w.s0, w.a)),
    ('c+b+c', lambda w: Sum(w.c, w.b, w.c)), ('b+c+a+c', lambda w: Sum(w.b, w.c, w.a, w.c)),
]
for nm, f in GAT:
    for wn, w in (('222', I222), ('231', I231), ('312', I312)):
        scenario('P13', name='%s sizes %s' % (nm, wn), tier='thorough' if wn == '222' else 'quick')(
            lambda f=f, w=w: (concrete(), gated_nl(w, f(w))))
