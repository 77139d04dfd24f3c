"""Long and deeply nested representation expressions: a fixed pseudo-random family plus hand-picked extremes."""
from sp_reps import *
from sp_solver import dual_of as dual_checks, map_of, basis_of, leafproj, kprod, constraints_of, solved
import sp_solver as SS


class Gen(object):
    """linear congruential choices: the family is the same in every run"""
    def __init__(self, seed):
        self.x = seed * 2654435761 % 2147483648

    def pick(self, n):
        self.x = (self.x * 1103515245 + 12345) % 2147483648
        return (self.x // 65536) % n


def leaf(w, g, groups):
    L = [(w.v1, w.g1.d), (w.v1d, w.g1.d), (w.a, w.a.rep.n), (w.b, w.b.rep.n), (w.a2, w.a2.rep.n), (w.c, w.c.rep.n), (w.s0, 1)]
    if groups > 1:
        L = L + [(w.v2, w.g2.d), (w.xa, w.xa.rep.n), (w.v2d, w.g2.d)]
    if groups > 2:
        L = L + [(w.v3, w.g3.d), (w.vp, w.gp.d)]
    return L[g.pick(len(L))]


NAMES = {}


def show_(e, w):
    for nm in ('v1', 'v1d', 'v2', 'v2d', 'v3', 'vp', 's0', 'a', 'b', 'c', 'a2', 'xa', 'xb'):
        if getattr(w, nm) is e:
            return nm
    if isinstance(e, Times):
        return '%d(%s)' % (e.n, show_(e.x, w))
    if isinstance(e, Pow):
        return '(%s)^%d' % (show_(e.x, w), e.n)
    s = '(' + ('+' if isinstance(e, Sum) else '*').join([show_(x, w) for x in e.xs]) + ')'
    return ('R' if isinstance(e, (RSum, RProd)) else '') + s


def grow(w, g, depth, limit, groups, kinds='+*'):
    """an expression of size at most limit"""
    if depth == 0 or limit < 2:
        for t in range(20):
            l, n = leaf(w, g, groups)
            if n <= limit:
                return l, n
        return w.s0, 1
    k = g.pick(10)
    if k < 4 or (k < 8 and '*' not in kinds):
        parts, left = [], limit
        for i in range(2 + g.pick(3)):
            if left > 0:
                x, n = grow(w, g, depth - 1, min(left, max(1, limit // 2)), groups, kinds)
                parts.append(x)
                left = left - n
        if len(parts) == 1:
            return parts[0], limit - left
        return (RSum if g.pick(4) == 0 else Sum)(*parts), limit - left
    if k < 8:
        parts, size = [], 1
        for i in range(2 + g.pick(2)):
            room = limit // size
            if room > 1:
                x, n = grow(w, g, depth - 1, min(room, 6), groups, kinds)
                parts.append(x)
                size = size * n
        if len(parts) == 1:
            return parts[0], size
        return (RProd if g.pick(4) == 0 else Prod)(*parts), size
    if k == 8:
        m = 2 + g.pick(4)
        x, n = grow(w, g, depth - 1, max(1, limit // m), groups, kinds)
        return Times(m, x), m * n
    x, n = grow(w, g, depth - 1, 4, groups, kinds)
    m = 0
    size = 1
    while m < 3 and size * n <= limit:
        m = m + 1
        size = size * n
    if m < 1:
        return x, n
    return (Pow(x, m) if '*' in kinds else x), (size if '*' in kinds else n)


def family(w, seed, count, depth, limit, groups, kinds='+*'):
    g = Gen(seed)
    out, seen = [], set()
    while len(out) < count:
        e, n = grow(w, g, depth, limit, groups, kinds)
        s = show_(e, w)
        if s not in seen and len(s) > 8:
            seen.add(s)
            out.append((s, e))
    return out


EXTREME = [
    ('a+b+c+V+V*', lambda w: Sum(w.a, w.b, w.c, w.v1, w.v1d)), ('V*+c+V+b+a+a2', lambda w: Sum(w.v1d, w.c, w.v1, w.b, w.a, w.a2)),
    ('5V+4c+3a', lambda w: Sum(Times(5, w.v1), Times(4, w.c), Times(3, w.a))), ('a+a+a+a+b+a', lambda w: Sum(w.a, w.a, w.a, w.a, w.b, w.a)),
    ('V**4', lambda w: Pow(w.v1, 4)), ('V*V**V*V*', lambda w: Prod(w.v1, w.v1d, w.v1, w.v1d)), ('V**V**V*V', lambda w: Prod(w.v1d, w.v1d, w.v1, w.v1)),
    ('a*V*b*V*', lambda w: Prod(w.a, w.v1, w.b, w.v1d)), ('V1*V2*V3*vp', lambda w: Prod(w.v1, w.v2, w.v3, w.vp)),
    ('vp*V3*V2*V1', lambda w: Prod(w.vp, w.v3, w.v2, w.v1)), ('V3*V1*vp*V1', lambda w: Prod(w.v3, w.v1, w.vp, w.v1)),
    ('V1+V2+V3+vp', lambda w: Sum(w.v1, w.v2, w.v3, w.vp)), ('vp+V2+V1+V3+V2', lambda w: Sum(w.vp, w.v2, w.v1, w.v3, w.v2)),
    ('(V1+V2)*(V3+vp)', lambda w: Prod(Sum(w.v1, w.v2), Sum(w.v3, w.vp))), ('((a+b)*c+a)*(V+1)', lambda w: Prod(Sum(Prod(Sum(w.a, w.b), w.c), w.a), Sum(w.v1, w.s0))),
    ('(2a+3c)*(V*+2)', lambda w: Prod(Sum(Times(2, w.a), Times(3, w.c)), Sum(w.v1d, Times(2, w.s0)))),
    ('(c+V+a)*(a+V*+c)', lambda w: Prod(Sum(w.c, w.v1, w.a), Sum(w.a, w.v1d, w.c))),
    ('(V2*V1)*(V1**V2)', lambda w: Prod(Prod(w.v2, w.v1), Prod(w.v1d, w.v2))), ('(a+1)*(b+1)*(c+1)', lambda w: Prod(Sum(w.a, w.s0), Sum(w.b, w.s0), Sum(w.c, w.s0))),
    ('(V+V*)**2', lambda w: Pow(Sum(w.v1, w.v1d), 2)), ('(1+V)**3', lambda w: Pow(Sum(w.s0, w.v1), 3)),
]


HEAVY = ('V1*V2*V3*vp', 'vp*V3*V2*V1', '(V2*V1)*(V1**V2)', 'V3*V1*vp*V1', 'a*V*b*V*', '(V1+V2)*(V3+vp)', 'V*V**V*V*', 'V**V**V*V')
# parts of one group, of another and of both, with sizes that put the mixed one between the others: every order of
# the parts, every order the hashes of the groups can have
MIXED = [('V1^3 V2 V1*V2', lambda w: [Pow(w.v1, 3), w.v2, Prod(w.v1, w.v2)]), ('V2^2 V1 V1*V2', lambda w: [Pow(w.v2, 2), w.v1, Prod(w.v1, w.v2)]),
         ('b*b xb c*a*xa', lambda w: [Prod(w.b, w.b), w.xb, Prod(w.c, w.a, w.xa)])]
ORDERS = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]


def mixed(pid, name, f):
    for nm, es in MIXED:
        for o in ORDERS:
            scenario(pid, name='%s of sums of parts %s in the order %s' % (name, nm, o))(
                lambda es=es, o=o: (dense(), f(BIG, Sum(*[es(BIG)[i] for i in o]))))


BIG = I231


def deeper(pid, name, f, seed, count, limit, groups=2, depth=3, kinds='+*', extreme=True):
    for wn, w in (('231', I231), ('222', I222)):
        fam = family(w, seed + len(wn) + w.g2.d, count, depth, limit, groups, kinds)
        if extreme:
            fam = [(nm, e(w)) for nm, e in EXTREME] + fam
        for nm, e in fam:
            heavy = wn == '231' and nm in HEAVY
            scenario(pid, tier='thorough' if heavy else 'quick', name='%s %s sizes %s' % (name, nm, wn), traces=(2, 40))(lambda w=w, e=e: (dense(), f(w, e)))


deeper('P04', 'deep rho', rho_of, 11, 24, 24, 2)
deeper('P04', 'deep rho of 4 groups', rho_of, 12, 10, 24, 3, extreme=False)
deeper('P05', 'deep drho', drho_of, 21, 24, 24, 2)
deeper('P05', 'deep drho of 4 groups', drho_of, 22, 10, 24, 3, extreme=False)
deeper('P07', 'deep canonical', canon_of, 31, 24, 24, 2)
deeper('P07', 'deep canonical of 4 groups', canon_of, 32, 10, 24, 3, extreme=False)

mixed('P04', 'rho', rho_of)
mixed('P05', 'drho', drho_of)
mixed('P07', 'canonical form', canon_of)


PARTS = [('scalar', lambda w: w.s0), ('V1', lambda w: w.v1), ('V1*', lambda w: w.v1d), ('V2', lambda w: w.v2), ('V2*', lambda w: w.v2d), ('V3', lambda w: w.v3), ('vp', lambda w: w.vp),
         ('a', lambda w: w.a), ('b', lambda w: w.b), ('V1^2', lambda w: Pow(w.v1, 2)), ('V1^3', lambda w: Pow(w.v1, 3)), ('V2^2', lambda w: Pow(w.v2, 2)), ('V1*V1*', lambda w: Prod(w.v1, w.v1d)),
         ('V1*V2', lambda w: Prod(w.v1, w.v2)), ('V1*V2*', lambda w: Prod(w.v1, w.v2d)), ('V3*V2', lambda w: Prod(w.v3, w.v2)), ('xa', lambda w: w.xa), ('V3^2', lambda w: Pow(w.v3, 2)), ('V3^2*V1', lambda w: Prod(Pow(w.v3, 2), w.v1))]


def total_order(w, some):
    """canonical forms are found by sorting: that needs a strict total order"""
    dense()
    rs = [(nm, e(w).reps().canonicalize()[0]) for nm, e in PARTS if nm in some]
    less = {(x, y): True if r < s else False for x, r in rs for y, s in rs}
    for x, _ in rs:
        expect('%s is not before itself' % x, not less[x, x])
        for y, _ in rs:
            if x < y:
                expect('one of %s and %s comes first' % (x, y), less[x, y] != less[y, x])
            for z, _ in rs:
                if less[x, y] and less[y, z]:
                    expect('%s, %s and %s are ordered without a cycle' % (x, y, z), less[x, z])


ALL = [nm for nm, _ in PARTS]
for wn_, w_ in (('231', I231), ('222', I222), ('312', I312)):
    scenario('P07', name='the order of the parts is total, sizes %s' % wn_, traces=(3, 60), tier='quick' if wn_ == '231' else 'thorough')(lambda w=w_: total_order(w, ALL))
    for some_ in (('V1', 'V2', 'V1^3', 'V2^2', 'V1*V2'), ('scalar', 'V1', 'V1*', 'V1^2', 'V1*V1*', 'V1*V2'), ('V2', 'V3', 'vp', 'V3*V2', 'V3^2', 'V3^2*V1')):
        scenario('P07', name='the order of %s is total, sizes %s' % (' '.join(some_), wn_))(lambda w=w_, some=some_: total_order(w, some))


# ---------------------------------------------------------------- duals and maps
def pairs(w, seed, count, limit, groups):
    g = Gen(seed)
    out = []
    while len(out) < count:
        ei, n = grow(w, g, 2, limit, groups)
        eo, m = grow(w, g, 2, max(1, limit // 2), groups)
        if n * m <= 30 and n * m > 1:
            out.append((show_(ei, w) + '>>' + show_(eo, w), ei, eo))
    return out


for wn_, w_ in (('231', I231), ('222', I222)):
    for nm_, e_ in family(w_, 61 + len(wn_) + w_.g2.d, 14, 2, 12, 2) + [(nm, e(w_)) for nm, e in EXTREME if nm not in HEAVY and 'V3' not in nm and 'vp' not in nm]:
        if '^0' not in nm_:
            scenario('P06', name='deep dual of %s sizes %s' % (nm_, wn_), traces=(2, 40))(lambda w=w_, e=e_: (dense(), dual_checks(w, e)))
    for nm_, ei_, eo_ in pairs(w_, 62 + w_.g2.d, 24, 6, 2):
        scenario('P06', name='deep maps %s sizes %s' % (nm_, wn_), traces=(2, 40))(lambda w=w_, ei=ei_, eo=eo_: (dense(), map_of(w, ei, eo)))


# ---------------------------------------------------------------- bases and projectors
def basis_deep(w, e):
    basis_of(w, e, leafproj(w, e))


for wn_, w_ in (('231', I231), ('222', I222)):
    for nm_, e_ in family(w_, 71 + w_.g2.d, 16, 2, 16, 2, '+') + [(nm, e(w_)) for nm, e in EXTREME if '*' not in nm.replace('V*', '')]:
        scenario('P10', name='deep basis of %s sizes %s' % (nm_, wn_), traces=(2, 40))(lambda w=w_, e=e_: (dense(), basis_deep(w, e)))
    for nm_, es_ in (('V1*V2*V3*vp', (w_.v1, w_.v2, w_.v3, w_.vp)), ('vp*xa*V3*a', (w_.vp, w_.xa, w_.v3, w_.a)), ('V3*b*vp*xb', (w_.v3, w_.b, w_.vp, w_.xb)),
                     ('xb*V3*V1', (w_.xb, w_.v3, w_.v1)), ('V2*vp*a', (w_.v2, w_.vp, w_.a))):
        heavy_ = wn_ == '231' and len(es_) == 4
        scenario('P10', name='deep basis of direct product %s sizes %s' % (nm_, wn_), traces=(3, 40), tier='thorough' if heavy_ else 'quick')(
            lambda w=w_, es=es_: (dense(), SS.basis_direct(w, es)))


# ---------------------------------------------------------------- constraints of groups with many generators
class Many(Group):
    """five generators of the algebra and four discrete ones"""
    is_orthogonal = False
    is_permutation = False
    d = 2
    lie_algebra = [array('Many.A%d' % i, 2, 2) for i in range(5)]
    discrete_generators = [array('Many.h%d' % i, 2, 2) for i in range(4)]


class Continuous(Group):
    is_orthogonal = False
    is_permutation = False
    d = 3
    lie_algebra = [array('Cont.A%d' % i, 3, 3) for i in range(4)]


class Discrete(Group):
    is_orthogonal = False
    is_permutation = False
    d = 3
    discrete_generators = [array('Disc.h%d' % i, 3, 3) for i in range(4)]


for nm_, g_ in (('nine generators', Many()), ('four algebra generators', Continuous()), ('four discrete generators', Discrete())):
    lv_ = Leaf(V(g_))
    for nm2_, e_ in (('V', lv_), ('V*', DualOf(lv_)), ('V**2', Pow(lv_, 2)), ('V*V*', Prod(lv_, DualOf(lv_)))):
        scenario('P09', name='constraints of %s over a group with %s' % (nm2_, nm_), traces=(4, 40))(lambda e=e_: (dense(), constraints_of(I231, e, None)))
        if '2' not in nm2_ and 'V*V' not in nm2_:
            scenario('P09', name='solution of %s over a group with %s' % (nm2_, nm_), traces=(4, 40))(lambda e=e_: (dense(), solved(e, I231, lambda: None)))


# ---------------------------------------------------------------- elements given as numpy or complex matrices
class Elements(object):
    """other elements of the same groups"""
    def __init__(self, w, lib, real):
        gs = [w.g1, w.g2, w.g3, w.gp]
        self.Ms = {g: array('M%s%d' % (lib, i), g.d, g.d, real=real, lib=lib) for i, g in enumerate(gs)}
        self.Ns = {g: array('N%s%d' % (lib, i), g.d, g.d, real=real, lib=lib) for i, g in enumerate(gs)}


GIVEN = [('V1', lambda w: w.v1), ('V1*', lambda w: w.v1d), ('V1+V1', lambda w: Sum(w.v1, w.v1)), ('V1+V1*+1', lambda w: Sum(w.v1, w.v1d, w.s0)),
         ('V2+V1+V2*', lambda w: Sum(w.v2, w.v1, w.v2d)), ('3V1*+V1^2', lambda w: Sum(Times(3, w.v1d), Pow(w.v1, 2))), ('V1*V2', lambda w: Prod(w.v1, w.v2)),
         ('(V1+1)*(V2*+V1)', lambda w: Prod(Sum(w.v1, w.s0), Sum(w.v2d, w.v1))), ('V1*V1*', lambda w: Prod(w.v1, w.v1d)), ('V1+V2*V1+V3', lambda w: Sum(w.v1, Prod(w.v2, w.v1), w.v3)),
         ('V3+vp', lambda w: Sum(w.v3, w.vp)), ('V1^3', lambda w: Pow(w.v1, 3))]
for lib_ in ('np', 'jnp'):
    for real_ in (True, False):
        el_ = Elements(BIG, lib_, real_)
        for nm_, e_ in GIVEN:
            tag_ = '%s for %s %s elements' % (nm_, 'real' if real_ else 'complex', {'np': 'numpy', 'jnp': 'jax'}[lib_])
            scenario('P04', name='rho of ' + tag_, traces=(2, 40))(lambda el=el_, e=e_: (dense(), rho_of(el, e(BIG))))
            scenario('P05', name='drho of ' + tag_, traces=(2, 40))(lambda el=el_, e=e_: (dense(), drho_of(el, e(BIG))))
