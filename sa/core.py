"""Abstract value domains: polynomials over dimension atoms, index terms, and
canonical sums of products of tensor entries (gated value numbering).

Nothing in here ever executes the analysed program; these are the lattice
elements the abstract interpreter (interp.py) propagates through its AST.
All dimensions are symbolic ("for every size"), equality of abstract values
is decided by normalisation only -- no solver.
"""
from fractions import Fraction
from functools import reduce
import hashlib
import itertools


class Undecided(Exception):
    """The domain cannot represent / decide this; the obligation is reported
    as undecided, never as a violation."""


class ShapeError(Exception):
    """A definite shape mismatch."""


class Refine(Exception):
    """An index variable has to be split before evaluation can go on."""
    def __init__(self, var, kind, sizes):
        super().__init__('refine %s %s %s' % (var, kind, sizes))
        self.var, self.kind, self.sizes = var, kind, tuple(sizes)


# --------------------------------------------------------------------------
# Polynomials over dimension atoms
# --------------------------------------------------------------------------
LOWER = {}          # atom name -> lower bound (default 1)


class Poly:
    __slots__ = ('m', '_h')

    def __init__(self, m):
        self.m = m
        self._h = None

    @staticmethod
    def atom(name, lower=1):
        if lower != 1:
            LOWER[name] = lower
        return Poly({((name, 1),): Fraction(1)})

    @staticmethod
    def of(x):
        if isinstance(x, Poly):
            return x
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, (int, Fraction)):
            return Poly({(): Fraction(x)} if x else {})
        raise Undecided('not an integer quantity: %r' % (x,))

    def norm(self):
        if not self.m:
            return 0
        if len(self.m) == 1 and () in self.m:
            c = self.m[()]
            return int(c) if c.denominator == 1 else c
        return self

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def const(self):
        return self.m.get((), Fraction(0))

    def __hash__(self):
        if self._h is None:
            if self.is_const():
                self._h = hash(self.const())
            else:
                self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, Poly):
            return self.m == o.m
        if isinstance(o, (int, Fraction)):
            return self.is_const() and self.const() == o
        return NotImplemented

    def __add__(self, o):
        o = Poly.of(o)
        r = dict(self.m)
        for k, v in o.m.items():
            s = r.get(k, 0) + v
            if s:
                r[k] = s
            else:
                r.pop(k, None)
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-Poly.of(o))

    def __rsub__(self, o):
        return Poly.of(o) - self

    def __mul__(self, o):
        if not isinstance(o, (int, Fraction, Poly)):
            return NotImplemented
        o = Poly.of(o)
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = _mmul(k1, k2)
                s = r.get(k, 0) + v1 * v2
                if s:
                    r[k] = s
                else:
                    r.pop(k, None)
        return Poly(r)
    __rmul__ = __mul__

    def atoms(self):
        return {a for k in self.m for a, _ in k}

    def subst(self, name, val):
        val = Poly.of(val)
        r = Poly({})
        for k, v in self.m.items():
            t = Poly({tuple(x for x in k if x[0] != name): v})
            for a, e in k:
                if a == name:
                    for _ in range(e):
                        t = t * val
            r = r + t
        return r

    def lower_shift(self):
        """substitute atom = lower + atom for all atoms"""
        r = Poly({})
        for k, v in self.m.items():
            t = Poly({(): v})
            for a, e in k:
                base = Poly({((a, 1),): Fraction(1)}) + LOWER.get(a, 1)
                for _ in range(e):
                    t = t * base
            r = r + t
        return r

    def nonneg(self):
        """provably >= 0 for all admissible atom values"""
        if not self.m:
            return True
        if self.is_const():
            return self.const() >= 0
        if all(c >= 0 for c in self.lower_shift().m.values()):
            return True
        if UPPER:
            ups = [a for a in self.atoms() if a in UPPER]
            for sel in [[a] for a in ups] + ([ups] if len(ups) > 1 else []):
                q = self
                for a in sel:
                    LOWER.setdefault(a + "'", 0)
                    q = q.subst(a, UPPER[a] - Poly({((a + "'", 1),): Fraction(1)}))
                if all(c >= 0 for c in q.lower_shift().m.values()):
                    return True
        return any_fact(self)

    def positive(self):
        return (self - 1).nonneg()

    def __repr__(self):
        if not self.m:
            return '0'
        out = []
        for k in sorted(self.m):
            c = self.m[k]
            s = '*'.join(a if e == 1 else '%s^%d' % (a, e) for a, e in k)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            else:
                out.append('%s*%s' % (c, s))
        return '+'.join(out).replace('+-', '-')


UPPER = {}     # atom -> upper bound
FACTS = []     # polynomials assumed >= 0 on the current trace


def add_fact(f):
    """record f >= 0; keep pairwise sums so that orders chain"""
    new = [f] + [f + g for g in FACTS[:40]]
    FACTS.extend(new)


def any_fact(p):
    if not FACTS:
        return False
    mons = [Poly({(): Fraction(1)})] + [Poly({((a, 1),): Fraction(1)}) for a in sorted(p.atoms())]
    for f in FACTS:
        for m in mons:
            d = p - f * m
            if all(c >= 0 for c in d.lower_shift().m.values()):
                return True
    return False


def facts_witness(facts, tries=4000):
    """small sizes satisfying every assumed order fact, or None"""
    import random
    atoms = sorted(set().union(*[f.atoms() for f in facts])) if facts else []
    rnd = random.Random(7)
    for t in range(tries):
        env = {a: LOWER.get(a, 1) + rnd.randrange(0, 2 + t // 100) for a in atoms}
        if all(peval(f, env) >= 0 for f in facts):
            return env
    return None


def peval(p, env):
    r = Fraction(0)
    for k, c in p.m.items():
        for a, e in k:
            c = c * env[a] ** e
        r += c
    return r


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for n, e in b:
        d[n] = d.get(n, 0) + e
    return tuple(sorted((n, e) for n, e in d.items() if e))


def _mdiv(a, b):
    d = dict(a)
    for n, e in b:
        r = d.get(n, 0) - e
        if r < 0:
            return None
        if r:
            d[n] = r
        else:
            d.pop(n, None)
    return tuple(sorted(d.items()))


def pdivmod(p, q, order=None):
    """multivariate division p = quot*q + rem for a variable order"""
    p, q = Poly.of(p), Poly.of(q)
    if not q.m:
        raise Undecided('division by zero')
    names = order or sorted(p.atoms() | q.atoms())
    pos = {n: i for i, n in enumerate(names)}

    def key(k):
        v = [0] * len(names)
        for n, e in k:
            v[pos[n]] = e
        return tuple(v)
    lead = max(q.m, key=key)
    lc = q.m[lead]
    quot, rem = Poly({}), Poly({})
    work = p
    n = 0
    while work.m:
        n += 1
        if n > 500:
            raise Undecided('division')
        k = max(work.m, key=key)
        d = _mdiv(k, lead)
        if d is None:
            t = Poly({k: work.m[k]})
            rem = rem + t
            work = work - t
        else:
            t = Poly({d: work.m[k] / lc})
            quot = quot + t
            work = work - t * q
    return quot, rem


def pdiv(p, q):
    """exact division or None"""
    p, q = Poly.of(p), Poly.of(q)
    if not p.m:
        return p
    quot, rem = pdivmod(p, q)
    if rem.m:
        return None
    return quot


def is_int_poly(p):
    return all(c.denominator == 1 for c in p.m.values())


def P(x):
    return Poly.of(x)


def peq(a, b):
    return Poly.of(a) == Poly.of(b)


def pprod(xs):
    r = Poly.of(1)
    for x in xs:
        r = r * x
    return r


# --------------------------------------------------------------------------
# Index terms: const + sum coef * atom
# --------------------------------------------------------------------------
_ctr = itertools.count()


class IVar:
    __slots__ = ('name', 'size')

    def __init__(self, size, name=None):
        n = next(_ctr)
        self.name = '%s%d' % (name or 'v', n)
        self.size = Poly.of(size)

    def __repr__(self):
        return self.name

    def idx(self):
        if self.size == 1:
            return Idx.of(0)
        return Idx(Poly({}), {self: Poly.of(1)})


class OApp:
    """application of an opaque integer array (e.g. a permutation) to indices"""
    __slots__ = ('sym', 'args', '_h')

    def __init__(self, sym, args):
        self.sym, self.args = sym, tuple(args)
        self._h = hash((sym, self.args))

    @property
    def size(self):
        return self.sym.bound

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, OApp) and self.sym is o.sym and self.args == o.args

    def __repr__(self):
        return '%s[%s]' % (self.sym.name, ','.join(map(repr, self.args)))


class PermSym:
    """an opaque permutation of 0..n-1, with its inverse"""
    def __init__(self, name, n, inverse=None, expand=None):
        self.name = name
        self.bound = Poly.of(n)
        self.primary = inverse is None
        self.inverse = inverse or PermSym(name + '⁻¹', n, self)
        self.expand = expand

    is_perm = True


class IntSym:
    def __init__(self, name, bound):
        self.name, self.bound = name, Poly.of(bound)
        self.is_perm = False
        self.expand = None


class Idx:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self._h = None

    @staticmethod
    def of(x):
        if isinstance(x, Idx):
            return x
        if isinstance(x, IVar):
            return x.idx()
        return Idx(Poly.of(x), {})

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, frozenset(self.t.items())))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Idx) and self.c == o.c and self.t == o.t

    def is_const(self):
        return not self.t

    def __add__(self, o):
        o = Idx.of(o)
        t = dict(self.t)
        for k, v in o.t.items():
            s = t[k] + v if k in t else v
            if s.m:
                t[k] = s
            else:
                t.pop(k, None)
        return Idx(self.c + o.c, t)

    def scale(self, p):
        p = Poly.of(p)
        if not p.m:
            return Idx(p, {})
        return Idx(self.c * p, {k: v * p for k, v in self.t.items()})

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-Idx.of(o))

    def vars(self):
        s = set()
        for a in self.t:
            if isinstance(a, IVar):
                s.add(a)
            else:
                for x in a.args:
                    s |= x.vars()
        return s

    def subst(self, env):
        if not self.t:
            return self
        r = Idx(self.c, {})
        ch = False
        for a, v in self.t.items():
            if isinstance(a, IVar):
                if a in env:
                    r = r + Idx.of(env[a]).scale(v)
                    ch = True
                    continue
            else:
                na = tuple(x.subst(env) for x in a.args)
                if na != a.args:
                    r = r + apply_sym(a.sym, na).scale(v)
                    ch = True
                    continue
            r = r + Idx(Poly({}), {a: v})
        return r if ch else self

    def bounds(self):
        lo, hi = self.c, self.c
        for a, v in self.t.items():
            if v.nonneg():
                hi = hi + v * (a.size - 1)
            elif (-v).nonneg():
                lo = lo + v * (a.size - 1)
            else:
                raise Undecided('sign of stride %r' % v)
        return lo, hi

    def in_range(self, n):
        """provably 0 <= self < n"""
        lo, hi = self.bounds()
        return lo.nonneg() and (Poly.of(n) - 1 - hi).nonneg()

    def __repr__(self):
        out = []
        for a in sorted(self.t, key=repr):
            v = self.t[a]
            if v == 1:
                out.append(repr(a))
            else:
                out.append('(%r)*%r' % (v, a))
        if self.c.m or not out:
            out.append(repr(self.c))
        return '+'.join(out)


def apply_sym(sym, args):
    args = tuple(Idx.of(a) for a in args)
    if sym.is_perm and len(args) == 1:
        a = args[0]
        if not a.c.m and len(a.t) == 1:
            (k, v), = a.t.items()
            if v == 1 and isinstance(k, OApp) and k.sym is sym.inverse:
                return k.args[0]
    o = OApp(sym, args)
    if o.size == 1:
        return Idx.of(0)
    return Idx(Poly({}), {o: Poly.of(1)})


def expand_opaque(e):
    """expand lazily kept permutation applications that have a definition"""
    r = Idx(e.c, {})
    ch = False
    for a, v in e.t.items():
        if isinstance(a, OApp) and a.sym.expand is not None:
            x = a.sym.expand(a.args)
            if x is not None:
                r = r + x.scale(v)
                ch = True
                continue
        r = r + Idx(Poly({}), {a: v})
    return r, ch


def _split_candidates(v, need):
    """sizes (N1, N2=need) to split variable v, or None"""
    q = pdiv(v.size, need)
    if q is None or not is_int_poly(q):
        return None
    return q, Poly.of(need)


def try_divmod(e, s):
    """e = q*s + r with 0<=r<s provable; returns (q,r) or None or raises Refine"""
    s = Poly.of(s)
    if s == 1:
        return e, Idx.of(0)
    q = Idx(Poly({}), {})
    r = Idx(Poly({}), {})
    for a, v in e.t.items():
        d = pdiv(v, s)
        if d is not None and is_int_poly(d):
            q = q + Idx(Poly({}), {a: d})
        else:
            r = r + Idx(Poly({}), {a: v})
    # constant part
    cands = [(Poly({}), e.c)]
    names = sorted(e.c.atoms() | s.atoms())
    if e.c.m and e.c.is_const() and s.is_const() and e.c.const().denominator == 1 \
            and s.const().denominator == 1:
        cq, cr = divmod(int(e.c.const()), int(s.const()))
        cands.append((Poly.of(cq), Poly.of(cr)))
    elif e.c.m:
        for order in itertools.islice(itertools.permutations(names), 24):
            try:
                cq, cr = pdivmod(e.c, s, list(order))
            except Undecided:
                continue
            if is_int_poly(cq) and is_int_poly(cr):
                cands.append((cq, cr))
                cands.append((cq - 1, cr + s))
    for cq, cr in cands:
        rr = r + Idx(cr, {})
        if rr.in_range(s):
            return q + Idx(cq, {}), rr
    return None


def idx_divmod(e, s):
    e = Idx.of(e)
    s = Poly.of(s)
    res = try_divmod(e, s)
    if res is not None:
        return res
    e2, ch = expand_opaque(e)
    if ch:
        return idx_divmod(e2, s)
    # need a refinement: find a variable whose range straddles the radix
    for a, v in e.t.items():
        if pdiv(v, s) is not None:
            continue
        need = pdiv(s, v)
        if need is None or not is_int_poly(need):
            continue
        if isinstance(a, IVar):
            c = _split_candidates(a, need)
            if c is not None and c[0] != 1:
                raise Refine(a, 'digits', c)
            # try a segment split when the size is a sum
            if not e.c.m and (a.size - need).nonneg() and len(e.t) == 1 \
                    and v == 1 and a.size != need:
                q = pdiv(a.size, need)
                if q is None:
                    rest = a.size - need
                    if rest.positive():
                        raise Refine(a, 'segs', (need, rest))
        else:
            # variable inside opaque application: cannot split
            continue
    if all(isinstance(a, IVar) for a in e.t) and len(e.t):
        # constant-size variables: enumerate
        for a in e.t:
            if a.size.is_const() and a.size.const() <= 64 and a.size.const() > 1:
                raise Refine(a, 'segs', (1,) * int(a.size.const()))
    raise Undecided('cannot take %r div/mod %r' % (e, s))


def idx_decode(e, sizes):
    """mixed radix digits of e for the given sizes (first digit unbounded by check)"""
    e = Idx.of(e)
    digs = []
    for s in reversed(sizes[1:]):
        e, r = idx_divmod(e, s)
        digs.append(r)
    digs.append(e)
    return digs[::-1]


def idx_flatten(idxs, sizes):
    r = Idx.of(0)
    for i, s in zip(idxs, sizes):
        r = r.scale(s) + Idx.of(i)
    return r


def idx_lt(e, n):
    """decide e < n; may raise Refine; returns True/False"""
    e = Idx.of(e)
    n = Poly.of(n)
    lo, hi = e.bounds()
    if (n - 1 - hi).nonneg():
        return True
    if (lo - n).nonneg():
        return False
    e2, ch = expand_opaque(e)
    if ch:
        return idx_lt(e2, n)
    # single unit variable: segment split
    cands = []
    for a, v in e.t.items():
        if not isinstance(a, IVar):
            continue
        rest = e - Idx(Poly({}), {a: v})
        if v == 1:
            rlo, rhi = rest.bounds()
            b = n - rlo          # a + rest < n  <=> a < n - rest
            if rlo == rhi:
                if b.positive() and (a.size - b).positive():
                    raise Refine(a, 'segs', (b, a.size - b))
        elif v == -1:
            rlo, rhi = rest.bounds()
            if rlo == rhi:
                # rest - a < n  <=> a > rest - n <=> a >= rest-n+1
                b = rlo - n + 1
                if b.positive() and (a.size - b).positive():
                    raise Refine(a, 'segs', (b, a.size - b))
        else:
            # v*a + rest < n with rest in [0,v): a < n/v if v | n
            rlo, rhi = rest.bounds()
            q = pdiv(n - rlo, v)
            if q is not None and is_int_poly(q) and (v - 1 - (rhi - rlo)).nonneg() \
                    and q.positive() and (a.size - q).positive():
                raise Refine(a, 'segs', (q, a.size - q))
            # general: boundary inside; try quotient bounds
    for a, v in e.t.items():
        if isinstance(a, IVar) and a.size.is_const() and 1 < a.size.const() <= 64:
            raise Refine(a, 'segs', (1,) * int(a.size.const()))
    # split digits: variable with unit coefficient ranging over a product
    raise Undecided('cannot decide %r < %r' % (e, n))


def refine_sub(r):
    """list of (substitution value Idx, new vars) cases for a Refine"""
    v = r.var
    if r.kind == 'digits':
        vs = [IVar(s, 'd') for s in r.sizes]
        return [(idx_flatten([x.idx() for x in vs], r.sizes), vs)]
    out = []
    off = Poly({})
    for s in r.sizes:
        x = IVar(s, 's')
        out.append((x.idx() + Idx(off, {}), [x] if x.size != 1 else []))
        off = off + s
    return out


# --------------------------------------------------------------------------
# Expressions
# --------------------------------------------------------------------------
class TSym:
    """tensor symbol.  key identifies it; `real`: conj is the identity"""
    __slots__ = ('key', 'real', 'inv_of', 'meta')

    def __init__(self, key, real=True, inv_of=None, meta=None):
        self.key, self.real, self.inv_of, self.meta = key, real, inv_of, meta

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, TSym) and self.key == o.key

    def __repr__(self):
        return str(self.key)


# atoms:
#  ('T', TSym, idxs, conj) ('F', name, args) ('S', name) ('P', dimatom)
#  ('X', Idx) ('D', Idx)  delta(idx==0)   ('B', op, Idx) Iverson idx op 0


def atom_vars(a):
    k = a[0]
    if k == 'T':
        s = set()
        for i in a[2]:
            s |= i.vars()
        return s
    if k in ('D', 'X'):
        return a[1].vars()
    if k == 'B':
        return a[2].vars()
    if k == 'F':
        s = set()
        for x in a[2]:
            s |= free_vars(x)
        return s
    return set()


def free_vars(x):
    if isinstance(x, Expr):
        s = set()
        for t in x.terms:
            for a, _ in t.atoms:
                s |= atom_vars(a)
            s -= t.bound
        return s
    if isinstance(x, Idx):
        return x.vars()
    if isinstance(x, tuple):
        s = set()
        for y in x:
            s |= free_vars(y)
        return s
    return set()


class Term:
    __slots__ = ('coef', 'atoms', 'bound')

    def __init__(self, coef, atoms, bound=frozenset()):
        self.coef = coef            # Fraction
        self.atoms = atoms          # tuple of (atom, exp)
        self.bound = bound          # frozenset of IVar


class Expr:
    __slots__ = ('terms', '_key')

    def __init__(self, terms):
        self.terms = terms
        self._key = None

    # ---- constructors
    @staticmethod
    def const(c):
        if isinstance(c, Expr):
            return c
        if isinstance(c, bool):
            c = int(c)
        if isinstance(c, Poly):
            return Expr([Term(v, tuple(sorted(((('P', a), e) for a, e in k))))
                         for k, v in c.m.items()])
        if isinstance(c, complex):
            r = Expr.const(c.real) if c.real else Expr([])
            if c.imag:
                r = r + Expr.const(c.imag) * IMAG
            return r
        if isinstance(c, float):
            if c != c or c in (float('inf'), float('-inf')):
                return Expr([Term(Fraction(1), ((('S', repr(c)), 1),))])
            c = Fraction(repr(c))
        if isinstance(c, Idx):
            r = Expr.const(c.c)
            for a, v in c.t.items():
                r = r + Expr.const(v) * Expr.atom(('X', Idx(Poly({}), {a: Poly.of(1)})))
            return r
        if not isinstance(c, (int, Fraction)):
            raise Undecided('not a scalar: %r' % (c,))
        return Expr([Term(Fraction(c), ())]) if c else Expr([])

    @staticmethod
    def atom(a, e=1):
        return Expr([Term(Fraction(1), ((a, e),))])

    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and not self.terms[0].atoms
                                  and not self.terms[0].bound)

    def as_const(self):
        if not self.terms:
            return Fraction(0)
        if self.is_const():
            return self.terms[0].coef
        return None

    def as_poly(self):
        """dimension polynomial value if this expr is one"""
        r = Poly({})
        for t in self.terms:
            if t.bound or any(a[0] != 'P' or e < 0 for a, e in t.atoms):
                return None
            r = r + Poly({tuple(sorted((a[1], e) for a, e in t.atoms)): t.coef})
        return r

    def __add__(self, o):
        return Expr.build(self.terms + Expr.const(o).terms)

    def __neg__(self):
        return Expr([Term(-t.coef, t.atoms, t.bound) for t in self.terms])

    def __sub__(self, o):
        return self + (-Expr.const(o))

    def __mul__(self, o):
        o = Expr.const(o)
        out = []
        for t in self.terms:
            for u in o.terms:
                if t.bound & u.bound:
                    u = freshen(u)
                out.extend(normalise(t.coef * u.coef, _amul(t.atoms, u.atoms),
                                     t.bound | u.bound))
        return Expr.build(out)

    @staticmethod
    def build(terms):
        if len(terms) <= 1:
            return Expr([t for t in terms if t.coef])
        d = {}
        order = []
        for t in terms:
            k = term_key(t)
            if k in d:
                o = d[k]
                d[k] = Term(o.coef + t.coef, o.atoms, o.bound)
            else:
                d[k] = t
                order.append(k)
        return Expr([d[k] for k in order if d[k].coef])

    def key(self):
        if self._key is None:
            self._key = tuple(sorted((term_key(t), t.coef) for t in self.terms))
        return self._key

    def __eq__(self, o):
        return isinstance(o, Expr) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def subst(self, env):
        out = []
        for t in self.terms:
            e = {k: v for k, v in env.items() if k not in t.bound}
            if not e:
                out.append(t)
                continue
            # avoid capture
            fv = set()
            for v in e.values():
                fv |= Idx.of(v).vars()
            if fv & t.bound:
                t = freshen(t)
            atoms = tuple((atom_subst(a, e), x) for a, x in t.atoms)
            out.extend(normalise(t.coef, _amul((), atoms), t.bound))
        return Expr.build(out)

    def map_atoms(self, f):
        """rebuild with f(atom)->Expr or None (unchanged)"""
        out = Expr([])
        for t in self.terms:
            cur = Expr.const(t.coef)
            bound = t.bound
            rest = []
            reps = []
            for a, e in t.atoms:
                r = f(a)
                if r is None:
                    rest.append((a, e))
                else:
                    reps.append((r, e))
            for r, e in reps:
                cur = cur * epow(r, e)
            # multiply by rest, keeping bound
            terms = []
            for u in cur.terms:
                if u.bound & bound:
                    u = freshen(u)
                terms.extend(normalise(u.coef, _amul(u.atoms, tuple(rest)), u.bound | bound))
            out = Expr.build(out.terms + terms)
        return out

    def conj(self):
        def f(t):
            coef = t.coef
            atoms = []
            for a, e in t.atoms:
                atoms.append((atom_conj(a), e))
                if a == ('S', 'i') and e % 2:
                    coef = -coef
            return Term(coef, _amul((), tuple(atoms)), t.bound)
        return Expr.build([f(t) for t in self.terms])

    def __repr__(self):
        if not self.terms:
            return '0'
        out = []
        for t in self.terms:
            s = '·'.join((show_atom(a) if e == 1 else '%s^%s' % (show_atom(a), e))
                         for a, e in t.atoms)
            if t.bound:
                s = 'Σ_{%s}(%s)' % (','.join('%r<%r' % (b, b.size) for b in
                                            sorted(t.bound, key=repr)), s)
            if t.coef != 1 or not s:
                s = '%s%s' % (t.coef, ('·' + s) if s else '')
            out.append(s)
        return ' + '.join(out)


def show_atom(a):
    k = a[0]
    if k == 'T':
        return '%s%s[%s]' % (a[1], '̄' if a[3] else '', ','.join(map(repr, a[2])))
    if k == 'D':
        return 'δ(%r)' % (a[1],)
    if k == 'F':
        return '%s(%s)' % (a[1], ','.join(map(repr, a[2])))
    if k == 'B':
        return '[%r%s0]' % (a[2], a[1])
    return str(a[1])


IMAG = Expr.atom(('S', 'i'))


REAL_FN = {'sigmoid', 'abs', 'sqrt', 'sin', 'cos', 'exp', 'log'}


def atom_conj(a):
    if a[0] == 'T' and not a[1].real:
        return ('T', a[1], a[2], not a[3])
    if a[0] == 'F':
        if a[1] in ('abs', 're', 'im'):
            return a
        return ('F', a[1], tuple(x.conj() if isinstance(x, Expr) else x for x in a[2]))
    return a


def atom_subst(a, env):
    k = a[0]
    if k == 'T':
        return ('T', a[1], tuple(i.subst(env) for i in a[2]), a[3])
    if k == 'D':
        return ('D', a[1].subst(env))
    if k == 'X':
        return ('X', a[1].subst(env))
    if k == 'B':
        return ('B', a[1], a[2].subst(env))
    if k == 'F':
        return ('F', a[1], tuple(_sub_any(x, env) for x in a[2]))
    return a


def _sub_any(x, env):
    if isinstance(x, (Expr, Idx)):
        return x.subst(env)
    if isinstance(x, tuple):
        return tuple(_sub_any(y, env) for y in x)
    return x


def freshen(t):
    env = {b: IVar(b.size, 'b').idx() for b in t.bound}
    nb = frozenset(next(iter(v.t)) for v in env.values() if v.t)
    return Term(t.coef, tuple((atom_subst(a, env), e) for a, e in t.atoms), nb)


def _amul(a, b):
    if not a and len(b) <= 1:
        return b
    d = {}
    for x, e in a:
        d[x] = d.get(x, 0) + e
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple((x, e) for x, e in d.items() if e)


SINCOS = True


def normalise(coef, atoms, bound):
    """normalise one term -> list of terms"""
    if not coef:
        return []
    work = [(coef, atoms, frozenset(bound))]
    out = []
    n = 0
    while work:
        n += 1
        if n > 2000:
            raise Undecided('normalisation')
        coef, atoms, bound = work.pop()
        r = _norm_step(coef, atoms, bound)
        if r is None:
            out.append(Term(coef, atoms, bound))
        else:
            work.extend(r)
    return out


def _replace(atoms, old, new):
    """atoms tuple with atom `old` replaced by list `new` of (atom,exp)"""
    rest = tuple(x for x in atoms if x[0] != old)
    return _amul(rest, tuple(new))


def _norm_step(coef, atoms, bound):
    # i^2 = -1
    for a, e in atoms:
        k = a[0]
        if k == 'S' and a[1] == 'i' and (e >= 2 or e < 0):
            e2 = e % 4
            c = coef * (-1 if e2 >= 2 else 1)
            return [(c, _replace(atoms, a, [(a, 1)] if e2 % 2 else []), bound)]
        if k == 'F':
            if a[1] == 'sin' and e >= 2:
                cosa = ('F', 'cos', a[2])
                rest = _replace(atoms, a, [(a, e - 2)] if e > 2 else [])
                return [(coef, rest, bound),
                        (-coef, _amul(rest, ((cosa, 2),)), bound)]
            if a[1] == 'abs' and e >= 2 and len(a[2]) == 1 and isinstance(a[2][0], Expr):
                # |x|^2 = x conj(x)
                x = a[2][0]
                rest = _replace(atoms, a, [(a, e - 2)] if e > 2 else [])
                res = []
                for t in (x * x.conj()).terms:
                    if t.bound & bound:
                        t = freshen(t)
                    res.append((coef * t.coef, _amul(rest, t.atoms), bound | t.bound))
                return res
            if a[1] == 'sqrt' and (e >= 2 or e <= -2):
                # sqrt(x)^2 = x for a single-term polynomial-like argument
                x = a[2][0]
                if isinstance(x, Expr) and e >= 2:
                    rest = _replace(atoms, a, [(a, e - 2)] if e > 2 else [])
                    res = []
                    for t in x.terms:
                        if t.bound & bound:
                            t = freshen(t)
                        res.append((coef * t.coef, _amul(rest, t.atoms), bound | t.bound))
                    return res
        if k == 'X' and a[1].is_const():
            v = a[1].c
            rest = _replace(atoms, a, [])
            if e < 0:
                if v.is_const() and v.const():
                    return [(coef * Fraction(1) / v.const() ** (-e), rest, bound)]
            else:
                pe = Poly.of(1)
                for _ in range(e):
                    pe = pe * v
                return [(coef * c, _amul(rest, tuple((('P', n), ee) for n, ee in mm)), bound)
                        for mm, c in pe.m.items()]
        if k == 'D':
            r = _delta_step(a, e, coef, atoms, bound)
            if r is not None:
                return r
        if k == 'B':
            r = decide_b(a)
            if r is not None:
                rest = _replace(atoms, a, [])
                return [(coef, rest, bound)] if r else []
            if e > 1:
                return [(coef, _replace(atoms, a, [(a, 1)]), bound)]
    # free summation variables
    used = set()
    for a, _ in atoms:
        used |= atom_vars(a)
    for b in bound:
        if b not in used:
            return [(coef * c, _amul(atoms, tuple((('P', n), ee) for n, ee in mm)), bound - {b})
                    for mm, c in b.size.m.items()]
    # summation over a permuted index: eliminate inverse permutations
    for i in _all_idx(atoms):
        for k in i.t:
            if isinstance(k, OApp) and k.sym.is_perm and not k.sym.primary and len(k.args) == 1:
                w = k.args[0]
                if not w.c.m and len(w.t) == 1:
                    (b, v), = w.t.items()
                    if v == 1 and b in bound and b.size == k.sym.bound:
                        nb = IVar(b.size, 'b')
                        env = {b: apply_sym(k.sym.inverse, [nb.idx()])}
                        new = _amul((), tuple((atom_subst(y, env), ee) for y, ee in atoms))
                        return [(coef, new, (bound - {b}) | {nb})]
    # merge split variables
    if len(bound) >= 2:
        r = _merge_step(coef, atoms, bound, used)
        if r is not None:
            return r
    return None


def decide_b(a):
    op, e = a[1], a[2]
    try:
        lo, hi = e.bounds()
    except Undecided:
        return None
    if op == '<':
        if (-1 - hi).nonneg():
            return True
        if lo.nonneg():
            return False
    return None


def _delta_step(a, e, coef, atoms, bound):
    x = a[1]
    if e != 1:
        return [(coef, _replace(atoms, a, [(a, 1)]), bound)]
    if not x.t:
        if not x.c.m:
            return [(coef, _replace(atoms, a, []), bound)]
        if x.c.positive() or (-x.c).positive():
            return []
        raise Undecided('delta of constants %r' % x.c)
    lo, hi = x.bounds()
    if lo.positive() or (-hi).positive():
        return []
    # canonical sign
    # 1. unit-coefficient bound variable
    for v in sorted((v for v in x.t if isinstance(v, IVar) and v in bound), key=repr):
        c = x.t[v]
        if c == 1 or c == -1:
            rest = x - Idx(Poly({}), {v: c})
            val = -rest if c == 1 else rest
            if v in val.vars():
                continue
            if val.in_range(v.size):
                rest_atoms = _replace(atoms, a, [])
                env = {v: val}
                return [(coef, _amul((), tuple((atom_subst(y, env), ee) for y, ee in rest_atoms)),
                         bound - {v})]
    # 2. permutation injectivity: delta(P(k)-P(l)) -> delta(k-l)
    if len(x.t) == 2 and not x.c.m:
        (k1, v1), (k2, v2) = x.t.items()
        if isinstance(k1, OApp) and isinstance(k2, OApp) and k1.sym is k2.sym \
                and k1.sym.is_perm and (v1 + v2) == 0 and (v1 == 1 or v1 == -1):
            return [(coef, _replace(atoms, a, [(('D', k1.args[0] - k2.args[0]), 1)]), bound)]
        # delta(P(k) - i) -> delta(k - P^-1(i))
        for (ka, va), (kb, vb) in (((k1, v1), (k2, v2)), ((k2, v2), (k1, v1))):
            if isinstance(ka, OApp) and ka.sym.is_perm and isinstance(kb, IVar) and \
                    (va + vb) == 0 and (va == 1 or va == -1) and len(ka.args) == 1 \
                    and ka.sym.bound == kb.size:
                y = ka.args[0] - apply_sym(ka.sym.inverse, [kb.idx()])
                # only progress if the argument has a bound var to be solved
                if any(v in bound for v in ka.args[0].vars()) or kb not in bound:
                    if len(ka.args[0].t) >= 1 and not any(
                            isinstance(z, OApp) for z in ka.args[0].t) and \
                            any(v in bound for v in ka.args[0].vars()):
                        return [(coef, _replace(atoms, a, [(('D', y), 1)]), bound)]
        # delta(P^-1(w) - i) -> delta(w - P(i)): only primary permutation symbols remain
        for (ka, va), (kb, vb) in (((k1, v1), (k2, v2)), ((k2, v2), (k1, v1))):
            if isinstance(ka, OApp) and ka.sym.is_perm and not ka.sym.primary and \
                    isinstance(kb, IVar) and kb not in bound and (va + vb) == 0 and \
                    (va == 1 or va == -1) and len(ka.args) == 1 and ka.sym.bound == kb.size:
                y = ka.args[0] - apply_sym(ka.sym.inverse, [kb.idx()])
                return [(coef, _replace(atoms, a, [(('D', y), 1)]), bound)]
    # 3. stride splitting
    strides = sorted({repr(v if v.nonneg() else -v): (v if v.nonneg() else -v)
                      for v in x.t.values()}.items())
    for _, s in strides:
        if s == 1:
            continue
        m = Idx(Poly({}), {})
        r = Idx(Poly({}), {})
        for k, v in x.t.items():
            d = pdiv(v, s)
            if d is not None and is_int_poly(d):
                m = m + Idx(Poly({}), {k: d})
            else:
                r = r + Idx(Poly({}), {k: v})
        cd = pdiv(x.c, s)
        cands = []
        if cd is not None and is_int_poly(cd):
            cands.append((cd, Poly({})))
        else:
            try:
                cq, cr = pdivmod(x.c, s)
                if is_int_poly(cq) and is_int_poly(cr):
                    cands += [(cq, cr)]
            except Undecided:
                pass
            cands.append((Poly({}), x.c))
        for cq, cr in cands:
            rr = r + Idx(cr, {})
            lo, hi = rr.bounds()
            if (s - 1 - hi).nonneg() and (lo + s - 1).nonneg():
                mm = m + Idx(cq, {})
                new = [(('D', mm), 1)]
                if rr.t or rr.c.m:
                    new.append((('D', rr), 1))
                elif not mm.t:
                    pass
                if new == [(a, 1)]:
                    break
                if len(new) == 1 and s != 1 or len(new) == 2:
                    return [(coef, _replace(atoms, a, new), bound)]
    # 4. needs refinement?
    for _, s in strides:
        for k, v in sorted(x.t.items(), key=lambda z: repr(z[0])):
            av = v if v.nonneg() else -v
            if not isinstance(k, IVar) or pdiv(av, s) is not None:
                continue
            need = pdiv(s, av)
            if need is None or not is_int_poly(need):
                continue
            c = _split_candidates(k, need)
            if c is None or c[0] == 1:
                continue
            if k in bound:
                v1, v2 = IVar(c[0], 'b'), IVar(c[1], 'b')
                env = {k: v1.idx().scale(c[1]) + v2.idx()}
                return [(coef, _amul((), tuple((atom_subst(y, env), ee) for y, ee in atoms)),
                         (bound - {k}) | {v1, v2})]
            raise Refine(k, 'digits', c)
    # 4b. a free unit variable reaching beyond the range of everything else: split it there
    for v in sorted((v for v in x.t if isinstance(v, IVar) and v not in bound), key=repr):
        c = x.t[v]
        if c == 1 or c == -1:
            rest = x - Idx(Poly({}), {v: c})
            val = -rest if c == 1 else rest
            if v in val.vars() or not val.t:
                continue
            lo, hi = val.bounds()
            if hi.nonneg() and (v.size - 1 - hi).positive():
                raise Refine(v, 'segs', (hi + 1, v.size - 1 - hi))
            if lo.positive() and (v.size - lo).positive():
                raise Refine(v, 'segs', (lo, v.size - lo))
    # 5. range mismatch with a bound variable: delta(b - e), e out of b's range
    for v in sorted((v for v in x.t if isinstance(v, IVar) and v in bound), key=repr):
        c = x.t[v]
        if c == 1 or c == -1:
            rest = x - Idx(Poly({}), {v: c})
            val = -rest if c == 1 else rest
            if any(isinstance(q, IVar) and q not in bound or isinstance(q, OApp) for q in val.t) \
                    or len(val.t):
                lo, hi = val.bounds()
                # check provable upper violation -> segment split of free var
                if not (lo.nonneg()):
                    if not idx_lt(-val, 1):
                        return []
                if not idx_lt(val, v.size):
                    return []
    # 6. free-free delta: rewrite other atoms canonically (eliminate one var)
    fr = sorted((v for v in x.t if isinstance(v, IVar) and v not in bound
                 and (x.t[v] == 1 or x.t[v] == -1)), key=lambda z: z.name)
    if fr:
        v = fr[-1]
        c = x.t[v]
        rest = x - Idx(Poly({}), {v: c})
        val = -rest if c == 1 else rest
        others = tuple(y for y in atoms if y[0] != a)
        if any(v in atom_vars(y) for y, _ in others) and v not in val.vars() and \
                not (val.vars() & bound):
            env = {v: val}
            new = _amul((), tuple((atom_subst(y, env), ee) for y, ee in others))
            return [(coef, _amul(new, ((('D', x if c == 1 else -x), 1),)), bound)]
    # canonical sign of the delta
    k0 = min(x.t, key=repr)
    if (-x.t[k0]).positive():
        return [(coef, _replace(atoms, a, [(('D', -x), 1)]), bound)]
    return None


def _idx_in_atom(a):
    k = a[0]
    if k == 'T':
        return list(a[2])
    if k in ('D', 'X'):
        return [a[1]]
    if k == 'B':
        return [a[2]]
    if k == 'F':
        out = []

        def rec(x):
            if isinstance(x, Idx):
                out.append(x)
            elif isinstance(x, Expr):
                for t in x.terms:
                    for y, _ in t.atoms:
                        out.extend(_idx_in_atom(y))
            elif isinstance(x, tuple):
                for y in x:
                    rec(y)
        for x in a[2]:
            rec(x)
        return out
    return []


def _all_idx(atoms):
    out = []
    for a, _ in atoms:
        out.extend(_idx_in_atom(a))
    res = []
    stack = list(out)
    while stack:
        i = stack.pop()
        res.append(i)
        for k in i.t:
            if isinstance(k, OApp):
                stack.extend(k.args)
    return res


def _merge_step(coef, atoms, bound, used):
    idxs = [i for i in _all_idx(atoms) if i.t]
    bl = sorted(bound, key=repr)
    for lo in bl:
        occ = [i for i in idxs if lo in i.t]
        if not occ:
            continue
        for hi in bl:
            if hi is lo:
                continue
            ok = True
            for i in idxs:
                cl, ch = i.t.get(lo), i.t.get(hi)
                if cl is None and ch is None:
                    continue
                if cl is None or ch is None or ch != cl * lo.size:
                    ok = False
                    break
            if ok:
                nv = IVar(lo.size * hi.size, 'b')
                env = {lo: nv.idx(), hi: Idx.of(0)}
                new = _amul((), tuple((atom_subst(y, env), ee) for y, ee in atoms))
                return [(coef, new, (bound - {lo, hi}) | {nv})]
    # reversal canonicalisation: b -> size-1-b when all coefs negative
    for b in bl:
        cs = [i.t[b] for i in idxs if b in i.t]
        if cs and all((-c).positive() for c in cs):
            nv = IVar(b.size, 'b')
            env = {b: Idx(b.size - 1, {nv: Poly.of(-1)})}
            new = _amul((), tuple((atom_subst(y, env), ee) for y, ee in atoms))
            return [(coef, new, (bound - {b}) | {nv})]
    return None


# ---- canonical keys -------------------------------------------------------
def _ser_idx(i, names):
    parts = []
    for a, v in i.t.items():
        if isinstance(a, IVar):
            n = names.get(a, a.name)
        else:
            n = '%s[%s]' % (a.sym.name, ','.join(_ser_idx(x, names) for x in a.args))
        parts.append('%s:%r' % (n, v))
    parts.sort()
    return '%r|%s' % (i.c, ','.join(parts))


def _ser_any(x, names):
    if isinstance(x, Idx):
        return _ser_idx(x, names)
    if isinstance(x, Expr):
        return '{' + ';'.join(sorted('%s*%s' % (t.coef, _ser_term(t, names))
                                     for t in x.terms)) + '}'
    if isinstance(x, tuple):
        return '(' + ','.join(_ser_any(y, names) for y in x) + ')'
    return repr(x)


def _ser_atom(a, names):
    k = a[0]
    if k == 'T':
        return 'T%s%s[%s]' % (a[1].key, '~' if a[3] else '',
                              ';'.join(_ser_idx(i, names) for i in a[2]))
    if k == 'D':
        x = _ser_idx(a[1], names)
        y = _ser_idx(-a[1], names)
        return 'D' + min(x, y)
    if k == 'X':
        return 'X' + _ser_idx(a[1], names)
    if k == 'B':
        return 'B' + a[1] + _ser_idx(a[2], names)
    if k == 'F':
        return 'F%s(%s)' % (a[1], ','.join(_ser_any(x, names) for x in a[2]))
    return '%s:%s' % (a[0], a[1])


def _digest(s):
    return hashlib.md5(s.encode()).hexdigest()[:16]


def _ser_term(t, names, depth=0):
    bound = sorted(t.bound, key=lambda b: b.name)
    if not bound:
        return '*'.join(sorted('%s^%s' % (_ser_atom(a, names), e) for a, e in t.atoms))
    col = {b: 'c%r' % b.size for b in bound}
    for _ in range(min(len(bound), 4) + 1):
        nm = dict(names)
        new = {}
        for b in bound:
            nm2 = dict(nm)
            for c in bound:
                nm2[c] = '<%s>' % col[c]
            nm2[b] = '<*>'
            sig = sorted('%s^%s' % (_ser_atom(a, nm2), e) for a, e in t.atoms
                         if b in atom_vars(a))
            new[b] = _digest(col[b] + '#' + '@'.join(sig))
        if len(set(new.values())) == len(set(col.values())) and _ > 0:
            col = new
            break
        col = new
    classes = {}
    for b in bound:
        classes.setdefault(col[b], []).append(b)
    keys = sorted(classes)
    total = 1
    for k in keys:
        for j in range(2, len(classes[k]) + 1):
            total *= j
    best = None
    if total > 720:
        combos = [[b for k in keys for b in classes[k]]]
    else:
        combos = [[b for grp in c for b in grp] for c in
                  itertools.product(*[list(itertools.permutations(classes[k])) for k in keys])]
    for c in combos:
        nm = dict(names)
        base = 'b%d_' % len([v for v in names.values() if str(v).startswith('b')])
        for j, b in enumerate(c):
            nm[b] = '%s%d' % (base, j)
        s = '*'.join(sorted('%s^%s' % (_ser_atom(a, nm), e) for a, e in t.atoms))
        s += '|' + ','.join(repr(b.size) for b in c)
        if best is None or s < best:
            best = s
    return best


def term_key(t):
    return _ser_term(t, {})


def epow(e, n):
    e = Expr.const(e)
    if n == 0:
        return Expr.const(1)
    if n > 0:
        r = e
        for _ in range(n - 1):
            r = r * e
        return r
    # negative
    if len(e.terms) == 1 and not e.terms[0].bound:
        t = e.terms[0]
        base = Expr([Term(Fraction(1) / t.coef, tuple((a, -x) for a, x in t.atoms))])
        base = Expr.build([u for u0 in base.terms for u in normalise(u0.coef, u0.atoms, u0.bound)])
        return epow(base, -n)
    if not e.terms:
        raise Undecided('division by zero')
    # normalise leading coefficient for canonical form
    k = e.key()
    c = k[0][1]
    ee = Expr([Term(t.coef / c, t.atoms, t.bound) for t in e.terms])
    return epow(Expr([Term(Fraction(1) / c, ((('F', 'inv', (ee,)), 1),))]), -n) \
        if n < -1 else Expr([Term(Fraction(1) / c, ((('F', 'inv', (ee,)), 1),))])


def efn(name, *args):
    args = tuple(args)
    x = args[0] if args else None
    if isinstance(x, Expr):
        if name == 'conj':
            return x.conj()
        c = x.as_const()
        if name in ('re', 'im'):
            return (x + x.conj()) * Expr.const(Fraction(1, 2)) if name == 're' else \
                (x - x.conj()) * Expr.const(Fraction(-1, 2)) * Expr.atom(('S', 'i'))
        if name in ('round', 'floor', 'ceil') and c is not None:
            import math
            return Expr.const({'round': round, 'floor': math.floor, 'ceil': math.ceil}[name](c))
        if name == 'sqrt' and c is not None and c >= 0:
            import math
            n, d = c.numerator, c.denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return Expr.const(Fraction(rn, rd))
        if name == 'abs':
            if c is not None:
                return Expr.const(abs(c))
            p = x.as_poly()
            if p is not None and p.nonneg():
                return x
            if any(a == ('S', 'i') for t in x.terms for a, _ in t.atoms):
                y = x * Expr.atom(('S', 'i'))
                if not any(a == ('S', 'i') for t in y.terms for a, _ in t.atoms):
                    return efn('abs', y)
            # abs(-x) = abs(x)
            k = x.key()
            if k and k[0][1] < 0:
                x = -x
            # |c*x| = |c| |x|
            k = x.key()
            if len(k) == 1 and k[0][1] != 1:
                cc = abs(k[0][1])
                return efn('abs', Expr([Term(t.coef / cc, t.atoms, t.bound) for t in x.terms])) \
                    * Expr.const(cc)
            args = (x,)
        if name in ('sin', 'cos') and c is not None and c == 0:
            return Expr.const(0 if name == 'sin' else 1)
        if name == 'exp' and c == 0:
            return Expr.const(1)
        if name in ('sin', 'cos'):
            r = trig(name, x)
            if r is not None:
                return r
            k = x.key()
            if k and k[0][1] < 0:
                r = Expr.atom(('F', name, (-x,)))
                return -r if name == 'sin' else r
    return Expr.atom(('F', name, args))


PI = Expr.atom(('S', 'pi'))


def trig(name, x):
    """rational multiples of pi with known values"""
    if len(x.terms) != 1:
        return None
    t = x.terms[0]
    if t.bound or t.atoms != ((('S', 'pi'), 1),):
        return None
    q = t.coef % 2          # x = q*pi, q in [0,2)
    tab = {Fraction(0): (1, 0), Fraction(1): (-1, 0), Fraction(1, 2): (0, 1),
           Fraction(3, 2): (0, -1)}
    half = Fraction(1, 2)
    s3 = efn_raw('sqrt', Expr.const(3)) * Expr.const(half)
    s2 = efn_raw('sqrt', Expr.const(2)) * Expr.const(half)
    if q in tab:
        c, s = tab[q]
        return Expr.const(c if name == 'cos' else s)
    ex = {Fraction(1, 3): (Expr.const(half), s3), Fraction(1, 6): (s3, Expr.const(half)),
          Fraction(1, 4): (s2, s2)}
    for base, (c, s) in ex.items():
        for qq, cc, ss in ((base, c, s), (1 - base, -c, s), (1 + base, -c, -s), (2 - base, c, -s)):
            if q == qq:
                return cc if name == 'cos' else ss
    # reduce to [0, 1/2)
    if q > 1:
        r = Expr.atom(('F', name, (PI * Expr.const(2 - q),)))
        r = efn(name, PI * Expr.const(2 - q))
        return -r if name == 'sin' else r
    if q > half:
        r = efn(name, PI * Expr.const(1 - q))
        return -r if name == 'cos' else r
    if q > Fraction(1, 4):
        return efn_raw('sin' if name == 'cos' else 'cos', PI * Expr.const(half - q))
    return efn_raw(name, PI * Expr.const(q))


def efn_raw(name, *args):
    return Expr.atom(('F', name, tuple(args)))


def delta(a, b):
    x = Idx.of(a) - Idx.of(b)
    return Expr.build(normalise(Fraction(1), ((('D', x), 1),), frozenset()))


DENSE = [False]         # shapes are literal constants: sums and indices are enumerated


def esum(size, fn, name='b'):
    """sum over an index of the given size of fn(Idx)->Expr, refining on demand"""
    size = Poly.of(size)
    if DENSE[0] and size.is_const() and size.const() <= 20000:
        terms = []
        for k in range(int(size.const())):
            terms.extend(Expr.const(fn(Idx.of(k))).terms)
        return Expr.build(terms)
    if size == 0:
        return Expr([])
    if size == 1:
        return Expr.const(fn(Idx.of(0)))
    v = IVar(size, name)
    return _esum(v, [v], fn, v.idx(), 0)


def _esum(v, vs, fn, val, depth):
    if depth > 60:
        raise Undecided('refinement depth')
    try:
        e = fn(val)
        e = Expr.const(e)
        terms = []
        for t in e.terms:
            terms.extend(normalise(t.coef, t.atoms, t.bound | frozenset(vs)))
        return Expr.build(terms)
    except Refine as r:
        if r.var not in vs:
            raise
        out = Expr([])
        for sub, nv in refine_sub(r):
            env = {r.var: sub}
            out = out + _esum(v, [x for x in vs if x is not r.var] + nv, fn,
                              val.subst(env), depth + 1)
        return out


def cases(idx_sizes, fn, limit=4000):
    """evaluate fn(list of Idx) for fresh free variables of the given sizes,
    partitioning on demand; returns list of (idxs, result)"""
    vs = [IVar(s, 'i') for s in idx_sizes]
    work = [([v.idx() for v in vs])]
    out = []
    n = 0
    while work:
        n += 1
        if n > limit:
            raise Undecided('too many index cases')
        idxs = work.pop()
        try:
            out.append((idxs, fn(idxs)))
        except Refine as r:
            free = set()
            for i in idxs:
                free |= i.vars()
            if r.var not in free:
                raise Undecided('refinement of a foreign variable')
            for sub, _ in reversed(refine_sub(r)):
                env = {r.var: sub}
                work.append([i.subst(env) for i in idxs])
    return out
