"""Disequality witnesses for normal forms.

Two abstract values with different normal forms are reported as different only
when a valuation of the free symbols separates them (polynomial identity
refutation).  The analysed program is never run: only the abstract terms the
interpreter produced are evaluated, with small values for the dimension atoms
and hashed pseudo-random values for every tensor entry.
"""
import cmath
import hashlib
import itertools
import math
from fractions import Fraction
from .core import *
from . import core
from . import arrays


class NoValue(Exception):
    pass


def hval(key, seed):
    h = hashlib.md5(('%s|%s' % (seed, key)).encode()).digest()
    return int.from_bytes(h[:6], 'big') / float(1 << 48)


class Valuation:
    def __init__(self, dims, seed=0, budget=400000):
        self.dims = dims
        self.seed = seed
        self.perms = {}
        self.mats = {}
        self.opaques = set()
        self.budget = budget

    def poly(self, p):
        r = Fraction(0)
        for k, c in Poly.of(p).m.items():
            t = c
            for a, e in k:
                if a not in self.dims:
                    self.dims[a] = max(core.LOWER.get(a, 1), 2) + (len(self.dims) % 2)
                t *= Fraction(self.dims[a]) ** e
            r += t
        if r.denominator != 1:
            return r
        return int(r)

    def size(self, p):
        n = self.poly(p)
        if not isinstance(n, int) or n < 0:
            raise NoValue('size %r' % (p,))
        return n

    def idx(self, i, env):
        r = self.poly(i.c)
        for a, v in i.t.items():
            c = self.poly(v)
            if isinstance(a, IVar):
                if a not in env:
                    raise NoValue('free index')
                r += c * env[a]
            else:
                r += c * self.oapp(a, env)
        return r

    def oapp(self, a, env):
        s = a.sym
        args = tuple(self.idx(x, env) for x in a.args)
        if s.expand is not None:
            x = s.expand(a.args)
            if x is not None:
                return self.idx(x, env)
        if s.is_perm:
            n = self.size(s.bound)
            base, invert = (s, False)
            k = id(s)
            if k not in self.perms:
                fw = sorted(range(n), key=lambda j: hval('perm%s%d' % (s.name, j), self.seed))
                bw = [0] * n
                for j, x in enumerate(fw):
                    bw[x] = j
                self.perms[id(s)] = fw
                self.perms[id(s.inverse)] = bw
            if not 0 <= args[0] < n:
                raise NoValue('perm range')
            return self.perms[k][args[0]]
        return int(hval('int%s%s' % (s.name, args), self.seed) * self.size(s.bound))

    def expr(self, e, env):
        r = 0
        for t in e.terms:
            bs = sorted(t.bound, key=lambda b: b.name)
            rng = [range(self.size(b.size)) for b in bs]
            tot = 0
            for vals in itertools.product(*rng):
                self.budget -= 1
                if self.budget < 0:
                    raise NoValue('budget')
                en = env
                if bs:
                    en = dict(env)
                    en.update(zip(bs, vals))
                p = 1
                # cheap deltas first
                for a, ex in t.atoms:
                    if a[0] == 'D':
                        if self.idx(a[1], en) != 0:
                            p = 0
                            break
                if p == 0:
                    continue
                for a, ex in t.atoms:
                    if a[0] == 'D':
                        continue
                    v = self.atom(a, en)
                    if ex < 0 and v == 0:
                        raise NoValue('division by zero')
                    p = p * v ** ex
                    if p == 0:
                        break
                tot = tot + p
            r = r + (float(t.coef) if isinstance(tot, (float, complex)) else t.coef) * tot
        return r

    def atom(self, a, env):
        k = a[0]
        if k == 'T':
            s = a[1]
            ix = tuple(self.idx(i, env) for i in a[2])
            v = self.tensor(s, ix)
            return v.conjugate() if a[3] and isinstance(v, complex) else v
        if k == 'P':
            return self.poly(Poly.atom(a[1]))
        if k == 'X':
            return self.idx(a[1], env)
        if k == 'B':
            return 1 if self.idx(a[2], env) < 0 else 0
        if k == 'S':
            if a[1] == 'pi':
                return math.pi
            if a[1] == 'e':
                return math.e
            if a[1] == 'i':
                return 1j
            if a[1] == 'eps':
                raise NoValue('formal infinitesimal')
            if a[1].startswith('pos:'):
                return 0.5 + hval('S' + a[1], self.seed)
            return 2 * hval('S' + a[1], self.seed) - 1
        if k == 'F':
            return self.fun(a[1], a[2], env)
        raise NoValue('atom %s' % k)

    def tensor(self, s, ix):
        d = arrays.OPQ.get(s.key)
        if d is not None:
            fname, arrs, params, nd, extra = d
            if fname in ('inv', 'expm', 'matpow'):
                own, pv = ix[:nd], ix[nd:]
                mk = (s.key, pv, ix[:nd - 2])
                if mk not in self.mats:
                    self.mats[mk] = self.matfn(fname, arrs[0], dict(zip(params, pv)),
                                               ix[:nd - 2], extra)
                return self.mats[mk][own[-2]][own[-1]]
            self.opaques.add(s.key)
        key = 'T%s%s' % (s.key, ix)
        x = 2 * hval(key, self.seed) - 1
        if s.real:
            return x
        return complex(x, 2 * hval(key + 'im', self.seed) - 1)

    def matfn(self, fname, a, env, batch, extra):
        n = self.size(a.shape[-1])
        if n > 12:
            raise NoValue('size')
        m = [[self.arr_at(a, batch + (i, j), env) for j in range(n)] for i in range(n)]
        m = [[x if isinstance(x, complex) else float(x) for x in r] for r in m]
        if fname == 'inv':
            return ninv(m)
        if fname == 'expm':
            return nexpm(m)
        raise NoValue(fname)

    def arr_at(self, a, ix, env):
        """numeric value of an abstract array entry"""
        vs = [IVar(s, 'z') for s in a.shape]
        e2 = dict(env)
        return self._at(a, [Idx.of(i) for i in ix], e2)

    def _at(self, a, ix, env):
        v = a.at(ix)
        return self.val(v, env)

    def val(self, v, env):
        if isinstance(v, Idx):
            return self.idx(v, env)
        if isinstance(v, arrays.UBool):
            v = arrays.to_expr(v)
        if isinstance(v, Expr):
            return self.expr(v, env)
        if isinstance(v, Poly):
            return self.poly(v)
        if isinstance(v, (int, float, complex, Fraction)):
            return v
        raise NoValue('value %r' % (v,))

    def fun(self, name, args, env):
        if name in ('bool',):
            self.opaques.add(repr(args))
            return 1 if hval('bool%r' % (args,), self.seed) > .5 else 0
        vals = []
        for x in args:
            if isinstance(x, (Expr, Idx)):
                vals.append(self.val(x, env))
            else:
                vals = None
                break
        if vals is not None and vals:
            f = FUN.get(name)
            if f is not None:
                if name in REALFUN:
                    vals = [real_of(x, name) for x in vals]
                try:
                    r = f(*[x if isinstance(x, complex) else float(x) for x in vals])
                except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                    raise NoValue(name)
                return r
            self.opaques.add(name)
            return 2 * hval('F%s%s' % (name, ['%.9g%+.9gj' % (complex(x).real, complex(x).imag)
                                              for x in vals]), self.seed) - 1
        key = 'F%s(%s)' % (name, ','.join(self.ser(x, env) for x in args))
        self.opaques.add(name)
        return 2 * hval(key, self.seed) - 1

    def ser(self, x, env):
        if isinstance(x, (Expr, Idx)):
            v = complex(self.val(x, env))
            return '%.9g%+.9gj' % (v.real, v.imag)
        if isinstance(x, tuple):
            return '(' + ','.join(self.ser(y, env) for y in x) + ')'
        return repr(x)


def _c(f, g):
    return lambda x: g(x) if isinstance(x, complex) else f(x)


def _round0(x):
    return float(math.floor(x))


FUN = {
    'sin': _c(math.sin, cmath.sin), 'cos': _c(math.cos, cmath.cos), 'exp': _c(math.exp, cmath.exp),
    'tan': _c(math.tan, cmath.tan), 'tanh': _c(math.tanh, cmath.tanh),
    'sqrt': lambda x: math.sqrt(x) if not isinstance(x, complex) and x >= 0 else cmath.sqrt(x),
    'abs': abs, 'log': _c(math.log, cmath.log), 'sign': lambda x: (x > 0) - (x < 0),
    'arctan': math.atan, 'arctan2': math.atan2, 'arccos': math.acos, 'arcsin': math.asin,
    'inv': lambda x: 1 / x, 'max': max, 'min': min, 'maximum': max, 'minimum': min,
    'real': lambda x: x.real if isinstance(x, complex) else x,
    'imag': lambda x: x.imag if isinstance(x, complex) else 0.0,
    'sigmoid': lambda x: 1 / (1 + math.exp(-x)), 'floor': _round0,
    'relu': lambda x: max(x, 0.0), 'conj': lambda x: x.conjugate(),
    'detach': lambda x: x,
    'sinh': math.sinh, 'cosh': math.cosh,
}


REALFUN = ('maximum', 'minimum', 'max', 'min', 'sign', 'arctan', 'arctan2', 'arccos', 'arcsin', 'sigmoid', 'floor', 'relu',
           'sinh', 'cosh')


def real_of(x, name):
    """operand of a function of real numbers: rounding may have left a tiny imaginary part"""
    if isinstance(x, complex):
        if abs(x.imag) > 1e-9 * max(1.0, abs(x.real)):
            raise NoValue(name + ' of a complex number')
        return x.real
    return x


def nmul(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def ninv(m):
    n = len(m)
    A = [list(r) + [1.0 * (i == j) for j in range(n)] for i, r in enumerate(m)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(A[r][c]))
        if abs(A[p][c]) < 1e-7:
            raise NoValue('singular')
        A[c], A[p] = A[p], A[c]
        pv = A[c][c]
        A[c] = [x / pv for x in A[c]]
        for r in range(n):
            if r != c:
                f = A[r][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return [r[n:] for r in A]


def nexpm(m):
    n = len(m)
    s = 6
    m = [[x / 2 ** s for x in r] for r in m]
    r = [[1.0 * (i == j) for j in range(n)] for i in range(n)]
    t = [list(x) for x in r]
    for k in range(1, 16):
        t = [[x / k for x in row] for row in nmul(t, m)]
        r = [[x + y for x, y in zip(a, b)] for a, b in zip(r, t)]
    for _ in range(s):
        r = nmul(r, r)
    return r


DIMVALS = [[2, 3, 2, 3, 2, 2], [3, 2, 2, 4, 2, 3], [2, 2, 3, 2, 3, 2]]


def opaque_keys(e):
    out = set()

    def rec(x):
        if isinstance(x, Expr):
            for t in x.terms:
                for a, _ in t.atoms:
                    ra(a)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)

    def ra(a):
        if a[0] == 'T':
            d = arrays.OPQ.get(a[1].key)
            if d is not None and d[0] not in ('inv', 'expm'):
                out.add(a[1].key)
        elif a[0] == 'F':
            if a[1] not in FUN:
                out.add('F' + a[1] + ('' if all(isinstance(x, (Expr, Idx)) for x in a[2])
                                      else repr([x for x in a[2] if not isinstance(x, (Expr, Idx))])))
            rec(tuple(a[2]))
    rec(e)
    return out


def gen_dims(names, seed=1, want=4):
    """assignments of small sizes to dimension atoms that satisfy every assumed order fact"""
    import random
    names = sorted(set(names) | {a for f in core.FACTS for a in f.atoms()})
    out = []

    def ok(d):
        return all(core.peval(f, d) >= 0 for f in core.FACTS)
    for dv in DIMVALS:
        d = {n: max(core.LOWER.get(n, 1), dv[j % len(dv)]) for j, n in enumerate(names)}
        if ok(d):
            out.append(d)
    if core.FACTS and len(out) < want:
        rnd = random.Random(seed)
        for t in range(3000):
            d = {n: core.LOWER.get(n, 1) + rnd.randrange(1, 4 + t // 300) for n in names}
            if ok(d) and d not in out:
                out.append(d)
                if len(out) >= want:
                    break
    return out


def int_table(a, V):
    """values of a 1-d integer array at the sizes of valuation V, as {position: value}"""
    out = {}
    for arg, val in arrays.perm_pieces(a):
        vs = sorted(arg.vars(), key=lambda v: v.name)
        for vals in itertools.product(*[range(V.size(v.size)) for v in vs]):
            env = dict(zip(vs, vals))
            out[V.idx(arg, env)] = V.idx(val, env)
    return out


def int_arrays_equal(a, b):
    """compare two integer arrays at generic sizes: True (same at all tried), False (differ at
    all tried), None"""
    atoms = {x for s in a.shape + b.shape for x in s.atoms()}
    res = set()
    for d in gen_dims(atoms)[:4]:
        for s in range(2):
            try:
                V = Valuation(dict(d), seed='eq%d' % s)
                res.add(int_table(a, V) == int_table(b, V))
            except (NoValue, Undecided, Refine):
                return None
    return res.pop() if len(res) == 1 else None


def differ(x, y, seed=1):
    """a valuation separating the two abstract scalars, or None"""
    x = Expr.const(x) if isinstance(x, Idx) else arrays.to_expr(x)
    y = Expr.const(y) if isinstance(y, Idx) else arrays.to_expr(y)
    if opaque_keys(x) != opaque_keys(y):
        ox, oy = opaque_keys(x), opaque_keys(y)
        if ox and oy:
            return None
        # one side has an uninterpreted symbol the other lacks entirely
        return None
    fv = sorted(free_vars(x) | free_vars(y), key=lambda v: v.name)
    atoms = set()

    def collect(e):
        for t in e.terms:
            for a, _ in t.atoms:
                if a[0] == 'P':
                    atoms.add(a[1])
            for b in t.bound:
                atoms.update(b.size.atoms())
    collect(x)
    collect(y)
    for v in fv:
        atoms.update(v.size.atoms())
    names = sorted(atoms)
    for k, dims in enumerate(gen_dims(names)):
        for s in range(2):
            V = Valuation(dict(dims), seed='%d/%d/%d' % (seed, k, s))
            try:
                sizes = [V.size(v.size) for v in fv]
            except NoValue:
                continue
            if any(n <= 0 for n in sizes):
                continue
            combos = list(itertools.islice(itertools.product(*[range(n) for n in sizes]), 400))
            combos.sort(key=lambda c: hval(str(c), s))
            for c in combos[:24]:
                env = dict(zip(fv, c))
                try:
                    V.budget = 200000
                    a = complex(V.expr(x, env))
                    b = complex(V.expr(y, env))
                except NoValue:
                    continue
                if a != a or b != b:
                    continue
                if abs(a - b) > 1e-6 * max(1.0, abs(a), abs(b)):
                    return {'sizes': dict(V.dims), 'indices': {v.name: i for v, i in env.items()},
                            'got': _fmt(a), 'want': _fmt(b)}
    return None


def _fmt(z):
    return '%.6g' % z.real if abs(z.imag) < 1e-12 else '%.6g%+.6gj' % (z.real, z.imag)
