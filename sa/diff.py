"""Formal derivatives of terms with respect to the entries of a symbol array."""
from .core import *
from . import core, arrays
from .arrays import *


def d_function(name, x):
    """derivative of a unary function at the term x, as a term"""
    f = lambda n, y: Expr.atom(('F', n, (y,)))
    if name == 'sigmoid':
        return f('sigmoid', x) - f('sigmoid', x) * f('sigmoid', x)
    if name == 'sin':
        return f('cos', x)
    if name == 'cos':
        return -f('sin', x)
    if name == 'exp':
        return f('exp', x)
    if name == 'log':
        return core.epow(x, -1)
    if name == 'sqrt':
        return core.epow(f('sqrt', x) * 2, -1)
    if name == 'tanh':
        return Expr.const(1) - f('tanh', x) * f('tanh', x)
    if name in ('detach', 'stop_gradient'):
        return Expr.const(0)
    raise Undecided('derivative of %s' % name)


def mentions_sym(x, key):
    if isinstance(x, Expr):
        return any(mentions_sym(a, key) for t in x.terms for a, _ in t.atoms)
    if isinstance(x, tuple):
        if len(x) == 4 and x[0] == 'T' and isinstance(x[1], TSym):
            return x[1].key == key
        return any(mentions_sym(y, key) for y in x)
    return False


def diff_expr(e, sym, x, ix):
    """d e / d sym[ix]"""
    out = Expr([])
    for t in e.terms:
        for a, p in t.atoms:
            if a[0] == 'T' and a[1].key == sym.key:
                if not a[1].real:
                    raise Undecided('derivative in a complex variable')
                own = tuple(a[2])
                if len(own) != len(ix):
                    raise Undecided('derivative with respect to a slice')
                d = Expr.const(1)
                for u, v in zip(own, ix):
                    w = u - v
                    d = d * (Expr.const(1) if not w.t and not w.c.m else Expr.atom(('D', w)))
            elif a[0] == 'F' and mentions_sym(a, sym.key):
                if len(a[2]) != 1 or not isinstance(a[2][0], Expr):
                    raise Undecided('derivative of %s' % (a[1],))
                d = d_function(a[1], a[2][0]) * diff_expr(a[2][0], sym, x, ix)
            elif a[0] != 'T' and mentions_sym(a, sym.key):
                raise Undecided('derivative of %r' % (a[0],))
            else:
                continue
            rest = tuple((b, q) if b != a else (b, q - 1) for b, q in t.atoms)
            rest = tuple((b, q) for b, q in rest if q)
            terms = []
            for u in d.terms:
                if u.bound & t.bound:
                    u = core.freshen(u)
                terms.extend(core.normalise(t.coef * p * u.coef, core._amul(rest, u.atoms), t.bound | u.bound))
            out = Expr.build(out.terms + terms)
    return out


def replace_syms(e, env):
    """entries of symbol arrays replaced by entries of arrays: env maps symbol keys to arrays"""
    def any_(x):
        if isinstance(x, Expr):
            return replace_syms(x, env)
        if isinstance(x, tuple):
            return tuple(any_(y) for y in x)
        return x

    def f(a):
        if a[0] == 'T' and a[1].key in env:
            return env[a[1].key].ex(tuple(a[2]))
        if a[0] == 'F' and any(mentions_sym(a, k) for k in env):
            return Expr.atom(('F', a[1], any_(a[2])))
        return None
    return e.map_atoms(f)


def vjp_arrays(y, syms, primals, ct):
    """[sum_j ct[j] d y[j] / d x_k] with the entries of the symbol arrays replaced by the primals"""
    env = {s: p for (s, _), p in zip(syms, primals)}
    k = y.ndim
    out = []
    for (key, a), p in zip(syms, primals):
        sym = arrays_symbol(a)

        def fn(ix, sym=sym, a=a):
            return ct.ex(tuple(ix[:k])) * diff_expr(y.ex(tuple(ix[:k])), sym, a, tuple(ix[k:]))
        J = Arr(tuple(y.shape) + tuple(p.shape), fn, 'f', 'jnp')
        r = J if k == 0 else arrays.reduce_sum(J, tuple(range(k)))

        def sub(ix, r=r):
            return replace_syms(r.ex(tuple(ix)), env)
        r = r if isinstance(r, Arr) else Arr((), lambda ix, r=r: r, 'f', 'jnp')
        out.append(Arr(p.shape, sub, 'f', 'jnp'))
    return out


def arrays_symbol(a):
    from .models import base_symbol
    return base_symbol(a)
