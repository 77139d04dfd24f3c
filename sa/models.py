"""Abstract semantics of the external libraries (numpy, jax, functools, ...)."""
import itertools as _itertools
import math as _math
import os as _os
import string as _string
from fractions import Fraction
from .core import *
from . import core
from .arrays import *
from . import arrays
from . import interp as I
from .interp import (Native, Opaque, Obj, Cls, Func, Bound, ADict, ASet, AbsRaise, DType, MultiFn,
                     Repeat, SymRange, HashVal, NUM, _MISSING, ExtMod, Module, KeysView)

NATIVE_ROOTS = {
    'numpy', 'jax', 'scipy', 'functools', 'itertools', 'collections', 'math', 'logging', 'sys',
    'importlib', 'pkgutil', 'typing', 'types', 'copy', 'os', 'random', 'warnings', 'time',
    'operator', 'string', 're', 'abc', 'dataclasses', 'sklearn', 'matplotlib', 'pandas', 'seaborn',
    'tqdm', 'optax', 'json', 'pickle', 'argparse', 'inspect', 'contextlib', 'numbers', 'builtins',
    '_native_torch', '_spec', 'torchvision', 'snap_ml', 'h5py', 'einops', 'datetime',
    'pathlib', 'subprocess', 'enum', '__future__', 'textwrap', 'traceback', 'unittest', 'pytest',
    'plum', 'bokeh', 'lie_conv', 'imageio', 'plotly',
}


def is_native_module(name):
    return name.split('.')[0] in NATIVE_ROOTS


EXTRA = {}          # (module, attr) -> value factory, registered by the spec layer


# ---------------------------------------------------------------- dtypes
DT = {'float32': 'f', 'float64': 'f', 'float16': 'f', 'float': 'f', 'int32': 'i', 'int64': 'i',
      'int': 'i', 'int8': 'i', 'uint8': 'i', 'bool': 'b', 'bool_': 'b', 'complex64': 'c',
      'complex128': 'c', 'complex': 'c', 'complex_': 'c', 'float_': 'f', 'double': 'f', 'long': 'i',
      'uint32': 'i'}
DTS = {n: DType(k, n) for n, k in DT.items()}
KIND_NAME = {'f': 'float32', 'i': 'int32', 'b': 'bool', 'c': 'complex64'}


def kind_of(d):
    if d is None:
        return None
    if isinstance(d, DType):
        return d.kind
    if isinstance(d, Cls):
        return {'float': 'f', 'int': 'i', 'bool': 'b', 'complex': 'c'}.get(d.name)
    if isinstance(d, str):
        return DT.get(d)
    if isinstance(d, Opaque):
        return None
    raise Undecided('dtype %r' % (d,))


# ---------------------------------------------------------------- helpers
def arr(x, lib='np'):
    if isinstance(x, Arr):
        return x
    if isinstance(x, UBool):
        return Arr((), lambda ix: to_expr(x), 'b', lib)
    if isinstance(x, bool):
        return Arr((), lambda ix: Expr.const(int(x)), 'b', lib)
    if isinstance(x, NUM):
        dt = scalar_dt(x)
        v = Idx.of(x) if dt == 'i' else to_expr(x)
        return Arr((), lambda ix: v, dt, lib)
    if isinstance(x, (list, tuple)):
        return nested(x, lib)
    if isinstance(x, range):
        return from_nested(list(x), lib)
    if isinstance(x, SymRange):
        return x.arr()
    raise Undecided('array from %r' % (x,))


def with_lib(a, lib):
    if a.lib == lib:
        return a
    r = Arr(a.shape, a.fn, a.dtype, lib, name=a.name)
    r.attrs.update(a.attrs)
    if getattr(a, 'inverse', None) is not None:
        r.inverse = a.inverse
    if hasattr(a, 'tab'):
        r.tab = a.tab
    return r


def nested(x, lib, dtype=None):
    """np.array(list) allowing arrays / symbolic repetition inside"""
    x = list(x)
    if any(isinstance(y, Repeat) for y in x):
        if len(x) == 1 and getattr(x[0], 'cell', None) is not None:
            return stack_cell(x[0], lib)
        parts = []
        for y in x:
            if isinstance(y, Repeat):
                v = arr(y.value, lib)
                parts.append(Arr((y.count,) + v.shape, (lambda v: lambda ix: v.at(ix[1:]))(v),
                                 v.dtype, lib))
            else:
                v = arr(y, lib)
                parts.append(Arr((1,) + v.shape, (lambda v: lambda ix: v.at(ix[1:]))(v),
                                 v.dtype, lib))
        return concatenate(parts, 0)
    if x and any(isinstance(y, (Arr,)) for y in x):
        return stack([arr(y, lib) for y in x], 0, lib)
    if x and any(isinstance(y, (list, tuple)) for y in x):
        return stack([nested(y, lib) if isinstance(y, (list, tuple)) else arr(y, lib) for y in x],
                     0, lib)
    if any(isinstance(y, (Obj, str, I.SymStr, Func, Cls)) or y is None for y in x):
        raise Undecided('array of objects')
    return from_nested(x, lib, dtype)


def stack(arrs, axis=0, lib=None):
    arrs = list(arrs)
    if not arrs:
        raise ShapeError('need at least one array to stack')
    lib = lib or join_lib(*arrs)
    s0 = arrs[0].shape
    for a in arrs:
        if a.shape != s0:
            raise ShapeError('all input arrays must have the same shape: %s vs %s'
                             % (list(s0), list(a.shape)))
    nd = len(s0) + 1
    ax = axis % nd
    sh = s0[:ax] + (len(arrs),) + s0[ax:]
    snaps = [Arr(a.shape, a.fn, a.dtype, a.lib) if a.lib == 'np' else a for a in arrs]

    def fn(ix):
        i = ix[ax]
        k = const_index(i, len(arrs))
        return snaps[k].at(ix[:ax] + ix[ax + 1:])
    return Arr(sh, fn, dt_join(*[a.dtype for a in arrs]), lib)


# ---------------------------------------------------------------- batching cells
def cell_elem(a, cell, ax=0):
    """element of array a at the dynamically bound index of `cell`"""
    sh = a.shape[:ax] + a.shape[ax + 1:]
    r = Arr(sh, lambda ix: a.at(tuple(ix[:ax]) + (cell.val,) + tuple(ix[ax:])), a.dtype, a.lib)
    return r


def cell_bind(r, cell, ax=0):
    """inverse of cell_elem: put the bound index back as axis `ax`"""
    v = cell.var
    sh = r.shape[:ax] + (v.size,) + r.shape[ax:]
    for s in r.shape:
        pass

    def fn(ix):
        old = cell.val
        cell.val = Idx.of(ix[ax])
        arrays.ACTIVE_CELLS.append(cell)
        try:
            x = r.at(tuple(ix[:ax]) + tuple(ix[ax + 1:]))
            if isinstance(x, (Expr, Idx)) and v in free_vars(x):
                x = x.subst({v: cell.val})
        finally:
            cell.val = old
            arrays.ACTIVE_CELLS.pop()
        return x
    return Arr(sh, fn, r.dtype, r.lib)


def stack_cell(rep, lib, axis=0):
    v = arr(rep.value, lib)
    return cell_bind(v, rep.cell, axis % (v.ndim + 1))


def concat_cell(rep, axis, lib):
    """concatenate(list) where the list is indexed by a symbolic axis"""
    v = arr(rep.value, lib)
    ax = axis % v.ndim
    b = cell_bind(v, rep.cell, ax)          # (..., n, m, ...)
    sh = list(v.shape)
    sh[ax] = sh[ax] * Poly.of(rep.count)
    return reshape(b, sh)


def seq_arrays(xs, lib):
    return [arr(x, lib) for x in xs]


# ---------------------------------------------------------------- array methods
def shape_arg(it, a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        a = tuple(a[0])
    if len(a) == 1 and isinstance(a[0], Arr) and a[0].ndim == 1:
        a = tuple(it.iterate(a[0]))
    out = []
    for s in a:
        if isinstance(s, (float,)) and not isinstance(s, bool):
            it.raise_('TypeError', "'float' object cannot be interpreted as an integer")
        if isinstance(s, Fraction):
            it.raise_('TypeError', "'float' object cannot be interpreted as an integer")
        if s is NotImplemented or s is None or isinstance(s, str):
            it.raise_('TypeError', "object cannot be interpreted as an integer")
        out.append(int_of(s))
    return tuple(out)


def shp(a):
    return tuple(s.norm() for s in a.shape)


def conj(a):
    if isinstance(a, Arr):
        if a.dtype != 'c':
            return a
        return ew(lambda x: x.conj(), a)
    if isinstance(a, Expr):
        return a.conj()
    if isinstance(a, complex):
        return a.conjugate()
    return a


def astype(a, d):
    k = kind_of(d)
    if k is None or k == a.dtype:
        r = Arr(a.shape, a.fn, a.dtype, a.lib)
        r.attrs.update(a.attrs)
        return r
    if k == 'i' and a.dtype == 'f':
        def g(x):
            if isinstance(x, Idx):
                return x
            c = x.as_const() if isinstance(x, Expr) else None
            if c is not None:
                return Idx.of(int(c))
            try:
                return to_idx(x)
            except Undecided:
                return efn('trunc', to_expr(x))
        return ew(g, a, dtype='i', raw=True)
    if k == 'i' and a.dtype == 'b':
        return Arr(a.shape, a.fn, 'i', a.lib)
    if k == 'b':
        return ew(lambda x: I.cmp_expr('ne', x, Expr.const(0)), a, dtype='b')
    if k == 'f' and a.dtype == 'c':
        return ew(lambda x: efn('re', x), a, dtype='f')
    return ew(lambda x: x, a, dtype=k)


def roll(a, k, axis=None):
    k = int_of(k)
    if axis is None:
        if a.ndim == 1:
            axis = 0
        else:
            return reshape(roll(reshape(a, (a.size(),)), k, 0), a.shape)
    ax = axis % a.ndim
    n = a.shape[ax]
    if k == 0 or n == 1:
        return a
    kp = Poly.of(k)
    # split: last k elements first
    q = core.pdiv(kp, n)
    if q is not None and is_int_poly(q):
        return a
    if n.is_const() and kp.is_const():
        kk = Poly.of(int(kp.const()) % int(n.const()))
    else:
        kk = kp if (kp).positive() else kp + n
    if not (n - kk).positive() and not (n - kk) == 0:
        raise Undecided('roll amount')
    g = Arr(a.shape, a.fn, a.dtype, a.lib) if a.lib == 'np' else a
    return concatenate([slice_axis(g, ax, n - kk, n), slice_axis(g, ax, Poly.of(0), n - kk)], ax)


def flip(a, axis=None):
    axes = range(a.ndim) if axis is None else ([axis] if isinstance(axis, int) else axis)
    r = a
    for ax in axes:
        key = [slice(None)] * r.ndim
        key[ax % r.ndim] = slice(None, None, -1)
        r = getitem(r, tuple(key))
    return r


def rot90(m, k=1, axes=(0, 1)):
    k = k % 4
    if k == 0:
        return m
    if k == 2:
        return flip(flip(m, axes[0]), axes[1])
    perm = list(range(m.ndim))
    perm[axes[0]], perm[axes[1]] = perm[axes[1]], perm[axes[0]]
    if k == 1:
        return transpose(flip(m, axes[1]), perm)
    return flip(transpose(m, perm), axes[1])


def kron(a, b):
    if a.ndim != b.ndim:
        while a.ndim < b.ndim:
            a = reshape(a, (1,) + a.shape)
        while b.ndim < a.ndim:
            b = reshape(b, (1,) + b.shape)
    nd = a.ndim
    sh = []
    for s, t in zip(a.shape, b.shape):
        sh += [s, t]
    pr = Arr(sh, lambda ix: a.ex(ix[0::2]) * b.ex(ix[1::2]), dt_join(a.dtype, b.dtype),
             join_lib(a, b))
    return reshape(pr, [s * t for s, t in zip(a.shape, b.shape)])


def block_diag(arrs):
    arrs = [a if a.ndim == 2 else reshape(a, (1, a.size())) for a in arrs]
    lib = join_lib(*arrs)
    if len(arrs) == 1:
        return arrs[0]
    ro, co = [Poly.of(0)], [Poly.of(0)]
    for a in arrs:
        ro.append(ro[-1] + a.shape[0])
        co.append(co[-1] + a.shape[1])

    def fn(ix):
        i, j = ix
        p, q = seg_lookup(i, ro), seg_lookup(j, co)
        if p != q:
            return Expr.const(0)
        return arrs[p].ex((i - Idx(ro[p], {}), j - Idx(co[q], {})))
    return Arr((ro[-1], co[-1]), fn, dt_join(*[a.dtype for a in arrs]), lib)


def einsum(spec, ops):
    spec = spec.replace(' ', '')
    if '...' in spec:
        head, arrow, out = spec.partition('->')
        parts = head.split(',')
        free = [c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if c not in spec]
        k = max([o.ndim - (len(p) - 3) for p, o in zip(parts, ops) if '...' in p] or [0])
        ell = ''.join(free[:k])
        if not arrow:
            cnt = ''.join(p.replace('...', '') for p in parts)
            out = '...' + ''.join(sorted(c for c in set(cnt) if cnt.count(c) == 1))
        parts = [p.replace('...', ell[k - (o.ndim - len(p) + 3):]) for p, o in zip(parts, ops)]
        spec = ','.join(parts) + '->' + out.replace('...', ell)
    ins, _, out = spec.partition('->')
    ins = ins.split(',')
    if '->' not in spec:
        cnt = {}
        for c in ''.join(ins):
            cnt[c] = cnt.get(c, 0) + 1
        out = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    sizes = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ShapeError('einsum: operand rank')
        for c, n in zip(s, o.shape):
            if c in sizes and sizes[c] != n:
                raise ShapeError('einsum: size of %s' % c)
            sizes[c] = n
    summed = [c for c in sizes if c not in out]

    def fn(ix):
        env = dict(zip(out, ix))

        def rec(k, env):
            if k == len(summed):
                r = Expr.const(1)
                for s, o in zip(ins, ops):
                    r = r * o.ex([env[c] for c in s])
                return r
            c = summed[k]
            return esum(sizes[c], lambda b: rec(k + 1, dict(env, **{c: b})))
        return rec(0, env)
    return Arr([sizes[c] for c in out], fn, dt_join(*[o.dtype for o in ops]), join_lib(*ops))


def const_values(a):
    """nested python list of constant entries, or None"""
    if not a.size().is_const() or a.size().const() > 4000:
        return None
    dims = [int(s.const()) for s in a.shape]
    out = []
    try:
        for c in _itertools.product(*[range(d) for d in dims]):
            v = a.at([Idx.of(x) for x in c])
            if isinstance(v, Idx):
                if not v.is_const() or not v.c.is_const():
                    return None
                out.append(v.c.const())
            else:
                k = to_expr(v).as_const()
                if k is None:
                    return None
                out.append(k)
    except Refine:
        return None
    return out


def rebuild(vals, shape, dtype, lib):
    dims = [int(Poly.of(s).const()) for s in shape]
    st = []
    p = 1
    for d in reversed(dims):
        st.insert(0, p)
        p *= d
    vals = [Idx.of(int(v)) if dtype == 'i' else Expr.const(v) for v in vals]

    def fn(ix):
        k = 0
        for i, s, d in zip(ix, st, dims):
            k += const_index(i, d) * s
        return vals[k]
    return Arr(shape, fn, dtype, lib)


EPS = ('S', 'eps')


def split_eps(a):
    """(value, derivative) arrays of an array containing the formal infinitesimal"""
    return (ew(lambda x: x.subst_sym(EPS, 0) if False else eps_part(x, 0), a),
            ew(lambda x: eps_part(x, 1), a))


def eps_part(x, k):
    out = Expr([])
    for t in x.terms:
        e = 0
        rest = []
        for a, n in t.atoms:
            if a == EPS:
                e += n
            else:
                if has_eps(a):
                    raise Undecided('derivative of a non-polynomial term')
                rest.append((a, n))
        if e == k:
            out = out + Expr.build(core.normalise(t.coef, tuple(rest), t.bound))
    return out


def has_eps(a):
    if isinstance(a, tuple):
        if a == EPS:
            return True
        return any(has_eps(x) for x in a)
    if isinstance(a, Expr):
        return any(has_eps(at) for t in a.terms for at, _ in t.atoms)
    return False


def arr_has_eps(a):
    cs = cases(a.shape, lambda ix: a.at(ix))
    return any(has_eps(v) for _, v in cs if isinstance(v, Expr))


def int_const(i):
    i = Idx.of(i)
    if i.t or not i.c.is_const():
        return None
    return int(i.c.const())


def core_sum_delta(i, n, f):
    r = Expr([])
    for k in range(n):
        r = r + Expr.atom(('D', Idx.of(i) - Idx.of(k))) * f(k)
    return r


def inv(it, a):
    if a.ndim != 2:
        if a.ndim > 2:
            lead = [Poly.of(d) for d in a.shape[:-2]]
            if not all(d.is_const() for d in lead) or _math.prod([int(d.const()) for d in lead]) > 64:
                raise Undecided('batched inverse')
            parts = {}

            def part(k, ix):
                if k not in parts:
                    at = tuple(Idx.of(i) for i in k)
                    parts[k] = inv(it, Arr(a.shape[-2:], lambda jx: a.ex(at + tuple(jx)), a.dtype, a.lib))
                return parts[k].ex(tuple(ix))

            def fn(ix):
                ks = [int_const(i) for i in ix[:-2]]
                if None not in ks:
                    return part(tuple(ks), ix[-2:])
                if len(ks) == 1:
                    return core_sum_delta(ix[0], int(lead[0].const()), lambda k: part((k,), ix[-2:]))
                raise Undecided('batched inverse')
            return Arr(a.shape, fn, 'c' if a.dtype == 'c' else 'f', a.lib)
        it.raise_('ValueError', 'inv of rank %d' % a.ndim)
    if a.shape[0] != a.shape[1]:
        it.raise_('ValueError', 'Argument to inverse must have shape [..., n, n], got %s'
                  % (list(a.shape),))
    if arr_has_eps(a):
        x0, dx = split_eps(a)
        i0 = inv(it, x0)
        e = Expr.atom(EPS)
        return add(i0, ew(lambda x: x * e, matmul(matmul(i0, dx), i0)), -1)
    c = const_values(a)
    if c is not None:
        n = int(a.shape[0].const())
        m = inv_const([c[i * n:(i + 1) * n] for i in range(n)])
        if m is not None:
            return rebuild([x for r in m for x in r], a.shape, 'f' if a.dtype != 'c' else 'c', a.lib)
    # identity
    if is_identity(a):
        return a
    # common rational factor
    try:
        cs = cases(a.shape, lambda ix: a.ex(ix))
        coefs = {t.coef for _, v in cs for t in v.terms}
        if len(coefs) == 1:
            k = coefs.pop()
            if k != 1:
                b = ew(lambda x: x * Expr.const(1 / k), a)
                return ew(lambda x: x * Expr.const(1 / k), inv(it, with_lib(b, a.lib)))
    except Undecided:
        pass
    # inv(A.T) is inv(A).T: one atom for both
    try:
        t = transpose(a)
        if content_key(t)[0] < content_key(a)[0]:
            return transpose(opaque_arr('inv', [t], a.shape, real=a.dtype != 'c', lib=a.lib))
    except Undecided:
        pass
    return opaque_arr('inv', [a], a.shape, real=a.dtype != 'c', lib=a.lib)


def is_identity(a):
    try:
        cs = cases(a.shape, lambda ix: a.ex(ix))
        return all(v == delta(ix[0], ix[1]) for ix, v in cs)
    except (Undecided,):
        return False


def inv_const(m):
    n = len(m)
    if any(not isinstance(x, (int, Fraction)) for r in m for x in r):
        return None
    A = [[Fraction(x) for x in r] + [Fraction(int(i == j)) for j in range(n)]
         for i, r in enumerate(m)]
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c] != 0), None)
        if p is None:
            return None
        A[c], A[p] = A[p], A[c]
        pv = A[c][c]
        A[c] = [x / pv for x in A[c]]
        for r in range(n):
            if r != c and A[r][c] != 0:
                f = A[r][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return [r[n:] for r in A]


def unary(name, fn=None, dtype=None):
    def f(it, x, *a, **kw):
        if isinstance(x, Opaque):
            return Opaque('%s(%s)' % (name, x.key))
        g = fn or (lambda e: efn(name, e))
        if isinstance(x, Arr):
            dt = dtype
            if dt is None and x.dtype in 'ib' and name not in ('abs', 'conj', 'negative', 'square',
                                                               'real', 'sign'):
                dt = 'f'
            if name in ('abs', 'real', 'imag') and x.dtype == 'c':
                dt = 'f'
            return ew(g, x, dtype=dt)
        if isinstance(x, (list, tuple, range)):
            return ew(g, arr(x), dtype=dtype)
        if isinstance(x, Obj):
            raise Undecided('%s of object' % name)
        if x is None or isinstance(x, str):
            it.raise_('TypeError', '%s of %s' % (name, it.type_name(x)))
        return I.nexpr(g(to_expr(x)))
    return f


def sample_seq(it, seq):
    return seq


_rand = _itertools.count()


def fresh(it, what, shape, dtype='f', lib='np', extra=''):
    it.rand_ctr = getattr(it, 'rand_ctr', 0) + 1
    a = sym_arr('%s#%d%s' % (what, it.rand_ctr, extra), shape, dtype=dtype, lib=lib)
    a.attrs['random'] = what
    a.name = what
    it.__dict__.setdefault('drawn', []).append((what, a.snap()))
    return a


def pinned(it, lo, hi, shape, distinct=False):
    """one literal outcome of a random draw of integers (specifications enumerate several)"""
    lo, hi = int_of(lo), int_of(hi)
    m = hi - lo
    vals = []
    c = Poly.of(1)
    for s in shape:
        c = c * Poly.of(s)
    c = int(c.const())
    m = int(Poly.of(m).const())
    if m <= 0 and c:
        raise Undecided('random draw from an empty range')
    for i in range(c):
        p = it.pin
        vals.append(i % m if p == 'first' else (m - 1 - i) % m if p == 'rev' or distinct else m - 1)
    lo = int(Poly.of(lo).const())
    if not shape:
        return lo + vals[0]
    a = A('np', [lo + v for v in vals])
    if not vals:
        a = Arr((Poly.of(0),), lambda ix: Expr.of(0), 'i', 'np')
    return a if len(shape) == 1 else arrays.reshape(a, tuple(shape))


class Model:
    """namespace for numpy-like functions; `lib` is the result flavour"""


def np_attr(it, lib, name):
    """numpy / jax.numpy attribute"""
    if name in DTS and name not in ():
        if name in ('float', 'int', 'bool', 'complex') and lib in ('np', 'jnp'):
            # removed aliases in the installed numpy / jax
            if not (lib == 'jnp' and name == 'float') or True:
                it.raise_('AttributeError', "module '%s' has no attribute '%s'"
                          % ('numpy' if lib == 'np' else 'jax.numpy', name))
        return DTS[name]
    if name == 'pi':
        return core.Expr.atom(('S', 'pi'))
    if name == 'e':
        return Expr.atom(('S', 'e'))
    if name in ('inf', 'Inf'):
        return float('inf')
    if name == 'nan':
        return float('nan')
    if name == 'newaxis':
        return None
    if name == 'ndarray' or (name == 'Array' and lib == 'jnp'):
        return array_class(it, lib)
    if name in ('integer', 'signedinteger'):
        return tcls(it, 'np.integer')
    if name in ('floating', 'number', 'generic', 'inexact'):
        return tcls(it, 'np.' + name)
    if name == 'dtype':
        return Native('dtype', lambda it, d, **k: DTS['float32'] if d is None else (
            d if isinstance(d, DType) else DTS.get(d if isinstance(d, str) else d.name, Opaque('dtype'))))
    if name == 'linalg':
        return ExtMod('numpy.linalg' if lib == 'np' else 'jax.numpy.linalg')
    if name == 'random':
        return ExtMod('numpy.random')
    f = NP.get(name)
    if f is None:
        return _MISSING
    return Native(name, lambda it, *a, **k: f(it, lib, *a, **k))


def array_class(it, lib):
    return tcls(it, {'np': 'np.ndarray', 'jnp': 'jnp.ndarray', 'torch': 'torch.Tensor'}[lib])


def tcls(it, n):
    d = it.__dict__.setdefault('_tcls', {})
    if n not in d:
        d[n] = Cls(n, [it.builtins['object']], {}, native=n)
    return d[n]


NP = {}


def np(name):
    def d(f):
        for n in name.split():
            NP[n] = f
        return f
    return d


def A(lib, x):
    if isinstance(x, Opaque):
        raise Undecided('array function on unknown value %s' % x.key)
    if isinstance(x, Obj):
        raise Undecided('array function on object')
    a = arr(x, lib)
    return a


def out(a, lib):
    if isinstance(a, Arr) and lib == 'jnp' and a.lib != 'jnp':
        return with_lib(a, 'jnp')
    return a


@np('zeros')
def _zeros(it, lib, shape, dtype=None, **k):
    return const_arr(shape_arg(it, (shape,)), 0, kind_of(dtype) or 'f', lib)


@np('ones')
def _ones(it, lib, shape, dtype=None, **k):
    return const_arr(shape_arg(it, (shape,)), 1, kind_of(dtype) or 'f', lib)


@np('full')
def _full(it, lib, shape, v, dtype=None, **k):
    v = v.at(()) if isinstance(v, Arr) and v.ndim == 0 else v
    return const_arr(shape_arg(it, (shape,)), v, kind_of(dtype) or scalar_dt(v), lib)


@np('empty')
def _empty(it, lib, shape, dtype=None, **k):
    return fresh(it, 'uninitialised', shape_arg(it, (shape,)), kind_of(dtype) or 'f', lib)


@np('zeros_like')
def _zeros_like(it, lib, a, dtype=None, **k):
    a = A(lib, a)
    return const_arr(a.shape, 0, kind_of(dtype) or a.dtype, lib)


@np('ones_like')
def _ones_like(it, lib, a, dtype=None, **k):
    a = A(lib, a)
    return const_arr(a.shape, 1, kind_of(dtype) or a.dtype, lib)


@np('eye')
def _eye(it, lib, n, M=None, k=0, dtype=None):
    n = shape_arg(it, (n,))[0]
    M = None if M is None else shape_arg(it, (M,))[0]
    r = eye(n, M, lib, k)
    return astype(r, dtype) if dtype is not None else r


NP['identity'] = _eye


@np('arange')
def _arange(it, lib, *a, dtype=None, **k):
    step = k.get('step', 1)
    if len(a) == 1:
        lo, hi = 0, a[0]
    else:
        lo, hi = a[0], a[1]
        if len(a) > 2:
            step = a[2]
    if any(isinstance(x, (float, Fraction, Expr)) for x in (lo, hi, step)):
        lo, hi, step = [x.as_const() if isinstance(x, Expr) and x.as_const() is not None else x for x in (lo, hi, step)]
        if not all(isinstance(x, (int, float, Fraction)) for x in (lo, hi, step)):
            raise Undecided('float arange')
        # the length is computed in double precision, rounding included
        n = max(0, _math.ceil((I.ieee(hi) - I.ieee(lo)) / I.ieee(step)))
        return Arr((n,), lambda ix: Expr.const(lo) + to_expr(ix[0]) * Expr.const(step), 'f', lib)
    r = arange(int_of(lo), int_of(hi), int_of(step), lib)
    return astype(r, dtype) if dtype is not None and kind_of(dtype) != 'i' else r


@np('linspace')
def _linspace(it, lib, a, b, num=50, **k):
    n = int_of(num)
    a, b = to_expr(a), to_expr(b)
    return Arr((n,), lambda ix: a + (b - a) * to_expr(ix[0]) *
               epow(Expr.const(Poly.of(n) - 1), -1), 'f', lib)


@np('asarray asanyarray')
def _asarray(it, lib, x, dtype=None, **k):
    if isinstance(x, Arr) and x.lib == lib == 'np' and (dtype is None or kind_of(dtype) == x.dtype) and not k.get('copy'):
        return x
    return _array(it, lib, x, dtype)


@np('array')
def _array(it, lib, x, dtype=None, copy=True, **k):
    if isinstance(x, Opaque):
        return Opaque('array(%s)' % x.key)
    if isinstance(x, Obj):
        m, _ = x.cls.lookup('__array__')
        if m is not None:
            return it.call(Bound(x, m), [], {})
        m, _ = x.cls.lookup('__jax_array__')
        if m is not None and lib == 'jnp':
            return it.call(Bound(x, m), [], {})
        if any(b.native == 'opaque' for b in x.cls.mro):
            return Opaque('array(%s)' % x.cls.name)
        if lib == 'jnp':
            it.raise_('TypeError', "Value of type '%s' is not a valid JAX array type" % x.cls.name)
        raise Undecided('np.array(object)')
    if isinstance(x, (list, tuple)):
        r = nested(x, lib)
    else:
        x0 = arr(x, lib)
        r = Arr(x0.shape, x0.fn, x0.dtype, lib, name=x0.name)
        r.attrs.update(x0.attrs)
        if getattr(x0, 'inverse', None) is not None:
            r.inverse = x0.inverse
    if dtype is not None:
        r = astype(r, dtype)
    return r


@np('copy')
def _copy(it, lib, x):
    return _array(it, lib, x)


def seq_of(it, xs, lib):
    if isinstance(xs, Arr):
        if not xs.shape[0].is_const():
            raise Undecided('sequence of symbolic length')
        return it.iterate(xs)
    if isinstance(xs, (list, tuple)):
        return list(xs)
    return it.iterate(xs)


@np('concatenate concat')
def _concat(it, lib, xs, axis=0, **k):
    xs = seq_of(it, xs, lib)
    if len(xs) == 1 and isinstance(xs[0], Repeat) and getattr(xs[0], 'cell', None) is not None:
        return out(concat_cell(xs[0], axis, lib), lib)
    parts = []
    for x in xs:
        if isinstance(x, Repeat):
            v = arr(x.value, lib)
            if v.ndim != 1 or axis not in (0, -1):
                raise Undecided('concatenation of a symbolic list')
            b = Arr((x.count,) + v.shape, (lambda v: lambda ix: v.at(ix[1:]))(v), v.dtype, lib)
            parts.append(reshape(b, (v.shape[0] * Poly.of(x.count),)))
        else:
            parts.append(A(lib, x))
    axis_ = axis
    if axis is None:
        parts = [reshape(p, (p.size(),)) for p in parts]
        axis_ = 0
    if not parts:
        it.raise_('ValueError', 'need at least one array to concatenate')
    return out(concatenate(parts, axis_), lib)


@np('stack')
def _stack(it, lib, xs, axis=0, **k):
    xs = seq_of(it, xs, lib)
    if len(xs) == 1 and isinstance(xs[0], Repeat) and getattr(xs[0], 'cell', None) is not None:
        return out(stack_cell(xs[0], lib, axis), lib)
    if any(isinstance(x, Repeat) for x in xs):
        raise Undecided('stack of a symbolic list')
    if not xs:
        it.raise_('ValueError', 'need at least one array to stack')
    return out(stack([A(lib, x) for x in xs], axis), lib)


@np('hstack')
def _hstack(it, lib, xs):
    xs = seq_of(it, xs, lib)
    if len(xs) == 1 and isinstance(xs[0], Repeat):
        v = arr(xs[0].value, lib)
        return out(concat_cell(xs[0], 0 if v.ndim == 1 else 1, lib), lib)
    xs = [A(lib, x) for x in xs]
    xs = [reshape(x, (1,)) if x.ndim == 0 else x for x in xs]
    if not xs:
        it.raise_('ValueError', 'need at least one array to concatenate')
    return out(concatenate(xs, 0 if xs[0].ndim == 1 else 1), lib)


@np('vstack')
def _vstack(it, lib, xs):
    xs = [A(lib, x) for x in seq_of(it, xs, lib)]
    xs = [reshape(x, (1, x.size())) if x.ndim < 2 else x for x in xs]
    return out(concatenate(xs, 0), lib)


@np('argsort')
def _argsort(it, lib, x, axis=-1, **k):
    x = A(lib, x)
    return out(argsort(x), lib)


@np('sort')
def _sort(it, lib, x, axis=-1, **k):
    x = A(lib, x)
    c = const_values(x)
    if c is not None and x.ndim == 1:
        return rebuild(sorted(c), x.shape, x.dtype, lib)
    raise Undecided('sort')


@np('repeat')
def _repeat(it, lib, a, n, axis=None, **k):
    a = A(lib, a)
    if isinstance(n, Arr) and n.ndim:
        raise Undecided('array repeats')
    n = int_of(n)
    if axis is None:
        a = reshape(a, (a.size(),))
        axis = 0
    ax = axis % a.ndim
    sh = a.shape[:ax + 1] + (n,) + a.shape[ax + 1:]
    b = Arr(sh, lambda ix: a.at(ix[:ax + 1] + ix[ax + 2:]), a.dtype, a.lib)
    return out(reshape(b, a.shape[:ax] + (a.shape[ax] * Poly.of(n),) + a.shape[ax + 1:]), lib)


@np('tile')
def _tile(it, lib, a, reps):
    a = A(lib, a)
    reps = shape_arg(it, (reps,))
    if len(reps) < a.ndim:
        reps = (1,) * (a.ndim - len(reps)) + tuple(reps)
    while a.ndim < len(reps):
        a = reshape(a, (1,) + a.shape)
    sh = []
    for r, s in zip(reps, a.shape):
        sh += [r, s]
    b = Arr(sh, lambda ix: a.at(ix[1::2]), a.dtype, a.lib)
    return out(reshape(b, [Poly.of(r) * s for r, s in zip(reps, a.shape)]), lib)


for nm in ('sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'tanh', 'arctan', 'arccos', 'arcsin', 'sinh',
           'cosh', 'log2', 'log10', 'floor', 'ceil', 'sign', 'rint', 'log1p', 'expm1', 'isnan',
           'isfinite', 'isinf'):
    NP[nm] = (lambda nm: lambda it, lib, x, *a, **k: out(
        unary(nm, dtype='b' if nm.startswith('is') else None)(it, x), lib))(nm)
NP['abs'] = NP['absolute'] = NP['fabs'] = lambda it, lib, x, **k: out(unary('abs')(it, x), lib)
NP['square'] = lambda it, lib, x: it.binop('Mult', x, x)
NP['negative'] = lambda it, lib, x: it.unop('USub', x)
NP['round'] = NP['around'] = lambda it, lib, x, *a, **k: out(unary('round')(it, x), lib)
NP['real'] = lambda it, lib, x: x if not isinstance(x, Arr) or x.dtype != 'c' else unary('re')(it, x)
NP['imag'] = lambda it, lib, x: unary('im')(it, x)


NP['iscomplexobj'] = lambda it, lib, x: arr(x, lib).dtype == 'c'
NP['isrealobj'] = lambda it, lib, x: arr(x, lib).dtype != 'c'


@np('conj conjugate')
def _conj(it, lib, x):
    if isinstance(x, (list, tuple)):
        x = arr(x, lib)
    if isinstance(x, Obj):
        m, _ = x.cls.lookup('conj')
        if m is not None:
            return it.call(Bound(x, m), [], {})
        it.raise_('TypeError', 'conj of %s' % x.cls.name)
    return out(conj(x), lib)


@np('isscalar')
def _isscalar(it, lib, x):
    if isinstance(x, Arr):
        return x.ndim == 0 and lib == 'jnp' or (x.ndim == 0 and x.attrs.get('npscalar', False))
    return isinstance(x, NUM + (str, bool))


@np('ndim')
def _ndim(it, lib, x):
    if isinstance(x, NUM + (bool,)):
        return 0
    if isinstance(x, Obj):
        return it.getattr(x, 'ndim')
    return A(lib, x).ndim


@np('shape')
def _shape(it, lib, x):
    return shp(A(lib, x))


@np('size')
def _size(it, lib, x):
    return A(lib, x).size().norm()


def reducer(mean=False):
    def f(it, lib, x, axis=None, keepdims=False, dtype=None, **k):
        if isinstance(x, Opaque):
            return x
        if isinstance(x, list) and any(isinstance(y, Repeat) for y in x):
            x = nested(x, lib)
        x = A(lib, x)
        ax = tuple(int_of(a) for a in it.iterate(axis)) if isinstance(axis, (tuple, list)) else \
            (None if axis is None else int_of(axis))
        return out(reduce_sum(x, ax, bool(keepdims), mean=mean), lib)
    return f


NP['sum'] = reducer()
NP['mean'] = NP['average'] = reducer(True)


def red_opaque(name):
    def f(it, lib, x, axis=None, keepdims=False, **k):
        x = A(lib, x)
        sh = reduce_sum(x, axis, keepdims).shape
        if name in ('prod',):
            c = const_values(x)
            if c is not None and axis is None:
                p = Fraction(1)
                for v in c:
                    p *= v
                return int(p) if x.dtype in 'ib' else p
            if x.shape and all(s.is_const() for s in x.shape) and axis is None and x.size().const() <= 64:
                r = Expr.const(1)
                for v in _itertools.product(*[range(int(s.const())) for s in x.shape]):
                    r = r * x.ex(v)
                p = r.as_poly()
                return p.norm() if p is not None and x.dtype == 'i' else r
        if name in ('any', 'all'):
            c = const_values(x)
            if c is not None and axis is None:
                return any(v != 0 for v in c) if name == 'any' else all(v != 0 for v in c)
            if axis is None:
                # quantifier over every index: definite when every case is definite
                try:
                    cs = cases(x.shape, lambda ix: x.ex(ix).as_const())
                    vals = [v for _, v in cs]
                    if name == 'all':
                        if all(v is not None and v != 0 for v in vals):
                            return True
                        if any(v is not None and v == 0 for v in vals):
                            return False
                    else:
                        if any(v is not None and v != 0 for v in vals):
                            return True
                        if all(v is not None and v == 0 for v in vals):
                            return False
                except Undecided:
                    pass
                try:
                    return UBool('%s(%s)' % (name, short(content_key(x)[0])))
                except Undecided:
                    if name == 'all' and getattr(x, 'cmp', None) is not None and x.ndim == 1:
                        return UBool(arrays.perm_eq_key(*x.cmp))
                    raise
        if name in ('max', 'min') and axis is None and x.size() == 1:
            return x.at([0] * x.ndim)
        if name in ('max', 'min') and axis is None:
            c = const_values(x)
            if c is not None and c:
                v = max(c) if name == 'max' else min(c)
                return int(v) if x.dtype == 'i' else v
        if name in ('argmax', 'argmin', 'max', 'min') and isinstance(axis, int):
            c = nested_consts(x)
            if c is not None:
                def along(c, ax):
                    if ax == 0:
                        if isinstance(c[0], list):
                            return [along([row[j] for row in c], 0) for j in range(len(c[0]))]
                        v = (max if name.endswith('max') else min)(c)
                        return c.index(v) if name.startswith('arg') else v
                    return [along(row, ax - 1) for row in c]
                r = along(c, axis % x.ndim)
                return r if not isinstance(r, list) else with_lib(from_nested(r, lib, 'i' if name.startswith('arg') else None), lib)
        return opaque_arr(name, [x], sh, extra='|%s' % (axis,), lib=lib if lib == 'jnp' else x.lib,
                          dtype='i' if name.startswith('arg') else None)
    return f


for nm in ('prod', 'any', 'all', 'max', 'min', 'argmax', 'argmin', 'median'):
    NP[nm] = red_opaque(nm)
NP['amax'], NP['amin'] = NP['max'], NP['min']
NP['product'] = NP['prod']


@np('std var')
def _std(it, lib, x, axis=None, keepdims=False, **k):
    x = A(lib, x)
    m = reduce_sum(x, axis, True, mean=True)
    d = add(x, m, -1)
    v = reduce_sum(mul(d, d), axis, keepdims, mean=True)
    return out(ew(lambda e: efn('sqrt', e), v), lib)


NP['var'] = lambda it, lib, x, axis=None, keepdims=False, **k: out(reduce_sum(
    mul(add(A(lib, x), reduce_sum(A(lib, x), axis, True, mean=True), -1),
        add(A(lib, x), reduce_sum(A(lib, x), axis, True, mean=True), -1)), axis, keepdims, mean=True), lib)


@np('roll')
def _roll(it, lib, a, shift, axis=None):
    return out(roll(A(lib, a), shift, axis), lib)


@np('flip')
def _flip(it, lib, a, axis=None):
    return out(flip(A(lib, a), axis), lib)


NP['flipud'] = lambda it, lib, a: out(flip(A(lib, a), 0), lib)
NP['fliplr'] = lambda it, lib, a: out(flip(A(lib, a), 1), lib)


@np('rot90')
def _rot90(it, lib, m, k=1, axes=(0, 1)):
    return out(rot90(A(lib, m), int_of(k), axes), lib)


@np('moveaxis')
def _moveaxis(it, lib, a, s, d):
    return out(moveaxis(A(lib, a), s, d), lib)


@np('swapaxes')
def _swapaxes(it, lib, a, i, j):
    return out(swapaxes(A(lib, a), i, j), lib)


def axes_arg(ax):
    """axis permutation given as tuple, list or integer array"""
    if isinstance(ax, Arr) and ax.ndim == 1 and ax.shape[0].is_const():
        return [int_of(ax.at((i,))) for i in range(int(ax.shape[0].const()))]
    if isinstance(ax, (list, tuple)):
        return [int_of(x) for x in ax]
    return ax


@np('transpose permute_dims')
def _transpose(it, lib, a, axes=None):
    axes = axes_arg(axes)
    return out(transpose(A(lib, a), axes), lib)


@np('reshape')
def _reshape(it, lib, a, shape, **k):
    return out(reshape(A(lib, a), shape_arg(it, (shape,))), lib)


@np('ravel')
def _ravel(it, lib, a, **k):
    a = A(lib, a)
    return out(reshape(a, (a.size(),)), lib)


@np('squeeze')
def _squeeze(it, lib, a, axis=None):
    a = A(lib, a)
    if axis is None:
        sh = [s for s in a.shape if s != 1]
    else:
        ax = axis % a.ndim
        if a.shape[ax] != 1:
            if (a.shape[ax] - 2).nonneg():
                it.raise_('ValueError', 'cannot select an axis to squeeze')
            raise Undecided('squeeze')
        sh = a.shape[:ax] + a.shape[ax + 1:]
    return out(reshape(a, sh), lib)


def nested_consts(x):
    """nested lists of the entries of a small array of literals, or None"""
    def go(ix):
        if len(ix) == x.ndim:
            v = x.at(ix)
            v = v.as_const() if isinstance(v, Expr) else v
            if isinstance(v, (Poly, Idx)):
                v = int_of(v)
            if isinstance(v, (int, float, Fraction)):
                return v
            raise KeyError
        n = x.shape[len(ix)]
        if not n.is_const() or n.const() > 64:
            raise KeyError
        return [go(ix + [i]) for i in range(int(n.const()))]
    try:
        return go([]) if x.ndim else None
    except (KeyError, Undecided):
        return None


@np('take_along_axis')
def _take_along(it, lib, a, idx, axis=None, **k):
    a, idx = A(lib, a), A(lib, idx)
    if axis is None or a.ndim != idx.ndim:
        it.raise_('ValueError', '`indices` and `arr` must have the same number of dimensions')
    ax = axis % a.ndim
    c = nested_consts(idx)
    if c is None:
        raise Undecided('take_along_axis with symbolic indices')

    def go(c, ix):
        if len(ix) == a.ndim:
            i = int(c)
            n = int(a.shape[ax].const())
            if not -n <= i < n:
                it.raise_('IndexError', 'index %d is out of bounds' % i)
            pos = [int(0) if a.shape[d].is_const() and a.shape[d].const() == 1 and d != ax else j
                   for d, j in enumerate(ix)]
            pos[ax] = i % n
            return a.at(pos)
        return [go(x, ix + [j]) for j, x in enumerate(c)]
    return out(from_nested(go(c, []), lib), lib)


@np('expand_dims')
def _expand(it, lib, a, axis):
    a = A(lib, a)
    ax = axis % (a.ndim + 1)
    return out(reshape(a, a.shape[:ax] + (1,) + a.shape[ax:]), lib)


@np('kron')
def _kron(it, lib, a, b):
    return out(kron(A(lib, a), A(lib, b)), lib)


@np('outer')
def _outer(it, lib, a, b):
    a, b = A(lib, a), A(lib, b)
    a, b = reshape(a, (a.size(), 1)), reshape(b, (1, b.size()))
    return out(mul(a, b), lib)


@np('dot')
def _dot(it, lib, a, b):
    if isinstance(a, NUM) or isinstance(b, NUM):
        return it.binop('Mult', a, b)
    a, b = A(lib, a), A(lib, b)
    if a.ndim == 0 or b.ndim == 0:
        return mul(a, b)
    return out(matmul(a, b), lib)


@np('matmul')
def _matmul(it, lib, a, b):
    if isinstance(a, Obj) or isinstance(b, Obj):
        return it.binop('MatMult', a, b)
    return out(matmul(A(lib, a), A(lib, b)), lib)


@np('tensordot')
def _tensordot(it, lib, a, b, axes=2):
    a, b = A(lib, a), A(lib, b)
    if isinstance(axes, int):
        aa, bb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        aa, bb = [list(x) if isinstance(x, (list, tuple)) else [x] for x in axes]
        aa, bb = [x % a.ndim for x in aa], [x % b.ndim for x in bb]
    L = _string.ascii_letters
    la = list(L[:a.ndim])
    lb = list(L[a.ndim:a.ndim + b.ndim])
    for x, y in zip(aa, bb):
        lb[y] = la[x]
    o = [c for c in la if c not in [la[x] for x in aa]] + \
        [c for k, c in enumerate(lb) if k not in bb]
    return out(einsum('%s,%s->%s' % (''.join(la), ''.join(lb), ''.join(o)), [a, b]), lib)


@np('einsum')
def _einsum(it, lib, spec, *ops, **k):
    return out(einsum(spec, [A(lib, o) for o in ops]), lib)


@np('trace')
def _trace(it, lib, a, *r, **k):
    a = A(lib, a)
    return out(einsum('ii->', [a]), lib)


@np('diag')
def _diag(it, lib, a, k=0):
    a = A(lib, a)
    if k != 0:
        raise Undecided('diag offset')
    if a.ndim == 1:
        return out(Arr((a.shape[0], a.shape[0]), lambda ix: a.ex((ix[0],)) * delta(ix[0], ix[1]),
                       a.dtype, a.lib), lib)
    return out(Arr((a.shape[0],), lambda ix: a.ex((ix[0], ix[0])), a.dtype, a.lib), lib)


NP['diagonal'] = NP['diag']


@np('cross')
def _cross(it, lib, a, b, axis=-1, **k):
    a, b = A(lib, a), A(lib, b)
    if axis != -1:
        raise Undecided('cross axis')
    sh = broadcast_shapes([a.shape, b.shape])
    if sh[-1] != 3:
        raise ShapeError('cross product of dimension %s' % sh[-1])

    def fn(ix):
        i = const_index(ix[-1], 3)
        j, l = (i + 1) % 3, (i + 2) % 3

        def g(z, c):
            return z.ex(bcast_idx(tuple(ix[:-1]) + (Idx.of(c),), z.shape))
        return g(a, j) * g(b, l) - g(a, l) * g(b, j)
    return out(Arr(sh, fn, dt_join(a.dtype, b.dtype), join_lib(a, b)), lib)


@np('where')
def _where(it, lib, c, x=None, y=None):
    if x is None:
        raise Undecided('where')
    if isinstance(c, bool):
        return x if c else y

    def f(p, a, b):
        k = p.as_const()
        if k is not None:
            return a if k != 0 else b
        return p * a + (Expr.const(1) - p) * b
    return out(ew(f, c if isinstance(c, Arr) else arr(c), x, y, dtype=dt_join(
        *[z.dtype if isinstance(z, Arr) else scalar_dt(z) for z in (x, y)])), lib)


def bin2(name, op):
    def f(it, lib, a, b, *r, **k):
        if isinstance(a, (list, tuple)):
            a = arr(a, lib)
        if isinstance(b, (list, tuple)):
            b = arr(b, lib)
        return out(it.binop(op, a, b), lib)
    NP[name] = f


for nm, op in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'),
               ('true_divide', 'Div'), ('power', 'Pow'), ('mod', 'Mod'), ('remainder', 'Mod'),
               ('floor_divide', 'FloorDiv'), ('logical_and', 'BitAnd'), ('logical_or', 'BitOr'),
               ('bitwise_and', 'BitAnd')):
    bin2(nm, op)


def ewopaque(name):
    def f(it, lib, a, b, **k):
        def g(x, y):
            c1, c2 = x.as_const(), y.as_const()
            if c1 is not None and c2 is not None:
                if name == 'maximum':
                    return Expr.const(max(c1, c2))
                if name == 'minimum':
                    return Expr.const(min(c1, c2))
            if name in ('maximum', 'minimum'):
                x, y = sorted([x, y], key=lambda e: core._ser_any(e, {}))
            return Expr.atom(('F', name, (x, y)))
        a = a if isinstance(a, NUM) else A(lib, a)
        b = b if isinstance(b, NUM) else A(lib, b)
        if isinstance(a, NUM) and isinstance(b, NUM):
            return I.nexpr(g(to_expr(a), to_expr(b)))
        return out(ew(g, a, b), lib)
    return f


for nm in ('maximum', 'minimum', 'arctan2', 'hypot', 'fmod'):
    NP[nm] = ewopaque(nm)


def npcmp(op):
    def f(it, lib, a, b):
        return it.compare(op, a, b)
    return f


for nm, op in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'), ('greater', 'Gt'),
               ('less_equal', 'LtE'), ('greater_equal', 'GtE')):
    NP[nm] = npcmp(op)
NP['logical_not'] = lambda it, lib, a: it.not_(a)


@np('allclose')
def _allclose(it, lib, a, b, *r, **k):
    a, b = A(lib, a), A(lib, b)
    d = add(a, b, -1)
    cs = cases(d.shape, lambda ix: d.ex(ix))
    if all(v == Expr.const(0) for _, v in cs):
        return True
    return UBool('allclose(%s)' % short(content_key(d)[0]))


NP['array_equal'] = _allclose
NP['isclose'] = lambda it, lib, a, b, *r, **k: unary('isclose0', dtype='b')(it, it.binop('Sub', a, b))


@np('clip')
def _clip(it, lib, x, lo=None, hi=None, **k):
    def finite(b):
        return b is not None and not (isinstance(b, float) and abs(b) == float('inf')) \
            and not (isinstance(b, Opaque) and 'inf' in str(b.key)) and 'inf' not in repr(b)
    if finite(lo):
        x = NP['maximum'](it, lib, x, lo)
    if finite(hi):
        x = NP['minimum'](it, lib, x, hi)
    return x


@np('cumsum')
def _cumsum(it, lib, x, axis=None, **k):
    if isinstance(x, (list, tuple)) and not any(isinstance(y, Repeat) for y in x):
        r = []
        t = 0
        for v in x:
            t = it.binop('Add', t, v)
            r.append(t)
        return from_nested(r, lib) if r else const_arr((0,), 0, 'f', lib)
    x = A(lib, x)
    if x.ndim == 1 and x.shape[0].is_const():
        return _cumsum(it, lib, [x.at((k,)) for k in range(int(x.shape[0].const()))])
    raise Undecided('cumsum')


@np('cumprod')
def _cumprod(it, lib, x, axis=None, **k):
    xs = it.iterate(x)
    r = []
    t = 1
    for v in xs:
        if isinstance(v, Arr):
            v = int_of(v) if v.dtype == 'i' else v.at(())
        t = it.binop('Mult', t, v)
        r.append(t)
    return from_nested(r, lib)


@np('unique')
def _unique(it, lib, x, return_index=False, return_inverse=False, return_counts=False, axis=None):
    x = A(lib, x)
    c = const_values(x)
    if c is None or axis is not None:
        raise Undecided('unique')
    u = sorted(set(c))
    res = [rebuild(u, (len(u),), x.dtype, lib)]
    if return_index:
        res.append(from_nested([c.index(v) for v in u], lib))
    if return_inverse:
        res.append(from_nested([u.index(v) for v in c], lib))
    if return_counts:
        res.append(from_nested([c.count(v) for v in u], lib))
    return res[0] if len(res) == 1 else tuple(res)


@np('split array_split')
def _split(it, lib, a, spec, axis=0):
    a = A(lib, a)
    if isinstance(spec, Arr):
        spec = [int_of(v) for v in it.iterate(spec)]
    elif isinstance(spec, (list, tuple)):
        spec = [int_of(v) for v in spec]
    else:
        spec = int_of(spec)
    return [out(x, lib) for x in split(a, spec, axis)]


@np('append')
def _append(it, lib, a, b, axis=None):
    return _concat(it, lib, [a, b], axis)


@np('delete')
def _delete(it, lib, a, idx, axis=None):
    raise Undecided('np.delete')


@np('triu tril')
def _tri(it, lib, a, k=0):
    raise Undecided('tri')


@np('broadcast_to')
def _bto(it, lib, a, shape):
    a = A(lib, a)
    sh = shape_arg(it, (shape,))
    full = broadcast_shapes([a.shape, tuple(Poly.of(s) for s in sh)])
    return out(Arr(full, lambda ix: a.at(bcast_idx(ix, a.shape)), a.dtype, a.lib), lib)


@np('atleast_1d')
def _al1(it, lib, a):
    a = A(lib, a)
    return reshape(a, (1,)) if a.ndim == 0 else a


@np('atleast_2d')
def _al2(it, lib, a):
    a = A(lib, a)
    return reshape(a, (1, a.size())) if a.ndim < 2 else a


@np('meshgrid')
def _mesh(it, lib, *xs, indexing='xy', **k):
    xs = [A(lib, x) for x in xs]
    if indexing != 'ij':
        if len(xs) != 2:
            raise Undecided('meshgrid')
        a, b = xs
        sh = (b.shape[0], a.shape[0])
        return [Arr(sh, lambda ix: a.at((ix[1],)), a.dtype, lib),
                Arr(sh, lambda ix: b.at((ix[0],)), b.dtype, lib)]
    sh = tuple(x.shape[0] for x in xs)
    return [Arr(sh, (lambda x, k: lambda ix: x.at((ix[k],)))(x, k), x.dtype, lib)
            for k, x in enumerate(xs)]


@np('vectorize')
def _vectorize(it, lib, f, **k):
    raise Undecided('vectorize')


@np('issubdtype')
def _issubd(it, lib, a, b):
    return UBool('issubdtype')


@np('result_type')
@np('promote_types')
def _result_type(it, lib, *xs):
    ks = []
    for x in xs:
        if isinstance(x, (Arr,) + NUM) and not isinstance(x, Cls):
            ks.append(arr(x, lib).dtype)
        else:
            k = kind_of(x)
            if k is None:
                return Opaque('dtype')
            ks.append(k)
    k = dt_join(*ks)
    return I.DType(k, {'b': 'bool', 'i': 'int64', 'f': 'float64', 'c': 'complex128', 'o': 'object'}[k])


@np('finfo')
def _finfo(it, lib, a):
    return Opaque('finfo')


@np('set_printoptions save load savez errstate')
def _noop(it, lib, *a, **k):
    return Opaque('np')


# ---------------------------------------------------------------- linalg
def linalg_attr(it, lib, name):
    def n(f):
        return Native('linalg.' + name, f)
    if name == 'inv':
        return n(lambda it, a: out(inv(it, A(lib, a)), lib))
    if name == 'pinv':
        return n(lambda it, a, *r, **k: out(opaque_arr('pinv', [A(lib, a)], transpose(A(lib, a)).shape), lib))
    if name == 'svd':
        def svd(it, a, full_matrices=True, compute_uv=True, **k):
            a = A(lib, a)
            m, nn = a.shape[-2:]
            fm = it.truth(full_matrices)
            r = a.dtype != 'c'
            if (nn - m).nonneg():
                mn = m
            elif (m - nn).nonneg():
                mn = nn
            elif it.truth(I.sign_cmp('ge', m - nn)):
                mn = nn
            else:
                mn = m
            S = opaque_arr('svdS', [a], (mn,), lib=lib)
            U = opaque_arr('svdU', [a], (m, m if fm else mn), real=r, lib=lib)
            VH = opaque_arr('svdVH', [a], (nn if fm else mn, nn), real=r, lib=lib)
            for x, role in ((U, 'U'), (S, 'S'), (VH, 'VH')):
                x.attrs['svd'] = (role, a, fm)
            return (U, S, VH) if it.truth(compute_uv) else S
        return n(svd)
    if name == 'qr':
        def qr(it, a, mode='reduced'):
            a = A(lib, a)
            m, k = a.shape[-2:]
            mn = m if (k - m).nonneg() else k
            if not (k - m).nonneg() and not (m - k).nonneg():
                mn = k if it.truth(I.sign_cmp('ge', m - k)) else m
            Q = opaque_arr('qrQ', [a], (m, mn), lib=lib)
            R = opaque_arr('qrR', [a], (mn, k), lib=lib)
            Q.attrs['qr'] = ('Q', a)
            return (Q, R)
        return n(qr)
    if name == 'norm':
        def norm(it, a, ord=None, axis=None, keepdims=False, **k):
            a = A(lib, a)
            if ord not in (None, 2, 'fro'):
                raise Undecided('norm order')
            sq = reduce_sum(ew(lambda x: x * x.conj(), a), axis, keepdims)
            return out(ew(lambda e: efn('sqrt', e), sq), lib)
        return n(norm)
    if name == 'slogdet':
        def slogdet(it, a):
            a = A(lib, a)
            return (opaque_arr('detsign', [a], a.shape[:-2], lib=lib),
                    opaque_arr('logdet', [a], a.shape[:-2], lib=lib))
        return n(slogdet)
    if name == 'det':
        return n(lambda it, a: det(it, A(lib, a), lib))
    if name == 'matrix_power':
        def mp(it, a, k):
            a = A(lib, a)
            k = int_of(k)
            if isinstance(k, int):
                r = eye(a.shape[-1], None, lib)
                b = a if k >= 0 else inv(it, a)
                for _ in range(abs(k)):
                    r = matmul(r, b)
                return out(r, lib)
            return matpow(it, a, Expr.const(k), lib)
        return n(mp)
    if name in ('eigh', 'eig', 'eigvals', 'eigvalsh', 'solve', 'lstsq', 'cholesky', 'matrix_rank'):
        def gen(it, *a, **k):
            return Opaque('linalg.%s' % name)
        return n(gen)
    if name == 'LinAlgError':
        return it.builtins['ValueError']
    return _MISSING


def det(it, a, lib):
    c = const_values(a)
    if c is not None and a.ndim == 2:
        n = int(a.shape[0].const())
        m = [list(map(Fraction, c[i * n:(i + 1) * n])) for i in range(n)]
        d = Fraction(1)
        for k in range(n):
            p = next((r for r in range(k, n) if m[r][k] != 0), None)
            if p is None:
                return Fraction(0)
            if p != k:
                m[k], m[p] = m[p], m[k]
                d = -d
            d *= m[k][k]
            for r in range(k + 1, n):
                f = m[r][k] / m[k][k]
                m[r] = [x - f * y for x, y in zip(m[r], m[k])]
        return d
    return opaque_arr('det', [a], a.shape[:-2], lib=lib)


def matpow(it, a, n, lib):
    """a**n for an opaque integer n"""
    r = opaque_arr('matpow', [a], a.shape, extra='^' + core._ser_any(n, {}), lib=lib,
                   real=a.dtype != 'c')
    r.attrs['matpow'] = (a, n)
    return r


# ---------------------------------------------------------------- numpy.random
def random_attr(it, name):
    def n(f):
        return Native('random.' + name, f)

    def sz(it, size):
        if size is None:
            return ()
        return shape_arg(it, (size,))
    if name in ('randn', 'rand'):
        return n(lambda it, *s: fresh(it, name, shape_arg(it, s) if s else ()))
    if name in ('normal', 'uniform', 'standard_normal', 'random', 'random_sample', 'exponential'):
        return n(lambda it, *a, size=None, **k: fresh(it, name, sz(it, size)))
    if name in ('randint', 'random_integers', 'binomial', 'poisson'):
        def ri(it, *a, size=None, **k):
            if name == 'binomial' and len(a) == 3:
                size = a[2]
            elif name == 'randint' and len(a) == 3:
                size = a[2]
            if getattr(it, 'pin', None):
                lo, hi = 0, 1
                if name == 'binomial':
                    hi = int_of(a[0]) + 1 if a else 1
                elif len(a) > 1 and a[1] is not None:
                    lo, hi = int_of(a[0]), int_of(a[1])
                elif a:
                    hi = int_of(a[0])
                return pinned(it, lo, hi, sz(it, size))
            return fresh(it, name, sz(it, size), 'i')
        return n(ri)
    if name == 'permutation':
        def perm(it, x):
            if isinstance(x, NUM):
                m = int_of(x)
                if getattr(it, 'pin', None):
                    return pinned(it, 0, m, (m,), distinct=True)
                it.rand_ctr = getattr(it, 'rand_ctr', 0) + 1
                s = core.PermSym('perm#%d' % it.rand_ctr, m)
                a = Arr((m,), lambda ix: core.apply_sym(s, (ix[0],)), 'i', 'np')
                a.attrs['random'] = 'permutation'
                return a
            raise Undecided('permutation of array')
        return n(perm)
    if name in ('seed', 'set_state', 'shuffle'):
        def seed(it, *a, **k):
            it.notes.append(('np.random.seed', it.where()))
            return None
        return n(seed)
    if name == 'get_state':
        return n(lambda it: Opaque('rngstate'))
    if name == 'choice':
        def choice(it, a, size=None, *r, **k):
            m = int_of(a) if isinstance(a, NUM) else None
            if getattr(it, 'pin', None) and size is not None:
                rep = r[0] if r else k.get('replace', True)
                if m is not None:
                    return pinned(it, 0, m, sz(it, size), distinct=rep is False)
                b = A('np', a)
                ix = pinned(it, 0, b.shape[0], sz(it, size), distinct=rep is False)
                return it.getitem(b, ix)
            return fresh(it, 'choice', sz(it, size), 'i' if m is not None else 'f')
        return n(choice)
    if name in ('RandomState', 'default_rng'):
        return n(lambda it, *a: Opaque('rng'))
    return _MISSING


# ---------------------------------------------------------------- jax
def tree_map(it, f, t, *rest):
    if isinstance(t, (list, tuple)):
        r = [tree_map(it, f, *xs) for xs in zip(t, *rest)]
        return type(t)(r)
    if isinstance(t, ADict):
        d = ADict()
        for k, v in t.items:
            d.items.append([k, tree_map(it, f, v, *[it.getitem(r, k) for r in rest])])
        return d
    if t is None:
        return None
    return it.call(f, [t] + list(rest), {})


def leaves(t):
    if isinstance(t, (list, tuple)):
        return [y for x in t for y in leaves(x)]
    if isinstance(t, ADict):
        return [y for _, x in t.items for y in leaves(x)]
    if t is None:
        return []
    return [t]


def vmap_call(it, f, in_axes, out_axes, args):
    args = list(args)
    if in_axes is None or isinstance(in_axes, int):
        axes = [in_axes] * len(args)
    else:
        axes = list(in_axes)
    if len(axes) < len(args):
        it.raise_('ValueError', 'vmap in_axes must be an int, None, or a tuple of entries '
                  'corresponding to the positional arguments')
    size = None

    def scan(x, ax):
        nonlocal size
        if isinstance(x, (list, tuple)):
            for y in x:
                scan(y, ax)
        elif isinstance(x, Arr) and ax is not None:
            if x.ndim == 0:
                it.raise_('ValueError', 'vmap was requested to map its argument along axis 0, '
                          'which implies rank >= 1, but is only 0')
            s = x.shape[ax % x.ndim]
            if size is None:
                size = s
            elif size != s:
                it.raise_('ValueError', 'vmap got inconsistent sizes for array axes to be mapped')
        elif isinstance(x, Obj):
            it.raise_('TypeError', 'Output/input of vmap is not a valid JAX type: %s' % x.cls.name)
    for x, ax in zip(args, axes):
        scan(x, ax)
    if size is None:
        it.raise_('ValueError', 'vmap must have at least one non-None value in in_axes')
    if getattr(it, 'pin', None) and size.is_const() and size.const() <= 8:
        return vmap_unrolled(it, f, axes, out_axes, args, int(size.const()))
    cell = Cell(IVar(size, 'n'))
    if size == 1:
        cell.val = Idx.of(0)

    def sl(x, ax):
        if isinstance(x, (list, tuple)):
            return type(x)([sl(y, ax) for y in x])
        if isinstance(x, Arr) and ax is not None:
            return cell_elem(with_lib(x, 'jnp'), cell, ax % x.ndim)
        return x
    try:
        r = it.call(f, [sl(x, ax) for x, ax in zip(args, axes)], {})
    except Undecided:
        if core.DENSE[0] and size.is_const() and size.const() <= 8:
            return vmap_unrolled(it, f, axes, out_axes, args, int(size.const()))
        raise

    def bind(x):
        if isinstance(x, (list, tuple)):
            return type(x)([bind(y) for y in x])
        if isinstance(x, ADict):
            return ADict([[k, bind(v)] for k, v in x.items])
        if isinstance(x, NUM + (UBool, bool)):
            x = arr(x, 'jnp')
        if isinstance(x, Obj):
            it.raise_('TypeError', "Output from vmapped function is not a valid JAX type: '%s'"
                      % x.cls.name)
        if isinstance(x, Arr):
            return cell_bind(x, cell, out_axes % (x.ndim + 1) if isinstance(out_axes, int) else 0)
        if x is None:
            return None
        raise Undecided('vmap result %r' % (x,))
    return bind(r)


def vmap_unrolled(it, f, axes, out_axes, args, n):
    """vmap over a literal number of slices, one call each (needed when literal integers steer control flow)"""
    def sl(x, ax, i):
        if isinstance(x, (list, tuple)):
            return type(x)([sl(y, ax, i) for y in x])
        if isinstance(x, Arr) and ax is not None:
            return it.getitem(with_lib(x, 'jnp'), (slice(None),) * (ax % x.ndim) + (i,))
        return x
    rs = [it.call(f, [sl(x, ax, i) for x, ax in zip(args, axes)], {}) for i in range(n)]

    def stk(xs):
        x = xs[0]
        if isinstance(x, (list, tuple)):
            return type(x)([stk([y[j] for y in xs]) for j in range(len(x))])
        if x is None:
            return None
        if isinstance(x, NUM + (UBool, bool, Arr)):
            return stack([A('jnp', y) for y in xs], out_axes if isinstance(out_axes, int) else 0, 'jnp')
        raise Undecided('vmap result %r' % (x,))
    return stk(rs)


def jit_check(it, name, r):
    def chk(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                chk(y)
        elif isinstance(x, ADict):
            for _, y in x.items:
                chk(y)
        elif isinstance(x, Obj) and not any(b.native == 'opaque' for b in x.cls.mro):
            it.raise_('TypeError', "%s returned a value that is not a valid JAX type: '%s'"
                      % (name, x.cls.name))
    chk(r)
    return r


def need_function(it, name, f):
    """jax transforms refuse what is certainly not a function"""
    if f is None or isinstance(f, NUM + (str, Arr, list, tuple, ADict)) or \
            isinstance(f, Obj) and f.cls.lookup('__call__')[0] is None and not f.cls.lookup('__getattr__')[0]:
        it.raise_('TypeError', '%s: expected a callable, got %s' % (name, it.type_name(f)))


def jit_wrap(it, f, **kw):
    """jit is semantically the identity on pure functions of arrays"""
    if f is None:
        return Native('jit', lambda it, g: jit_wrap(it, g))
    need_function(it, 'jit', f)
    nm = getattr(f, 'name', None) or it.type_name(f)

    def call(it, *a, **k):
        r = it.call(f, list(a), k)
        jit_check(it, 'jit', r)
        return to_jnp(r)
    return Native('jit', call, {'__wrapped__': f, '__name__': nm,
                                '__module__': it.getattr_opt(f, '__module__')
                                if isinstance(f, (Func, Native)) else 'external'})


def to_jnp(r):
    if isinstance(r, Arr):
        return with_lib(r, 'jnp') if r.lib == 'np' else r
    if isinstance(r, (list, tuple)):
        return type(r)([to_jnp(x) for x in r])
    if isinstance(r, ADict):
        return ADict([[k, to_jnp(v)] for k, v in r.items])
    return r


def detach(x):
    """same values, no derivative"""
    if isinstance(x, Arr) and x.dtype in ('f', 'c'):
        return ew(lambda e: Expr.const(e) if Expr.const(e).is_const() else Expr.atom(('F', 'detach', (Expr.const(e),))), x)
    if isinstance(x, (list, tuple)):
        return type(x)([detach(y) for y in x])
    return x


def jvp(it, f, primals, tangents):
    e = Expr.atom(EPS)
    ins = []
    for p, t in zip(it.iterate(primals), it.iterate(tangents)):
        p, t = A('jnp', p), A('jnp', t)
        if p.shape != t.shape:
            it.raise_('TypeError', 'jvp: primal and tangent shapes differ')
        if (p.dtype == 'c') != (t.dtype == 'c'):
            it.raise_('TypeError', 'jvp: primal and tangent dtypes must be equal')
        ins.append(with_lib(ew(lambda x, y: x + y * e, p, t), 'jnp'))
    r = it.call(f, ins, {})
    r = A('jnp', r)
    return split_eps(r)


GRAD = _itertools.count()


def grad_like(it, f, value, argnums=0, has_aux=False):
    def call(it, *a, **k):
        v = it.call(f, list(a), k)
        x = a[argnums] if isinstance(argnums, int) and argnums < len(a) else None

        if x is None:
            raise Undecided('gradient with respect to a keyword argument')
        from .diff import vjp_arrays, arrays_symbol
        leaves = []

        def fresh_leaf(x):
            if isinstance(x, (list, tuple)):
                return type(x)([fresh_leaf(y) for y in x])
            if isinstance(x, ADict):
                return ADict([[kk, fresh_leaf(vv)] for kk, vv in x.items])
            if isinstance(x, (Arr,) + NUM):
                p = A('jnp', x)
                it.rand_ctr = getattr(it, 'rand_ctr', 0) + 1
                s = sym_arr('var#%d' % it.rand_ctr, p.shape, dtype='f', lib='jnp')
                leaves.append((s, p))
                return s
            raise Undecided('gradient with respect to %s' % it.type_name(x))
        xs = fresh_leaf(x)
        y = it.call(f, [xs if i == argnums else b for i, b in enumerate(a)], k)
        y = y[0] if has_aux else y
        ys = A('jnp', y)
        if ys.ndim:
            it.raise_('TypeError', 'Gradient only defined for scalar-output functions. Output had shape: %s' % (list(ys.shape),))
        gs = vjp_arrays(ys, [(arrays_symbol(s).key, s) for s, _ in leaves], [p for _, p in leaves],
                        const_arr((), 1, 'f', 'jnp'))

        def put(x):
            if isinstance(x, (list, tuple)):
                return type(x)([put(y) for y in x])
            if isinstance(x, ADict):
                return ADict([[kk, put(vv)] for kk, vv in x.items])
            return gs.pop(0)
        g = put(x)
        return (v, g) if value else g
    return Native('grad', call)


def base_symbol(x):
    ix = [IVar(s, 'q').idx() for s in x.shape]
    e = x.ex(ix)
    if len(e.terms) == 1 and len(e.terms[0].atoms) == 1 and e.terms[0].coef == 1:
        a, p = e.terms[0].atoms[0]
        if a[0] == 'T' and p == 1 and tuple(a[2])[-len(ix):] == tuple(ix):
            return a[1]
    raise Undecided('gradient with respect to a derived value')


def opaque_named(it, nm, x):
    it.rand_ctr = getattr(it, 'rand_ctr', 0) + 1
    return sym_arr('%s#%d' % (nm, it.rand_ctr), x.shape, lib='jnp')


def jax_attr(it, mod, name):
    full = mod + '.' + name
    if full in ('jax.numpy', 'jax.lax', 'jax.nn', 'jax.random', 'jax.scipy', 'jax.tree_util',
                'jax.scipy.linalg', 'jax.numpy.linalg', 'jax.ops', 'jax.experimental', 'jax.tree',
                'jax.experimental.ode', 'jax.nn.initializers', 'jax.config'):
        if full == 'jax.ops':
            return ExtMod(full)
        if full == 'jax.config':
            return Opaque('jax.config')
        return ExtMod(full)
    if mod == 'jax.numpy':
        return np_attr(it, 'jnp', name)
    if mod == 'jax.numpy.linalg':
        return linalg_attr(it, 'jnp', name)
    if mod == 'jax.ops':
        return _MISSING if name in ('index_update', 'index', 'index_add') else Opaque(full)
    N = Native
    if mod == 'jax':
        if name == 'jit':
            return N('jit', lambda it, f=None, **k: jit_wrap(it, f, **k))
        if name == 'vmap':
            def vm(it, f, in_axes=0, out_axes=0, **k):
                need_function(it, 'vmap', f)
                return N('vmapped', lambda it, *a, **k: vmap_call(it, f, in_axes, out_axes, a))
            return N('vmap', vm)
        if name == 'jvp':
            return N('jvp', jvp)
        if name == 'vjp':
            def vjp(it, f, *primals, **k):
                y = it.call(f, list(primals), {})

                def back(it, ct):
                    from .diff import vjp_arrays
                    it.rand_ctr = getattr(it, 'rand_ctr', 0) + 1
                    if not all(isinstance(p, Arr) for p in primals) or not isinstance(y, (Arr,) + NUM):
                        raise Undecided('vjp of a pytree')
                    if isinstance(ct, (list, tuple)):
                        it.raise_('TypeError', 'tree structure of the cotangent does not match the output')
                    ct_ = A('jnp', ct)
                    yy = A('jnp', y)
                    if tuple(ct_.shape) != tuple(yy.shape):
                        it.raise_('ValueError', 'shape of the cotangent does not match the output')
                    xs = [sym_arr('primal#%d.%d' % (it.rand_ctr, i), p.shape, dtype='f', lib='jnp')
                          for i, p in enumerate(primals)]
                    ys = A('jnp', it.call(f, list(xs), {}))
                    from .diff import arrays_symbol
                    return tuple(vjp_arrays(ys, [(arrays_symbol(x).key, x) for x in xs], list(primals), ct_))
                return (y, N('vjp_fn', back, {'__vjp__': (f, primals)}))
            return N('vjp', vjp)
        if name in ('grad', 'value_and_grad'):
            def gr(it, f, argnums=0, has_aux=False, **k):
                need_function(it, name, f)
                return grad_like(it, f, name != 'grad', argnums, has_aux)
            return N(name, gr)
        if name in ('jacfwd', 'jacrev', 'hessian'):
            return N(name, lambda it, f, *a, **k: Opaque('%s' % name))
        if name == 'device_put':
            def dput(it, x, *a, **k):
                if isinstance(x, (Obj, Opaque)):
                    return x
                return to_jnp(x)
            return N(name, dput)
        if name in ('device_get',):
            return N(name, lambda it, x: with_lib(x, 'np') if isinstance(x, Arr) else x)
        if name == 'devices':
            return N(name, lambda it, *a: [Opaque('device')])
        if name == 'Array' or name == 'ndarray':
            if name == 'ndarray':
                return _MISSING
            return array_class(it, 'jnp')
        if name == 'tree_map':
            return N(name, tree_map)
        if name == 'tree_leaves':
            return N(name, lambda it, t: leaves(t))
        if name == 'checkpoint' or name == 'named_call':
            return N(name, lambda it, f, **k: f)
        if name == 'stop_gradient':
            return N(name, lambda it, x: detach(x))
        if name == 'default_backend':
            return N(name, lambda it: 'cpu')
        if name == 'config':
            return Opaque('jax.config')
        return _MISSING
    if mod == 'jax.lax':
        if name == 'cond':
            def cond(it, p, tf, *rest):
                if len(rest) >= 3 and isinstance(rest[1], (Func, Native, Bound)):
                    # old signature: cond(pred, true_operand, true_fun, false_operand, false_fun)
                    pass
                if isinstance(tf, (Func, Native, Bound)):
                    ff, ops = rest[0], rest[1:]
                    return it.call(tf if it.truth(p) else ff, list(ops), {})
                if len(rest) == 3:
                    top, tfn, fop, ffn = tf, rest[0], rest[1], rest[2]
                    return it.call(tfn, [top], {}) if it.truth(p) else it.call(ffn, [fop], {})
                raise Undecided('lax.cond')
            return N(name, cond)
        if name == 'fori_loop':
            def fori(it, lo, hi, body, init):
                try:
                    l, h = int_of(lo), int_of(hi)
                    const = isinstance(l, int) and isinstance(h, int)
                except Undecided:
                    const = False
                if const:
                    if h - l > 64:
                        raise Undecided('fori_loop bound')
                    x = init
                    for k in range(l, h):
                        x = it.call(body, [k, x], {})
                    return x
                # symbolic trip count: recognise x -> M@x starting from identity
                x0 = A('jnp', init)
                s = sym_arr('fori_state', x0.shape)
                y = it.call(body, [Expr.atom(('S', 'fori_i')), s], {})
                y = A('jnp', y)
                for side in ('l', 'r'):
                    M = linear_factor(y, s, side)
                    if M is not None and is_identity(x0) and Poly.of(0) == Poly.of(l):
                        n = to_expr(hi)
                        r = matpow(it, M, n, 'jnp')
                        return r
                raise Undecided('fori_loop with symbolic bound')
            return N(name, fori)
        if name == 'scan':
            return N(name, lambda it, *a, **k: Opaque('scan'))
        if name in ('stop_gradient',):
            return N(name, lambda it, x: detach(x))
        if name == 'clamp':
            return N(name, lambda it, lo, x, hi: it.call(np_attr(it, 'jnp', 'clip'), [x, lo, hi], {}))
        if name == 'rsqrt':
            return N(name, lambda it, x: ew(lambda e: epow(efn('sqrt', e), -1), A('jnp', x)))
        return _MISSING
    if mod == 'jax.nn':
        if name == 'initializers':
            return ExtMod('jax.nn.initializers')
        if name == 'sigmoid':
            return N(name, unary('sigmoid'))
        if name in ('swish', 'silu'):
            return N(name, lambda it, x: it.binop('Mult', x, unary('sigmoid')(it, x)))
        if name in ('log_softmax', 'softmax', 'logsumexp'):
            def lsm(it, x, axis=-1, **k):
                f = lambda n, *b, **kk: it.call(np_attr(it, 'jnp', n), list(b), kk)
                tot = f('sum', f('exp', x), axis=axis, keepdims=True)
                if name == 'softmax':
                    return it.binop('Div', f('exp', x), tot)
                return it.binop('Sub', x, f('log', tot))
            if name != 'logsumexp':
                return N(name, lsm)
        if name in ('relu', 'softplus', 'tanh', 'gelu', 'elu'):
            return N(name, unary(name))
        return _MISSING
    if mod == 'jax.random':
        if name in ('PRNGKey', 'key'):
            def key(it, s=0):
                return Opaque('key(%s)' % (it.key_of(s),))
            return N(name, key)
        if name == 'split':
            def sp(it, k, num=2):
                n = int_of(num)
                return [Opaque('split(%s,%d)' % (it.key_of(k), i)) for i in range(n)]
            return N(name, sp)
        if name == 'permutation':
            def perm(it, k, x, **kw):
                if isinstance(x, NUM):
                    n = int_of(x)
                    if getattr(it, 'pin', None):
                        return with_lib(pinned(it, 0, n, (n,), distinct=True), 'jnp')
                    if isinstance(n, int):
                        s = core.PermSym('perm[%s]' % it.key_of(k), n)
                        a = Arr((n,), lambda ix: core.apply_sym(s, (ix[0],)), 'i', 'jnp')
                        return a
                raise Undecided('random permutation')
            return N(name, perm)
        if name in ('normal', 'uniform', 'randint', 'bernoulli'):
            def nrm(it, k, shape=(), *a, **kw):
                return fresh(it, 'jax.' + name, shape_arg(it, (shape,)) if shape != () else (),
                             'i' if name == 'randint' else 'f', 'jnp')
            return N(name, nrm)
        return _MISSING
    if mod == 'jax.scipy.linalg' or mod == 'scipy.linalg':
        if name == 'block_diag':
            return N(name, lambda it, *a: out(block_diag([A('jnp', x) for x in a]),
                                              'jnp' if mod.startswith('jax') else 'np'))
        if name == 'expm':
            return N(name, lambda it, a, *r, **k: expm(it, A('jnp', a)))
        return linalg_attr(it, 'jnp', name)
    if mod in ('jax.tree_util', 'jax.tree'):
        if name in ('tree_map', 'map'):
            return N(name, tree_map)
        if name in ('tree_flatten', 'flatten'):
            return N(name, lambda it, t: (leaves(t), TreeDef(t)))
        if name in ('tree_unflatten', 'unflatten'):
            return N(name, lambda it, td, ls: unflatten(td.t, iter(it.iterate(ls))))
        if name in ('tree_leaves', 'leaves'):
            return N(name, lambda it, t: leaves(t))
        return _MISSING
    if mod == 'jax.experimental.ode':
        return N(name, lambda it, *a, **k: odeint_model(it, *a, **k))
    if mod == 'jax.nn.initializers':
        return N(name, lambda it, *a, **k: Opaque('init'))
    return Opaque(full)


def odeint_model(it, *a, **k):
    y0 = a[1]
    return Opaque('odeint')


class TreeDef:
    def __init__(self, t):
        self.t = t


def unflatten(t, ls):
    if isinstance(t, (list, tuple)):
        return type(t)([unflatten(x, ls) for x in t])
    if isinstance(t, ADict):
        return ADict([[k, unflatten(v, ls)] for k, v in t.items])
    if t is None:
        return None
    return next(ls)


def expm(it, a):
    if a.ndim < 2 or a.shape[-1] != a.shape[-2]:
        it.raise_('ValueError', 'expm of a non-square array')
    c = None
    try:
        cs = cases(a.shape, lambda ix: a.ex(ix))
        if all(v == Expr.const(0) for _, v in cs):
            return eye(a.shape[-1], None, 'jnp')
    except Undecided:
        pass
    r = opaque_arr('expm', [a], a.shape, lib='jnp', real=a.dtype != 'c')
    r.attrs['expm'] = a
    return r


def linear_factor(y, s, side):
    """M with y = M@s (side l) or s@M (side r), found from y by reading off the coefficient"""
    n = s.shape[-1]
    i, j = IVar(n, 'i'), IVar(n, 'j')
    sym = None
    e0 = s.ex((i.idx(), j.idx()))
    sym = e0.terms[0].atoms[0][0][1]
    # y[i,j] = sum_k M[i,k] s[k,j]  -> evaluate with s = delta
    d = Arr(s.shape, lambda ix: delta(ix[0], ix[1]), 'f', 'jnp')

    def fn(ix):
        e = y.ex(ix)
        return replace_tensor(e, sym, d)
    M = Arr(s.shape, fn, y.dtype, 'jnp')
    try:
        t = matmul(M, s) if side == 'l' else matmul(s, M)
        cs = cases(t.shape, lambda ix: (t.ex(ix), y.ex(ix)))
        if all(a == b for _, (a, b) in cs):
            return M
    except Undecided:
        pass
    return None


def replace_tensor(e, sym, arr_):
    """substitute the tensor symbol by an array in an expression (plain occurrences)"""
    outx = Expr([])
    for t in e.terms:
        r = None
        fac = Expr.const(1)
        rest = []
        for a, p in t.atoms:
            if a[0] == 'T' and a[1] is sym:
                v = arr_.ex(a[2])
                if p < 0:
                    raise Undecided('negative power')
                for _ in range(p):
                    fac = fac * v
            else:
                rest.append((a, p))
        # multiply under the same bound variables
        for ft in fac.terms:
            outx = outx + Expr.build(core.normalise(t.coef * ft.coef,
                                                    tuple(rest) + tuple(ft.atoms),
                                                    t.bound | ft.bound))
    return outx


# ---------------------------------------------------------------- multiple dispatch
def plum_dispatch(it):
    def reg(it, f, sigs=None):
        mf = it.dispatch.get(f.name)
        if mf is None:
            mf = it.dispatch[f.name] = MultiFn(f.name)
        if sigs is None:
            a = f.node.args
            tys = []
            for x in a.posonlyargs + a.args:
                if x.annotation is None:
                    tys.append(it.builtins['object'])
                else:
                    tys.append(it.ev(x.annotation, f.env))
            # defaults create additional shorter signatures
            nd = len(a.defaults)
            sigs = [tuple(tys[:len(tys) - k]) for k in range(nd + 1)]
        for s in sigs:
            s = tuple(it.iterate(s)) if isinstance(s, list) else tuple(s)
            mf.methods = [m for m in mf.methods if not (len(m[0]) == len(s) and all(
                p is q for p, q in zip(m[0], s)))]
            mf.methods.append((s, f))
        return mf

    def multi(it, *sigs):
        return Native('dispatch.multi', lambda it, f: reg(it, f, sigs))
    return Native('dispatch', lambda it, f: reg(it, f), {'multi': Native('multi', multi)})


# ---------------------------------------------------------------- other libraries
def lru_cache_model(it, *a, **kw):
    def wrap(it, f):
        table = ADict()
        store = it.__dict__.setdefault('_caches', [])
        store.append((f, table))

        def call(it, *args, **k):
            key = (tuple(args), tuple((n, k[n]) for n in k))
            i = it.dict_find(table, key)
            if i is not None:
                return table.items[i][1]
            v = it.call(f, list(args), k)
            table.items.append([key, v])
            return v
        return Native('cached', call, {'__wrapped__': f, '__name__': getattr(f, 'name', 'f'),
                                       '__module__': f.module.name if isinstance(f, Func) else 'external',
                                       'cache_clear': Native('cache_clear', lambda it: table.items.clear())})
    if len(a) == 1 and isinstance(a[0], (Func, Native, Bound)):
        return wrap(it, a[0])
    return Native('lru_cache', wrap)


def partial_model(it, f, *a, **k):
    def call(it, *b, **kk):
        d = dict(k)
        d.update(kk)
        return it.call(f, list(a) + list(b), d)
    return Native('partial', call, {'func': f, 'args': tuple(a)})


def reduce_model(it, f, xs, *init):
    xs = it.iterate(xs)
    if init:
        r = init[0]
    else:
        if not xs:
            it.raise_('TypeError', 'reduce() of empty iterable with no initial value')
        r = xs.pop(0)
    for x in xs:
        r = it.call(f, [r, x], {})
    return r


def wraps_model(it, f, *a, **k):
    return Native('wraps', lambda it, g: g)


def noop(it, *a, **k):
    return None


def deco(it, *a, **k):
    if len(a) == 1 and not k:
        return a[0]
    return Native('deco', lambda it, f: f)


# names that the installed libraries do not have (any more); other unmodelled names are undecided
KNOWN_ABSENT = {('jax.ops', n) for n in ('index_update', 'index', 'index_add', 'index_mul')} | {
    ('numpy', n) for n in ('float', 'int', 'bool', 'complex', 'object', 'str')} | {
    ('jax.numpy', n) for n in ('float', 'int', 'complex', 'object', 'str', 'matrix', 'put')}


def ext_attr(it, mod, name):
    key = (mod, name)
    over = getattr(it, 'overrides', None)
    if over and key in over:
        return over[key]
    if key in EXTRA:
        return EXTRA[key](it)
    r = _ext_attr(it, mod, name)
    if r is _MISSING:
        if (mod, name) not in KNOWN_ABSENT:
            raise Undecided('%s.%s is not modelled' % (mod, name))
        it.raise_('AttributeError', "module '%s' has no attribute '%s'" % (mod, name))
    return r


def _ext_attr(it, mod, name):
    root = mod.split('.')[0]
    N = Native
    if mod == 'numpy':
        return np_attr(it, 'np', name)
    if mod == 'numpy.linalg':
        return linalg_attr(it, 'np', name)
    if mod == 'numpy.random':
        return random_attr(it, name)
    if root == 'jax':
        return jax_attr(it, mod, name)
    if root == 'scipy':
        if mod == 'scipy.linalg' or mod == 'scipy' and name == 'linalg':
            if mod == 'scipy':
                return ExtMod('scipy.linalg')
            return jax_attr(it, 'scipy.linalg', name)
        if mod == 'scipy' and name in ('special', 'sparse', 'integrate', 'optimize', 'stats'):
            return ExtMod('scipy.' + name)
        if mod == 'scipy.special' and name in ('binom', 'comb'):
            def binom(it, n, k, **kw):
                n, k = int_of(n), int_of(k)
                if isinstance(n, int) and isinstance(k, int):
                    return _math.comb(n, k) if 0 <= k <= n else 0
                return Expr.atom(('F', 'binom', (Expr.const(n), Expr.const(k))))
            return N(name, binom)
        return Opaque('%s.%s' % (mod, name))
    if mod == 'functools':
        return {'reduce': N('reduce', reduce_model), 'partial': N('partial', partial_model),
                'lru_cache': N('lru_cache', lru_cache_model), 'cache': N('cache', lru_cache_model),
                'wraps': N('wraps', wraps_model), 'total_ordering': N('total_ordering', deco),
                'cached_property': N('cached_property', lambda it, f: I.Property(f)),
                }.get(name, Opaque('functools.' + name))
    if mod == 'itertools':
        def product(it, *a, repeat=1):
            return [tuple(t) for t in _itertools.product(*[it.iterate(x) for x in a], repeat=int_of(repeat))]

        def chain(it, *a):
            return [y for x in a for y in it.iterate(x)]

        def combos(f):
            return lambda it, a, r=None: [tuple(t) for t in (f(it.iterate(a), r) if r is not None
                                                            else f(it.iterate(a)))]

        def groupby(it, xs, key=None):
            res = []
            for x in it.iterate(xs):
                k = it.call(key, [x], {}) if key is not None else x
                if res and it.truth(it.equal(res[-1][0], k)):
                    res[-1][1].append(x)
                else:
                    res.append((k, [x]))
            return res

        def islice(it, xs, *a):
            return list(_itertools.islice(it.iterate(xs), *a))

        def accumulate(it, xs, f=None, **k):
            r = []
            t = None
            for i, x in enumerate(it.iterate(xs)):
                t = x if i == 0 else (it.call(f, [t, x], {}) if f else it.binop('Add', t, x))
                r.append(t)
            return r
        ch = N('chain', chain, {'from_iterable': N('from_iterable', lambda it, xs: [
            y for x in it.iterate(xs) for y in it.iterate(x)])})
        return {'product': N('product', product), 'chain': ch,
                'permutations': N('permutations', combos(_itertools.permutations)),
                'combinations': N('combinations', combos(_itertools.combinations)),
                'combinations_with_replacement': N('cwr', combos(_itertools.combinations_with_replacement)),
                'groupby': N('groupby', groupby), 'islice': N('islice', islice),
                'accumulate': N('accumulate', accumulate),
                'count': N('count', lambda it, *a: Opaque('count')),
                'cycle': N('cycle', lambda it, x: Opaque('cycle')),
                'repeat': N('repeat', lambda it, x, n=None: [x] * int_of(n) if n is not None else Opaque('repeat')),
                'zip_longest': N('zip_longest', lambda it, *a, fillvalue=None: [
                    tuple(t) for t in _itertools.zip_longest(*[it.iterate(x) for x in a], fillvalue=fillvalue)]),
                'starmap': N('starmap', lambda it, f, xs: [it.call(f, list(it.iterate(x)), {}) for x in it.iterate(xs)]),
                }.get(name, Opaque('itertools.' + name))
    if root == 'collections':
        if name == 'abc':
            return ExtMod('collections.abc')
        if mod == 'collections.abc':
            return typing_cls(it, name)
        if name == 'defaultdict':
            return N('defaultdict', lambda it, f=None, *a, **k: _ddict(it, f, a))
        if name == 'OrderedDict':
            return it.builtins['dict']
        if name == 'Counter':
            def counter(it, xs=()):
                d = ADict(factory=N('zero', lambda it: 0))
                d.is_counter = True
                for x in it.iterate(xs):
                    it.dict_set(d, x, it.binop('Add', it.getitem(d, x), 1))
                return d
            return N('Counter', counter)
        if name == 'deque':
            return it.builtins['list']
        if name == 'namedtuple':
            return N('namedtuple', lambda it, *a, **k: Opaque('namedtuple'))
        return Opaque('collections.' + name)
    if root == 'math':
        if name == 'pi':
            return Expr.atom(('S', 'pi'))
        if name in ('sqrt', 'sin', 'cos', 'exp', 'log', 'tan', 'floor', 'ceil'):
            def mf(it, x):
                if isinstance(x, (int, float)) and name in ('floor', 'ceil', 'log', 'exp'):
                    return getattr(_math, name)(x)
                return unary(name)(it, x)
            return N(name, mf)
        if name in ('factorial', 'comb', 'gcd'):
            return N(name, lambda it, *a: getattr(_math, name)(*[int_of(x) for x in a]))
        if name == 'prod':
            def prod(it, xs, start=1):
                r = start
                for x in it.iterate(xs):
                    r = it.binop('Mult', r, x)
                return r
            return N(name, prod)
        if name == 'inf':
            return float('inf')
        return Opaque('math.' + name)
    if root == 'logging':
        if name in ('info', 'debug', 'warning', 'error', 'basicConfig', 'critical', 'warn', 'exception'):
            def log(it, *a, **k):
                it.logs.append((name, it.where()))
                return None
            if not hasattr(it, 'logs'):
                it.logs = []
            return N('logging.' + name, log)
        if name == 'getLogger':
            return N(name, lambda it, *a: Opaque('logger'))
        return Opaque('logging.' + name)
    if root == 'sys':
        if name == 'modules':
            return SysModules(it)
        return Opaque('sys.' + name)
    if root == 'importlib':
        if name == 'import_module':
            def imp(it, n, package=None):
                if n.startswith('.'):
                    k = len(n) - len(n.lstrip('.'))
                    parts = package.split('.')
                    if k > 1:
                        parts = parts[:-(k - 1)]
                    n = '.'.join(parts + [n.lstrip('.')])
                return it.import_module(n)
            return N(name, imp)
        return Opaque('importlib.' + name)
    if root == 'pkgutil':
        if name in ('walk_packages', 'iter_modules'):
            def walk(it, path=None, prefix='', *a, **k):
                import os
                res = []
                for p in it.iterate(path):
                    for f in sorted(os.listdir(p)):
                        full = os.path.join(p, f)
                        if f.endswith('.py') and f != '__init__.py':
                            res.append((Opaque('loader'), prefix + f[:-3], False))
                        elif os.path.isdir(full) and os.path.exists(os.path.join(full, '__init__.py')):
                            res.append((Opaque('loader'), prefix + f, True))
                return res
            return N(name, walk)
        return Opaque('pkgutil.' + name)
    if root in ('typing', 'types', 'abc', 'numbers'):
        if name in ('ABC', 'Protocol', 'NamedTuple'):
            return it.builtins['object']
        if name in ('abstractmethod', 'overload', 'final', 'runtime_checkable'):
            return N(name, lambda it, f: f)
        if name == 'TypeVar':
            return N(name, lambda it, *a, **k: typing_cls(it, 'TypeVar'))
        if name == 'MethodType':
            return N(name, lambda it, f, o: Bound(o, f))
        if name == 'cast':
            return N(name, lambda it, t, x: x)
        return typing_cls(it, name)
    if root == 'copy':
        if name in ('copy', 'deepcopy'):
            return N(name, lambda it, x: copy_value(it, x, name == 'deepcopy', {}))
    if root == 'warnings':
        return N(name, noop) if name != 'catch_warnings' else Opaque('warnings.' + name)
    if root == 'operator':
        table = {'mul': 'Mult', 'add': 'Add', 'sub': 'Sub', 'matmul': 'MatMult', 'truediv': 'Div',
                 'floordiv': 'FloorDiv', 'mod': 'Mod', 'pow': 'Pow'}
        if name in table:
            return N(name, lambda it, a, b: it.binop(table[name], a, b))
        if name == 'itemgetter':
            return N(name, lambda it, k: N('itemgetter', lambda it, o: it.getitem(o, k)))
        if name == 'attrgetter':
            return N(name, lambda it, k: N('attrgetter', lambda it, o: it.getattr(o, k)))
    if root == 'random':
        if name == 'sample':
            return N(name, lambda it, xs, k: Opaque('sample'))
        return Opaque('random.' + name)
    if root == 'tqdm':
        if name in ('tqdm', 'trange'):
            return N(name, tqdm_model if name == 'tqdm' else
                     lambda it, *a, **k: it.call(it.builtins['range'], list(a), {}))
        if name in ('auto', 'notebook'):
            return ExtMod('tqdm.' + name)
    if root == 'optax':
        return Opaque('%s.%s' % (mod, name))
    if root == 'contextlib' and name == 'contextmanager':
        return N(name, lambda it, f: f)
    if root == 'dataclasses':
        return N(name, deco) if name == 'dataclass' else Opaque(name)
    if root == 'builtins':
        return it.builtins[name]
    if root == 'enum':
        return it.builtins['object']
    if root == 'time':
        return N(name, lambda it, *a: Opaque('time'))
    if mod == 'os':
        if name == 'path':
            return ExtMod('os.path')
        if name in ('makedirs', 'mkdir', 'remove'):
            return N(name, noop)
    if mod == 'os.path':
        if name == 'join':
            return N(name, lambda it, *a: _os.path.join(*a) if all(isinstance(x, str) for x in a)
                     else Opaque('path(%s)' % it.key_of(list(a))))
        if name in ('basename', 'dirname', 'normpath', 'abspath', 'split', 'splitext'):
            return N(name, lambda it, a: getattr(_os.path, name)(a) if isinstance(a, str) else Opaque('path'))
        if name == 'expanduser':
            return N(name, lambda it, a: a)
        if name in ('exists', 'isfile', 'isdir'):
            return N(name, lambda it, a: I.UBool('exists(%s)' % it.key_of(a)))
    if mod == 'plum':
        if name == 'dispatch':
            return plum_dispatch(it)
        return _MISSING
    if root == '_spec':
        from . import speclib
        return speclib.attr(it, name)
    if root == '_native_torch':
        from . import torchlib
        return torchlib.attr(it, name)
    return Opaque('%s.%s' % (mod, name))


def tqdm_model(it, xs=None, *a, **k):
    if xs is None:
        return Opaque('tqdm')
    return xs


def typing_cls(it, name):
    d = it.__dict__.setdefault('_typing', {})
    if name not in d:
        d[name] = Cls(name, [it.builtins['object']], {}, native='typing.' + name)
    return d[name]


def _ddict(it, f, a):
    d = ADict(factory=f)
    if a:
        for k, v in a[0].items:
            it.dict_set(d, k, v)
    return d


def copy_value(it, x, deep, memo):
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, Obj):
        m, _ = x.cls.lookup('__deepcopy__' if deep else '__copy__')
        if m is not None:
            return it.call(Bound(x, m), [ADict()] if deep else [], {})
        o = Obj(x.cls)
        memo[id(x)] = o
        o.attrs = {k: copy_value(it, v, True, memo) if deep else v for k, v in x.attrs.items()}
        return o
    if isinstance(x, list):
        return [copy_value(it, v, deep, memo) if deep else v for v in x]
    if isinstance(x, tuple) and deep:
        return tuple(copy_value(it, v, deep, memo) for v in x)
    if isinstance(x, ADict):
        return ADict([[k, copy_value(it, v, deep, memo) if deep else v] for k, v in x.items],
                     x.factory)
    if isinstance(x, Arr):
        r = Arr(x.shape, x.fn, x.dtype, x.lib, name=x.name)
        r.attrs.update(x.attrs)
        return r
    return x


class SysModules:
    def __init__(self, it):
        self.it = it


# ---------------------------------------------------------------- attributes of values
def value_attr(it, v, name):
    if isinstance(v, Arr):
        return arr_attr(it, v, name)
    if isinstance(v, (str, I.SymStr)):
        return str_attr(it, v, name)
    if isinstance(v, list):
        return list_attr(it, v, name)
    if isinstance(v, tuple):
        if name == 'index':
            return Native('index', lambda it, x: list_index(it, v, x))
        if name == 'count':
            return Native('count', lambda it, x: sum(1 for y in v if it.truth(it.equal(x, y))))
        return _MISSING
    if isinstance(v, ADict):
        return dict_attr(it, v, name)
    if isinstance(v, (ASet, KeysView)):
        return set_attr(it, v, name)
    if isinstance(v, SysModules):
        if name == 'get':
            return Native('get', lambda it, k, d=None: it.modules.get(k, d))
        return _MISSING
    if isinstance(v, NUM + (bool, UBool)):
        if name in ('real', 'conjugate', 'conj'):
            if name == 'real':
                return v if not isinstance(v, complex) else v.real
            return Native(name, lambda it: conj(v))
        if isinstance(v, (Poly, Idx, Expr, Fraction)) and name in (
                'item', 'sum', 'mean', 'dtype', 'shape', 'ndim', 'reshape', 'astype', 'copy', 'any', 'all'):
            return arr_attr(it, arr(v, 'np'), name)
        if name == 'bit_length' and isinstance(v, int):
            return Native(name, lambda it: v.bit_length())
        if name == 'is_integer' and isinstance(v, (float, Fraction)):
            return Native(name, lambda it: Fraction(v).denominator == 1)
        return _MISSING
    if isinstance(v, DType):
        if name == 'kind':
            return v.kind
        if name == 'name':
            return v.name
        if name == 'type':
            return v
        return _MISSING
    if isinstance(v, slice):
        if name in ('start', 'stop', 'step'):
            return getattr(v, name)
        return _MISSING
    if isinstance(v, I.Property):
        if name == 'setter':
            return Native('setter', lambda it, f: v)
        if name == 'fget':
            return v.fget
        return _MISSING
    if isinstance(v, (I.StaticM, I.ClassM)):
        if name == '__func__':
            return v.f
        return _MISSING
    if v is None or v is NotImplemented or v is Ellipsis:
        return _MISSING
    if isinstance(v, (range, SymRange)):
        if isinstance(v, range) and name in ('start', 'stop', 'step'):
            return getattr(v, name)
        return _MISSING
    if isinstance(v, Repeat):
        raise Undecided('attribute of a repeated value')
    if isinstance(v, HashVal):
        return _MISSING
    raise Undecided('attribute %s of %r' % (name, v))


def list_index(it, v, x):
    for i, y in enumerate(v):
        if it.truth(it.equal(y, x)):
            return i
    it.raise_('ValueError', 'not in list')


def list_attr(it, v, name):
    N = Native
    if name == 'append':
        return N(name, lambda it, x: v.append(x))
    if name == 'extend':
        return N(name, lambda it, x: v.extend(x if isinstance(x, (list, tuple)) else it.iterate(x)))
    if name == 'insert':
        return N(name, lambda it, i, x: v.insert(int_of(i), x))
    if name == 'pop':
        def pop(it, i=-1):
            if not v:
                it.raise_('IndexError', 'pop from empty list')
            return v.pop(int_of(i))
        return N(name, pop)
    if name == 'index':
        return N(name, lambda it, x: list_index(it, v, x))
    if name == 'count':
        return N(name, lambda it, x: sum(1 for y in v if it.truth(it.equal(x, y))))
    if name == 'reverse':
        return N(name, lambda it: v.reverse())
    if name == 'copy':
        return N(name, lambda it: list(v))
    if name == 'clear':
        return N(name, lambda it: v.clear())
    if name == 'sort':
        def srt(it, key=None, reverse=False):
            v[:] = it.call(it.builtins['sorted'], [list(v)], {'key': key, 'reverse': reverse})
        return N(name, srt)
    if name == 'remove':
        def rem(it, x):
            v.pop(list_index(it, v, x))
        return N(name, rem)
    return _MISSING


def dict_attr(it, v, name):
    N = Native
    if name == 'keys':
        return N(name, lambda it: KeysViewList(v))
    if name == 'values':
        return N(name, lambda it: [x for _, x in v.items])
    if name == 'items':
        return N(name, lambda it: [(k, x) for k, x in v.items])
    if name == 'get':
        def get(it, k, d=None):
            i = it.dict_find(v, k)
            return d if i is None else v.items[i][1]
        return N(name, get)
    if name == 'pop':
        def pop(it, k, *d):
            i = it.dict_find(v, k)
            if i is None:
                if d:
                    return d[0]
                it.raise_('KeyError', it.safe_repr(k))
            return v.items.pop(i)[1]
        return N(name, pop)
    if name == 'setdefault':
        def sd(it, k, d=None):
            i = it.dict_find(v, k)
            if i is None:
                v.items.append([k, d])
                return d
            return v.items[i][1]
        return N(name, sd)
    if name == 'update':
        def upd(it, o=None, **kw):
            if o is not None:
                src = o.items if isinstance(o, ADict) else [it.iterate(x) for x in it.iterate(o)]
                for k, x in src:
                    if getattr(v, 'is_counter', False):
                        it.dict_set(v, k, it.binop('Add', it.getitem(v, k), x))
                    else:
                        it.dict_set(v, k, x)
            for k, x in kw.items():
                it.dict_set(v, k, x)
        return N(name, upd)
    if name == 'copy':
        return N(name, lambda it: ADict([list(x) for x in v.items], v.factory))
    if name == 'clear':
        return N(name, lambda it: v.items.clear())
    return _MISSING


def KeysViewList(d):
    return KeysView(d)


def set_attr(it, v, name):
    N = Native
    d = v.d
    if name == 'add':
        return N(name, lambda it, x: it.dict_set(d, x, None))
    if name in ('union', 'intersection', 'difference', 'issubset', 'issuperset'):
        def f(it, *o):
            r = v if isinstance(v, ASet) else v.toset(it)
            for x in o:
                x = it.call(it.builtins['set'], [x], {}) if not isinstance(x, ASet) else x
                if name == 'issubset':
                    return it.compare('LtE', r, x)
                if name == 'issuperset':
                    return it.compare('GtE', r, x)
                r = it.binop({'union': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub'}[name], r, x)
            return r
        return N(name, f)
    if name == 'update':
        def upd(it, xs):
            for x in it.iterate(xs):
                it.dict_set(d, x, None)
        return N(name, upd)
    if name in ('discard', 'remove'):
        def rem(it, x):
            i = it.dict_find(d, x)
            if i is not None:
                d.items.pop(i)
            elif name == 'remove':
                it.raise_('KeyError', it.safe_repr(x))
        return N(name, rem)
    if name == 'copy':
        def cp(it):
            s = ASet()
            s.d.items = [list(x) for x in d.items]
            return s
        return N(name, cp)
    return _MISSING


def str_attr(it, v, name):
    N = Native
    if name == 'join':
        def join(it, xs):
            parts = []
            for i, x in enumerate(it.iterate(xs)):
                if i:
                    parts.append(v)
                if not isinstance(x, (str, I.SymStr)):
                    it.raise_('TypeError', 'sequence item %d: expected str instance' % i)
                parts.append(x)
            return I.mkstr(parts)
        return N(name, join)
    if name == 'format':
        def fmt(it, *a, **k):
            return I.mkstr([v] + [it.str(x) for x in a] + [it.str(x) for x in k.values()])
        return N(name, fmt)
    if isinstance(v, str) and hasattr(v, name):
        m = getattr(v, name)
        if callable(m):
            def f(it, *a, **k):
                if any(isinstance(x, I.SymStr) for x in a):
                    raise Undecided('string method')
                return m(*[{x: y for x, y in z.items} if isinstance(z, I.ADict) else z for z in a], **k)
            return N(name, f)
    if isinstance(v, I.SymStr) and name in ('replace', 'strip', 'lower', 'upper', 'format', 'translate',
                                                 'lstrip', 'rstrip', 'title', 'capitalize'):
        return N(name, lambda it, *a, **k: I.SymStr((Opaque('%s.%s' % (v.key(), name)),)))
    return _MISSING


VIEWS = {'T', 'mT', 'reshape', 'view', 'transpose', 'permute', 'swapaxes', 'ravel', 'squeeze', 'at',
         'fill', 'numpy', 'data', 'requires_grad_', 'shape'}


def arr_attr(it, a, name):
    N = Native
    lib = a.lib
    if name == 'shape':
        return shp(a)
    if lib != 'jnp' and name not in VIEWS:
        a = a.snap()
    if name in ('T',):
        return transpose(a)
    if name == 'mT':
        return swapaxes(a, -1, -2)
    if name == 'H' and lib == 'torch':
        return conj(transpose(a))
    if name == 'ndim':
        return a.ndim
    if name == 'size':
        if lib == 'torch':
            return N(name, lambda it, d=None: shp(a) if d is None else shp(a)[d])
        return a.size().norm()
    if name == 'dtype':
        return DTS[KIND_NAME[a.dtype]]
    if name == 'real':
        return a if a.dtype != 'c' else ew(lambda x: efn('re', x), a, dtype='f')
    if name == 'imag':
        return ew(lambda x: efn('im', x), a, dtype='f')
    if name in a.attrs and name not in ('random',):
        return a.attrs[name]
    if name == 'at' and lib == 'jnp':
        return AtProxy(it, a)
    if name in ('reshape', 'view') and (name == 'reshape' or lib == 'torch'):
        return N(name, lambda it, *s, **k: it.guard(lambda: reshape(a, shape_arg(it, s))))
    if name in ('transpose', 'permute'):
        def tr(it, *ax):
            if lib == 'torch' and name == 'transpose':
                return swapaxes(a, int_of(ax[0]), int_of(ax[1]))
            if len(ax) == 1 and (isinstance(ax[0], (tuple, list)) or ax[0] is None):
                ax = ax[0]
            elif len(ax) == 1:
                ax = axes_arg(ax[0])
            return transpose(a, None if not ax else [int_of(x) for x in ax])
        return N(name, tr)
    if name == 'swapaxes':
        return N(name, lambda it, i, j: swapaxes(a, i, j))
    if name in ('sum', 'mean', 'std', 'var', 'max', 'min', 'prod', 'any', 'all', 'argmax', 'argmin'):
        def red(it, axis=None, keepdims=False, dim=None, **k):
            return NP[name](it, lib, a, axis=axis if dim is None else dim, keepdims=keepdims)
        return N(name, red)
    if name in ('cumsum', 'cumprod', 'argsort', 'sort', 'repeat', 'dot', 'squeeze', 'round', 'trace',
                'clip', 'ravel', 'diagonal'):
        return N(name, lambda it, *r, **k: NP[name](it, lib, a, *r, **k))
    if name == 'flatten':
        return N(name, lambda it, *r: reshape(a, (a.size(),)))
    if name in ('conj', 'conjugate'):
        return N(name, lambda it: conj(a))
    if name == 'astype':
        return N(name, lambda it, d, **k: astype(a, d))
    if name in ('copy', 'block_until_ready'):
        return N(name, lambda it, **k: copy_value(it, a, False, {}))
    if name == 'item':
        def item(it, *k):
            if a.size() != 1:
                it.raise_('ValueError', 'can only convert an array of size 1 to a Python scalar')
            return a.at([0] * a.ndim)
        return N(name, item)
    if name == 'tolist':
        def tolist(it):
            def rec(x):
                if x.ndim == 0:
                    v = x.at(())
                    return I.nidx(v) if isinstance(v, Idx) else I.nexpr(v) if isinstance(v, Expr) else v
                return [rec(getitem(x, k)) for k in range(int_of(x.shape[0]))]
            return rec(a)
        return N(name, tolist)
    if name == 'fill' and lib == 'np':
        def fill(it, v):
            it.write_arr(a, lambda ix: to_expr(v))
        return N(name, fill)
    if name in ('numpy',) and lib == 'torch':
        return N(name, lambda it: with_lib(a, 'np'))
    if lib == 'torch':
        from . import torchlib
        return torchlib.tensor_attr(it, a, name)
    if name == 'device' or name == 'flags':
        return Opaque('device')
    if name == 'devices' and lib == 'jnp':
        return N(name, lambda it: Opaque('devices'))
    if name == '__len__':
        return N(name, lambda it: a.shape[0].norm())
    if name == '__array__':
        return N(name, lambda it, *r: with_lib(a, 'np'))
    return _MISSING


class AtProxy(Obj):
    def __init__(self, it, a):
        super().__init__(tcls(it, 'jnp.at'))
        self.a = a
        if '__getitem__' not in self.cls.ns:
            self.cls.ns['__getitem__'] = Native('at[]', lambda it, s, k: AtIdx(it, s.a, k))


class AtIdx(Obj):
    def __init__(self, it, a, k):
        super().__init__(tcls(it, 'jnp.atidx'))
        k = it.idxkey(k)

        def setter(it, v):
            if isinstance(v, (list, tuple)):
                v = arr(v, 'jnp')
            fn = it.guard(lambda: setitem_fn(a, k, v))
            return Arr(a.shape, fn, a.dtype, a.lib)

        def op(f):
            def g(it, v):
                cur = getitem(a, k)
                fn = it.guard(lambda: setitem_fn(a, k, it.binop(f, cur, v)))
                return Arr(a.shape, fn, a.dtype, a.lib)
            return g
        self.attrs['set'] = Native('set', setter)
        self.attrs['add'] = Native('add', op('Add'))
        self.attrs['multiply'] = Native('multiply', op('Mult'))
        self.attrs['get'] = Native('get', lambda it: getitem(a, k))
