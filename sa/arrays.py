"""Abstract arrays: a symbolic shape plus an index -> abstract value function."""
from fractions import Fraction
import itertools
from .core import *
from . import core


class UBool:
    """a truth value the analysis does not know; resolved per trace by key"""
    def __init__(self, key, neg=False):
        self.key, self.neg = key, neg

    def __repr__(self):
        return '%sUBool(%s)' % ('not ' if self.neg else '', self.key)

    def inv(self):
        return UBool(self.key, not self.neg)


DT_ORDER = 'bifco'


def dt_join(*ds):
    return max(ds, key=DT_ORDER.index)


class Cell:
    """dynamically bound batch index"""
    def __init__(self, var):
        self.var = var
        self.val = var.idx()


class Arr:
    def __init__(self, shape, fn, dtype='f', lib='jnp', view=None, cache=False, name=None):
        self.shape = tuple(Poly.of(s) for s in shape)
        self.fn = fn
        self.dtype = dtype
        self.lib = lib
        self.view = view
        self.cache = {} if cache else None
        self.name = name
        self.attrs = {}
        self._perm = None
        self.dc = None

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, idxs):
        idxs = tuple(Idx.of(i) for i in idxs)
        if len(idxs) != len(self.shape):
            raise Undecided('rank mismatch in abstract indexing')
        if self.cache is not None and not ACTIVE_CELLS:
            r = self.cache.get(idxs)
            if r is None:
                r = self.fn(idxs)
                self.cache[idxs] = r
            return r
        if core.DENSE[0] and self.view is None and not ACTIVE_CELLS and all(not i.t for i in idxs):
            d = self.dc
            if d is None or d[0] is not self.fn:
                d = self.dc = (self.fn, {})
            r = d[1].get(idxs)
            if r is None:
                r = d[1][idxs] = self.fn(idxs)
            return r
        return self.fn(idxs)

    def ex(self, idxs):
        return to_expr(self.at(idxs))

    def size(self):
        return pprod(self.shape)

    def snap(self):
        """value semantics: the content at this moment (numpy arrays are mutable)"""
        if self.lib == 'jnp':
            return self
        if self.view is None:
            r = Arr(self.shape, self.fn, self.dtype, self.lib, name=self.name)
        else:
            mk = getattr(self, 'mk', None)
            if mk is None:
                raise Undecided('snapshot of a view')
            r = mk(self.view.snap())
            r.view = None
        r.attrs = dict(self.attrs)
        for k in ('inverse', 'tab', 'materialized', 'cmp'):
            if getattr(self, k, None) is not None:
                setattr(r, k, getattr(self, k))
        return r

    def __repr__(self):
        return 'Arr(%s %s%s)' % (self.lib, self.dtype, list(self.shape))


ACTIVE_CELLS = []


def to_expr(v):
    if isinstance(v, Expr):
        return v
    if isinstance(v, Arr):
        if v.ndim == 0:
            return v.ex(())
        raise Undecided('array used as scalar')
    if isinstance(v, UBool):
        return Expr.atom(('F', 'bool', (str(v.key), v.neg)))
    return Expr.const(v)


def to_idx(v):
    if isinstance(v, Idx):
        return v
    if isinstance(v, Arr) and v.ndim == 0:
        v = v.at(())
        if isinstance(v, Idx):
            return v
    if isinstance(v, Expr):
        p = v.as_poly()
        if p is not None:
            return Idx(p, {})
        # linear combination of index atoms
        r = Idx.of(0)
        for t in v.terms:
            if t.bound:
                raise Undecided('index from sum')
            c = Poly.of(t.coef)
            x = None
            for a, e in t.atoms:
                if a[0] == 'P' and e > 0:
                    c = c * Poly({((a[1], e),): Fraction(1)})
                elif a[0] == 'X' and e == 1 and x is None:
                    x = a[1]
                else:
                    raise Undecided('value used as an index: %r' % v)
            r = r + (x.scale(c) if x is not None else Idx(c, {}))
        return r
    if isinstance(v, (int, Poly)):
        return Idx.of(v)
    raise Undecided('not an index: %r' % (v,))


# ---------------------------------------------------------------- builders
def sym_arr(name, shape, real=True, dtype=None, lib='jnp', attrs=None):
    s = TSym(name, real)
    a = Arr(shape, lambda ix: Expr.atom(('T', s, tuple(ix), False)),
            dtype or ('f' if real else 'c'), lib, name=name)
    if attrs:
        a.attrs.update(attrs)
    return a


def const_arr(shape, v, dtype, lib):
    e = Expr.const(v)
    if dtype == 'i' and e.as_poly() is not None:
        e = Idx(e.as_poly(), {})
    return Arr(shape, lambda ix: e, dtype, lib)


def eye(n, m=None, lib='jnp', k=0):
    m = n if m is None else m
    return Arr((n, m), lambda ix: delta(ix[0] + Idx.of(k), ix[1]), 'f', lib)


def arange(a, b, step, lib):
    a, b = Poly.of(a), Poly.of(b)
    if step == 1:
        return Arr((b - a,), lambda ix: ix[0] + Idx(a, {}), 'i', lib)
    st = Poly.of(step)
    q = pdiv(b - a, st)
    if q is None and (b - a).is_const() and st.is_const():
        q = Poly.of(-((-(b - a).const()) // st.const()))
    if q is None:
        raise Undecided('arange step')
    return Arr((q,), lambda ix: ix[0].scale(st) + Idx(a, {}), 'i', lib)


def from_nested(v, lib, dtype=None):
    """nested python lists of scalars/Arrs -> Arr"""
    def shape_of(x):
        if isinstance(x, (list, tuple)):
            if not x:
                return (Poly.of(0),)
            s0 = shape_of(x[0])
            for y in x[1:]:
                if [repr(q) for q in shape_of(y)] != [repr(q) for q in s0]:
                    raise ShapeError('ragged array')
            return (Poly.of(len(x)),) + s0
        if isinstance(x, Arr):
            return x.shape
        return ()

    def dt_of(x):
        if isinstance(x, (list, tuple)):
            return dt_join(*[dt_of(y) for y in x]) if x else 'f'
        if isinstance(x, Arr):
            return x.dtype
        if isinstance(x, (bool, UBool)):
            return 'b'
        if isinstance(x, (int, Poly, Idx)):
            return 'i'
        if isinstance(x, complex):
            return 'c'
        return 'f'
    sh = shape_of(v)
    dt = dtype or dt_of(v)

    def fn(ix):
        x = v
        ix = list(ix)
        while isinstance(x, (list, tuple)):
            i = ix.pop(0)
            i = const_index(i, len(x))
            x = x[i]
        if isinstance(x, Arr):
            return x.at(ix)
        if isinstance(x, (bool, int, Poly)) and dt == 'i':
            return Idx.of(int(x) if isinstance(x, bool) else x)
        return to_expr(x)
    return Arr(sh, fn, dt, lib)


def const_index(i, n):
    """reduce an Idx over a constant-size axis to a python int (refining)"""
    i = Idx.of(i)
    if i.is_const():
        if not i.c.is_const():
            raise Undecided('symbolic index into constant-size axis')
        return int(i.c.const())
    e, ch = expand_opaque(i)
    if ch:
        return const_index(e, n)
    for a in i.t:
        if isinstance(a, IVar) and a.size.is_const() and a.size.const() <= 200:
            raise Refine(a, 'segs', (1,) * int(a.size.const()))
    raise Undecided('index %r into constant-size axis' % i)


# ---------------------------------------------------------------- structure
def reshape(a, shape):
    shape = list(shape)
    neg = [k for k, s in enumerate(shape) if isinstance(s, int) and s == -1]
    tot = a.size()
    if neg:
        if len(neg) > 1:
            raise ShapeError('two -1 in reshape')
        rest = pprod([s for k, s in enumerate(shape) if k != neg[0]])
        q = pdiv(tot, rest)
        if q is None:
            if rest.is_const() and tot.is_const():
                raise ShapeError('cannot reshape %s into %s' % (a.shape, shape))
            q2, r2 = pdivmod(tot, rest)
            raise ShapeUnknown('reshape %s -> %s' % (list(a.shape), shape))
        if not is_int_poly(q):
            raise ShapeUnknown('reshape %s -> %s' % (list(a.shape), shape))
        shape[neg[0]] = q
    shape = tuple(Poly.of(s) for s in shape)
    if pprod(shape) != tot:
        raise ShapeError('cannot reshape array of shape %s into %s' %
                         (list(a.shape), list(shape)))
    src = a.shape
    if shape == src:
        return mkview(Arr(shape, lambda ix: a.at(ix), a.dtype, a.lib, view=a),
                      lambda b: reshape(b, shape))

    def fn(ix):
        return a.at(reshape_idx(ix, shape, src))
    return mkview(Arr(shape, fn, a.dtype, a.lib, view=a), lambda b: reshape(b, shape))


def mkview(r, mk):
    r.mk = mk
    return r


class ShapeUnknown(Undecided):
    pass


def reshape_idx(ix, shape, src):
    """map index tuple of `shape` to index tuple of `src` (same row-major order),
    matching trailing/leading equal groups first"""
    ix, shape, src = list(ix), list(shape), list(src)
    # drop unit axes
    out = [None] * len(src)
    spos = [k for k, s in enumerate(src) if s != 1]
    for k, s in enumerate(src):
        if s == 1:
            out[k] = Idx.of(0)
    tpos = [k for k, s in enumerate(shape) if s != 1]
    # group from the right
    i, j = len(tpos), len(spos)
    while i > 0 or j > 0:
        ti, sj = i - 1, j - 1
        if ti < 0 or sj < 0:
            # remaining must have product one: impossible symbolically (size==1 atoms)
            raise Undecided('reshape grouping')
        tp, sp = shape[tpos[ti]], src[spos[sj]]
        tg, sg = [tpos[ti]], [spos[sj]]
        n = 0
        while tp != sp:
            n += 1
            if n > 40:
                raise Undecided('reshape grouping')
            # extend the smaller one
            if (sp - tp).nonneg() and ti > 0:
                ti -= 1
                tg.insert(0, tpos[ti])
                tp = tp * shape[tpos[ti]]
            elif (tp - sp).nonneg() and sj > 0:
                sj -= 1
                sg.insert(0, spos[sj])
                sp = sp * src[spos[sj]]
            else:
                # incomparable: take everything
                while ti > 0:
                    ti -= 1
                    tg.insert(0, tpos[ti])
                    tp = tp * shape[tpos[ti]]
                while sj > 0:
                    sj -= 1
                    sg.insert(0, spos[sj])
                    sp = sp * src[spos[sj]]
                if tp != sp:
                    raise Undecided('reshape grouping')
        flat = idx_flatten([ix[k] for k in tg], [shape[k] for k in tg])
        if len(sg) == 1:
            out[sg[0]] = flat
        else:
            for k, d in zip(sg, idx_decode(flat, [src[k] for k in sg])):
                out[k] = d
        i, j = ti, sj
    return out


def transpose(a, axes=None):
    axes = tuple(range(a.ndim))[::-1] if axes is None else tuple(ax % a.ndim for ax in axes)
    if sorted(axes) != list(range(a.ndim)):
        raise ShapeError('axes do not match array: %s for rank %d' % (axes, a.ndim))

    def fn(ix):
        src = [None] * a.ndim
        for k, ax in enumerate(axes):
            src[ax] = ix[k]
        return a.at(src)
    r = Arr([a.shape[k] for k in axes], fn, a.dtype, a.lib, view=a)
    return mkview(r, lambda b: transpose(b, axes))


def moveaxis(a, s, d):
    s, d = s % a.ndim, d % a.ndim
    order = [k for k in range(a.ndim) if k != s]
    order.insert(d, s)
    return transpose(a, order)


def swapaxes(a, i, j):
    order = list(range(a.ndim))
    order[i], order[j] = order[j], order[i]
    return transpose(a, order)


def broadcast_shapes(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        cur = Poly.of(1)
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            if s[j] == 1:
                continue
            if cur == 1:
                cur = s[j]
            elif cur != s[j]:
                d = cur - s[j]
                if d.positive() or (-d).positive():
                    # may still be legal when one of them is 1
                    if (cur - 2).nonneg() and (s[j] - 2).nonneg():
                        raise ShapeError('operands could not be broadcast: %s' %
                                         [list(x) for x in shapes])
                raise ShapeError('operands could not be broadcast: %s' %
                                 [list(x) for x in shapes])
        out.append(cur)
    return tuple(out)


def bcast_idx(ix, shape):
    """indices of an array with `shape` given indices ix of the broadcast result"""
    off = len(ix) - len(shape)
    return [Idx.of(0) if s == 1 else ix[off + k] for k, s in enumerate(shape)]


def join_lib(*arrs):
    libs = [a.lib for a in arrs if isinstance(a, Arr)]
    if 'torch' in libs:
        return 'torch'
    return 'jnp' if 'jnp' in libs else 'np'


def ew(fn, *args, dtype=None, lib=None, raw=False):
    """element-wise map; args Arr or scalars"""
    arrs = [a for a in args if isinstance(a, Arr)]
    sh = broadcast_shapes([a.shape for a in arrs])
    lib = lib or join_lib(*arrs)
    fns = [(a, a.fn) if isinstance(a, Arr) else (a, None) for a in args]
    if dtype is None:
        ds = []
        for a in args:
            if isinstance(a, Arr):
                ds.append(a.dtype)
            else:
                ds.append(scalar_dt(a))
        dtype = dt_join(*ds)

    def f(ix):
        vals = []
        for a, g in fns:
            if isinstance(a, Arr):
                v = at_fn(a, g, bcast_idx(ix, a.shape))
                vals.append(v if raw else to_expr(v))
            else:
                vals.append(a if raw else to_expr(a))
        return fn(*vals)
    return Arr(sh, f, dtype, lib)


def at_fn(a, g, idxs):
    """evaluate snapshot g of array a"""
    if g is a.fn:
        return a.at(idxs)
    return g(tuple(Idx.of(i) for i in idxs))


def scalar_dt(a):
    if isinstance(a, (bool, UBool)):
        return 'b'
    if isinstance(a, (int, Poly, Idx)):
        return 'i'
    if isinstance(a, complex):
        return 'c'
    if isinstance(a, Expr):
        for t in a.terms:
            for x, _ in t.atoms:
                if x == ('S', 'i'):
                    return 'c'
    return 'f'


def add(a, b, sign=1):
    def f(x, y):
        if isinstance(x, (int, Poly)) and not isinstance(x, bool):
            x = Idx.of(x)
        if isinstance(y, (int, Poly)) and not isinstance(y, bool):
            y = Idx.of(y)
        if isinstance(x, Idx) and isinstance(y, Idx):
            return x + y if sign == 1 else x - y
        x, y = to_expr(x), to_expr(y)
        return x + y if sign == 1 else x - y
    return ew(f, a, b, raw=True)


def mul(a, b):
    def f(x, y):
        if isinstance(x, Idx) or isinstance(y, Idx):
            if isinstance(x, Idx) and isinstance(y, (int, Poly)):
                return x.scale(y)
            if isinstance(y, Idx) and isinstance(x, (int, Poly)):
                return y.scale(x)
            if isinstance(x, Idx) and isinstance(y, Idx):
                if y.is_const():
                    return x.scale(y.c)
                if x.is_const():
                    return y.scale(x.c)
        return to_expr(x) * to_expr(y)
    return ew(f, a, b, raw=True)


def matmul(a, b):
    if a.ndim == 0 or b.ndim == 0:
        raise ShapeError('matmul: scalar operand')
    if a.ndim == 1 and b.ndim == 1:
        n = chk_eq(a.shape[0], b.shape[0], 'matmul')
        return Arr((), lambda ix: esum(n, lambda k: a.ex((k,)) * b.ex((k,))),
                   dt_join(a.dtype, b.dtype), join_lib(a, b), cache=True)
    if a.ndim == 1:
        n = chk_eq(a.shape[0], b.shape[-2], 'matmul')
        return Arr(b.shape[:-2] + b.shape[-1:],
                   lambda ix: esum(n, lambda k: a.ex((k,)) *
                                   b.ex(tuple(ix[:-1]) + (k, ix[-1]))),
                   dt_join(a.dtype, b.dtype), join_lib(a, b), cache=True)
    if b.ndim == 1:
        n = chk_eq(a.shape[-1], b.shape[0], 'matmul')
        return Arr(a.shape[:-1],
                   lambda ix: esum(n, lambda k: a.ex(tuple(ix) + (k,)) * b.ex((k,))),
                   dt_join(a.dtype, b.dtype), join_lib(a, b), cache=True)
    n = chk_eq(a.shape[-1], b.shape[-2], 'matmul')
    sh = broadcast_shapes([a.shape[:-2], b.shape[:-2]]) if (a.ndim > 2 or b.ndim > 2) else ()

    def fn(ix):
        lead, i, j = ix[:-2], ix[-2], ix[-1]
        la = bcast_idx(lead, a.shape[:-2])
        lb = bcast_idx(lead, b.shape[:-2])
        return esum(n, lambda k: a.ex(tuple(la) + (i, k)) * b.ex(tuple(lb) + (k, j)))
    return Arr(sh + (a.shape[-2], b.shape[-1]), fn, dt_join(a.dtype, b.dtype),
               join_lib(a, b), cache=True)


def chk_eq(a, b, what):
    a, b = Poly.of(a), Poly.of(b)
    if a != b:
        raise ShapeError('%s: dimension mismatch %r vs %r' % (what, a, b))
    return a


def concatenate(arrs, axis=0):
    arrs = list(arrs)
    if not arrs:
        raise ShapeError('need at least one array to concatenate')
    nd = arrs[0].ndim
    if nd == 0:
        raise ShapeError('zero-dimensional arrays cannot be concatenated')
    for a in arrs:
        if a.ndim != nd:
            raise ShapeError('concatenate: ranks differ')
    ax = axis % nd
    for a in arrs[1:]:
        for k in range(nd):
            if k != ax and a.shape[k] != arrs[0].shape[k]:
                raise ShapeError('concatenate: shapes %s vs %s' %
                                 (list(arrs[0].shape), list(a.shape)))
    offs = [Poly.of(0)]
    for a in arrs:
        offs.append(offs[-1] + a.shape[ax])
    sh = list(arrs[0].shape)
    sh[ax] = offs[-1]
    fns = [a.fn for a in arrs]

    def fn(ix):
        i = ix[ax]
        k = seg_lookup(i, offs)
        sub = list(ix)
        sub[ax] = i - Idx(offs[k], {})
        return at_fn(arrs[k], fns[k], sub)
    return Arr(sh, fn, dt_join(*[a.dtype for a in arrs]), join_lib(*arrs))


def seg_lookup(i, offs):
    """index of the segment containing i; refine when it straddles"""
    i = Idx.of(i)
    n = len(offs) - 1
    live = [k for k in range(n) if offs[k + 1] != offs[k]]
    if len(live) == 1:
        return live[0]
    # plain variable covering the whole axis: split at once
    if not i.c.m and len(i.t) == 1:
        (v, c), = i.t.items()
        if isinstance(v, IVar) and c == 1 and v.size == offs[-1]:
            raise Refine(v, 'segs', [offs[k + 1] - offs[k] for k in live])
    for k in live[:-1]:
        if idx_lt(i, offs[k + 1]):
            return k
    return live[-1]


def split(a, spec, axis=0):
    ax = axis % a.ndim
    if isinstance(spec, (list, tuple)):
        offs = [Poly.of(0)] + [Poly.of(s) for s in spec] + [a.shape[ax]]
    else:
        n = spec
        if not isinstance(n, int):
            raise Undecided('split into symbolic number')
        q = pdiv(a.shape[ax], n)
        if q is None or not is_int_poly(q):
            if a.shape[ax].is_const():
                raise ShapeError('array split does not result in an equal division')
            raise ShapeUnknown('array split does not result in an equal division')
        offs = [q * k for k in range(n + 1)]
    out = []
    for k in range(len(offs) - 1):
        out.append(slice_axis(a, ax, offs[k], offs[k + 1]))
    return out


def slice_axis(a, ax, lo, hi, step=1):
    lo, hi = Poly.of(lo), Poly.of(hi)
    if step == -1:
        raise Undecided('neg slice')
    sh = list(a.shape)
    sh[ax] = hi - lo
    if not (hi - lo).nonneg():
        if (lo - hi).nonneg():
            sh[ax] = Poly.of(0)
        else:
            raise Undecided('slice bounds order')

    def fn(ix):
        sub = list(ix)
        sub[ax] = ix[ax] + Idx(lo, {})
        return a.at(sub)
    return mkview(Arr(sh, fn, a.dtype, a.lib, view=a), lambda b: slice_axis(b, ax, lo, hi))


def norm_bound(b, n, default):
    """python slice bound -> Poly clipped to [0,n]"""
    if b is None:
        return default
    b = Poly.of(b)
    if (-b).positive():
        b = b + n
        if not b.nonneg():
            if (-b).nonneg():
                return Poly.of(0)
            raise Undecided('slice bound sign')
    elif not b.nonneg():
        raise Undecided('slice bound sign')
    if (n - b).nonneg():
        return b
    if (b - n).nonneg():
        return n
    raise Undecided('slice bound %r vs size %r' % (b, n))


def int_of(v):
    """interpreter int-like -> int or Poly"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Poly):
        return v.norm()
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    if isinstance(v, Idx):
        if v.is_const():
            return v.c.norm()
        raise Undecided('index-dependent integer')
    if isinstance(v, Arr) and v.ndim == 0:
        return int_of(v.at(()))
    if isinstance(v, Expr):
        p = v.as_poly()
        if p is not None and is_int_poly(p):
            return p.norm()
        # opaque non-negative integer
        if count_like(v):
            name = '⟨%s⟩' % core._ser_any(v, {})
            up = count_upper(v)
            if core.DENSE[0] and up is not None and up.is_const() and 'TsvdS' in name:
                return int(up.const()) // 2         # instantiate the rank of an unknown matrix
            if up is not None:
                core.UPPER[name] = up
            COUNTS[name] = v
            return Poly.atom(name, 0)
        raise Undecided('opaque integer %r' % v)
    raise Undecided('not an integer: %r' % (v,))


COUNTS = {}


def count_upper(e):
    """bound of a sum of truth values"""
    up = Poly.of(0)
    for t in e.terms:
        c = Poly.of(t.coef)
        for v in t.bound:
            c = c * v.size
        if any(ex != 1 for _, ex in t.atoms):
            return None
        up = up + c
    return up


def count_like(e):
    return all(t.coef > 0 and all(a[0] in ('B', 'D') or (a[0] == 'F' and a[1] in
               ('lt', 'le', 'eq', 'ne', 'bool', 'gt', 'ge')) for a, _ in t.atoms)
               for t in e.terms)


# ---------------------------------------------------------------- indexing
def getitem(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    nreal = sum(1 for k in key if k is not None and k is not Ellipsis
                and not (isinstance(k, Arr) and k.dtype == 'b'))
    nreal += sum(k.ndim for k in key if isinstance(k, Arr) and k.dtype == 'b')
    if nreal > a.ndim:
        raise ShapeError('too many indices for array')
    nell = sum(1 for k in key if k is Ellipsis)
    if nell == 0:
        key = key + [Ellipsis]
    e = next(i for i, k in enumerate(key) if k is Ellipsis)
    key[e:e + 1] = [slice(None)] * (a.ndim - nreal)
    for k in key:
        if isinstance(k, Arr) and k.dtype == 'b':
            raise Undecided('boolean mask indexing')
    # plan: list of per source axis accessors
    plan = []        # ('s', out_pos, lo, step) ('i', Idx) ('a', Arr)
    out_shape = []
    adv = []
    ax = 0
    out_kinds = []
    for k in key:
        if k is None:
            out_kinds.append(('new',))
            continue
        n = a.shape[ax]
        if isinstance(k, slice):
            st = 1 if k.step is None else int_of(k.step)
            if st == 1:
                lo = norm_bound(None if k.start is None else int_of(k.start), n, Poly.of(0))
                hi = norm_bound(None if k.stop is None else int_of(k.stop), n, n)
                ln = hi - lo
                if not ln.nonneg():
                    if (-ln).nonneg():
                        ln = Poly.of(0)
                    else:
                        raise Undecided('slice order')
            elif st == -1 and k.start is None and k.stop is None:
                lo, ln = n - 1, n
            elif isinstance(st, int) and st > 1:
                lo = norm_bound(None if k.start is None else int_of(k.start), n, Poly.of(0))
                hi = norm_bound(None if k.stop is None else int_of(k.stop), n, n)
                q = (hi - lo)
                if q.is_const():
                    ln = Poly.of(-((-int(q.const())) // st))
                else:
                    ln = pdiv(q + (st - 1), st)
                    ln2 = pdiv(q, st)
                    ln = ln2 if ln2 is not None and is_int_poly(ln2) else ln
                    if ln is None or not is_int_poly(ln):
                        raise Undecided('strided slice')
            else:
                raise Undecided('slice step')
            out_kinds.append(('s', ax, lo, st, ln))
        elif isinstance(k, Arr) and k.ndim > 0:
            out_kinds.append(('a', ax, k))
            adv.append((ax, k))
        elif isinstance(k, (list, tuple)):
            kk = from_nested(k, 'np', None)
            if kk.dtype == 'b':
                raise Undecided('mask')
            out_kinds.append(('a', ax, kk))
            adv.append((ax, kk))
        else:
            try:
                i = to_idx(k)
            except Undecided:
                i = to_idx(int_of(k))
            if isinstance(k, Arr) and k.dtype not in 'i':
                raise ShapeError('arrays used as indices must be of integer type')
            i = wrap_neg(i, n)
            out_kinds.append(('i', ax, i))
        ax += 1
    # numpy rule: when advanced (incl. ints alongside arrays) indices are adjacent keep place
    shape = []
    has_adv = bool(adv)
    for (ax_, k) in adv:
        if k.dtype not in 'i':
            raise ShapeError('arrays used as indices must be of integer (or boolean) type')
    if has_adv:
        advshape = broadcast_shapes([k.shape for _, k in adv])
        pos = [p for p, o in enumerate(out_kinds) if o[0] in 'ai']
        contiguous = pos == list(range(pos[0], pos[-1] + 1))
        first = pos[0] if contiguous else None
    outmap = []    # per output axis: ('s', ax, lo, st) / ('new',) / ('adv', j)
    if has_adv and first is None:
        for j, s in enumerate(advshape):
            outmap.append(('adv', j))
            shape.append(s)
    for p, o in enumerate(out_kinds):
        if has_adv and first == p:
            for j, s in enumerate(advshape):
                outmap.append(('adv', j))
                shape.append(s)
        if o[0] == 'new':
            outmap.append(('new',))
            shape.append(Poly.of(1))
        elif o[0] == 's':
            outmap.append(('s', o[1], o[2], o[3]))
            shape.append(o[4])
    ints = [(o[1], o[2]) for o in out_kinds if o[0] == 'i']
    advfn = [(ax_, k, k.fn) for ax_, k in adv]
    g = a.fn

    def src_index(ix):
        src = [None] * a.ndim
        advix = [None] * (len(advshape) if has_adv else 0)
        for j, o in enumerate(outmap):
            if o[0] == 's':
                src[o[1]] = (ix[j].scale(o[3]) if o[3] != 1 else ix[j]) + Idx(Poly.of(o[2]), {})
            elif o[0] == 'adv':
                advix[o[1]] = ix[j]
        for ax_, i in ints:
            src[ax_] = i
        for ax_, k, kf in advfn:
            i = to_idx(at_fn(k, kf, bcast_idx(advix, k.shape)))
            src[ax_] = wrap_neg(i, a.shape[ax_])
        return src
    if has_adv:
        return Arr(shape, lambda ix: at_fn(a, g, src_index(ix)), a.dtype, a.lib)
    r = Arr(shape, lambda ix: a.at(src_index(ix)), a.dtype, a.lib, view=a)
    r.vkey = tuple(key)
    return mkview(r, lambda b: getitem(b, r.vkey))


def wrap_neg(i, n):
    i = Idx.of(i)
    if i.is_const() and i.c.m and (-i.c).positive():
        i = i + Idx(Poly.of(n), {})
        if (-i.c).positive():
            raise ShapeError('index out of bounds')
        return i
    if i.is_const():
        if (i.c - n).nonneg():
            raise ShapeError('index %r is out of bounds for axis with size %r' % (i.c, n))
    return i


def setitem_fn(a, key, value):
    """new content function for a with a[key]=value"""
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    old = a.fn
    nreal = sum(1 for k in key if k is not None and k is not Ellipsis)
    if nreal > a.ndim:
        raise ShapeError('too many indices for array')
    if not any(k is Ellipsis for k in key):
        key = key + [Ellipsis]
    e = next(i for i, k in enumerate(key) if k is Ellipsis)
    key[e:e + 1] = [slice(None)] * (a.ndim - nreal)
    if any(k is None for k in key):
        pos = [j for j, k in enumerate(key) if k is None]
        if any(isinstance(k, (Arr, list)) or not (k is None or isinstance(k, slice)) for k in key):
            raise Undecided('newaxis in assignment')
        if isinstance(value, Arr):
            # drop the unit axes of the right-hand side
            nd = len(key)
            v = value
            if v.ndim > nd:
                raise ShapeError('could not broadcast input array')
            drop = [j - (nd - v.ndim) for j in pos if j - (nd - v.ndim) >= 0]
            for j in drop:
                if v.shape[j] != 1:
                    raise ShapeError('could not broadcast input array')
            value = getitem(v, tuple(0 if j in drop else slice(None) for j in range(v.ndim)))
        key = [k for k in key if k is not None]
    sel = []
    shape = []
    has_arr = any(isinstance(k, (Arr, list)) and not (isinstance(k, Arr) and k.ndim == 0)
                  for k in key)
    if has_arr:
        return setitem_adv(a, key, value)
    for ax, k in enumerate(key):
        n = a.shape[ax]
        if isinstance(k, slice):
            if k.step is not None and int_of(k.step) != 1:
                raise Undecided('strided assignment')
            lo = norm_bound(None if k.start is None else int_of(k.start), n, Poly.of(0))
            hi = norm_bound(None if k.stop is None else int_of(k.stop), n, n)
            sel.append(('s', lo, hi))
            shape.append(hi - lo)
        else:
            i = wrap_neg(to_idx(k), n)
            sel.append(('i', i))
    val = value if isinstance(value, Arr) else None
    if val is not None:
        vsh = val.shape
        # numpy allows leading unit axes to be dropped
        while len(vsh) > len(shape) and vsh[0] == 1:
            val = getitem(val, 0)
            vsh = val.shape
        bs = broadcast_shapes([tuple(shape), vsh])
        if tuple(bs) != tuple(shape):
            raise ShapeError('could not broadcast input array from shape %s into %s' %
                             (list(vsh), list(shape)))
        vfn = val.fn
    scal = None if val is not None else value

    def fn(ix):
        sub = []
        cond = Expr.const(1)
        for ax, s in enumerate(sel):
            i = ix[ax]
            if s[0] == 's':
                _, lo, hi = s
                if lo.m and idx_lt(i, lo):
                    return old(ix)
                if hi != a.shape[ax] and not idx_lt(i, hi):
                    return old(ix)
                sub.append(i - Idx(lo, {}))
            else:
                t = s[1]
                r = idx_eq(i, t)
                if r is False:
                    return old(ix)
                if r is None:
                    cond = cond * delta(i, t)
        if val is not None:
            v = at_fn(val, vfn, bcast_idx(sub, val.shape))
        else:
            v = scal
            if isinstance(v, (int, Poly)) and a.dtype == 'i':
                v = Idx.of(v)
        if cond.as_const() == 1:
            return coerce(v, a.dtype)
        return to_expr(coerce(v, a.dtype)) * cond + to_expr(old(ix)) * (Expr.const(1) - cond)
    return fn


def coerce(v, dt):
    if dt == 'i' and isinstance(v, Expr):
        p = v.as_poly()
        if p is not None:
            return Idx(p, {})
    if dt == 'f' and isinstance(v, Idx):
        return to_expr(v)
    return v if isinstance(v, (Idx, Expr)) else to_expr(v)


def idx_eq(i, t):
    """True/False/None for index equality; refine single variables against constants"""
    d = Idx.of(i) - Idx.of(t)
    if not d.t:
        if not d.c.m:
            return True
        if d.c.positive() or (-d.c).positive():
            return False
        return None
    lo, hi = d.bounds()
    if lo.positive() or (-hi).positive():
        return False
    # single variable against a constant position: split around it
    if len(d.t) == 1:
        (v, c), = d.t.items()
        if isinstance(v, IVar) and (c == 1 or c == -1):
            pos = -d.c if c == 1 else d.c
            if pos.nonneg() and (v.size - 1 - pos).nonneg():
                segs = [s for s in (pos, Poly.of(1), v.size - pos - 1) if s != 0]
                if len(segs) > 1:
                    raise Refine(v, 'segs', segs)
    for a in d.t:
        if isinstance(a, IVar) and a.size.is_const() and 1 < a.size.const() <= 64:
            raise Refine(a, 'segs', (1,) * int(a.size.const()))
    e, ch = expand_opaque(d)
    if ch:
        return idx_eq(e, 0)
    return None


def setitem_adv(a, key, value):
    """fancy assignment a[k0,k1,...] = value with integer arrays (scatter)"""
    old = a.fn
    arrs = []
    for ax, k in enumerate(key):
        if isinstance(k, list):
            k = from_nested(k, 'np')
        if isinstance(k, Arr) and k.ndim > 0:
            if k.dtype != 'i':
                raise Undecided('mask assignment')
            arrs.append((ax, k))
        elif isinstance(k, slice):
            arrs.append((ax, k))
        else:
            arrs.append((ax, Arr((), (lambda v: lambda ix: v)(to_idx(k)), 'i', 'np')))
    advs = [(ax, k) for ax, k in arrs if isinstance(k, Arr)]
    advshape = broadcast_shapes([k.shape for _, k in advs])
    pos = [ax for ax, _ in advs]
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    first = pos[0] if contiguous else 0
    sl = [(ax, k) for ax, k in arrs if not isinstance(k, Arr)]
    sls = []
    for ax, k in sl:
        n = a.shape[ax]
        lo = norm_bound(None if k.start is None else int_of(k.start), n, Poly.of(0))
        hi = norm_bound(None if k.stop is None else int_of(k.stop), n, n)
        sls.append((ax, lo, hi))
    # result shape of the selection
    outaxes = []
    for ax, lo, hi in sls:
        if ax < first:
            outaxes.append(('s', ax))
    for j in range(len(advshape)):
        outaxes.append(('adv', j))
    for ax, lo, hi in sls:
        if ax >= first:
            outaxes.append(('s', ax))
    shp = []
    d = {ax: hi - lo for ax, lo, hi in sls}
    for o in outaxes:
        shp.append(advshape[o[1]] if o[0] == 'adv' else d[o[1]])
    val = value if isinstance(value, Arr) else None
    if val is not None:
        while val.ndim > len(shp) and val.shape[0] == 1:
            val = getitem(val, 0)
        bs = broadcast_shapes([tuple(shp), val.shape])
        if tuple(bs) != tuple(shp):
            raise ShapeError('could not broadcast input array from shape %s into %s' %
                             (list(val.shape), shp))
    vfn = val.fn if val is not None else None
    advf = [(ax, k, k.fn) for ax, k in advs]

    def fn(ix):
        # find the write position(s): solve k(adv) == ix by enumeration of constant
        # adv shapes or by digit variables
        subs = {}
        for ax, lo, hi in sls:
            i = ix[ax]
            if lo.m and idx_lt(i, lo):
                return old(ix)
            if hi != a.shape[ax] and not idx_lt(i, hi):
                return old(ix)
            subs[ax] = i - Idx(lo, {})

        def written(advix):
            src = []
            for o in outaxes:
                src.append(advix[o[1]] if o[0] == 'adv' else subs[o[1]])
            if val is not None:
                return at_fn(val, vfn, bcast_idx(src, val.shape))
            v = value
            if isinstance(v, (int, Poly)) and a.dtype == 'i':
                v = Idx.of(v)
            return v
        tot = pprod(advshape)
        if tot.is_const() and tot.const() <= 100:
            dims = [int(s.const()) for s in advshape]
            for combo in reversed(list(itertools.product(*[range(x) for x in dims]))):
                advix = [Idx.of(c) for c in combo]
                hit = True
                for ax, k, kf in advf:
                    i = to_idx(at_fn(k, kf, bcast_idx(advix, k.shape)))
                    i = wrap_neg(i, a.shape[ax])
                    r = idx_eq(ix[ax], i)
                    if r is None:
                        raise Undecided('scatter position')
                    if not r:
                        hit = False
                        break
                if hit:
                    return coerce(written(advix), a.dtype)
            return old(ix)
        # symbolic scatter: each adv index axis j must be recoverable
        vars_ = [IVar(s, 'w') for s in advshape]
        advix = [v.idx() for v in vars_]
        eqs = []
        for ax, k, kf in advf:
            i = to_idx(at_fn(k, kf, bcast_idx(advix, k.shape)))
            eqs.append((ix[ax], i))
        sol = solve_digits(eqs, vars_)
        if sol is None:
            return old(ix)
        return coerce(written([sol[v] if v in sol else Idx.of(0) for v in vars_]), a.dtype)
    return fn


def solve_digits(eqs, vars_):
    """solve target == affine(vars) for unit-coefficient variables; returns env,
    None (no solution) or raises Refine/Undecided"""
    env = {}
    pend = list(eqs)
    n = 0
    while pend:
        n += 1
        if n > 50:
            raise Undecided('scatter solve')
        tgt, e = pend.pop(0)
        e = e.subst(env)
        unknown = [v for v in e.t if isinstance(v, IVar) and v in vars_]
        if any(isinstance(v, OApp) for v in e.t):
            raise Undecided('opaque scatter')
        if not unknown:
            r = idx_eq(tgt, e)
            if r is None:
                raise Undecided('scatter equality')
            if not r:
                return None
            continue
        if len(unknown) == 1 and e.t[unknown[0]] == 1:
            v = unknown[0]
            rest = e - v.idx()
            val = Idx.of(tgt) - rest
            if not idx_lt(-val, 1):
                return None
            if not idx_lt(val, v.size):
                return None
            env[v] = val
            continue
        pend.append((tgt, e))
    return env


# ---------------------------------------------------------------- reductions
def reduce_sum(a, axis=None, keepdims=False, mean=False):
    if axis is None:
        axes = list(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = [x % a.ndim for x in axis]
    else:
        if a.ndim == 0 or not -a.ndim <= axis < a.ndim:
            raise ShapeError('axis %s is out of bounds for array of dimension %d' % (axis, a.ndim))
        axes = [axis % a.ndim]
    g = a.fn
    sh = []
    for k in range(a.ndim):
        if k in axes:
            if keepdims:
                sh.append(1)
        else:
            sh.append(a.shape[k])
    cnt = pprod([a.shape[k] for k in axes])

    def fn(ix):
        src = [None] * a.ndim
        it = iter(ix)
        for k in range(a.ndim):
            if k in axes:
                if keepdims:
                    next(it)
            else:
                src[k] = next(it)

        def rec(rest, src):
            if not rest:
                return to_expr(at_fn(a, g, src))
            k = rest[0]

            def body(b):
                s2 = list(src)
                s2[k] = b
                return rec(rest[1:], s2)
            return esum(a.shape[k], body)
        r = rec(axes, src)
        if mean:
            r = r * epow(Expr.const(cnt), -1)
        return r
    dt = a.dtype if not mean else dt_join(a.dtype, 'f')
    if dt == 'b':
        dt = 'i'
    return Arr(sh, fn, dt, a.lib, cache=(a.lib != 'np'))


def content_key(a, limit=400):
    """canonical serialisation of an array's content; returns (key, params)"""
    names = {}
    parts = ['%r' % (list(a.shape),)]

    def ev(ix):
        return a.at(ix)
    n = a.size()
    if core.DENSE[0] and n.is_const() and n.const() <= 1296:
        # literal sizes: entry by entry, so that the key does not depend on how the array was written
        cs = []
        for c in itertools.product(*[range(int(d.const())) for d in a.shape]):
            ix = tuple(Idx.of(k) for k in c)
            cs.append((ix, ev(ix)))
    else:
        cs = cases(a.shape, ev, limit)
    own = set()
    params = set()
    for ix, v in cs:
        o = set()
        for i in ix:
            o |= i.vars()
        own |= o
        params |= free_vars(v if isinstance(v, (Expr, Idx)) else to_expr(v)) - o
    params = sorted(params, key=lambda v: (len(v.name), v.name))
    for j, p in enumerate(params):
        names[p] = 'p%d' % j
    for ix, v in cs:
        nm = dict(names)
        j = 0
        for i in ix:
            for q in sorted(i.vars(), key=lambda v: (len(v.name), v.name)):
                if q not in nm:
                    nm[q] = 'o%d' % j
                    j += 1
        v = v if isinstance(v, (Expr, Idx)) else to_expr(v)
        if isinstance(v, Idx):
            v = Expr.const(v)
        parts.append('%s->%s' % (','.join(core._ser_idx(i, nm) for i in ix),
                                 core._ser_any(v, nm)))
    return '&'.join(parts), params


KEYS = {}
OPQ = {}          # opaque symbol key -> definition (function, arguments, parameters)


def short(key):
    """readable interned name for a long content key"""
    if len(key) < 60:
        return key
    if key not in KEYS:
        KEYS[key] = '⟪%d⟫' % len(KEYS)
    return KEYS[key]


def opaque_arr(fname, arrs, shape, extra='', real=True, dtype=None, lib=None, attrs=None):
    keys = []
    params = []
    for a in arrs:
        k, ps = content_key(a)
        ren = []
        for p in ps:
            if p not in params:
                params.append(p)
            ren.append(params.index(p))
        keys.append(short(k) + (str(ren) if ren else ''))
    s = TSym('%s(%s%s)' % (fname, ','.join(keys), extra), real)
    if s.key not in OPQ:
        OPQ[s.key] = (fname, [x.snap() if x.lib == 'np' else x for x in arrs], list(params),
                      len(shape), extra)
    pidx = tuple(p.idx() for p in params)
    r = Arr(shape, lambda ix: Expr.atom(('T', s, tuple(ix) + pidx, False)),
            dtype or ('f' if real else 'c'), lib or join_lib(*arrs), name=s.key)
    if attrs:
        r.attrs.update(attrs)
    return r


# ---------------------------------------------------------------- permutations
def argsort(p):
    """inverse of a permutation array"""
    if p.ndim != 1:
        raise Undecided('argsort of rank %d' % p.ndim)
    if getattr(p, 'inverse', None) is not None:
        return p.inverse
    n = p.shape[0]
    if n.is_const() and n.const() <= 3000:
        vals = []
        ok = True
        for k in range(int(n.const())):
            v = p.at((Idx.of(k),))
            try:
                i = to_idx(v)
            except Undecided:
                ok = False
                break
            if not i.is_const() or not i.c.is_const():
                ok = False
                break
            vals.append(int(i.c.const()))
        if ok:
            order = sorted(range(len(vals)), key=lambda k: vals[k])
            r = from_nested(order, p.lib, 'i')
            r.inverse = p if sorted(vals) == list(range(len(vals))) else None
            return r
    if p.dtype != 'i':
        raise Undecided('argsort of non-permutation')
    pieces = perm_pieces(p)      # also checks bijectivity (raises Undecided if unknown)

    def fn(ix):
        e = ix[0]
        return invert(pieces, e, n)
    r = Arr((n,), fn, 'i', p.lib)
    r.inverse = p
    p.inverse = r
    return r


def perm_pieces(p):
    n = p.shape[0]
    cs = cases((n,), lambda ix: to_idx(p.at(ix)))
    return [(ix[0], v) for ix, v in cs]


def invert(pieces, e, n):
    """k with P(k)==e where P is given by affine pieces (argument, value)"""
    e = Idx.of(e)
    last = None
    # opaque permutation applications cancel syntactically
    for arg, val in pieces:
        r = match_affine(val, e)
        if r is not None:
            return arg.subst(r)
    for arg, val in pieces:
        try:
            r = solve_piece(val, e)
        except Undecided as u:
            last = u
            continue
        if r is not None:
            return arg.subst(r)
    e2, ch = expand_opaque(e)
    if ch:
        return invert(pieces, e2, n)
    if last is not None:
        raise last
    raise Undecided('cannot invert permutation at %r' % e)


def match_affine(val, e):
    """syntactic match val(vars)==e with renaming of variables by equal strides/sizes"""
    if val.c != e.c or len(val.t) != len(e.t):
        return None
    env = {}
    left = dict(e.t)
    for a, c in val.t.items():
        hit = None
        for b, d in left.items():
            if d != c or b.size != a.size:
                continue
            if isinstance(a, IVar):
                hit = b
                break
            if isinstance(b, OApp) and b.sym is a.sym:
                hit = b
                break
        if hit is None:
            return None
        del left[hit]
        if isinstance(a, IVar):
            env[a] = Idx(Poly({}), {hit: Poly.of(1)})
        else:
            # opaque perm application: match its argument
            for x, y in zip(a.args, hit.args):
                m = match_affine(x, y)
                if m is None:
                    try:
                        m = solve_piece(x, y)
                    except Undecided:
                        return None
                    if m is None:
                        return None
                env.update(m)
    return env


def solve_piece(val, e):
    """solve val(digits) == e; None when e is provably outside the piece"""
    e = Idx.of(e) - Idx(val.c, {})
    items = sorted(val.t.items(), key=lambda z: len(repr(z[1])))
    if not items:
        r = idx_eq(e, 0)
        if r is None:
            raise Undecided('piece membership')
        return {} if r else None
    # order digits by stride: largest first (stride_k divides / dominates)
    order = []
    rest = list(val.t.items())
    while rest:
        for a, c in rest:
            if all((c - c2).nonneg() for a2, c2 in rest if a2 is not a):
                order.append((a, c))
                rest.remove((a, c))
                break
        else:
            raise Undecided('stride order')
    env = {}
    cur = e
    # range check first: split the argument at the ends of the piece, not at a digit
    top = Poly.of(1)
    dense = True
    for a, c in order[::-1]:
        dense = dense and c == top
        top = top + c * (a.size - 1)
    if dense:
        try:
            if idx_lt(cur, 0):
                return None
            if not idx_lt(cur, top):
                return None
        except Undecided:
            pass
    for k, (a, c) in enumerate(order):
        if c == 1:
            q, r = cur, Idx.of(0)
        else:
            lo, hi = cur.bounds()
            if not lo.nonneg():
                # maybe provably negative -> outside
                if (-hi).positive():
                    return None
                if idx_lt(cur, 0):
                    return None
            q, r = idx_divmod(cur, c)
        lo, hi = q.bounds()
        if not lo.nonneg():
            if idx_lt(q, 0):
                return None
        if not idx_lt(q, a.size):
            return None
        if isinstance(a, IVar):
            env[a] = q
        else:
            if not a.sym.is_perm:
                raise Undecided('opaque piece')
            inner = solve_piece(a.args[0], apply_sym(a.sym.inverse, [q]))
            if inner is None:
                return None
            env.update(inner)
        cur = r
    if cur.t or cur.c.m:
        r = idx_eq(cur, 0)
        if r is None:
            raise Undecided('piece remainder')
        if not r:
            return None
    return env


def perm_bijective(p):
    """is the integer array a permutation of range(n)?  True/None(unknown)/'reason'"""
    n = p.shape[0]
    pieces = perm_pieces(p)
    total = Poly.of(0)
    for arg, val in pieces:
        cnt = Poly.of(1)
        for v in arg.vars():
            cnt = cnt * v.size
        total = total + cnt
        lo, hi = val.bounds()
        if not lo.nonneg() or not (n - 1 - hi).nonneg():
            return 'value out of range: %r' % val
        vv = set(val.vars())
        for v in arg.vars():
            if v not in vv:
                return 'value does not depend on %r' % v
    if total != n:
        return None
    # injectivity: inverse must exist for every value
    inv_ok = []
    for arg, val in pieces:
        try:
            back = invert(pieces, val, n)
        except Undecided:
            return None
        if back != arg:
            return 'two positions map to the same value'
    # disjointness: a piece's value solved against other pieces must fail
    for k, (arg, val) in enumerate(pieces):
        for j, (arg2, val2) in enumerate(pieces):
            if j == k:
                continue
            try:
                cs = cases([], lambda ix: None)
                r = solve_cases(val2, val)
            except Undecided:
                return None
            if r:
                return 'pieces overlap'
    return True


def solve_cases(val2, val):
    """is there any overlap of val with piece val2 (refining val's variables)?"""
    work = [val]
    n = 0
    while work:
        n += 1
        if n > 500:
            raise Undecided('overlap cases')
        v = work.pop()
        try:
            if solve_piece(val2, v) is not None:
                return True
        except Refine as r:
            for sub, _ in refine_sub(r):
                work.append(v.subst({r.var: sub}))
    return False


PERMEQ = {}


def perm_eq_key(a, b):
    """name of the (lazily decided) fact that two integer arrays agree everywhere"""
    k = 'permeq:%d' % len(PERMEQ)
    PERMEQ[k] = (a, b)
    return k
