"""Natives available to the specification modules (sa/specs/*.py), which are
themselves interpreted abstractly together with the analysed sources."""
from .core import *
from . import core, arrays, interp as I, models, numeval
from .arrays import *
from .interp import Native, Obj, AbsRaise, ADict, Func, Cls, Bound, Repeat, Opaque
from fractions import Fraction
import itertools
import re


LASTTB = False


class Obl:
    def __init__(self, label, status, detail='', site=''):
        self.label, self.status, self.detail, self.site = label, status, detail, site


def record(it, label, status, detail='', site=''):
    pre = getattr(it, 'label_prefix', '')
    label = label if isinstance(label, str) else it.str(label)
    label = I.str_of(label)
    detail = detail if isinstance(detail, str) else I.str_of(it.str(detail))
    it.obls.append(Obl(pre + label, status, detail, site or ''))


def is_arr(x):
    return isinstance(x, (Arr, Expr, Idx, Poly, int, float, complex, Fraction)) and not isinstance(x, bool)


def compare_values(it, a, b, exact=False):
    """-> ('proved'|'violated'|'undecided', detail)"""
    if isinstance(a, Repeat) or isinstance(b, Repeat):
        return 'undecided', 'symbolic repetition'
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if any(isinstance(x, Repeat) for x in list(a) + list(b)):
            return 'undecided', 'symbolic repetition'
        if len(a) != len(b):
            return 'violated', 'lengths %d and %d' % (len(a), len(b))
        best = ('proved', '')
        for i, (x, y) in enumerate(zip(a, b)):
            s, d = compare_values(it, x, y)
            if s == 'violated':
                return s, 'component %d: %s' % (i, d)
            if s == 'undecided':
                best = (s, d)
        return best
    if is_arr(a) and is_arr(b):
        A, B = models.arr(a, 'jnp'), models.arr(b, 'jnp')
        return compare_arrays(it, A, B)
    if (isinstance(a, Arr) and not isinstance(b, Arr)) or (isinstance(b, Arr) and not isinstance(a, Arr)):
        if isinstance(a, (Opaque,)) or isinstance(b, (Opaque,)):
            return 'undecided', 'opaque value'
        return 'violated', 'got %s, want %s' % (it.type_name(a), it.type_name(b))
    r = it.equal(a, b)
    if r is True:
        return 'proved', ''
    if r is False:
        return 'violated', 'got %s, want %s' % (it.safe_repr(a), it.safe_repr(b))
    return 'undecided', 'equality not decided'


def compare_arrays(it, A, B):
    if A.ndim != B.ndim:
        return 'violated', 'got shape %s, want %s' % (list(A.shape), list(B.shape))
    for x, y in zip(A.shape, B.shape):
        if x != y:
            d = x - y
            if d.is_const() or d.positive() or (-d).positive():
                return 'violated', 'got shape %s, want %s' % (list(A.shape), list(B.shape))
            return 'violated', 'got shape %s, want %s (for generic sizes)' % (list(A.shape), list(B.shape))
    A, B = A.snap(), B.snap()
    try:
        n = A.size()
        if core.DENSE[0] and n.is_const() and n.const() <= 20000:
            cs = []
            for c in itertools.product(*[range(int(d.const())) for d in A.shape]):
                ix = [Idx.of(k) for k in c]
                cs.append((ix, (A.ex(ix), B.ex(ix))))
        else:
            cs = cases(A.shape, lambda ix: (A.ex(ix), B.ex(ix)))
    except Undecided as e:
        return 'undecided', str(e)
    und = None
    n = 0
    for ix, (x, y) in cs:
        n += 1
        if x == y:
            continue
        w = numeval.differ(x, y)
        if w is not None:
            return 'violated', 'entry %s: got %s, want %s; separating valuation %s' % (
                list(ix), trunc(x), trunc(y), w)
        und = 'entry %s: normal forms differ, not separated: %s / %s' % (list(ix), trunc(x), trunc(y))
    if und:
        return 'undecided', und
    return 'proved', '%d index classes' % n


def trunc(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '…'


def guarded_trace(it):
    """True when the current trace took decisions the domain could not justify"""
    free = getattr(it, 'free_keys', set())
    out = []
    sizes = False
    for k, v in it.ctx.trace:
        if k in free or k.startswith(('hash<:', 'str<:')):
            continue            # declared free, or an unspecified total order kept transitive
        if k in I.POS_KEYS:
            sizes = True
            continue
        out.append(k)
    if sizes and core.facts_witness(core.FACTS) is None:
        out.append('size order without a witness')
    return out


def expect_eq(it, label, a, b, site=''):
    s, d = compare_values(it, a, b)
    if s == 'violated' and guarded_trace(it):
        s, d = 'undecided', 'on a trace with undetermined branches %s: %s' % (guarded_trace(it)[:3], d)
    record(it, label, s, d, site)
    return s == 'proved'


def s_expect_any(it, label, a, bs, site=''):
    """a equals one of the alternatives bs"""
    und, last = None, 'no alternative'
    for b in bs:
        s, d = compare_values(it, a, b)
        if s == 'proved':
            record(it, label, 'proved', d, site)
            return True
        if s == 'undecided':
            und = d
        last = d
    if und is not None or guarded_trace(it):
        record(it, label, 'undecided', und or 'on an undetermined trace: ' + last, site)
    else:
        record(it, label, 'violated', 'none of %d alternatives: %s' % (len(bs), last), site)
    return False


def s_same(it, a, b):
    """'proved', 'violated' or 'undecided' without recording an obligation"""
    return compare_values(it, a, b)[0]


def s_drawn(it, mark=None):
    """the arrays drawn from numpy.random so far: [(function, array)]"""
    return [(k, a) for k, a in getattr(it, 'drawn', [])]


def expect(it, label, cond, detail='', site=''):
    r = None
    if isinstance(cond, bool):
        r = cond
    elif cond is None:
        r = False
    elif isinstance(cond, UBool):
        r = None
    else:
        try:
            n = len(it.ctx.trace)
            r = it.truth(cond)
            if len(it.ctx.trace) != n:
                r = None
        except Undecided:
            r = None
    if r is True:
        record(it, label, 'proved', '', site)
    elif r is False and not guarded_trace(it):
        record(it, label, 'violated', it.str(detail) if detail else 'condition is false', site)
    else:
        record(it, label, 'undecided', 'condition not decided', site)


def expect_perm(it, label, p):
    try:
        A = models.arr(p, 'np')
        r = perm_bijective(A)
    except Undecided as e:
        record(it, label, 'undecided', str(e))
        return
    if r is True:
        record(it, label, 'proved', '')
    elif r is False and not guarded_trace(it):
        record(it, label, 'violated', 'index array is not a bijection of 0..n-1')
    else:
        record(it, label, 'undecided', 'bijectivity not decided')


def scenario(it, pid, tier='quick', name=None, traces=None):
    """traces: how many outcomes of the undetermined branches are followed (quick, thorough)"""
    def deco(it, f):
        for p in pid.split():
            it.scenarios.append((p, name or f.name, tier, f, traces or (24, 200)))
        return f
    return Native('scenario', deco)


def s_dim(it, name, lower=1):
    return Poly.atom(name, lower)


def s_array(it, name, *shape, real=True, lib='jnp', dtype=None):
    return sym_arr(name, tuple(Poly.of(arrays.int_of(s)) if not isinstance(s, (Poly, int)) else s
                               for s in shape), real=real, lib=lib, dtype=dtype)


def s_scalar(it, name, positive=False):
    return Expr.atom(('S', ('pos:' if positive else '') + name))


def s_eye(it, n, m=None):
    return eye(n, m)


def s_opaque(it, name):
    return Opaque(name)


def s_free_bool(it, name):
    it.__dict__.setdefault('free_keys', set()).add('free:' + name)
    return UBool('free:' + name)


def s_note(it, *a):
    it.notes.append(' '.join(it.str(x) if not isinstance(x, str) else x for x in a))


def s_perm(it, name, n):
    p = PermSym(name, n)
    a = Arr((Poly.of(n),), lambda ix: apply_sym(p, (ix[0],)), 'i', 'np', name=name)
    b = Arr((Poly.of(n),), lambda ix: apply_sym(p.inverse, (ix[0],)), 'i', 'np', name=name + 'inv')
    a.inverse, b.inverse = b, a
    return a


def s_undecided(it, label, why=''):
    record(it, label, 'undecided', why)


def s_is_array(it, x):
    return isinstance(x, Arr)


def s_dtype(it, x):
    return x.dtype if isinstance(x, Arr) else None


def s_lib(it, x):
    return x.lib if isinstance(x, Arr) else None


def s_show(it, *a):
    print('SHOW', *[repr(x) if not isinstance(x, Arr) else
                    [(i, x.at(i)) for i, _ in cases(x.shape, lambda ix: x.at(ix))][:6] for x in a])


def s_where(it):
    return it.where()


def s_attempt(it, label, f, *args):
    """run f; a definite exception is a violation of `label`, an undecided value is undecided.
    returns (True, value) or (False, None)"""
    n = len(it.stack)
    try:
        return (True, it.call(f, list(args), {}))
    except AbsRaise as e:
        del it.stack[n:]
        if guarded_trace(it):
            record(it, label, 'undecided', 'raises %s on a trace with undetermined branches %s'
                   % (I.exc_name(e.exc), guarded_trace(it)[:3]))
        else:
            record(it, label, 'violated', 'raises %s' % e, str(e.where))
    except Undecided as e:
        if LASTTB:
            import traceback
            traceback.print_exc(limit=-9)
        del it.stack[n:]
        record(it, label, 'undecided', '%s at %s' % (e, (getattr(e, 'trail', None) or ['?'])[-1]))
    return (False, None)


def solved_matrices(Q):
    """keys of the singular vector matrices that occur in Q"""
    keys = set()

    def walk(e):
        for t in e.terms:
            for a, _ in t.atoms:
                if a[0] == 'T' and a[1].key in arrays.OPQ and arrays.OPQ[a[1].key][0] == 'svdVH':
                    keys.add(a[1].key)
    try:
        for ix, e in cases(Q.shape, lambda ix: Q.ex(ix)):
            walk(e)
    except Undecided:
        return set()
    return keys


def one_atom(e):
    """coefficient-free single tensor entry, or None"""
    if len(e.terms) == 1 and e.terms[0].coef == 1 and not e.terms[0].bound and len(e.terms[0].atoms) == 1:
        a, p = e.terms[0].atoms[0]
        if p == 1 and a[0] == 'T':
            return a


def selection(Q):
    """Q[i,j] = VH[k+j, cols[i]] with literal sizes: (key, cols, conjugated) or None"""
    m, r = [Poly.of(x) for x in Q.shape]
    if not (m.is_const() and r.is_const()):
        return None
    m, r = int(m.const()), int(r.const())
    cols, info = [], None
    for i in range(m):
        col = None
        for j in range(r):
            a = one_atom(Q.ex((Idx.of(i), Idx.of(j))))
            if a is None or not all(x.is_const() for x in a[2]):
                return None
            p, q = [int(Poly.of(x.c).const()) for x in a[2][-2:]]
            if info is None:
                info = (a[1].key, a[3], p)
            if (a[1].key, a[3], p - j) != info or (col is not None and col != q):
                return None
            col = q
        cols.append(col)
    if info is None:
        return None
    n = arrays.OPQ[info[0]][1][0].shape[-1]
    if info[2] + r != n:
        return None
    return info[0], cols, info[1]


def rows_of(C, cols):
    m = C.shape[0]
    m = int(Poly.of(m).const())
    out = {}
    for i in range(m):
        k = tuple(core._ser_any(C.ex((Idx.of(i), Idx.of(j))), {}) for j in cols)
        out[k] = out.get(k, 0) + 1
    return out


class GroupValuation(numeval.Valuation):
    """generators of the groups of the specifications: names <kind>..h are group elements, <kind>..A algebra elements,
    orthogonal for kinds O, permutations (no algebra) for kinds P"""
    def tensor(self, s, ix):
        m = re.match(r'(\w+)\.([hA])', s.key)
        if not m or len(ix) < 2 or s.key in arrays.OPQ:
            return super().tensor(s, ix)
        i, j = ix[-2:]
        kind, what = m.groups()
        c = int(numeval.hval('mode%s%s' % (s.key, ix[:-2]), self.seed) * 1000)
        if what == 'h':
            n = 1 + c // 7 % 2
            opts = [lambda: i == j, lambda: (i ^ 1 if (max(i, j) < 2) else i) == j]
            if kind[0] != 'P':
                opts.append(lambda: (i == j) * (-1 if i == n % 2 else 1))
                if kind[0] != 'O':
                    opts += [lambda: (i == j) * (1 if i == n % 2 else 2), lambda: (i == j) + (i == 0 and j == 1), lambda: (i == j) + (i == 1 and j == 0)]
        else:
            opts = [lambda: 0, lambda: (i == 0 and j == 1) - (i == 1 and j == 0)]
            if kind[0] != 'O':
                opts += [lambda: i == 0 and j == 1, lambda: i == 1 and j == 0, lambda: i == j == c % 2]
        return int(opts[c % len(opts)]())


def rank_of(rows):
    rows = [list(r) for r in rows]
    r = 0
    for c in range(len(rows[0]) if rows else 0):
        p = max(range(r, len(rows)), key=lambda k: abs(rows[k][c]), default=None)
        if p is None or abs(rows[p][c]) < 1e-7:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        for k in range(r + 1, len(rows)):
            f = rows[k][c] / rows[r][c]
            if f:
                rows[k] = [x - f * y for x, y in zip(rows[k], rows[r])]
        r += 1
    return r


def columns_under(Q, V):
    """which row of the basis N sits in each row of Q = N[cols], under a valuation; None if Q has no such form"""
    cols = []
    for i in range(V.size(Q.shape[0])):
        a = one_atom(Q.ex((Idx.of(i), Idx.of(0))))
        if a is None:
            return None
        cols.append(V.idx(a[2][-1], {}))
    return cols


def kernels_differ(C, D, Q):
    """a valuation of the generators at which two constraint matrices have different null spaces, or None"""
    names = set()
    for a in (C, D):
        for p in a.shape:
            if isinstance(p, Poly):
                names |= set(p.atoms())
    for seed in range(60):
        try:
            V = GroupValuation(numeval.gen_dims(sorted(names), seed=seed, want=1)[0] if names else {}, seed=seed)
            ms = []
            for a in (C, D):
                m, n = [V.size(p) for p in a.shape]
                ms.append([[V.arr_at(a, (i, j), {}) for j in range(n)] for i in range(m)])
            cols = columns_under(Q, V)
        except (numeval.NoValue, Undecided, ZeroDivisionError, IndexError):
            continue
        if cols is None:
            return None
        if len(cols) == len(ms[1][0]):
            ms[1] = [[r[c] for c in cols] for r in ms[1]]
        if len(ms[0][0]) != len(ms[1][0]):
            return 'they have another number of unknowns'
        r = [rank_of(x) for x in ms]
        if not (r[0] == r[1] == rank_of(ms[0] + ms[1])):
            return 'with generators of valuation %d the null spaces have dimensions %d and %d, jointly %d' % (
                seed, len(ms[0][0]) - r[0], len(ms[0][0]) - r[1], len(ms[0][0]) - rank_of(ms[0] + ms[1]))
    return None


def s_nullspace(it, label, Q, C, lo=1e-12, hi=1e-3):
    """Q is the conjugate transpose of the right singular vectors of C beyond its numerical rank"""
    label = it.str(label)
    C = arr_of(C)
    if not isinstance(Q, Arr) or Q.ndim != 2:
        record(it, label, 'undecided', 'not an array')
        return
    m, n = C.shape
    real = C.dtype != 'c'
    VH = models.opaque_arr('svdVH', [C], (n, n), real=real, lib='np')
    used = solved_matrices(Q)
    if len(used) == 1:
        D = arrays.OPQ[next(iter(used))][1][0]
        sel = selection(Q)
        w = kernels_differ(C, D, Q)
        if w:
            record(it, label, 'violated', 'the basis solves other constraints than those of this representation: ' + w)
            return
        if core.DENSE[0] and sel is not None and Poly.of(Q.shape[1]).is_const():
            (key, cols, cj) = sel
            n = int(Poly.of(n).const())
            if sorted(cols) != list(range(n)) or cj == real:
                record(it, label, 'undecided', 'form of the basis not recognised')
            elif rows_of(D, cols) != rows_of(C, range(n)):
                record(it, label, 'undecided', 'constraints not recognised')
            else:
                record(it, label, 'proved')
            return
    name = None
    for a in Q.shape[1].atoms() if isinstance(Q.shape[1], Poly) else ():
        if a in arrays.COUNTS:
            name = a
    if name is None:
        record(it, label, 'undecided', 'number of columns %r is not a rank' % (Q.shape[1],))
        return
    cnt = arrays.COUNTS[name]
    mn = m if (n - m).nonneg() else n
    S = models.opaque_arr('svdS', [C], (mn,), lib='np')
    v = core.IVar(mn, 'b')
    site = ''
    tol = None
    if len(cnt.terms) == 1 and len(cnt.terms[0].bound) == 1 and len(cnt.terms[0].atoms) == 1:
        a = cnt.terms[0].atoms[0][0]
        if a[0] == 'F' and a[1] in ('lt', 'le') and a[2][0].as_const() is not None:
            bv = next(iter(cnt.terms[0].bound))
            if a[2][1] == S.ex((bv.idx(),)) and cnt.terms[0].coef == 1 and bv.size == mn:
                tol = a[2][0].as_const()
    if tol is None:
        record(it, label, 'undecided', 'rank is not a count of singular values of the constraints above a threshold')
        return
    rank = Poly.atom(name, 0)

    def same(off, cj):
        try:
            for ix, (x, y) in cases(Q.shape, lambda ix: (Q.ex(ix), (lambda e: e.conj() if cj else e)(
                    VH.ex((ix[1] + Idx.of(off), ix[0]))))):
                if x != y:
                    return False
            return True
        except Undecided:
            return None
    if not (lo <= float(tol) <= hi):
        record(it, label, 'violated', 'singular values above %s count as zero constraints' % float(tol))
    elif Q.shape[1] == n - rank and same(rank, not real):
        record(it, label, 'proved')
    elif Q.shape[1] == n - rank and same(rank, False):
        record(it, label, 'violated', 'right singular vectors are not conjugated')
    elif Q.shape[1] == rank and (same(0, True) or same(0, False)):
        record(it, label, 'violated', 'the basis is the row space of the constraints, not their null space')
    elif Q.shape[1] == n - rank and (same(0, True) or same(0, False)):
        record(it, label, 'violated', 'the basis takes the leading singular vectors')
    else:
        record(it, label, 'undecided', 'form of the basis not recognised')


def arr_of(x):
    return x if isinstance(x, Arr) else models.arr(x)


def s_assume(it, *ps):
    """sizes satisfy p >= 0"""
    for p in ps:
        core.add_fact(Poly.of(p))


def s_dense(it):
    """all shapes of this scenario are literal constants: enumerate indices instead of splitting"""
    core.DENSE[0] = True


def attr(it, name):
    if name in TABLE:
        return Native(name, TABLE[name])
    if name in EXTRA_TABLE:
        return EXTRA_TABLE[name](it)
    it.raise_('AttributeError', '_spec.' + name)


def s_fresh_name(it, nm):
    it.name_ctr = getattr(it, 'name_ctr', 0) + 1
    return '%s#%d' % (nm, it.name_ctr)


def s_pin(it, pattern):
    """random integers take literal values: first | rev | last"""
    it.pin = pattern


def tatoms(x, out):
    if isinstance(x, Expr):
        for t in x.terms:
            for a, _ in t.atoms:
                if a[0] == 'T':
                    out.add((a[1].key, a[2]))
                elif a[0] == 'F':
                    tatoms(a[2], out)
    elif isinstance(x, tuple):
        for y in x:
            tatoms(y, out)


def s_entries_used(it, val, arr):
    """which entries of the symbol array `arr` occur in the normal form of `val` (literal sizes): set of positions"""
    val, arr = arr_of(val), arr_of(arr)
    where = {}
    for c in itertools.product(*[range(int(d.const())) for d in arr.shape]):
        s = set()
        tatoms(arr.ex([Idx.of(k) for k in c]), s)
        for z in s:
            where[z] = c
    out, names = set(), {k for k, _ in where}
    for c in itertools.product(*[range(int(d.const())) for d in val.shape]):
        s = set()
        tatoms(val.ex([Idx.of(k) for k in c]), s)
        for z in s:
            if z in where:
                out.add(where[z])
            elif z[0] in names:
                raise Undecided('entry of a summed index')
    return sorted(out)


def s_mentions(it, val, arr):
    """the symbol of `arr` occurs in the normal form of `val`"""
    val, arr = arr_of(val), arr_of(arr)
    names = set()
    for _, e in cases(arr.shape, lambda ix: arr.ex(ix)):
        tatoms(e, names)
    names = {k for k, _ in names}
    out = set()
    n = val.size()
    if core.DENSE[0] and n.is_const():
        for c in itertools.product(*[range(int(d.const())) for d in val.shape]):
            tatoms(val.ex([Idx.of(k) for k in c]), out)
    else:
        for _, e in cases(val.shape, lambda ix: val.ex(ix)):
            tatoms(e, out)
    return bool(names & {k for k, _ in out})


def s_cut(it, val):
    """the normal form of `val` contains a value whose derivative was cut off"""
    def walk(x):
        if isinstance(x, Expr):
            return any(walk(a) for t in x.terms for a, _ in t.atoms)
        if isinstance(x, tuple):
            if x[:2] == ('F', 'detach'):
                return True
            return any(walk(y) for y in x)
        return False
    val = arr_of(val)
    if core.DENSE[0] and val.size().is_const():
        return any(walk(val.ex([Idx.of(k) for k in c])) for c in itertools.product(*[range(int(d.const())) for d in val.shape]))
    return any(walk(e) for _, e in cases(val.shape, lambda ix: val.ex(ix)))


TABLE = {
    'cut_gradient': s_cut,
    'mentions': s_mentions,
    'pin_random': s_pin, 'entries_used': s_entries_used,
    'fresh_name': s_fresh_name, 'expect_any': s_expect_any, 'same': s_same, 'drawn': s_drawn,
    'expect_eq': expect_eq, 'expect': expect, 'expect_perm': expect_perm, 'scenario': scenario,
    'dim': s_dim, 'array': s_array, 'scalar': s_scalar, 'identity': s_eye, 'opaque': s_opaque,
    'free_bool': s_free_bool, 'note': s_note, 'perm': s_perm, 'undecided': s_undecided,
    'is_array': s_is_array, 'dtype_of': s_dtype, 'lib_of': s_lib, 'show': s_show, 'dense': s_dense, 'expect_nullspace': s_nullspace, 'assume': s_assume, 'attempt': s_attempt,
}
EXTRA_TABLE = {}


# ---------------------------------------------------------------- closed (literal) values
def closed_value(x):
    """numeric value of a literal scalar, or None when it still contains symbols"""
    vs = []
    for seed in (1, 2):
        V = numeval.Valuation({}, seed=seed)
        try:
            v = V.val(to_expr(x), {})
        except (numeval.NoValue, Undecided):
            return None
        if V.dims or V.opaques:
            return None
        vs.append(complex(v))
    return vs[0] if abs(vs[0] - vs[1]) < 1e-12 else None


def closed_matrix(x):
    """nested list of numbers, or None"""
    x = arr_of(x)
    sh = [Poly.of(s) for s in x.shape]
    if not all(s.is_const() for s in sh):
        return None
    sh = [int(s.const()) for s in sh]
    out = {}
    for ix in itertools.product(*[range(s) for s in sh]):
        v = closed_value(x.at(tuple(Idx.of(i) for i in ix)))
        if v is None:
            return None
        out[ix] = v
    return sh, out


def s_close(it, label, a, b, tol=1e-6):
    """two literal arrays agree up to rounding"""
    A_, B_ = closed_matrix(a), closed_matrix(b)
    tol = float(tol)
    if A_ is None or B_ is None:
        record(it, label, 'undecided', 'not literal')
        return
    if A_[0] != B_[0]:
        bad = 'shapes %s and %s' % (A_[0], B_[0])
    else:
        bad = next(('entry %s: %s and %s' % (i, numeval._fmt(v), numeval._fmt(B_[1][i])) for i, v in A_[1].items() if not abs(v - B_[1][i]) <= tol), None)
    if bad is None:
        record(it, label, 'proved')
    elif guarded_trace(it):
        record(it, label, 'undecided', bad)
    else:
        record(it, label, 'violated', bad, it.where())


def s_rank(it, a):
    """rank of a literal matrix (or None)"""
    m = closed_matrix(a)
    if m is None:
        raise Undecided('rank of a matrix with symbols')
    sh, v = m
    return rank_of([[v[(i, j)] for j in range(sh[1])] for i in range(sh[0])])


def s_perm_order(it, gens):
    """order of the permutation group generated by literal permutations (Schreier-Sims)"""
    gs = []
    for g in gens:
        g = [int(int_of(x)) for x in it.iterate(g)]
        if sorted(g) != list(range(len(g))):
            return 0
        gs.append(tuple(g))
    return group_order(gs)


def group_order(gens):
    r = 1
    for t in bsgs(gens)[1]:
        r *= len(t)
    return r


def bsgs(gens):
    """base and transversals {image: permutation} of the stabiliser chain"""
    if not gens:
        return [], []
    n = len(gens[0])
    e = tuple(range(n))

    def mul(a, b):                     # first a, then b
        return tuple([b[i] for i in a])

    def inv(a):
        r = [0] * n
        for i, x in enumerate(a):
            r[x] = i
        return tuple(r)
    base, strong, orbits = [], [], []

    def orbit(level):
        b = base[level]
        tr = {b: e}
        todo = [b]
        while todo:
            x = todo.pop()
            for g in strong[level]:
                y = g[x]
                if y not in tr:
                    tr[y] = mul(tr[x], g)
                    todo.append(y)
        orbits[level] = tr

    def sift(g, level):
        for l in range(level, len(base)):
            y = g[base[l]]
            if y not in orbits[l]:
                return g, l
            g = mul(g, inv(orbits[l][y]))
        return g, len(base)

    def add(g, level):
        """g fixes the base points before level"""
        if level == len(base):
            p = next((i for i in range(n) if g[i] != i), None)
            if p is None:
                return
            base.append(p)
            strong.append([])
            orbits.append({p: e})
        strong[level].append(g)
        orbit(level)
        done = False
        while not done:
            done = True
            tr = orbits[level]
            for x in list(tr):
                for s in list(strong[level]):
                    u = mul(mul(tr[x], s), inv(tr[s[x]]))
                    h, l = sift(u, level + 1)
                    if h != e:
                        add_at(h, level + 1)
                        done = False
                        break
                if not done:
                    break

    def add_at(g, level):
        add(g, level)
    for g in gens:
        h, l = sift(g, 0)
        if h != e:
            add(h, 0) if not base else add(g, 0)
    return base, orbits


def s_orbit(it, gens, a, b):
    """some element g of the permutation group carries the colouring a to the colouring b
    (b[g(i)] == a[i] for all i), decided by backtracking over the stabiliser chain"""
    gs = [tuple([int(int_of(x)) for x in it.iterate(g)]) for g in gens]

    def colours(x):
        m = closed_matrix(x)
        if m is None:
            raise Undecided('colouring with symbols')
        sh, v = m
        if len(sh) == 1:
            return [v[(i,)] for i in range(sh[0])]
        return [tuple([v[(r, i)] for r in range(sh[0])]) for i in range(sh[1])]
    ca, cb = colours(a), colours(b)
    if len(ca) != len(cb) or sorted(ca, key=repr) != sorted(cb, key=repr):
        return False
    if not gs:
        return ca == cb
    n = len(ca)
    base, orbits = bsgs(gs)
    # points moved by the stabiliser of the first l base points
    moved = []
    for l in range(len(base) + 1):
        moved.append({i for t in orbits[l:] for u in t.values() for i in range(n) if u[i] != i})
    steps = [0]

    def go(l, g):
        """g = the product chosen so far (deeper elements act first)"""
        steps[0] += 1
        if steps[0] > 500000:
            raise Undecided('orbit search')
        if any(cb[g[i]] != ca[i] for i in range(n) if i not in moved[l]):
            return False
        if l == len(base):
            return True
        for y, u in orbits[l].items():
            if cb[g[y]] == ca[base[l]] and go(l + 1, tuple([g[u[i]] for i in range(n)])):
                return True
        return False
    return go(0, tuple(range(n)))


def s_moved(it, val, X, gX):
    """`val` with the random draws behind the features X replaced by those that make the features gX.
    Every feature is either a multiple of one draw, or must be unchanged"""
    from . import diff
    val, X, gX = arr_of(val), arr_of(X), arr_of(gX)
    new = {}

    def put(k, e):
        if k in new and new[k] != e:
            raise Undecided('features of one draw transform differently')
        new[k] = e
    for c in itertools.product(*[range(int(d.const())) for d in X.shape]):
        ix = [Idx.of(k) for k in c]
        x, y = X.ex(ix), gX.ex(ix)
        ts = x.terms
        if len(ts) == 1 and not ts[0].bound and len(ts[0].atoms) == 1 and ts[0].atoms[0][1] == 1 and ts[0].atoms[0][0][0] == 'T':
            a = ts[0].atoms[0][0]
            put((a[1].key, a[2]), y * Expr.const(Fraction(1) / ts[0].coef))
            continue
        if x != y:
            raise Undecided('a feature that is not a multiple of a draw is transformed')
        s = set()
        tatoms(x, s)
        for k in s:
            put(k, None)
    new = {k: v for k, v in new.items() if v is not None}

    def sub(e):
        def f(a):
            if a[0] == 'T':
                return new.get((a[1].key, a[2]))
            if a[0] == 'F':
                if len(a[2]) == 1 and isinstance(a[2][0], Expr):
                    return efn(a[1], sub(a[2][0]))
                s = set()
                tatoms(a[2], s)
                if s & set(new):
                    raise Undecided('substitution in %s' % a[1])
            return None
        return e.map_atoms(f)
    if not isinstance(val, Arr) or val.ndim == 0:
        return sub(val.ex([])) if isinstance(val, Arr) else sub(to_expr(val))
    return Arr(val.shape, lambda ix: sub(val.ex(tuple(ix))), val.dtype, 'jnp')


def s_draw_entries(it, x):
    """the entries of random draws a value depends on"""
    x = arr_of(x)
    s = set()
    for c in itertools.product(*[range(int(d.const())) for d in x.shape]):
        tatoms(x.ex([Idx.of(k) for k in c]), s)
    keys = {t for _, a in getattr(it, 'drawn', []) for t in draw_keys(a)}
    return sorted([repr(k) for k in s if k[0] in keys])


def draw_keys(a):
    s = set()
    tatoms(a.ex([Idx.of(0)] * a.ndim), s)
    return {k for k, _ in s}


TABLE.update({'entries_of_draws': s_draw_entries, 'same_orbit': s_orbit, 'moved': s_moved, 'expect_close': s_close, 'rank_num': s_rank, 'perm_group_order': s_perm_order})
