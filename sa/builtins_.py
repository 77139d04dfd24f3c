"""Builtin functions and types of the analysed Python subset."""
from fractions import Fraction
import functools as _ft
from .core import *
from . import core
from .arrays import *


EXC = [
    ('BaseException', None), ('Exception', 'BaseException'), ('KeyboardInterrupt', 'BaseException'),
    ('SystemExit', 'BaseException'),
    ('ArithmeticError', 'Exception'), ('ZeroDivisionError', 'ArithmeticError'),
    ('OverflowError', 'ArithmeticError'), ('FloatingPointError', 'ArithmeticError'),
    ('AssertionError', 'Exception'), ('AttributeError', 'Exception'), ('EOFError', 'Exception'),
    ('ImportError', 'Exception'), ('ModuleNotFoundError', 'ImportError'),
    ('LookupError', 'Exception'), ('IndexError', 'LookupError'), ('KeyError', 'LookupError'),
    ('NameError', 'Exception'), ('UnboundLocalError', 'NameError'),
    ('OSError', 'Exception'), ('FileNotFoundError', 'OSError'),
    ('RuntimeError', 'Exception'), ('NotImplementedError', 'RuntimeError'),
    ('RecursionError', 'RuntimeError'), ('StopIteration', 'Exception'),
    ('TypeError', 'Exception'), ('ValueError', 'Exception'), ('Warning', 'Exception'),
    ('UserWarning', 'Warning'), ('DeprecationWarning', 'Warning'), ('RuntimeWarning', 'Warning'),
]


def install(it):
    from . import interp as I
    Cls, Obj, Native, Property = I.Cls, I.Obj, I.Native, I.Property
    b = it.builtins
    obj = Cls('object', [], {})
    b['object'] = obj

    def native_cls(name, native=None, handler=None, bases=None, ns=None):
        c = Cls(name, bases or [obj], ns or {}, native=native or name)
        b[name] = c
        if handler is not None:
            I.NATIVE_CLS[native or name] = handler
        return c

    # ---------------- types
    def h_type(it, c, args, kw):
        if len(args) == 1:
            return type_of(it, args[0])
        name, bases, ns = args
        d = {k: v for k, v in ns.items}
        cc = Cls(name, list(it.iterate(bases)) or [obj], d, None)
        return cc
    native_cls('type', 'type', h_type)

    def h_int(it, c, args, kw):
        if not args:
            return 0
        v = args[0]
        if isinstance(v, UBool):
            return int(it.truth(v))
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, float):
            if v in (float('inf'), float('-inf')):
                it.raise_('OverflowError', 'cannot convert float infinity to integer')
            return int(v)
        if isinstance(v, Fraction):
            return int(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                it.raise_('ValueError', 'invalid literal for int()')
        if isinstance(v, Arr) and v.ndim > 0 and v.size() == 1:
            v = v.at([0] * v.ndim)
        if isinstance(v, Arr) and v.ndim == 0:
            v = v.at(())
        if isinstance(v, (Poly,)):
            return v.norm()
        if isinstance(v, Idx):
            return I.nidx(v)
        if isinstance(v, Expr):
            c = v.as_const()
            if c is not None:
                return int(c)
            try:
                return int_of(v)
            except Undecided:
                return Poly.atom('int⟨%s⟩' % short(core._ser_any(v, {})), 0)
        if isinstance(v, Obj):
            m, _ = v.cls.lookup('__int__')
            if m is not None:
                return it.call(I.Bound(v, m), [], {})
        if isinstance(v, I.Opaque):
            return I.Opaque('int(%s)' % v.key)
        it.raise_('TypeError', 'int() argument must be a number, not %s' % it.type_name(v))
    native_cls('int', 'int', h_int)

    def h_bool(it, c, args, kw):
        if not args:
            return False
        v = args[0]
        if isinstance(v, UBool):
            return v
        return it.truth(v)
    native_cls('bool', 'bool', h_bool, bases=[b['int']])

    def h_float(it, c, args, kw):
        if not args:
            return 0.0
        v = args[0]
        if isinstance(v, bool):
            return float(v)
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, str):
            return float(v)
        if isinstance(v, Fraction):
            return v
        if isinstance(v, Arr):
            if v.size() == 1:
                v = v.at([0] * v.ndim)
            else:
                it.raise_('TypeError', 'only length-1 arrays can be converted to scalars')
        if isinstance(v, (Poly, Idx, Expr)):
            return to_expr(v)
        if isinstance(v, UBool):
            return float(it.truth(v))
        if isinstance(v, I.Opaque):
            return v
        it.raise_('TypeError', 'float() argument must be a number, not %s' % it.type_name(v))
    native_cls('float', 'float', h_float)

    def h_complex(it, c, args, kw):
        if len(args) == 1:
            return args[0] if isinstance(args[0], (int, complex, Expr)) else complex(args[0])
        return complex(*args)
    native_cls('complex', 'complex', h_complex)
    native_cls('str', 'str', lambda it, c, a, k: it.str(a[0]) if a else '')
    native_cls('bytes', 'bytes', None)
    native_cls('list', 'list', lambda it, c, a, k: seqcopy(it, a[0]) if a else [])
    native_cls('tuple', 'tuple', lambda it, c, a, k: tuple(seqcopy(it, a[0])) if a else ())

    def seqcopy(it, x):
        if isinstance(x, (list, tuple)):
            return list(x)
        if isinstance(x, I.SymRange):
            raise Undecided('list of a symbolic range')
        return it.iterate(x)

    def h_dict(it, c, args, kw):
        d = I.ADict()
        if args:
            src = args[0]
            if isinstance(src, I.ADict):
                for k, v in src.items:
                    it.dict_set(d, k, v)
            else:
                for kv in it.iterate(src):
                    k, v = it.iterate(kv)
                    it.dict_set(d, k, v)
        for k, v in kw.items():
            it.dict_set(d, k, v)
        return d
    native_cls('dict', 'dict', h_dict)

    def h_set(it, c, args, kw):
        s = I.ASet()
        if args:
            for x in it.iterate(args[0]):
                it.dict_set(s.d, x, None)
        return s
    native_cls('set', 'set', h_set)
    native_cls('frozenset', 'set', h_set)
    native_cls('slice', 'slice', lambda it, c, a, k: slice(*a))

    def h_property(it, c, args, kw):
        return Property(args[0] if args else None)
    native_cls('property', 'property', h_property)
    native_cls('staticmethod', 'staticmethod', lambda it, c, a, k: I.StaticM(a[0]))
    native_cls('classmethod', 'classmethod', lambda it, c, a, k: I.ClassM(a[0]))
    for n, base in EXC:
        b[n] = Cls(n, [b[base]] if base else [obj], {})

    # ---------------- functions
    def reg(name):
        def d(f):
            b[name] = Native(name, f)
            return f
        return d

    b['NotImplemented'] = NotImplemented
    b['Ellipsis'] = Ellipsis
    b['None'] = None
    b['True'] = True
    b['False'] = False
    b['__debug__'] = True
    b['__builtins__'] = I.Opaque('builtins')

    @reg('len')
    def _len(it, x):
        if isinstance(x, (list, tuple)):
            n = Poly.of(0)
            for y in x:
                n = n + (y.count if isinstance(y, I.Repeat) else 1)
            return n.norm()
        if isinstance(x, (str, range)):
            return len(x)
        if isinstance(x, I.ADict):
            return len(x.items)
        if isinstance(x, I.ASet):
            return len(x.d.items)
        if isinstance(x, I.KeysView):
            return len(x.d.items)
        if isinstance(x, Arr):
            if x.ndim == 0:
                it.raise_('TypeError', 'len() of unsized object')
            return x.shape[0].norm()
        if isinstance(x, I.SymRange):
            return x.length()
        if isinstance(x, Obj):
            m, _ = x.cls.lookup('__len__')
            if m is not None:
                return it.call(I.Bound(x, m), [], {})
            it.raise_('TypeError', "object of type '%s' has no len()" % x.cls.name)
        if isinstance(x, I.Opaque):
            return I.Opaque('len(%s)' % x.key)
        if isinstance(x, I.SymStr):
            raise Undecided('len of symbolic string')
        it.raise_('TypeError', "object of type '%s' has no len()" % it.type_name(x))

    @reg('range')
    def _range(it, *a):
        a = [int_of(x) if not isinstance(x, float) else
             it.raise_('TypeError', "'float' object cannot be interpreted as an integer") for x in a]
        if all(isinstance(x, int) for x in a):
            return range(*a)
        st = a[2] if len(a) > 2 else 1
        if len(a) == 1:
            return I.SymRange(0, a[0], 1)
        return I.SymRange(a[0], a[1], st)

    @reg('zip')
    def _zip(it, *its, strict=False):
        ls = [it.iterate(x) for x in its]
        return [tuple(t) for t in zip(*ls)]

    @reg('enumerate')
    def _enum(it, x, start=0):
        return [(i + start, v) for i, v in enumerate(it.iterate(x))]

    @reg('reversed')
    def _rev(it, x):
        return list(it.iterate(x))[::-1]

    @reg('map')
    def _map(it, f, *xs):
        ls = [it.iterate(x) for x in xs]
        return [it.call(f, list(t), {}) for t in zip(*ls)]

    @reg('filter')
    def _filter(it, f, xs):
        return [x for x in it.iterate(xs) if it.truth(x if f is None else it.call(f, [x], {}))]

    @reg('sum')
    def _sum(it, xs, start=0):
        r = start
        if isinstance(xs, (list, tuple)) and any(isinstance(x, I.Repeat) for x in xs):
            for x in xs:
                if isinstance(x, I.Repeat):
                    r = it.binop('Add', r, it.binop('Mult', x.value, x.count))
                else:
                    r = it.binop('Add', r, x)
            return r
        for x in it.iterate(xs):
            r = it.binop('Add', r, x)
        return r

    @reg('all')
    def _all(it, xs):
        ys = []
        if isinstance(xs, (list, tuple)):
            xs = [x.value if isinstance(x, I.Repeat) else x for x in xs]
        for x in it.iterate(xs):
            if not it.truth(x):
                return False
        return True

    @reg('any')
    def _any(it, xs):
        if isinstance(xs, (list, tuple)):
            xs = [x.value if isinstance(x, I.Repeat) else x for x in xs]
        for x in it.iterate(xs):
            if it.truth(x):
                return True
        return False

    def minmax(name, op):
        def f(it, *a, key=None, default=I._MISSING):
            xs = it.iterate(a[0]) if len(a) == 1 else list(a)
            if not xs:
                if default is not I._MISSING:
                    return default
                it.raise_('ValueError', '%s() arg is an empty sequence' % name)
            k = (lambda v: it.call(key, [v], {})) if key is not None else (lambda v: v)
            best = xs[0]
            kb = k(best)
            for x in xs[1:]:
                kx = k(x)
                if isinstance(kx, (Poly, Expr, Idx, Arr)) or isinstance(kb, (Poly, Expr, Idx, Arr)):
                    r = it.compare(op, kx, kb)
                    if isinstance(r, UBool) and key is None:
                        # keep both: opaque min/max
                        e1, e2 = to_expr(best), to_expr(x)
                        ks = sorted([e1, e2], key=lambda e: core._ser_any(e, {}))
                        pe = [q.as_poly() for q in ks]
                        if all(p is not None for p in pe):
                            best = Poly.atom('%s(%r,%r)' % (name, pe[0], pe[1]), 0)
                        else:
                            best = Expr.atom(('F', name, tuple(ks)))
                        kb = best
                        continue
                    if it.truth(r):
                        best, kb = x, kx
                elif it.truth(it.compare(op, kx, kb)):
                    best, kb = x, kx
            return best
        b[name] = Native(name, f)
    minmax('min', 'Lt')
    minmax('max', 'Gt')

    class K:
        __slots__ = ('k', 'v')

        def __init__(self, k, v):
            self.k, self.v = k, v

        def __lt__(self, o):
            return it.truth(it.compare('Lt', self.k, o.k))

    def do_sorted(it, xs, key=None, reverse=False):
        ks = [K(it.call(key, [x], {}) if key is not None else x, x) for x in it.iterate(xs)]
        return [k.v for k in sorted(ks, reverse=it.truth(reverse))]
    b['sorted'] = Native('sorted', do_sorted)

    @reg('isinstance')
    def _isinst(it, v, t):
        return it.isinst(v, t)

    @reg('issubclass')
    def _issub(it, c, t):
        ts = t if isinstance(t, tuple) else (t,)
        return any(it.subclass(c, x) for x in ts)

    @reg('hasattr')
    def _hasattr(it, o, n):
        try:
            return it.getattr_opt(o, n) is not I._MISSING
        except I.AbsRaise as e:
            if e.exc.cls.sub(b['AttributeError']):
                return False
            raise

    @reg('getattr')
    def _getattr(it, o, n, *d):
        if d:
            try:
                r = it.getattr_opt(o, n)
            except I.AbsRaise as e:
                if e.exc.cls.sub(b['AttributeError']):
                    return d[0]
                raise
            return d[0] if r is I._MISSING else r
        return it.getattr(o, n)

    @reg('setattr')
    def _setattr(it, o, n, v):
        it.setattr(o, n, v)

    @reg('delattr')
    def _delattr(it, o, n):
        o.attrs.pop(n, None)

    @reg('hash')
    def _hash(it, v):
        return I.HashVal(it.hashkey(v))

    @reg('repr')
    def _repr(it, v):
        return it.repr(v)

    @reg('callable')
    def _callable(it, v):
        if isinstance(v, (I.Func, I.Native, I.Bound, I.Cls, I.MultiFn)):
            return True
        if isinstance(v, Obj):
            return v.cls.lookup('__call__')[0] is not None
        return False

    @reg('print')
    def _print(it, *a, **k):
        return None

    @reg('abs')
    def _abs(it, v):
        if isinstance(v, (int, float, complex, Fraction)):
            return abs(v)
        if isinstance(v, Arr):
            return ew(lambda x: efn('abs', x), v)
        if isinstance(v, (Poly, Idx, Expr)):
            return I.nexpr(efn('abs', to_expr(v)))
        if isinstance(v, Obj):
            m, _ = v.cls.lookup('__abs__')
            if m is not None:
                return it.call(I.Bound(v, m), [], {})
        raise Undecided('abs')

    @reg('round')
    def _round(it, v, n=None):
        if isinstance(v, (int, float, Fraction)):
            return round(v, n) if n is not None else round(v)
        return Expr.atom(('F', 'round', (to_expr(v),)))

    @reg('divmod')
    def _divmod(it, a, c):
        return (it.binop('FloorDiv', a, c), it.binop('Mod', a, c))

    @reg('pow')
    def _pow(it, a, c):
        return it.binop('Pow', a, c)

    @reg('iter')
    def _iter(it, x):
        return list(it.iterate(x))

    @reg('next')
    def _next(it, x, *d):
        if isinstance(x, list):
            if x:
                return x.pop(0)
            if d:
                return d[0]
            it.raise_('StopIteration')
        if isinstance(x, I.Opaque):
            return I.Opaque('next(%s)' % x.key)
        raise Undecided('next')

    @reg('id')
    def _id(it, x):
        return id(x)

    @reg('vars')
    def _vars(it, x):
        return I.ADict([[k, v] for k, v in x.attrs.items()])

    @reg('dir')
    def _dir(it, x):
        return list(x.ns) if hasattr(x, 'ns') else []

    @reg('open')
    def _open(it, *a, **k):
        return I.Opaque('file')

    @reg('input')
    def _input(it, *a):
        return I.Opaque('input')

    @reg('ord')
    def _ord(it, x):
        return ord(x)

    @reg('chr')
    def _chr(it, x):
        return chr(x)


def type_of(it, v):
    from . import interp as I
    b = it.builtins
    if isinstance(v, I.Obj):
        return v.cls
    if isinstance(v, I.Cls):
        return v.meta or b['type']
    for py, n in ((bool, 'bool'), (UBool, 'bool'), (int, 'int'), (Poly, 'int'), (str, 'str'),
                  (I.SymStr, 'str'), (float, 'float'), (Fraction, 'float'), (Expr, 'float'),
                  (complex, 'complex'), (list, 'list'), (tuple, 'tuple'), (I.ADict, 'dict'),
                  (I.ASet, 'set'), (slice, 'slice'), (Idx, 'int')):
        if isinstance(v, py):
            return b[n]
    if isinstance(v, Arr):
        from . import models
        return models.array_class(it, v.lib)
    return I.Opaque('type(%s)' % it.key_of(v))
