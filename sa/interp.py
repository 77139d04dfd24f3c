"""Abstract interpreter for the Python subset used by the analysed repository.

It walks the syntax tree of /repo's current source (never importing or running
it) and propagates abstract values (core.py / arrays.py).  Conditions whose
value the domain does not know are resolved by trace partitioning: the driver
replays the interpretation for both outcomes.
"""
import ast
import os
from fractions import Fraction
from .core import *
from . import core
from .arrays import *
from . import arrays


class AbsRaise(Exception):
    """an exception raised by the analysed program"""
    def __init__(self, exc, where):
        super().__init__('%s at %s' % (exc_name(exc), where))
        self.exc, self.where = exc, where


def exc_name(exc):
    if isinstance(exc, Obj):
        msg = exc.attrs.get('args', ())
        try:
            m = ' '.join(str_of(x) for x in msg)
        except Exception:
            m = ''
        return '%s%s' % (exc.cls.name, (': ' + m[:160]) if m else '')
    return str(exc)


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Opaque:
    """an external value nothing is known about"""
    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return 'Opaque(%s)' % (self.key,)


class Repeat:
    """`value` repeated a symbolic number of times inside a list; with `cell` the
    value depends on the (dynamically bound) position in the list"""
    def __init__(self, value, count, cell=None):
        self.value, self.count, self.cell = value, count, cell


class Cls:
    def __init__(self, name, bases, ns, module=None, meta=None, native=None, node=None):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.meta = meta
        self.native = native
        self.node = node
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        res = [self]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Undecided('mro')
            res.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return res

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return '<class %s>' % self.name

    def sub(self, other):
        return other in self.mro


_oid = itertools.count()


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.id = next(_oid)

    def __repr__(self):
        return '<%s #%d>' % (self.cls.name, self.id)


class Func:
    def __init__(self, node, env, module, name, defaults, kwdefaults, owner=None, qual=None):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.owner = owner
        self.qual = qual or name
        self.attrs = {}

    def __repr__(self):
        return '<function %s>' % self.qual


class Bound:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self_)


class Native:
    def __init__(self, name, fn, attrs=None):
        self.name, self.fn = name, fn
        self.attrs = attrs or {}

    def __repr__(self):
        return '<native %s>' % self.name


class Property:
    def __init__(self, fget):
        self.fget = fget


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Module:
    def __init__(self, name, path=None, pkg=False):
        self.name, self.path, self.pkg = name, path, pkg
        self.ns = {}
        self.ready = False

    def __repr__(self):
        return '<module %s>' % self.name


class ExtMod:
    """external module modelled natively (numpy, jax, ...)"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<ext %s>' % self.name


class NSProxy:
    """globals()"""
    def __init__(self, ns):
        self.ns = ns


class SymStr:
    """string with symbolic parts"""
    def __init__(self, parts):
        self.parts = parts

    def key(self):
        return tuple(p if isinstance(p, str) else repr(p) for p in self.parts)

    def __repr__(self):
        return 'SymStr(%s)' % (self.parts,)


class HashVal:
    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return 'hash%s' % (self.key,)


class ADict:
    """insertion ordered dictionary with abstract key equality"""
    def __init__(self, items=None, factory=None):
        self.items = list(items or [])      # [key, value] lists
        self.factory = factory

    def __repr__(self):
        return 'ADict(%r)' % (self.items,)


class ASet:
    def __init__(self):
        self.d = ADict()


def str_of(v):
    if isinstance(v, str):
        return v
    if isinstance(v, SymStr):
        return ''.join(p if isinstance(p, str) else '<%r>' % (p,) for p in v.parts)
    return repr(v)


def mkstr(parts):
    out = []
    for p in parts:
        ps = p.parts if isinstance(p, SymStr) else (p,)
        for q in ps:
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != '':
                out.append(q)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SymStr(tuple(out))


def percent_format(it, a, b):
    import re
    if not isinstance(a, str):
        return None
    args = list(b) if isinstance(b, tuple) else [b]
    parts = []
    pos = 0
    for m in re.finditer(r'%(?:([-#0 +]*\d*(?:\.\d+)?)([sdrifgex])|%)', a):
        parts.append(a[pos:m.start()])
        pos = m.end()
        if m.group(0) == '%%':
            parts.append('%')
            continue
        if not args:
            it.raise_('TypeError', 'not enough arguments for format string')
        v = args.pop(0)
        if isinstance(v, (int, float, str)) and not isinstance(v, bool):
            try:
                parts.append(m.group(0) % v)
            except (TypeError, ValueError):
                it.raise_('TypeError', 'format argument')
        else:
            parts.append(it.repr(v) if m.group(2) == 'r' else it.str(v))
    parts.append(a[pos:])
    return mkstr(parts)


class Env:
    __slots__ = ('vars', 'parent', 'module', 'nonlocals', 'globals_')

    def __init__(self, parent, module):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.nonlocals = ()
        self.globals_ = ()


POS_KEYS = {}       # 'pos:' key -> polynomial


class Ctx:
    """trace: sequence of decided conditions"""
    def __init__(self, forced):
        self.forced = list(forced)
        self.trace = []        # (key, value)
        self.memo = {}
        self.generic = []      # coincidences of sizes assumed absent
        self.order = {}
        del core.FACTS[:]

    def decide(self, key):
        if key in self.memo:
            return self.memo[key]
        if key.startswith('zero:'):
            # distinct dimension atoms are generic sizes; coincidences are covered
            # by scenarios that reuse the same atom
            self.memo[key] = False
            self.generic.append(key)
            return False
        if key.startswith('permeq:'):
            from . import numeval
            r = numeval.int_arrays_equal(*arrays.PERMEQ[key])
            if r is False:          # generic sizes
                self.memo[key] = False
                self.generic.append(key)
                return False
        if key.startswith(('hash<:', 'str<:')):
            # an unspecified strict total order: stay transitive
            pre, body = key.split(':', 1)
            a, b = body.split('|', 1)
            if self.reach(pre, a, b):
                self.memo[key] = True
                return True
            if self.reach(pre, b, a):
                self.memo[key] = False
                return False
        k = len(self.trace)
        v = self.forced[k] if k < len(self.forced) else True
        self.trace.append((key, v))
        self.memo[key] = v
        if key.startswith(('hash<:', 'str<:')):
            self.order.setdefault((pre, a if v else b), []).append(b if v else a)
        if key.startswith('pos:') and key in POS_KEYS:
            core.add_fact((POS_KEYS[key] if v else -POS_KEYS[key]) - 1)
        return v

    def reach(self, pre, a, b):
        todo, seen = [a], set()
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x not in seen:
                seen.add(x)
                todo.extend(self.order.get((pre, x), ()))
        return False


NUM = (int, float, complex, Fraction, Poly, Expr, Idx)


class Rounded(Fraction):
    """the exact decimal value of a float, with the double that the program computes for it"""
    def __new__(cls, exact, ie):
        x = Fraction.__new__(cls, exact)
        x.ieee = ie
        return x


def ieee(x):
    return x.ieee if isinstance(x, Rounded) else float(x)


class Absent:
    """a name a specification wanted from the repository and that is not there"""
    def __init__(self, name):
        self.name = name


class Interp:
    MAXSTEPS = 3000000

    def __init__(self, roots, stubs=None):
        self.roots = roots            # package roots, e.g. ['/repo']
        self.stubs = stubs
        self.modules = {}
        self.stack = []               # (qualname, file, lineno)
        self.ctx = Ctx([])
        self.dispatch = {}
        self.steps = 0
        self.visited = set()          # (file, function) analysed
        self.notes = []
        self.expects = []
        self.builtins = {}
        self.exc_stack = []
        self._setup_builtins()

    # ------------------------------------------------------------ utilities
    def where(self):
        if not self.stack:
            return '?'
        for q, f, l in reversed(self.stack):
            if f and not f.startswith('<') and '/sa/' not in f and '/specs/' not in f:
                return '%s:%s (%s)' % (self.rel(f), l, q)
        q, f, l = self.stack[-1]
        return '%s:%s (%s)' % (self.rel(f), l, q)

    def trail(self):
        return ['%s:%s (%s)' % (self.rel(f), l, q) for q, f, l in self.stack]

    def rel(self, f):
        for r in self.roots:
            if f and f.startswith(r + '/'):
                return f[len(r) + 1:]
        return os.path.basename(f) if f else '?'

    def exc_class(self, name):
        return self.builtins[name]

    def raise_(self, name, msg=''):
        cls = self.builtins[name]
        o = Obj(cls)
        o.attrs['args'] = (msg,)
        raise AbsRaise(o, self.where())

    def truth(self, v):
        """abstract truth value -> bool (deciding unknowns on the trace)"""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, UBool):
            r = self.ctx.decide(v.key)
            return (not r) if v.neg else r
        if isinstance(v, (int, float, complex, Fraction, str)):
            return bool(v)
        if isinstance(v, (list, tuple)):
            return len(v) > 0
        if isinstance(v, dict):
            return bool(v)
        if isinstance(v, ADict):
            return len(v.items) > 0
        if isinstance(v, ASet):
            return len(v.d.items) > 0
        if isinstance(v, Poly):
            if v.positive():
                return True
            if (-v).positive():
                return True
            return self.truth(UBool('%r!=0' % v))
        if isinstance(v, Idx):
            r = idx_eq(v, 0)
            if r is None:
                return self.truth(UBool('%r!=0' % v))
            return not r
        if isinstance(v, Expr):
            c = v.as_const()
            if c is not None:
                return c != 0
            p = v.as_poly()
            if p is not None and (p.positive() or (-p).positive()):
                return True
            b = bool_of_expr(v)
            return self.truth(b)
        if isinstance(v, Arr):
            if v.ndim == 0:
                x = v.at(())
                return self.truth(x)
            if v.size() == 1:
                return self.truth(v.at([0] * v.ndim))
            if v.size().is_const() and v.size().const() > 1:
                self.raise_('ValueError', 'truth value of an array with more than one element')
            raise Undecided('truth of array')
        if isinstance(v, Opaque):
            return self.truth(UBool('truth(%s)' % (v.key,)))
        if isinstance(v, Obj):
            m, _ = v.cls.lookup('__bool__')
            if m is not None:
                return self.truth(self.call(Bound(v, m), [], {}))
            m, _ = v.cls.lookup('__len__')
            if m is not None:
                return self.truth(self.call(Bound(v, m), [], {}))
            return True
        if isinstance(v, SymStr):
            return True
        return True

    def decide(self, v):
        return self.truth(v)

    # ------------------------------------------------------------ modules
    @staticmethod
    def is_spec(m):
        return os.sep + 'specs' + os.sep in str(getattr(m, 'path', ''))

    def find(self, name):
        for root in ([self.stubs] if self.stubs else []) + list(self.roots):
            p = os.path.join(root, *name.split('.'))
            if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
                return os.path.join(p, '__init__.py'), True
            if os.path.exists(p + '.py'):
                return p + '.py', False
            if os.path.isdir(p) and root != self.stubs:
                return p, True     # namespace package
        return None, False

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        from . import models
        parts = name.split('.')
        if models.is_native_module(name):
            m = ExtMod(name)
            self.modules[name] = m
            return m
        path, pkg = self.find(name)
        if path is None:
            root, _ = self.find(parts[0])
            if root is not None and len(parts) > 1:
                self.raise_('ModuleNotFoundError', 'No module named %s' % name)
            m = ExtMod(name)
            self.modules[name] = m
            return m
        if len(parts) > 1:
            parent = self.import_module('.'.join(parts[:-1]))
            if name in self.modules:
                return self.modules[name]
        m = Module(name, path, pkg)
        m.ns['__name__'] = name
        m.ns['__file__'] = path
        m.ns['__package__'] = name if pkg else '.'.join(parts[:-1])
        if pkg:
            m.ns['__path__'] = [os.path.dirname(path) if path.endswith('.py') else path]
        self.modules[name] = m
        if path.endswith('.py'):
            with open(path, encoding='utf-8') as f:
                src = f.read()
            try:
                tree = ast.parse(src, path)
            except SyntaxError as e:
                raise AnalysisBroken('cannot parse %s: %s' % (path, e))
            env = Env(None, m)
            env.vars = m.ns
            self.stack.append(('<module %s>' % name, path, 0))
            try:
                self.exec_body(tree.body, env)
            except BaseException:
                self.modules.pop(name, None)
                raise
            finally:
                self.stack.pop()
        m.ready = True
        if len(parts) > 1 and isinstance(parent, Module):
            parent.ns.setdefault(parts[-1], m)
        return m

    def module_attr(self, m, name):
        if isinstance(m, Module):
            if name in m.ns:
                return m.ns[name]
            sub = m.name + '.' + name
            if sub in self.modules:
                return self.modules[sub]
            if self.stack and os.sep + 'specs' + os.sep in str(self.stack[-1][1]):
                raise Undecided("module '%s' has no attribute '%s'" % (m.name, name))
            self.raise_('AttributeError', "module '%s' has no attribute '%s'" % (m.name, name))
        from . import models
        return models.ext_attr(self, m.name, name)

    # ------------------------------------------------------------ statements
    def exec_body(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided('step limit')
        if self.stack:
            q, f, _ = self.stack[-1]
            self.stack[-1] = (q, f, st.lineno)
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Undecided('statement %s' % type(st).__name__)
        return m(st, env)

    def x_Pass(self, st, env):
        pass

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Yield):
            self.ev(st.value, env)
            return
        self.ev(st.value, env)

    def x_Return(self, st, env):
        raise _Return(self.ev(st.value, env) if st.value is not None else None)

    def x_Break(self, st, env):
        raise _Break()

    def x_Continue(self, st, env):
        raise _Continue()

    def x_Global(self, st, env):
        env.globals_ = tuple(env.globals_) + tuple(st.names)

    def x_Nonlocal(self, st, env):
        env.nonlocals = tuple(env.nonlocals) + tuple(st.names)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev(t.slice, env)
                if isinstance(o, ADict):
                    i = self.dict_find(o, k)
                    if i is None:
                        self.raise_('KeyError', str(k))
                    del o.items[i]
                elif isinstance(o, list) and (isinstance(k, int) or isinstance(k, slice)):
                    if isinstance(k, int) and not -len(o) <= k < len(o):
                        self.raise_('IndexError', 'list assignment index out of range')
                    del o[k]
                elif isinstance(o, Obj) and o.cls.lookup('__delitem__')[0] is not None:
                    self.call(Bound(o, o.cls.lookup('__delitem__')[0]), [k], {})
                else:
                    raise Undecided('del')
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, Obj):
                    o.attrs.pop(t.attr, None)

    def x_Assert(self, st, env):
        v = self.ev(st.test, env)
        if isinstance(v, Arr) and v.ndim == 0:
            v = v.at(())
        if isinstance(v, Expr):
            c = v.as_const()
            v = (c != 0) if c is not None else bool_of_expr(v)
        if isinstance(v, (UBool, Opaque)):
            # an assertion the domain cannot decide is taken as an assumption
            if isinstance(v, UBool):
                if v.key not in self.ctx.memo:
                    self.ctx.memo[v.key] = not v.neg
                elif (self.ctx.memo[v.key] == v.neg):
                    self.raise_('AssertionError', ast.unparse(st.test)[:80])
            return
        if not self.truth(v):
            self.raise_('AssertionError', ast.unparse(st.test)[:80])

    def x_Import(self, st, env):
        for a in st.names:
            m = self.import_module(a.name)
            if a.asname:
                self.bind(env, a.asname, m)
            else:
                self.bind(env, a.name.split('.')[0], self.import_module(a.name.split('.')[0]))

    def resolve_from(self, st, env):
        if st.level:
            pkg = env.module.ns.get('__package__', '')
            parts = pkg.split('.') if pkg else []
            if st.level > 1:
                parts = parts[:-(st.level - 1)]
            return '.'.join(parts + ([st.module] if st.module else []))
        return st.module

    def x_ImportFrom(self, st, env):
        name = self.resolve_from(st, env)
        if name == '__future__':
            return
        m = self.import_module(name)
        for a in st.names:
            if a.name == '*':
                if name == '_spec':
                    from . import speclib
                    for n in list(speclib.TABLE) + list(speclib.EXTRA_TABLE):
                        self.bind(env, n, self.module_attr(m, n))
                    continue
                if not isinstance(m, Module):
                    raise Undecided('star import from external %s' % name)
                names = m.ns.get('__all__')
                if names is None:
                    names = [k for k in m.ns if not k.startswith('_')]
                for n in list(names):
                    if n not in m.ns:
                        sub = name + '.' + n
                        if self.find(sub)[0]:
                            m.ns[n] = self.import_module(sub)
                        else:
                            self.raise_('AttributeError',
                                        "module '%s' has no attribute '%s'" % (name, n))
                    self.bind(env, n, m.ns[n])
                continue
            if isinstance(m, Module):
                if a.name in m.ns:
                    v = m.ns[a.name]
                elif self.find(name + '.' + a.name)[0]:
                    v = self.import_module(name + '.' + a.name)
                elif self.is_spec(env.module):
                    v = Absent('%s.%s' % (name, a.name))
                else:
                    self.raise_('ImportError', 'cannot import name %s from %s' % (a.name, name))
            else:
                v = self.module_attr(m, a.name)
            self.bind(env, a.asname or a.name, v)

    def x_FunctionDef(self, st, env):
        f = self.make_func(st, env)
        for d in reversed(st.decorator_list):
            f = self.call(self.ev(d, env), [f], {})
        self.bind(env, st.name, f)

    def make_func(self, st, env, name=None):
        a = st.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults)
               if d is not None}
        q = getattr(env, 'qual', None)
        f = Func(st, env, env.module, name or getattr(st, 'name', '<lambda>'), defaults, kwd)
        prefix = env.vars.get('__qualname__') if '__qualname__' in env.vars else None
        if isinstance(prefix, str):
            f.qual = prefix + '.' + f.name
        return f

    def x_ClassDef(self, st, env):
        bases = []
        for b in st.bases:
            v = self.ev(b, env)
            if isinstance(v, Cls):
                bases.append(v)
            elif isinstance(v, Opaque):
                bases.append(Cls(str(v.key), [self.builtins['object']], {}, native='opaque'))
            else:
                raise Undecided('base class %r' % (v,))
        meta = None
        for k in st.keywords:
            if k.arg == 'metaclass':
                meta = self.ev(k.value, env)
        if not bases:
            bases = [self.builtins['object']]
        if meta is None:
            for b in bases:
                if b.meta is not None:
                    meta = b.meta
                    break
        cenv = Env(env, env.module)
        cenv.vars['__qualname__'] = st.name
        cenv.vars['__module__'] = env.module.name
        self.exec_body(st.body, _ClassEnv(cenv))
        ns = dict(cenv.vars)
        ns.setdefault('__annotations_order__', [
            (s.target.id, s) for s in st.body
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)])
        if ns['__annotations_order__'] and '__annotations__' not in ns:
            ns['__annotations__'] = ADict([[n, None] for n, _ in ns['__annotations_order__']])
        if '__eq__' in ns and '__hash__' not in ns:
            ns['__hash__'] = None
        c = Cls(st.name, bases, ns, env.module, meta, node=st)
        for k, v in ns.items():
            f = v
            if isinstance(f, Property):
                f = f.fget
            if isinstance(f, (StaticM, ClassM)):
                f = f.f
            if isinstance(f, Func) and f.owner is None:
                f.owner = c
        for d in reversed(st.decorator_list):
            r = self.call(self.ev(d, env), [c], {})
            if isinstance(r, Cls):
                c = r
        # __init_subclass__ hook of stubs
        for b in c.mro[1:]:
            h = b.ns.get('__init_subclass__')
            if h is not None:
                self.call(Bound(c, h.f if isinstance(h, ClassM) else h), [], {})
                break
        self.bind(env, st.name, c)

    def x_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def x_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            setter = lambda v: self.assign(t, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            setter = lambda v: self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            cur = self.getitem(o, k)
            setter = lambda v: self.setitem(o, k, v)
        else:
            raise Undecided('augassign')
        rhs = self.ev(st.value, env)
        if isinstance(cur, Arr) and cur.lib in ('np', 'torch') and isinstance(t, (ast.Name, ast.Attribute)) \
                and cur.ndim > 0:
            new = self.binop(type(st.op).__name__, cur, rhs)
            if isinstance(new, Arr):
                if [s for s in new.shape] != list(cur.shape):
                    self.raise_('ValueError', 'non-broadcastable output operand')
                self.write_arr(cur, new.fn)
                if dt_join(new.dtype, cur.dtype) == new.dtype and new.dtype != cur.dtype \
                        and cur.dtype in 'bi' and new.dtype in 'fc':
                    self.raise_('TypeError', 'Cannot cast ufunc output to integer array')
                setter(cur)
                return
        if isinstance(cur, list) and isinstance(st.op, ast.Add):
            cur.extend(self.iterate(rhs))
            setter(cur)
            return
        if isinstance(cur, Obj):
            m, _ = cur.cls.lookup('__i%s__' % OPN[type(st.op).__name__])
            if m is not None:
                setter(self.call(Bound(cur, m), [rhs], {}))
                return
        setter(self.binop(type(st.op).__name__, cur, rhs))

    def write_view(self, o, new):
        """replace the content of a view: the array it looks at changes"""
        if o.lib == 'jnp':
            self.write_arr(o, None)
        if hasattr(o, 'vkey'):
            self.setitem(o.view, o.vkey, new)
            return
        b = o.view
        mk = getattr(o, 'mk', None)
        if mk is None or not all(s.is_const() for s in b.shape + o.shape) or b.size().const() > 5000:
            raise Undecided('write through a view')
        dims = [int(s.const()) for s in b.shape]
        tab = {}
        for k, c in enumerate(itertools.product(*[range(d) for d in dims])):
            tab[c] = Idx.of(k)
        tag = Arr(b.shape, lambda ix: None, 'i', b.lib)
        set_tab(tag, tab)
        seen = mk(tag)
        cont = {}
        for c in itertools.product(*[range(int(s.const())) for s in o.shape]):
            ix = [Idx.of(x) for x in c]
            k = to_idx(seen.at(ix))
            if k is None or not k.c.is_const() or k.t:
                raise Undecided('write through a view')
            cont[int(k.c.const())] = new.at(ix)
        old = b.snap()
        val = {c: cont.get(k) for k, c in enumerate(itertools.product(*[range(d) for d in dims]))}
        val = {c: old.at([Idx.of(x) for x in c]) if x is None else x for c, x in val.items()}
        r = Arr(b.shape, lambda ix: None, b.dtype, b.lib)
        set_tab(r, val)
        if b.view is not None:
            self.write_view(b, r)
        else:
            self.write_arr(b, r.fn)

    def write_arr(self, a, fn):
        if a.lib == 'jnp':
            self.raise_('TypeError', 'JAX arrays are immutable and do not support in-place item assignment')
        if a.view is not None:
            self.write_view(a, Arr(a.shape, fn, a.dtype, a.lib).snap())
            return
        a.fn = fn
        if a.cache is not None:
            a.cache = {}
        a.inverse = None
        a.tab = None

    def x_If(self, st, env):
        if self.truth(self.ev(st.test, env)):
            self.exec_body(st.body, env)
        else:
            self.exec_body(st.orelse, env)

    def x_While(self, st, env):
        n = 0
        while True:
            c = self.ev(st.test, env)
            if isinstance(c, UBool):
                c.key = c.key
            if not self.truth(c):
                self.exec_body(st.orelse, env)
                return
            n += 1
            if n > 5000:
                raise Undecided('while loop bound')
            try:
                self.exec_body(st.body, env)
            except _Break:
                return
            except _Continue:
                continue

    def x_For(self, st, env):
        it = self.ev(st.iter, env)
        if isinstance(it, SymRange):
            return self.sym_for(st, it, env)
        for v in self.iterate(it):
            self.assign(st.target, v, env)
            try:
                self.exec_body(st.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_body(st.orelse, env)

    def sym_for(self, st, rng, env):
        raise Undecided('loop over a symbolic range')

    def x_Raise(self, st, env):
        if st.exc is None:
            if self.exc_stack:
                raise AbsRaise(self.exc_stack[-1], self.where())
            raise Undecided('bare raise')
        v = self.ev(st.exc, env)
        if isinstance(v, Cls):
            v = self.call(v, [], {})
        raise AbsRaise(v, self.where())

    def x_Try(self, st, env):
        try:
            try:
                depth = len(self.stack)
                self.exec_body(st.body, env)
            except AbsRaise as e:
                del self.stack[depth:]
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, env)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = any(isinstance(x, Cls) and isinstance(e.exc, Obj)
                                 and e.exc.cls.sub(x) for x in ts)
                    if ok:
                        if h.name:
                            self.bind(env, h.name, e.exc)
                        self.exc_stack.append(e.exc)
                        try:
                            self.exec_body(h.body, env)
                        finally:
                            self.exc_stack.pop()
                        break
                else:
                    raise
            else:
                self.exec_body(st.orelse, env)
        finally:
            if st.finalbody:
                self.exec_body(st.finalbody, env)

    def x_With(self, st, env):
        self._with(list(st.items), st.body, env)

    def _with(self, items, body, env):
        if not items:
            return self.exec_body(body, env)
        item = items[0]
        m = self.ev(item.context_expr, env)
        v = m
        if isinstance(m, Obj) and m.cls.lookup('__enter__')[0] is not None:
            v = self.call(self.getattr(m, '__enter__'), [], {})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, env)
        leaves = isinstance(m, Obj) and \
            m.cls.lookup('__exit__')[0] is not None
        if not leaves:
            return self._with(items[1:], body, env)
        depth = len(self.stack)
        try:
            self._with(items[1:], body, env)
        except AbsRaise as e:
            del self.stack[depth:]
            kind = e.exc.cls if isinstance(e.exc, Obj) else None
            if self.call(self.getattr(m, '__exit__'),
                         [kind, e.exc, None], {}) is not True:
                raise
        except (_Return, _Break, _Continue):
            self.call(self.getattr(m, '__exit__'), [None, None, None], {})
            raise
        else:
            self.call(self.getattr(m, '__exit__'), [None, None, None], {})

    # ------------------------------------------------------------ binding
    def bind(self, env, name, v):
        if name in env.globals_:
            env.module.ns[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars and e.parent is not None:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    def lookup(self, name, env):
        e = env
        first = True
        while e is not None:
            if name in e.vars and (first or not isinstance(e, _ClassEnv)):
                return e.vars[name]
            first = False
            e = e.parent
        ns = env.module.ns
        if name in ns:
            v = ns[name]
            if v.__class__ is Absent:
                raise Undecided('%s is not there' % v.name)
            return v
        if name in self.builtins:
            return self.builtins[name]
        if self.is_spec(env.module):
            raise Undecided('no name %s' % name)
        self.raise_('NameError', "name '%s' is not defined" % name)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    self.raise_('ValueError', 'not enough values to unpack')
                for x, y in zip(t.elts[:i], vals[:i]):
                    self.assign(x, y, env)
                self.assign(t.elts[i].value, vals[i:len(vals) - after], env)
                for x, y in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(x, y, env)
                return
            if len(vals) != len(t.elts):
                self.raise_('ValueError', 'expected %d values to unpack, got %d'
                            % (len(t.elts), len(vals)))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v, env)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        else:
            raise Undecided('assignment target')

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.elts(e.elts, env)

    def e_Set(self, e, env):
        s = ASet()
        for x in self.elts(e.elts, env):
            self.dict_set(s.d, x, None)
        return s

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = ADict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, env)
                for kk, vv in o.items:
                    self.dict_set(d, kk, vv)
            else:
                kk = self.ev(k, env)
                self.dict_set(d, kk, self.ev(v, env))
        return d

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    x = self.ev(v.value, env)
                except AbsRaise:
                    raise
                if v.conversion == 114:
                    parts.append(self.repr(x))
                elif v.format_spec is not None:
                    parts.append(SymStr((Opaque('fmt'),)))
                else:
                    parts.append(self.str(x))
        return mkstr(parts)

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr, env)

    def e_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.ev(e.slice, env))

    def e_Slice(self, e, env):
        return slice(*[self.ev(x, env) if x is not None else None
                       for x in (e.lower, e.upper, e.step)])

    def e_Starred(self, e, env):
        raise Undecided('starred')

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return self.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        return self.unop(type(e.op).__name__, v)

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.ev(x, env)
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, UBool) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, UBool) else True
        return v

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = True
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            res = self.compare(type(op).__name__, left, right)
            if len(e.ops) > 1 and k < len(e.ops) - 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        return self.make_func(e, env, '<lambda>')

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        x = env
        while x is not None:
            if '__yield__' in x.vars:
                x.vars['__yield__'].append(v)
                return None
            x = x.parent
        raise Undecided('yield')

    def comp(self, gens, env, emit):
        def rec(k, env):
            if k == len(gens):
                emit(env, None)
                return
            g = gens[k]
            it = self.ev(g.iter, env)
            if isinstance(it, SymRange):
                if k == len(gens) - 1 and not g.ifs:
                    ev2 = Env(env, env.module)
                    self.assign(g.target, _RepeatVar(), ev2)
                    emit(ev2, it.length())
                    return
                raise Undecided('comprehension over a symbolic range')
            if isinstance(it, Arr) and it.ndim and not it.shape[0].is_const() \
                    and k == len(gens) - 1 and not g.ifs:
                from . import models
                cell = Cell(IVar(it.shape[0], 'n'))
                ev2 = Env(env, env.module)
                self.assign(g.target, models.cell_elem(it, cell), ev2)
                emit(ev2, it.shape[0].norm(), cell)
                return
            for v in self.iterate(it):
                ev2 = Env(env, env.module)
                self.assign(g.target, v, ev2)
                if all(self.truth(self.ev(c, ev2)) for c in g.ifs):
                    rec(k + 1, ev2)
        rec(0, env)

    def e_ListComp(self, e, env):
        out = []

        def emit(en, rep, cell=None):
            v = self.ev(e.elt, en)
            out.append(Repeat(v, rep, cell) if rep is not None else v)
        self.comp(e.generators, env, emit)
        return out

    e_GeneratorExp = None

    def e_SetComp(self, e, env):
        s = ASet()
        for x in self.e_ListComp(e, env):
            self.dict_set(s.d, x, None)
        return s

    def e_DictComp(self, e, env):
        d = ADict()

        def emit(en, rep, cell=None):
            if rep is not None:
                raise Undecided('dict comprehension')
            self.dict_set(d, self.ev(e.key, en), self.ev(e.value, en))
        self.comp(e.generators, env, emit)
        return d

    def e_Call(self, e, env):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in env.vars:
            return self.do_super(e, env)
        if isinstance(e.func, ast.Name) and e.func.id in ('globals', 'locals') and not e.args:
            return NSProxy(env.module.ns if e.func.id == 'globals' else env.vars)
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                o = self.ev(k.value, env)
                if isinstance(o, ADict):
                    for kk, vv in o.items:
                        kw[kk] = vv
                else:
                    raise Undecided('** of %r' % (o,))
            else:
                kw[k.arg] = self.ev(k.value, env)
        if self.stack:
            q, fl, _ = self.stack[-1]
            self.stack[-1] = (q, fl, e.lineno)
        return self.call(f, args, kw)

    def do_super(self, e, env):
        if e.args:
            c = self.ev(e.args[0], env)
            o = self.ev(e.args[1], env)
        else:
            x = env
            while x is not None and '__class__' not in x.vars:
                x = x.parent
            if x is None:
                raise Undecided('super outside method')
            c, o = x.vars['__class__'], x.vars['__self__']
        return Super(c, o)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided('step limit')
        if isinstance(f, Native):
            return self.call_native(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, MultiFn):
            return self.call_multi(f, args, kw)
        if isinstance(f, Obj):
            m, _ = f.cls.lookup('__call__')
            if m is None:
                self.raise_('TypeError', "'%s' object is not callable" % f.cls.name)
            return self.call(self.bind_attr(m, f), args, kw)
        if isinstance(f, Opaque):
            return Opaque('%s()' % (f.key,))
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw)
        if f is None or isinstance(f, NUM + (str, list, tuple, ADict, Arr, UBool)):
            self.raise_('TypeError', "'%s' object is not callable" % type(f).__name__)
        if f is Ellipsis or f is NotImplemented:
            self.raise_('TypeError', 'not callable')
        raise Undecided('call of %r' % (f,))

    def call_native(self, f, args, kw):
        try:
            if f.name not in VIEW_FUNCS:
                args = [snap_arg(x) for x in args]
            return tabulate(f.fn(self, *args, **kw))
        except ShapeError as e:
            self.raise_('TypeError', '%s: %s' % (f.name, e))
        except TypeError as e:
            if 'argument' in str(e) or 'positional' in str(e):
                raise Undecided('model of %s: %s' % (f.name, e))
            raise

    def bindargs(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_('TypeError', '%s() takes %d positional arguments but %d were given'
                            % (f.name, len(names), len(args)))
            vals[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        extra = ADict()
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in vals:
                    self.raise_('TypeError', "%s() got multiple values for argument '%s'"
                                % (f.name, k))
                vals[k] = v
            elif a.kwarg is not None:
                extra.items.append([k, v])
            else:
                self.raise_('TypeError', "%s() got an unexpected keyword argument '%s'"
                            % (f.name, k))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            vals.setdefault(n, d)
        for k, d in f.kwdefaults.items():
            vals.setdefault(k, d)
        for n in names + kwonly:
            if n not in vals:
                self.raise_('TypeError', "%s() missing required argument '%s'" % (f.name, n))
        return vals

    def call_func(self, f, args, kw):
        if len(self.stack) > 300:
            self.raise_('RecursionError', 'maximum recursion depth exceeded in ' + f.qual)
        vals = self.bindargs(f, args, kw)
        env = Env(f.env, f.module)
        env.vars = vals
        if f.owner is not None and args:
            env.vars['__class__'] = f.owner
            env.vars['__self__'] = args[0]
        path = f.module.path if isinstance(f.module, Module) else None
        self.visited.add((path, f.qual if f.owner is None or '.' in f.qual
                          else f.owner.name + '.' + f.name))
        self.stack.append((f.qual if f.owner is None or '.' in f.qual
                           else f.owner.name + '.' + f.name, path, f.node.lineno))
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body, env)
            else:
                if is_generator(f.node):
                    env.vars['__yield__'] = []
                    try:
                        self.exec_body(f.node.body, env)
                    except _Return:
                        pass
                    r = env.vars['__yield__']
                else:
                    try:
                        self.exec_body(f.node.body, env)
                        r = None
                    except _Return as ret:
                        r = ret.v
        except RecursionError:
            raise Undecided('recursion')
        except Exception as e:
            # keep the innermost position for reports
            if not hasattr(e, 'trail') and not isinstance(e, (_Return, _Break, _Continue)):
                e.trail = self.trail()
            self.stack.pop()
            raise
        self.stack.pop()
        return r

    def instantiate(self, c, args, kw):
        if c.native:
            h = NATIVE_CLS.get(c.native)
            if h is not None:
                return h(self, c, args, kw)
            if c.native == 'opaque':
                return Opaque('%s()' % c.name)
        if c.meta is not None and isinstance(c.meta, Cls):
            m, _ = c.meta.lookup('__call__')
            if isinstance(m, Func):
                return self.call(m, [c] + list(args), kw)
        new, owner = c.lookup('__new__')
        if isinstance(new, StaticM):
            new = new.f
        if new is not None and isinstance(new, Func):
            o = self.call(new, [c] + list(args), kw)
            if not (isinstance(o, Obj) and o.cls.sub(c)):
                return o
        else:
            o = Obj(c)
            for b in c.mro:
                if b.native == 'opaque':
                    o.attrs['__opaque_base__'] = True
        init, _ = o.cls.lookup('__init__')
        if init is not None:
            r = self.call(self.bind_attr(init, o), args, kw)
            if r is not None:
                self.raise_('TypeError', '__init__() should return None, not %s' % type(r).__name__)
        elif args or kw:
            if o.cls.sub(self.builtins['BaseException']):
                o.attrs['args'] = tuple(args)
            elif not any(b.native == 'opaque' for b in c.mro):
                if new is None or not isinstance(new, Func):
                    self.raise_('TypeError', '%s() takes no arguments' % c.name)
        return o

    def call_multi(self, mf, args, kw):
        cands = []
        for types, fn in mf.methods:
            if len(types) != len(args):
                continue
            if all(self.isinst(a, t) for a, t in zip(args, types)):
                cands.append((types, fn))
        if not cands:
            self.raise_('TypeError', 'no method of %s for these arguments' % mf.name)

        def le(t1, t2):
            return all(self.subclass(x, y) for x, y in zip(t1, t2))
        best = [c for c in cands if all(le(c[0], d[0]) for d in cands)]
        if not best:
            self.raise_('TypeError', 'ambiguous call of %s' % mf.name)
        return self.call(best[-1][1], args, kw)

    def subclass(self, a, b):
        obj = self.builtins['object']
        if b is obj:
            return True
        if isinstance(a, Cls) and isinstance(b, Cls):
            return a.sub(b)
        return a is b

    # ------------------------------------------------------------ attributes
    def bind_attr(self, m, o):
        if isinstance(m, (Func, MultiFn, Native)):
            return Bound(o, m)
        if isinstance(m, Property):
            return self.call(m.fget, [o], {})
        if isinstance(m, StaticM):
            return m.f
        if isinstance(m, ClassM):
            return Bound(o.cls if isinstance(o, Obj) else o, m.f)
        return m

    def mangle(self, name, env):
        if name.startswith('__') and not name.endswith('__') and env is not None:
            x = env
            while x is not None:
                if '__class__' in x.vars and isinstance(x.vars['__class__'], Cls):
                    return '_%s%s' % (x.vars['__class__'].name.lstrip('_'), name)
                x = x.parent
        return name

    def getattr(self, o, name, env=None):
        name = self.mangle(name, env)
        r = self.getattr_opt(o, name)
        if r is _MISSING:
            if real_attr(o, name):
                raise Undecided('attribute %s of %s is not modelled' % (name, self.type_name(o)))
            if name[:1] == '_' and name[:2] != '__' and env is not None and self.is_spec(env.module):
                raise Undecided('no private attribute %s' % name)
            self.raise_('AttributeError', "'%s' object has no attribute '%s'"
                        % (self.type_name(o), name))
        return r

    def type_name(self, o):
        if isinstance(o, Obj):
            return o.cls.name
        if isinstance(o, Cls):
            return 'type ' + o.name
        return type(o).__name__

    def getattr_opt(self, o, name):
        if isinstance(o, Obj):
            m, c = o.cls.lookup(name)
            if isinstance(m, Property):
                return self.call(m.fget, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if c is not None:
                return self.bind_attr(m, o)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return ADict([[k, v] for k, v in o.attrs.items()])
            if name == '__doc__':
                return None
            if name == '__module__':
                return o.cls.module.name if o.cls.module else None
            g, _ = o.cls.lookup('__getattr__')
            if g is not None:
                return self.call(Bound(o, g), [name], {})
            if any(b.native == 'opaque' for b in o.cls.mro):
                return Opaque('%s.%s' % (o.cls.name, name))
            return _MISSING
        if isinstance(o, Super):
            cls = o.obj.cls if isinstance(o.obj, Obj) else o.obj
            mro = cls.mro
            i = mro.index(o.cls) if o.cls in mro else -1
            for c in mro[i + 1:]:
                if name in c.ns:
                    m = c.ns[name]
                    if name == '__new__':
                        return m.f if isinstance(m, StaticM) else m
                    return self.bind_attr(m, o.obj)
                if c.native == 'opaque':
                    return Native('opaque', lambda it, *a, **k: None)
            if name == '__init__':
                return Native('object.__init__', lambda it, *a, **k: None)
            if name == '__new__':
                return Native('object.__new__', lambda it, c, *a, **k: Obj(c))
            return _MISSING
        if isinstance(o, (Module, ExtMod)):
            if isinstance(o, Module):
                if name in o.ns:
                    return o.ns[name]
                sub = o.name + '.' + name
                if sub in self.modules:
                    return self.modules[sub]
                if name == '__dict__':
                    return NSProxy(o.ns)
                return _MISSING
            return self.module_attr(o, name)
        if isinstance(o, Cls):
            if name == '__name__' or name == '__qualname__':
                return o.name
            if name == '__module__':
                return o.module.name if o.module else 'builtins'
            if name == '__class__':
                return o.meta or self.builtins['type']
            if name == '__dict__':
                return ADict([[k, v] for k, v in o.ns.items()])
            if name == '__mro__':
                return tuple(o.mro)
            if name == '__doc__':
                return ast.get_docstring(o.node) if o.node is not None else None
            m, c = o.lookup(name)
            if m is None and c is None:
                if o is self.builtins.get('str') and hasattr(str, name) and not name.startswith('__'):
                    return Native('str.' + name, lambda it, *a, **k: str_method(it, name, a, k))
                if name == '__new__':
                    return Native('object.__new__', lambda it, c, *a, **k: Obj(c))
                if name in ('__init__', '__eq__', '__hash__'):
                    return Opaque('object.' + name)
                if o.native == 'opaque':
                    return Opaque('%s.%s' % (o.name, name))
                return _MISSING
            if isinstance(m, StaticM):
                return m.f
            if isinstance(m, ClassM):
                return Bound(o, m.f)
            return m
        if isinstance(o, Func) and name == '__kwdefaults__':
            return ADict([[k, v] for k, v in o.kwdefaults.items()])
        if isinstance(o, Func) and name == '__defaults__':
            return tuple(o.defaults.values() if isinstance(o.defaults, dict) else o.defaults) or None
        if isinstance(o, Func):
            if name == '__name__':
                return o.name
            if name == '__module__':
                return o.module.name
            if name == '__doc__':
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name == '__qualname__':
                return o.qual
            if name in o.attrs:
                return o.attrs[name]
            if name == '__wrapped__':
                return _MISSING
            return _MISSING
        if isinstance(o, (Native, MultiFn)):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
            if name == '__module__':
                return o.attrs.get('__module__', 'external')
            return _MISSING
        if isinstance(o, Bound):
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.func
            return self.getattr_opt(o.func, name)
        if isinstance(o, Opaque):
            if o.key == 'device' and name == 'platform':
                return 'cpu'
            return Opaque('%s.%s' % (o.key, name))
        if isinstance(o, NSProxy):
            return self.ns_method(o, name)
        from . import models
        return models.value_attr(self, o, name)

    def ns_method(self, o, name):
        if name == 'update':
            def upd(it, d):
                for k, v in d.items:
                    o.ns[k] = v
            return Native('update', upd)
        if name == 'items':
            return Native('items', lambda it: [(k, v) for k, v in o.ns.items()])
        if name == 'get':
            return Native('get', lambda it, k, d=None: o.ns.get(k, d))
        return _MISSING

    def setattr(self, o, name, v, env=None):
        name = self.mangle(name, env)
        if isinstance(o, Obj):
            m, c = o.cls.lookup(name)
            if isinstance(m, Property):
                self.raise_('AttributeError', "property '%s' has no setter" % name)
            sa, _ = o.cls.lookup('__setattr__')
            if isinstance(sa, Func):
                self.call(Bound(o, sa), [name, v], {})
                return
            self.on_setattr(o, name, v)
            o.attrs[name] = v
        elif isinstance(o, Module):
            o.ns[name] = v
        elif isinstance(o, Cls):
            o.ns[name] = v
        elif isinstance(o, Func):
            o.attrs[name] = v
        elif isinstance(o, Arr):
            o.attrs[name] = v
        elif isinstance(o, Opaque):
            pass
        elif isinstance(o, ExtMod):
            self.__dict__.setdefault('overrides', {})[(o.name, name)] = v
        else:
            raise Undecided('setattr on %r' % (o,))

    def on_setattr(self, o, name, v):
        pass

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        if isinstance(o, (list, tuple)):
            if isinstance(k, slice):
                if any(isinstance(x, Repeat) for x in o):
                    raise Undecided('slice of a symbolic list')
                return o[slice(*[None if x is None else int_of(x) if not isinstance(int_of(x), Poly)
                                 else _und() for x in (k.start, k.stop, k.step)])]
            if isinstance(k, Arr) and k.ndim == 0 or isinstance(k, (Idx, Expr)):
                k = int_of(k)
            if isinstance(k, bool):
                k = int(k)
            if not isinstance(k, int):
                if isinstance(k, (str, float, list, tuple)) or k is None:
                    self.raise_('TypeError', 'list indices must be integers or slices')
                raise Undecided('symbolic list index')
            try:
                return o[k]
            except IndexError:
                self.raise_('IndexError', 'list index out of range')
        if isinstance(o, ADict):
            i = self.dict_find(o, k)
            if i is None:
                if o.factory is not None:
                    v = self.call(o.factory, [], {})
                    o.items.append([k, v])
                    return v
                self.raise_('KeyError', self.safe_repr(k))
            return o.items[i][1]
        if isinstance(o, NSProxy):
            return o.ns[k]
        if isinstance(o, Arr):
            return self.guard(lambda: tabulate(getitem(o, self.idxkey(k))))
        if isinstance(o, str):
            return o[k]
        if isinstance(o, Obj):
            m, _ = o.cls.lookup('__getitem__')
            if m is not None:
                return self.call(Bound(o, m), [k], {})
            self.raise_('TypeError', "'%s' object is not subscriptable" % o.cls.name)
        if isinstance(o, Opaque):
            return Opaque('%s[%s]' % (o.key, self.key_of(k)))
        if isinstance(o, Cls):
            return o
        if isinstance(o, Native):
            g = o.attrs.get('__getitem__')
            if g:
                return g(self, k)
        if isinstance(o, SymRange):
            return o.item(k)
        from . import models
        if isinstance(o, models.SysModules):
            if k in self.modules:
                return self.modules[k]
            self.raise_('KeyError', str(k))
        if o is None:
            self.raise_('TypeError', "'NoneType' object is not subscriptable")
        raise Undecided('subscript of %r' % (o,))

    def idxkey(self, k):
        if isinstance(k, tuple):
            return tuple(self.idxkey(x) for x in k)
        if isinstance(k, SymRange):
            return k.arr()
        if isinstance(k, Obj):
            m, _ = k.cls.lookup('__index__')
            if m is not None:
                return self.call(Bound(k, m), [], {})
            raise Undecided('object index')
        if isinstance(k, (Opaque,)):
            raise Undecided('opaque index')
        if isinstance(k, float):
            self.raise_('TypeError', 'Indexer must have integer or boolean type')
        return k

    def guard(self, f):
        try:
            return f()
        except ShapeError as e:
            self.raise_('TypeError', str(e))

    def setitem(self, o, k, v):
        if isinstance(o, list):
            if isinstance(k, int):
                try:
                    o[k] = v
                except IndexError:
                    self.raise_('IndexError', 'list assignment index out of range')
                return
            raise Undecided('list slice assignment')
        if isinstance(o, ADict):
            self.dict_set(o, k, v)
            return
        if isinstance(o, NSProxy):
            o.ns[k] = v
            return
        if isinstance(o, Arr):
            if isinstance(v, (list, tuple)):
                v = from_nested(v, o.lib)
            if isinstance(v, Obj):
                raise Undecided('object stored in array')
            if isinstance(v, Arr) and v.dtype == 'c' and o.dtype != 'c':
                raise Undecided('complex stored into real array')
            k2 = self.idxkey(k)
            if isinstance(v, Arr):
                # numpy evaluates the right-hand side before writing
                v = v.snap()
            if isinstance(k2, Arr) and k2.dtype == 'b' or (
                    isinstance(k2, tuple) and any(isinstance(x, Arr) and x.dtype == 'b' for x in k2)):
                raise Undecided('boolean mask assignment')
            if o.view is not None:
                if o.lib == 'jnp':
                    self.write_arr(o, None)
                frozen = o.snap()
                fn = self.guard(lambda: setitem_fn(frozen, k2, v))
                self.write_view(o, Arr(o.shape, fn, o.dtype, o.lib))
                return
            if getattr(o, 'tab', None) is not None and isinstance(k2, tuple) and \
                    len(k2) == o.ndim and all(isinstance(x, int) for x in k2) and \
                    isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
                if o.lib == 'jnp':
                    self.write_arr(o, None)
                c = []
                for x, n in zip(k2, o.shape):
                    n = int(n.const())
                    if not -n <= x < n:
                        self.raise_('IndexError', 'index %d is out of bounds' % x)
                    c.append(x % n)
                tab = dict(o.tab)
                tab[tuple(c)] = coerce(Idx.of(v) if o.dtype == 'i' and isinstance(v, int)
                                       else Expr.const(v), o.dtype)
                set_tab(o, tab)
                return
            fn = self.guard(lambda: setitem_fn(o, k2, v))
            self.write_arr(o, fn)
            maybe_materialize(o)
            return
        if isinstance(o, Obj):
            m, _ = o.cls.lookup('__setitem__')
            if m is not None:
                self.call(Bound(o, m), [k, v], {})
                return
            self.raise_('TypeError', "'%s' object does not support item assignment" % o.cls.name)
        if isinstance(o, Opaque):
            return
        if isinstance(o, tuple):
            self.raise_('TypeError', "'tuple' object does not support item assignment")
        raise Undecided('item assignment')

    # ------------------------------------------------------------ iteration
    def iterate(self, o):
        if isinstance(o, (list, tuple)):
            if any(isinstance(x, Repeat) for x in o):
                raise Undecided('iteration over a symbolic list')
            return list(o)
        if isinstance(o, ADict):
            return [k for k, _ in o.items]
        if isinstance(o, (ASet, KeysView)):
            return [k for k, _ in o.d.items]
        if isinstance(o, SymRange):
            raise Undecided('iteration over a symbolic range')
        if isinstance(o, range):
            return list(o)
        if isinstance(o, str):
            return list(o)
        if isinstance(o, Arr):
            if o.ndim == 0:
                self.raise_('TypeError', 'iteration over a 0-d array')
            n = o.shape[0]
            if not n.is_const():
                raise Undecided('iteration over an axis of symbolic size')
            return [scalarise(getitem(o, k)) for k in range(int(n.const()))]
        if isinstance(o, Obj):
            m, _ = o.cls.lookup('__iter__')
            if m is not None:
                return self.iterate(self.call(Bound(o, m), [], {}))
            m, _ = o.cls.lookup('__getitem__')
            ln, _ = o.cls.lookup('__len__')
            if m is not None and ln is not None:
                n = self.call(Bound(o, ln), [], {})
                return [self.call(Bound(o, m), [i], {}) for i in range(int_of(n))]
            self.raise_('TypeError', "'%s' object is not iterable" % o.cls.name)
        if isinstance(o, Opaque):
            raise Undecided('iteration over %s' % (o.key,))
        if o is None or isinstance(o, NUM):
            self.raise_('TypeError', "'%s' object is not iterable" % type(o).__name__)
        if isinstance(o, NSProxy):
            return list(o.ns)
        if isinstance(o, (Func, Bound, Cls)) or isinstance(o, Native) and o.name in ('partial', 'jit', 'vmap', 'vmapped'):
            self.raise_('TypeError', "'function' object is not iterable")
        raise Undecided('iteration over %r' % (o,))

    # ------------------------------------------------------------ dictionaries
    def hashkey(self, v):
        """abstract hash: equal keys <=> equal hash (collision-free model)"""
        if isinstance(v, HashVal):
            return v.key
        if isinstance(v, bool):
            return int(v)
        if v is None or isinstance(v, (int, str, float, complex)):
            return v
        if isinstance(v, Fraction):
            return v
        if isinstance(v, SymStr):
            return ('str',) + v.key()
        if isinstance(v, Poly):
            return ('poly', repr(v))
        if isinstance(v, (Idx, Expr)):
            return ('num', core._ser_any(v, {}))
        if isinstance(v, tuple):
            return ('tuple',) + tuple(self.hashkey(x) for x in v)
        if isinstance(v, slice):
            self.raise_('TypeError', "unhashable type: 'slice'")
        if isinstance(v, (list, ADict, ASet)):
            self.raise_('TypeError', "unhashable type: '%s'" % type(v).__name__)
        if isinstance(v, Arr):
            if v.ndim == 0:
                return ('arr0', core._ser_any(to_expr(v.at(())), {}))
            self.raise_('TypeError', "unhashable type: 'ndarray'")
        if isinstance(v, Cls):
            return ('cls', v.name, id(v))
        if isinstance(v, Obj):
            m, c = v.cls.lookup('__hash__')
            if m is None and c is not None:
                self.raise_('TypeError', "unhashable type: '%s'" % v.cls.name)
            if m is None:
                return ('id', v.id)
            h = self.call(self.bind_attr(m, v), [], {})
            return self.hashkey(h)
        if isinstance(v, (Func, Native, Bound, Module, ExtMod, MultiFn)):
            return ('id', id(v))
        if isinstance(v, Opaque):
            return ('opaque', str(v.key))
        if v is Ellipsis:
            return 'Ellipsis'
        raise Undecided('hash of %r' % (v,))

    def dict_find(self, d, k):
        if not d.items:
            self.hashkey(k)
            return None
        hk = self.hashkey(k)
        for i, (kk, _) in enumerate(d.items):
            if kk is k:
                return i
        for i, (kk, _) in enumerate(d.items):
            if self.hashkey(kk) == hk and self.truth(self.equal(kk, k)):
                return i
        return None

    def dict_set(self, d, k, v):
        i = self.dict_find(d, k)
        if i is None:
            d.items.append([k, v])
        else:
            d.items[i][1] = v

    # ------------------------------------------------------------ operators
    def equal(self, a, b):
        """abstract == """
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj):
                m, c = a.cls.lookup('__eq__')
                if m is not None:
                    r = self.call(Bound(a, m), [b], {})
                    if r is not NotImplemented:
                        return r
            if isinstance(b, Obj):
                m, c = b.cls.lookup('__eq__')
                if m is not None:
                    r = self.call(Bound(b, m), [a], {})
                    if r is not NotImplemented:
                        return r
            return a is b
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)) or a is None or b is None:
                return False
            if isinstance(a, (list, tuple)):
                a = from_nested(a, 'np')
            if isinstance(b, (list, tuple)):
                b = from_nested(b, 'np')
            if not isinstance(a, NUM + (Arr, bool)) or not isinstance(b, NUM + (Arr, bool)):
                return False
            return tabulate(cmp_arr('eq', snap_arg(a), snap_arg(b)))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b:
                return True
            ka, kb = self.key_of(a), self.key_of(b)
            if ka == kb:
                return True
            return UBool('eq(%s,%s)' % tuple(sorted([ka, kb])))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b):
                return False
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if x is y:
                    continue
                if not self.truth(self.equal(x, y)):
                    return False
            return True
        if isinstance(a, ADict) and isinstance(b, ADict):
            if len(a.items) != len(b.items):
                return False
            for k, v in a.items:
                i = self.dict_find(b, k)
                if i is None:
                    return False
                w = b.items[i][1]
                if v is not w and not self.truth(self.equal(v, w)):
                    return False
            return True
        if isinstance(a, ASet) and isinstance(b, ASet):
            return self.equal(a.d, b.d)
        if isinstance(a, HashVal) or isinstance(b, HashVal):
            return self.hashkey(a) == self.hashkey(b)
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if isinstance(a, SymStr) and isinstance(b, SymStr) and a.key() == b.key():
                return True
            if not isinstance(a, (str, SymStr)) or not isinstance(b, (str, SymStr)):
                return False
            return str_eq(a, b)
        if isinstance(a, NUM) and isinstance(b, NUM):
            return num_cmp('eq', a, b)
        if isinstance(a, slice) and isinstance(b, slice):
            return (a.start, a.stop, a.step) == (b.start, b.stop, b.step)
        if isinstance(a, Cls) or isinstance(b, Cls) or a is None or b is None:
            return a is b
        if isinstance(a, UBool) or isinstance(b, UBool):
            return self.truth(a) == self.truth(b)
        if isinstance(a, (Poly, Idx, Expr)) or isinstance(b, (Poly, Idx, Expr)):
            return False
        if isinstance(a, DType) or isinstance(b, DType):
            return dtype_eq(a, b)
        try:
            return bool(a == b)
        except Exception:
            raise Undecided('equality of %r and %r' % (a, b))

    def key_of(self, v):
        if isinstance(v, Opaque):
            return str(v.key)
        if isinstance(v, Arr):
            return 'arr:' + (v.name or str(id(v)))
        if isinstance(v, (list, tuple)):
            return '(%s)' % ','.join(self.key_of(x) for x in v)
        return self.safe_repr(v)

    def compare(self, op, a, b):
        if op == 'Is':
            return self.is_(a, b)
        if op == 'IsNot':
            r = self.is_(a, b)
            return r.inv() if isinstance(r, UBool) else not r
        if op == 'In':
            return self.contains(b, a)
        if op == 'NotIn':
            r = self.contains(b, a)
            return r.inv() if isinstance(r, UBool) else not r
        if op == 'Eq':
            return self.equal(a, b)
        if op == 'NotEq':
            if isinstance(a, Obj):
                m, c = a.cls.lookup('__ne__')
                if m is not None:
                    return self.call(Bound(a, m), [b], {})
            r = self.equal(a, b)
            return self.not_(r)
        nm = {'Lt': 'lt', 'Gt': 'gt', 'LtE': 'le', 'GtE': 'ge'}[op]
        rf = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[nm]
        if isinstance(a, Obj) or isinstance(b, Obj):
            # python tries the reflected method of a subclass first
            pairs = [(a, b, nm), (b, a, rf)]
            if isinstance(a, Obj) and isinstance(b, Obj) and b.cls is not a.cls \
                    and b.cls.sub(a.cls) and b.cls.lookup('__%s__' % rf)[0] is not None:
                pairs.reverse()
            for x, y, n in pairs:
                if isinstance(x, Obj):
                    m, c = x.cls.lookup('__%s__' % n)
                    if m is not None:
                        r = self.call(Bound(x, m), [y], {})
                        if r is not NotImplemented:
                            return r
            self.raise_('TypeError', "'%s' not supported between instances of '%s' and '%s'"
                        % (op, self.type_name(a), self.type_name(b)))
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (list, tuple)):
                a = from_nested(a, 'np')
            if isinstance(b, (list, tuple)):
                b = from_nested(b, 'np')
            return self.guard(lambda: tabulate(cmp_arr(nm, snap_arg(a), snap_arg(b))))
        if isinstance(a, HashVal) or isinstance(b, HashVal):
            ka, kb = repr(self.hashkey(a)), repr(self.hashkey(b))
            if ka == kb:
                return nm in ('le', 'ge')
            less = UBool('hash<:%s|%s' % tuple(sorted([ka, kb])), ka > kb)
            return less if nm in ('lt', 'le') else less.inv()
        if isinstance(a, NUM) and isinstance(b, NUM):
            return num_cmp(nm, a, b)
        if isinstance(a, (str,)) and isinstance(b, str) or (
                isinstance(a, (tuple, list)) and isinstance(b, (tuple, list))):
            if isinstance(a, (tuple, list)):
                for x, y in zip(a, b):
                    if not self.truth(self.equal(x, y)):
                        return self.compare(op, x, y)
                return {'lt': len(a) < len(b), 'gt': len(a) > len(b), 'le': len(a) <= len(b),
                        'ge': len(a) >= len(b)}[nm]
            return {'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[nm]
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            ka, kb = str_of(a), str_of(b)
            if ka == kb:
                return nm in ('le', 'ge')
            less = UBool('str<:%s|%s' % tuple(sorted([ka, kb])), ka > kb)
            return less if nm in ('lt', 'le') else less.inv()
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            ka, kb = self.key_of(a), self.key_of(b)
            if nm in ('gt', 'le'):
                return UBool('lt(%s,%s)' % (kb, ka), nm == 'le')
            return UBool('lt(%s,%s)' % (ka, kb), nm == 'ge')
        if isinstance(a, ASet) and isinstance(b, ASet):
            sub = all(self.dict_find(b.d, k) is not None for k, _ in a.d.items)
            sup = all(self.dict_find(a.d, k) is not None for k, _ in b.d.items)
            return {'le': sub, 'ge': sup, 'lt': sub and not sup, 'gt': sup and not sub}[nm]
        if a is None or b is None or isinstance(a, Cls) or isinstance(b, Cls):
            self.raise_('TypeError', 'ordering not supported')
        raise Undecided('comparison of %r and %r' % (a, b))

    def is_(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                o = a if isinstance(a, Opaque) else b
                return UBool('isNone(%s)' % (o.key,))
            return False
        if isinstance(a, (int, str, bool)) and isinstance(b, (int, str, bool)):
            return type(a) is type(b) and a == b
        return False

    def not_(self, r):
        if isinstance(r, UBool):
            return r.inv()
        if isinstance(r, Arr):
            return ew(lambda x: Expr.const(1) - x, r, dtype='b')
        if isinstance(r, Expr):
            return Expr.const(1) - r
        return not self.truth(r)

    def contains(self, c, x):
        if isinstance(c, (list, tuple)):
            for y in c:
                if y is x:
                    return True
                if isinstance(y, Repeat):
                    y = y.value
                if self.truth(self.equal(x, y)):
                    return True
            return False
        if isinstance(c, ADict):
            return self.dict_find(c, x) is not None
        if isinstance(c, (ASet, KeysView)):
            return self.dict_find(c.d, x) is not None
        from . import models
        if isinstance(c, models.SysModules):
            return x in self.modules
        if isinstance(c, NSProxy):
            return x in c.ns
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Obj):
            m, _ = c.cls.lookup('__contains__')
            if m is not None:
                return self.call(Bound(c, m), [x], {})
            return self.contains(self.iterate(c), x)
        if isinstance(c, Opaque):
            return UBool('in(%s,%s)' % (self.key_of(x), c.key))
        if isinstance(c, (range,)):
            return x in c
        if isinstance(c, SymRange):
            return UBool('in range')
        raise Undecided('membership in %r' % (c,))

    def binop(self, op, a, b):
        if isinstance(a, Arr):
            a = a.snap()
        if isinstance(b, Arr):
            b = b.snap()
        return tabulate(self.binop_(op, a, b))

    def binop_(self, op, a, b):
        nm = OPN[op]
        if isinstance(a, Obj) or isinstance(b, Obj):
            order = [(a, b, '__%s__' % nm), (b, a, '__r%s__' % nm)]
            if isinstance(a, Obj) and isinstance(b, Obj) and b.cls is not a.cls and \
                    b.cls.sub(a.cls) and b.cls.lookup('__r%s__' % nm)[0] is not None and \
                    b.cls.lookup('__r%s__' % nm)[0] is not a.cls.lookup('__r%s__' % nm)[0]:
                order.reverse()
            if isinstance(a, Arr) and a.lib == 'np' and a.ndim > 0:
                # numpy would first try to broadcast over the object
                pri, _ = b.cls.lookup('__array_priority__')
                uf, c = b.cls.lookup('__array_ufunc__')
                if c is None and pri is None:
                    raise Undecided('numpy array %s object' % op)
            if isinstance(a, Arr) and a.lib == 'np' and a.ndim == 0 and a.dtype == 'i':
                a = int_of(a)       # numpy hands the reflected operator a Python integer
                order = [(b, a, '__r%s__' % nm)]
            for x, y, n in order:
                if isinstance(x, Obj):
                    m, _ = x.cls.lookup(n)
                    if m is not None:
                        r = self.call(self.bind_attr(m, x), [y], {})
                        if r is not NotImplemented:
                            return r
                    elif any(k.native == 'opaque' for k in x.cls.mro):
                        return Opaque('%s(%s)' % (n, x.cls.name))
            self.raise_('TypeError', "unsupported operand type(s) for %s: '%s' and '%s'"
                        % (op, self.type_name(a), self.type_name(b)))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('%s(%s,%s)' % (nm, self.key_of(a), self.key_of(b)))
        if isinstance(a, UBool):
            a = int(self.truth(a)) if op not in ('BitAnd', 'BitOr') else a
        if isinstance(b, UBool):
            b = int(self.truth(b)) if op not in ('BitAnd', 'BitOr') else b
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (list, tuple)):
                a = from_nested(a, 'np')
            if isinstance(b, (list, tuple)):
                b = from_nested(b, 'np')
            if not isinstance(a, NUM + (Arr, bool)) or not isinstance(b, NUM + (Arr, bool)):
                if a is None or b is None or isinstance(a, (str, Func)) or isinstance(b, (str, Func)):
                    self.raise_('TypeError', 'unsupported operand type(s) for array %s' % op)
                raise Undecided('array %s %r' % (op, b))
            return self.guard(lambda: scalarise(arr_binop(self, nm, a, b)))
        if isinstance(a, NUM) and isinstance(b, NUM):
            return self.num_binop(nm, a, b)
        if isinstance(a, (str, SymStr)):
            if nm == 'add' and isinstance(b, (str, SymStr)):
                return mkstr([a, b])
            if nm == 'mod':
                r = percent_format(self, a, b)
                if r is not None:
                    return r
                return mkstr(['%', SymStr((a,)) if isinstance(a, str) else a,
                              SymStr((Opaque(self.safe_repr(b)),))])
            if nm == 'mul' and isinstance(b, int) and isinstance(a, str):
                return a * b
        if isinstance(a, list) and isinstance(b, list) and nm == 'add':
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple) and nm == 'add':
            return a + b
        if nm == 'mul' and (isinstance(a, (list, tuple)) or isinstance(b, (list, tuple))):
            seq, n = (a, b) if isinstance(a, (list, tuple)) else (b, a)
            n = int_of(n) if isinstance(n, NUM + (Arr,)) else n
            if isinstance(n, int):
                return seq * n
            if isinstance(n, Poly):
                if len(seq) == 1:
                    return type(seq)([Repeat(seq[0], n)])
                raise Undecided('symbolic list repetition')
            self.raise_('TypeError', "can't multiply sequence by non-int")
        if isinstance(a, ASet) and isinstance(b, ASet):
            r = ASet()
            if nm == 'or':
                for k, _ in a.d.items + b.d.items:
                    self.dict_set(r.d, k, None)
                return r
            if nm == 'and':
                for k, _ in a.d.items:
                    if self.dict_find(b.d, k) is not None:
                        self.dict_set(r.d, k, None)
                return r
            if nm == 'sub':
                for k, _ in a.d.items:
                    if self.dict_find(b.d, k) is None:
                        self.dict_set(r.d, k, None)
                return r
        if isinstance(a, KeysView) or isinstance(b, KeysView):
            f = lambda z: z.toset(self) if isinstance(z, KeysView) else z
            return self.binop(op, f(a), f(b))
        if isinstance(a, ADict) and isinstance(b, ADict) and nm == 'or':
            r = ADict([list(x) for x in a.items])
            for k, v in b.items:
                self.dict_set(r, k, v)
            return r
        if isinstance(a, bool) and isinstance(b, bool):
            return {'and': a & b, 'or': a | b, 'xor': a ^ b}[nm]
        if nm in ('and', 'or') and isinstance(a, (bool, UBool)) and isinstance(b, (bool, UBool)):
            x, y = self.truth(a), self.truth(b)
            return (x and y) if nm == 'and' else (x or y)
        if nm in ('and', 'or') and isinstance(a, (bool, Expr)) and isinstance(b, (bool, Expr)):
            x, y = self.truth(a), self.truth(b)
            return (x and y) if nm == 'and' else (x or y)
        if a is None or b is None or isinstance(a, (str, list, tuple, ADict, Func, Native, Cls)) or \
                isinstance(b, (str, list, tuple, ADict, Func, Native, Cls)):
            self.raise_('TypeError', 'unsupported operand type(s) for %s: %s and %s'
                        % (op, self.type_name(a), self.type_name(b)))
        raise Undecided('operator %s on %r, %r' % (op, a, b))

    def num_binop(self, nm, a, b):
        if isinstance(a, bool):
            if isinstance(b, bool) and nm in ('and', 'or', 'xor'):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b}[nm]
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if nm in ('and', 'or', 'xor') and (isinstance(a, Expr) or isinstance(b, Expr)):
            x, y = self.truth(a), self.truth(b)
            return {'and': x and y, 'or': x or y, 'xor': x != y}[nm]
        plain = (int, float, complex, Fraction)
        if isinstance(a, plain) and isinstance(b, plain):
            try:
                if nm == 'truediv':
                    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
                        return Fraction(a) / Fraction(b)
                    if isinstance(a, Fraction) and isinstance(b, float):
                        a = float(a)
                    return a / b
                if isinstance(a, Fraction) and isinstance(b, float) or \
                        isinstance(a, float) and isinstance(b, Fraction):
                    if nm in ('add', 'sub', 'mul'):
                        r = PYOPS[nm](Fraction(repr(a)) if isinstance(a, float) else a,
                                      Fraction(repr(b)) if isinstance(b, float) else b)
                        ie = PYOPS[nm](ieee(a), ieee(b))
                        return r if float(r) == ie else Rounded(r, ie)
                    a, b = Fraction(repr(a)) if isinstance(a, float) else a, \
                        Fraction(repr(b)) if isinstance(b, float) else b
                if isinstance(a, float) and isinstance(b, (int, float)) and nm in ('add', 'sub', 'mul') \
                        or isinstance(b, float) and isinstance(a, (int, float)) and nm in ('add', 'sub', 'mul'):
                    fa = Fraction(repr(a)) if isinstance(a, float) else Fraction(a)
                    fb = Fraction(repr(b)) if isinstance(b, float) else Fraction(b)
                    r = mkfloat({'add': fa + fb, 'sub': fa - fb, 'mul': fa * fb}[nm])
                    ie = PYOPS[nm](ieee(a), ieee(b))
                    return r if float(r) == ie else Rounded(r, ie)
                if nm == 'pow' and isinstance(b, Fraction) and b.denominator != 1:
                    b = float(b)
                if nm == 'pow' and isinstance(a, int) and isinstance(b, int) and b < 0:
                    return Fraction(a) ** b
                r = PYOPS[nm](a, b)
                if isinstance(r, Fraction) and isinstance(a, int) and isinstance(b, int):
                    return int(r)
                return r
            except ZeroDivisionError:
                self.raise_('ZeroDivisionError', 'division by zero')
            except TypeError:
                self.raise_('TypeError', 'unsupported operand for ' + nm)
        if isinstance(a, (int, Poly, Idx)) and isinstance(b, (int, Poly, Idx)):
            if isinstance(a, Idx) or isinstance(b, Idx):
                x, y = Idx.of(a), Idx.of(b)
                if nm == 'add':
                    return nidx(x + y)
                if nm == 'sub':
                    return nidx(x - y)
                if nm == 'mul':
                    if y.is_const():
                        return nidx(x.scale(y.c))
                    if x.is_const():
                        return nidx(y.scale(x.c))
                if nm in ('floordiv', 'mod') and y.is_const():
                    q, r = idx_divmod(x, y.c)
                    return nidx(q if nm == 'floordiv' else r)
            else:
                x, y = Poly.of(a), Poly.of(b)
                if nm == 'add':
                    return (x + y).norm()
                if nm == 'sub':
                    return (x - y).norm()
                if nm == 'mul':
                    return (x * y).norm()
                if nm == 'pow' and isinstance(b, int) and b >= 0:
                    return pprod([x] * b).norm()
                if nm == 'floordiv':
                    q = pdiv(x, y)
                    if q is not None and is_int_poly(q):
                        return q.norm()
                    if isinstance(b, int) and x.m:
                        # constant remainder
                        k = x.const()
                        qq = pdiv(x - k, y)
                        if qq is not None and is_int_poly(qq):
                            return (qq + (k // b)).norm()
                    return Poly.atom('floor(%r/%r)' % (x, y), 0)
                if nm == 'mod':
                    q = pdiv(x, y)
                    if q is not None and is_int_poly(q):
                        return 0
                    return (x - Poly.atom('floor(%r/%r)' % (x, y), 0) * y).norm()
        x, y = Expr.const(a), Expr.const(b)
        if nm == 'add':
            return nexpr(x + y)
        if nm == 'sub':
            return nexpr(x - y)
        if nm == 'mul':
            return nexpr(x * y)
        if nm == 'truediv':
            if not y.terms:
                self.raise_('ZeroDivisionError', 'division by zero')
            return nexpr(x * epow(y, -1))
        if nm == 'pow':
            return nexpr(expr_pow(x, y))
        if nm in ('floordiv', 'mod'):
            return Expr.atom(('F', nm, (x, y)))
        raise Undecided('numeric %s' % nm)

    def unop(self, op, v):
        if op == 'Not':
            if isinstance(v, UBool):
                return v.inv()
            return not self.truth(v)
        if isinstance(v, Obj):
            m, _ = v.cls.lookup({'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op])
            if m is None:
                self.raise_('TypeError', 'bad operand type for unary %s: %s' % (op, v.cls.name))
            return self.call(Bound(v, m), [], {})
        if op == 'USub':
            if isinstance(v, bool):
                return -int(v)
            if isinstance(v, (int, float, complex, Fraction)):
                return -v
            if isinstance(v, (Poly,)):
                return (-v).norm()
            if isinstance(v, (Expr, Idx)):
                return -v
            if isinstance(v, Arr):
                return scalarise(mul(v, -1))
        if op == 'UAdd' and isinstance(v, NUM + (Arr,)):
            return v
        if op == 'Invert':
            if isinstance(v, Arr) and v.dtype == 'b':
                return ew(lambda x: Expr.const(1) - x, v, dtype='b')
            if isinstance(v, bool):
                return ~v
            if isinstance(v, int):
                return ~v
            if isinstance(v, Arr) and v.dtype == 'i':
                return scalarise(add(mul(v, -1), -1))
        if isinstance(v, Opaque):
            return Opaque('%s(%s)' % (op, v.key))
        if v is None or isinstance(v, (str, list, tuple)):
            self.raise_('TypeError', 'bad operand type for unary ' + op)
        raise Undecided('unary %s on %r' % (op, v))

    # ------------------------------------------------------------ strings
    def repr(self, v):
        if isinstance(v, Obj):
            m, _ = v.cls.lookup('__repr__')
            if m is not None:
                return self.call(Bound(v, m), [], {})
            return SymStr(('<%s object #%d>' % (v.cls.name, v.id),))
        if isinstance(v, Cls):
            if isinstance(v.meta, Cls):
                m, _ = v.meta.lookup('__repr__')
                if m is not None:
                    return self.call(m, [v], {})
            return "<class '%s'>" % v.name
        if isinstance(v, str):
            return repr(v)
        if isinstance(v, SymStr):
            return mkstr(["'", v, "'"])
        if isinstance(v, (bool, int, float, complex)) or v is None:
            return repr(v)
        if isinstance(v, Fraction):
            return repr(float(v))
        if isinstance(v, Poly):
            return SymStr((v,))
        if isinstance(v, (Idx, Expr)):
            return SymStr((core._ser_any(v, {}),))
        if isinstance(v, slice):
            return mkstr(['slice(', self.repr(v.start), ', ', self.repr(v.stop), ', ',
                          self.repr(v.step), ')'])
        if isinstance(v, tuple):
            parts = ['(']
            for i, x in enumerate(v):
                if i:
                    parts.append(', ')
                parts.append(self.repr(x))
            parts.append(',)' if len(v) == 1 else ')')
            return mkstr(parts)
        if isinstance(v, list):
            parts = ['[']
            for i, x in enumerate(v):
                if i:
                    parts.append(', ')
                parts.append(self.repr(x) if not isinstance(x, Repeat) else
                             SymStr((Opaque('repeat'),)))
            parts.append(']')
            return mkstr(parts)
        if isinstance(v, ADict):
            parts = ['{']
            for i, (k, x) in enumerate(v.items):
                if i:
                    parts.append(', ')
                parts += [self.repr(k), ': ', self.repr(x)]
            parts.append('}')
            return mkstr(parts)
        if isinstance(v, Arr):
            try:
                k, _ = content_key(v, 60)
            except Undecided:
                k = 'arr%d' % id(v)
            return SymStr((Opaque('array ' + short(k)),))
        if isinstance(v, UBool):
            return SymStr((Opaque(str(v)),))
        if isinstance(v, (Opaque, Func, Native, Bound, Module, ExtMod, MultiFn)):
            return SymStr((Opaque('%s' % self.key_or_id(v)),))
        return SymStr((Opaque(repr(v)),))

    def key_or_id(self, v):
        if isinstance(v, Opaque):
            return v.key
        return '%s@%d' % (getattr(v, 'name', type(v).__name__), id(v))

    def str(self, v):
        if isinstance(v, (str, SymStr)):
            return v
        if isinstance(v, Obj):
            m, c = v.cls.lookup('__str__')
            if m is not None:
                return self.call(Bound(v, m), [], {})
            if v.cls.sub(self.builtins['BaseException']):
                return mkstr([self.str(x) for x in v.attrs.get('args', ())])
            return self.repr(v)
        if isinstance(v, Cls):
            if isinstance(v.meta, Cls):
                m, _ = v.meta.lookup('__str__')
                if m is not None:
                    return self.call(m, [v], {})
            return self.repr(v)
        return self.repr(v)

    def safe_repr(self, v):
        try:
            return str_of(self.repr(v))
        except (AbsRaise, Undecided):
            return '<%s>' % self.type_name(v)

    # ------------------------------------------------------------ types
    def isinst(self, v, t):
        if isinstance(t, tuple):
            return any(self.isinst(v, x) for x in t)
        obj = self.builtins['object']
        if t is obj:
            return True
        if isinstance(t, Cls):
            if isinstance(v, Obj):
                return v.cls.sub(t)
            n = t.native
            if n is None:
                if isinstance(v, Cls):
                    return t.name == 'type'
                return False
            return native_isinstance(self, v, n)
        if isinstance(t, Opaque):
            if isinstance(v, Opaque):
                return self.truth(UBool('isinstance(%s,%s)' % (v.key, t.key)))
            return False
        if isinstance(t, Native):
            if t.name in ('callable',):
                return True
            return False
        raise Undecided('isinstance with %r' % (t,))

    # ------------------------------------------------------------ builtins
    def _setup_builtins(self):
        from . import builtins_
        builtins_.install(self)


class AnalysisBroken(Exception):
    """the analysis itself could not run (exit code 2)"""


class _ClassEnv(Env):
    def __init__(self, e):
        self.vars, self.parent, self.module = e.vars, e.parent, e.module
        self.nonlocals, self.globals_ = (), ()


class _RepeatVar:
    pass


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class MultiFn:
    def __init__(self, name):
        self.name = name
        self.methods = []
        self.attrs = {}


class SymRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def length(self):
        if self.step != 1:
            raise Undecided('range step')
        return (Poly.of(self.stop) - Poly.of(self.start)).norm()

    def arr(self):
        return arange(self.start, self.stop, self.step, 'np')

    def item(self, k):
        return (Poly.of(self.start) + Poly.of(k)).norm()


class KeysView:
    def __init__(self, d):
        self.d = d

    def toset(self, it):
        s = ASet()
        s.d.items = [[k, None] for k, _ in self.d.items]
        return s


class DType:
    def __init__(self, kind, name):
        self.kind, self.name = kind, name

    def __repr__(self):
        return self.name


def dtype_eq(a, b):
    if isinstance(a, DType) and isinstance(b, DType):
        return a.name == b.name
    return False


class _Missing:
    pass


_MISSING = _Missing()
NATIVE_CLS = {}

OPN = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv',
       'Mod': 'mod', 'Pow': 'pow', 'MatMult': 'matmul', 'LShift': 'lshift', 'RShift': 'rshift',
       'BitOr': 'or', 'BitAnd': 'and', 'BitXor': 'xor'}

import operator as _op
PYOPS = {'add': _op.add, 'sub': _op.sub, 'mul': _op.mul, 'truediv': _op.truediv,
         'floordiv': _op.floordiv, 'mod': _op.mod, 'pow': _op.pow, 'lshift': _op.lshift,
         'rshift': _op.rshift, 'or': _op.or_, 'and': _op.and_, 'xor': _op.xor,
         'matmul': _op.matmul}


def mkfloat(fr):
    """Fraction result of float arithmetic kept exact"""
    return fr if fr.denominator != 1 or True else float(fr)


def _und():
    raise Undecided('symbolic slice of a list')


def nidx(i):
    return i.c.norm() if i.is_const() else i


def nexpr(e):
    c = e.as_const()
    if c is not None:
        return c
    return e


def expr_pow(x, y):
    n = y.as_const()
    if n is not None and n.denominator == 1:
        return epow(x, int(n))
    if n is not None and n == Fraction(1, 2):
        return efn('sqrt', x)
    if n is not None and n == Fraction(-1, 2):
        return epow(efn('sqrt', x), -1)
    return Expr.atom(('F', 'pow', (x, y)))


def bool_of_expr(e):
    """UBool for a 0/1 valued expression"""
    if len(e.terms) == 2:
        # 1 - [..]
        t = [t for t in e.terms if t.atoms]
        c = [t for t in e.terms if not t.atoms]
        if len(t) == 1 and len(c) == 1 and c[0].coef == 1 and t[0].coef == -1:
            b = bool_of_expr(Expr([Term(Fraction(1), t[0].atoms, t[0].bound)]))
            return b.inv()
    if len(e.terms) == 1 and len(e.terms[0].atoms) == 1 and e.terms[0].coef == 1 and \
            not e.terms[0].bound:
        a = e.terms[0].atoms[0][0]
        if a[0] == 'F' and a[1] == 'bool':
            return UBool(a[2][0], a[2][1])
        if a[0] == 'F' and a[1] == 'lt':
            return UBool('lt' + core._ser_any(a[2], {}))
    return UBool('nz(%s)' % core._ser_any(e, {}))


def scalarise(a):
    return a


def maybe_materialize(a, force=False):
    """tabulate constant-size arrays with constant content (keeps closures flat)"""
    if not isinstance(a, Arr):
        return a
    n = a.size()
    if not n.is_const() or n.const() > 4000 or n.const() == 0:
        return a
    dims = [int(s.const()) for s in a.shape]
    tab = {}
    try:
        for combo in itertools.product(*[range(d) for d in dims]):
            v = a.at([Idx.of(c) for c in combo])
            if free_vars(v if isinstance(v, (Idx, Expr)) else to_expr(v)):
                return a
            tab[combo] = v
    except Refine:
        return a

    set_tab(a, tab)
    a.view = None
    return a


def set_tab(a, tab):
    dims = [int(s.const()) for s in a.shape]

    def fn(ix):
        return tab[tuple(const_index(i, d) for i, d in zip(ix, dims))]
    a.fn = fn
    a.tab = tab
    if a.cache is not None:
        a.cache = {}
    a.inverse = None


def snap_arg(x):
    if isinstance(x, Arr):
        return x.snap()
    if isinstance(x, (list, tuple)) and any(isinstance(y, Arr) and y.lib != 'jnp' for y in x):
        return type(x)([y.snap() if isinstance(y, Arr) else y for y in x])
    return x


def tabulate(a):
    """tabulate small constant numpy results"""
    if isinstance(a, Arr) and a.view is None and a.lib == 'np' and getattr(a, 'tab', None) is None:
        n = a.size()
        if n.is_const() and n.const() <= 700 and a.ndim:
            return maybe_materialize(a)
    return a


VIEW_FUNCS = {'reshape', 'transpose', 'swapaxes', 'moveaxis', 'ravel', 'squeeze', 'expand_dims',
              'asarray', 'append', 'extend', 'insert', 'isinstance', 'len', 'device_put', 'list',
              'zip', 'enumerate', 'reversed', 'map', 'filter', 'issubclass', 'hasattr', 'getattr', 'setattr', 'iter', 'next', 'id', 'tuple',
              'setdefault', 'get', 'pop', 'update', 'dict', 'sorted', 'partial', 'reduce', 'product', 'chain', 'zip_longest', 'items',
              'values', 'tree_flatten', 'tree_map', 'tree_leaves', 'tree_unflatten', 'asanyarray'}


def arr_binop(it, nm, a, b):
    if nm == 'add':
        return add(a, b)
    if nm == 'sub':
        return add(a, b, -1)
    if nm == 'mul':
        return mul(a, b)
    if nm == 'matmul':
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            raise ShapeError('matmul: scalar operand')
        return matmul(a, b)
    if nm == 'truediv':
        dt = dt_join(*[x.dtype if isinstance(x, Arr) else scalar_dt(x) for x in (a, b)])
        return ew(lambda x, y: x * epow(y, -1), a, b, dtype=dt_join(dt, 'f'))
    if nm == 'pow':
        def f(x, y):
            return expr_pow(x, y)
        return ew(f, a, b)
    if nm in ('and', 'or', 'xor'):
        if nm == 'and':
            return ew(lambda x, y: x * y, a, b)
        if nm == 'or':
            return ew(lambda x, y: x + y - x * y, a, b)
        return ew(lambda x, y: x + y - x * y * Expr.const(2), a, b)
    if nm in ('floordiv', 'mod'):
        def g(x, y):
            if isinstance(x, (Idx, int, Poly)) and isinstance(y, (Idx, int, Poly)):
                y = Idx.of(y)
                if y.is_const():
                    q, r = idx_divmod(Idx.of(x), y.c)
                    return q if nm == 'floordiv' else r
            return Expr.atom(('F', nm, (to_expr(x), to_expr(y))))
        return ew(g, a, b, raw=True)
    raise Undecided('array operator %s' % nm)


def num_cmp(nm, a, b):
    plain = (int, float, Fraction)
    if isinstance(a, plain) and isinstance(b, plain):
        return {'eq': a == b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b, 'ne': a != b}[nm]
    if isinstance(a, complex) or isinstance(b, complex):
        if isinstance(a, (complex,) + plain) and isinstance(b, (complex,) + plain):
            return a == b
    if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
        d = Poly.of(a) - Poly.of(b)
        return sign_cmp(nm, d)
    if isinstance(a, (int, Poly, Idx)) and isinstance(b, (int, Poly, Idx)):
        d = Idx.of(a) - Idx.of(b)
        if nm == 'eq':
            r = idx_eq(d, 0)
            if r is None:
                return UBool('eq0(%r)' % d)
            return r
        if nm == 'lt':
            return idx_lt(d, 0)
        if nm == 'ge':
            return not idx_lt(d, 0)
        if nm == 'gt':
            return idx_lt(-d, 0)
        if nm == 'le':
            return not idx_lt(-d, 0)
    x, y = Expr.const(a), Expr.const(b)
    d = x - y
    c = d.as_const()
    if c is not None:
        return {'eq': c == 0, 'lt': c < 0, 'gt': c > 0, 'le': c <= 0, 'ge': c >= 0}[nm]
    p = d.as_poly()
    if p is not None:
        return sign_cmp(nm, p)
    return bool_of_expr(cmp_expr(nm, x, y))


def sign_cmp(nm, d):
    """compare polynomial d with 0; unknown signs become trace decisions"""
    if not d.m:
        return nm in ('eq', 'le', 'ge')
    if d.positive():
        return nm in ('gt', 'ge')
    if (-d).positive():
        return nm in ('lt', 'le')
    key = repr(d) if repr(d) < repr(-d) else repr(-d)
    flip = key != repr(d)
    # generic sizes: d != 0 is assumed (equal sizes are covered by scenarios
    # that use the same dimension atom)
    if nm == 'eq':
        if d.nonneg() or (-d).nonneg():
            return UBool('zero:' + key)
        return UBool('zero:' + key)
    pos = UBool('pos:' + key, flip)
    POS_KEYS['pos:' + key] = -d if flip else d
    if d.nonneg():
        if nm == 'ge':
            return True
        if nm == 'lt':
            return False
        z = UBool('zero:' + key)
        return z.inv() if nm == 'gt' else z
    if (-d).nonneg():
        if nm == 'le':
            return True
        if nm == 'gt':
            return False
        z = UBool('zero:' + key)
        return z.inv() if nm == 'lt' else z
    if nm in ('gt', 'ge'):
        return pos
    return pos.inv()


def closed_terms(e):
    """only literal constants (pi, e, i) and elementary functions of them"""
    for t in e.terms:
        if t.bound:
            return False
        for a, _ in t.atoms:
            if a[0] == 'S':
                if a[1] not in ('pi', 'e', 'i'):
                    return False
            elif a[0] == 'F':
                if a[1] not in ('sin', 'cos', 'tan', 'sqrt', 'exp', 'abs', 'log', 'tanh') or not all(isinstance(x, Expr) and closed_terms(x) for x in a[2]):
                    return False
            else:
                return False
    return True


def cmp_expr(nm, x, y):
    d = x - y
    c = d.as_const()
    if c is not None:
        return Expr.const(int({'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'gt': c > 0,
                               'le': c <= 0, 'ge': c >= 0}[nm]))
    p = d.as_poly()
    if p is None and closed_terms(d):
        from . import numeval
        try:
            v = numeval.Valuation({}).expr(d, {})
            if not isinstance(v, complex) or abs(v.imag) < 1e-12:
                v = v.real
                if abs(v) > 1e-9:
                    return Expr.const(int({'eq': False, 'ne': True, 'lt': v < 0, 'gt': v > 0, 'le': v < 0, 'ge': v > 0}[nm]))
            elif nm in ('eq', 'ne'):
                return Expr.const(int(nm == 'ne'))
        except numeval.NoValue:
            pass
    if p is not None and p.positive():
        return Expr.const(int(nm in ('ne', 'gt', 'ge')))
    if p is not None and (-p).positive():
        return Expr.const(int(nm in ('ne', 'lt', 'le')))
    if nm == 'ne':
        return Expr.const(1) - cmp_expr('eq', x, y)
    if nm == 'eq':
        k = d.key()
        s = k[0][1]
        dd = d if s > 0 else -d
        return Expr.atom(('F', 'eq', (dd, Expr([]))))
    if nm == 'ge':
        return Expr.const(1) - cmp_expr('lt', x, y)
    if nm == 'le':
        return Expr.const(1) - cmp_expr('lt', y, x)
    if nm == 'gt':
        x, y = y, x
    return Expr.atom(('F', 'lt', (x, y)))


def cmp_arr(nm, a, b):
    def f(x, y):
        if isinstance(x, (int, Poly)) and not isinstance(x, bool):
            x = Idx.of(x)
        if isinstance(y, (int, Poly)) and not isinstance(y, bool):
            y = Idx.of(y)
        if isinstance(x, Idx) and isinstance(y, Idx):
            d = x - y
            if nm in ('eq', 'ne'):
                e = delta(d, 0)
                return e if nm == 'eq' else Expr.const(1) - e
            try:
                r = {'lt': lambda: idx_lt(d, 0), 'ge': lambda: not idx_lt(d, 0),
                     'gt': lambda: idx_lt(-d, 0), 'le': lambda: not idx_lt(-d, 0)}[nm]()
                return Expr.const(int(r))
            except Undecided:
                if nm == 'lt':
                    return Expr.atom(('B', '<', d))
                if nm == 'gt':
                    return Expr.atom(('B', '<', -d))
                if nm == 'ge':
                    return Expr.const(1) - Expr.atom(('B', '<', d))
                return Expr.const(1) - Expr.atom(('B', '<', -d))
        if isinstance(x, Idx) or isinstance(y, Idx):
            # int array against a non-index expression
            pass
        return cmp_expr(nm, to_expr(x), to_expr(y))
    try:
        r = ew(f, a, b, dtype='b', raw=True)
        if nm == 'eq' and isinstance(a, Arr) and isinstance(b, Arr) and a.dtype == b.dtype == 'i' \
                and a.ndim == b.ndim == 1:
            r.cmp = (a, b)
        return r
    except ShapeError:
        if nm == 'eq':
            return False
        raise


def str_method(it, name, a, k):
    def plain(x):
        if isinstance(x, (list, tuple)):
            return all(plain(y) for y in x)
        return x is None or isinstance(x, (str, int))
    a = [{kk: vv for kk, vv in x.items} if isinstance(x, ADict) else x for x in a]
    if all(plain(x) or isinstance(x, dict) for x in a):
        r = getattr(str, name)(*a)
        return ADict([[x, y] for x, y in r.items()]) if isinstance(r, dict) else r
    if a and isinstance(a[0], SymStr):
        return it.call(it.getattr(a[0], name), list(a[1:]), k)
    raise Undecided('str.%s of unknown text' % name)


NDARRAY_ATTRS = set("""
T __abs__ __abstractmethods__ __add__ __and__ __annotations__ __array__ __array_finalize__
__array_function__ __array_interface__ __array_module__ __array_prepare__ __array_priority__
__array_struct__ __array_ufunc__ __array_wrap__ __bool__ __buffer__ __ceil__ __class_getitem__
__complex__ __contains__ __copy__ __cuda_array_interface__ __deepcopy__ __delitem__ __div__
__divmod__ __dlpack__ __dlpack_device__ __float__ __floor__ __floordiv__ __getformat__ __getitem__
__getnewargs__ __hex__ __iadd__ __iand__ __ifloordiv__ __ilshift__ __imatmul__ __imod__ __imul__
__index__ __int__ __invert__ __ior__ __ipow__ __irshift__ __isub__ __iter__ __itruediv__ __ixor__
__len__ __lshift__ __matmul__ __mod__ __mul__ __neg__ __oct__ __pos__ __pow__ __radd__ __rand__
__rdiv__ __rdivmod__ __release_buffer__ __rfloordiv__ __rlshift__ __rmatmul__ __rmod__ __rmul__
__round__ __rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setitem__ __setstate__
__sub__ __truediv__ __trunc__ __xor__ addressable_data addressable_shards all any argmax argmin
argpartition argsort as_integer_ratio astype at aval base block_until_ready byteswap choose clip
clone compress conj conjugate copy copy_to_host_async ctypes cumprod cumsum data delete device
device_buffer device_buffers devices diagonal dot dtype dump dumps fill flags flat flatten fromhex
getfield global_shards hex imag is_deleted is_fully_addressable is_fully_replicated is_integer
is_ready item itemset itemsize mT max mean min nbytes ndim newbyteorder nonzero
on_device_size_in_bytes partition platform prod ptp put ravel real repeat reshape resize round
searchsorted setfield setflags shape sharding size sort squeeze std strides sum swapaxes take
tobytes tofile tolist tostring trace traceback transpose unsafe_buffer_pointer var view weak_type
""".split())


def real_attr(o, name):
    """does the real library object have this attribute although the models lack it?"""
    import builtins
    import types
    import collections
    if isinstance(o, Obj):
        return any(hasattr(getattr(builtins, c.name, None), name) for c in o.cls.mro
                   if c.node is None and c.name != 'object' and c.name in dir(builtins))
    if isinstance(o, Cls):
        return any(c.node is None and (c.name not in dir(builtins) or
                                       hasattr(getattr(builtins, c.name), name)) for c in o.mro if c.name != 'object') \
            or hasattr(type, name)
    if isinstance(o, Func):
        return hasattr(types.FunctionType, name)
    if isinstance(o, (Native, MultiFn, Bound)):
        return True
    if isinstance(o, (str, SymStr)):
        return hasattr(str, name)
    if isinstance(o, bool) or o is None:
        return hasattr(type(o), name)
    if isinstance(o, (Arr, Poly, Idx, Expr, Fraction, int, float, complex, UBool)):
        return name in NDARRAY_ATTRS or hasattr(int, name) or hasattr(float, name)
    if isinstance(o, (list, tuple, slice, range)):
        return hasattr(type(o), name)
    if isinstance(o, ADict):
        return hasattr(dict, name) or hasattr(collections.Counter, name) or hasattr(collections.OrderedDict, name)
    if isinstance(o, Super):
        return False
    if isinstance(o, (Module,)):
        return False
    return True


def str_eq(a, b):
    ka = a.key() if isinstance(a, SymStr) else (a,)
    kb = b.key() if isinstance(b, SymStr) else (b,)
    return ka == kb


def is_generator(node):
    r = getattr(node, '_sa_gen', None)
    if r is None:
        r = node._sa_gen = _is_generator(node)
    return r


def _is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            # ignore nested functions
            return bool(_owns_yield(node))
    return False


def _owns_yield(node):
    def rec(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if rec(c):
                return True
        return False
    return rec(node)


def native_isinstance(it, v, n):
    if n == 'int':
        return isinstance(v, (int, Poly)) or (isinstance(v, Idx) and False)
    if n == 'bool':
        return isinstance(v, (bool, UBool))
    if n == 'float':
        return isinstance(v, (float, Fraction, Expr))
    if n == 'complex':
        return isinstance(v, complex)
    if n == 'str':
        return isinstance(v, (str, SymStr))
    if n == 'list':
        return isinstance(v, list)
    if n == 'tuple':
        return isinstance(v, tuple)
    if n == 'dict':
        return isinstance(v, ADict)
    if n == 'set':
        return isinstance(v, ASet)
    if n == 'slice':
        return isinstance(v, slice)
    if n == 'type':
        return isinstance(v, Cls)
    if n == 'np.ndarray':
        return isinstance(v, Arr) and v.lib == 'np'
    if n == 'jnp.ndarray':
        return isinstance(v, Arr) and v.lib == 'jnp'
    if n == 'torch.Tensor':
        return isinstance(v, Arr) and v.lib == 'torch'
    if n == 'opaque':
        return False
    if n == 'np.integer':
        return isinstance(v, Arr) and v.ndim == 0 and v.dtype == 'i' or isinstance(v, Idx)
    return False


Interp.e_GeneratorExp = Interp.e_ListComp
