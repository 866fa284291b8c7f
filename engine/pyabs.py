"""Abstract interpreter for the Python layer (pyginv, and the Cython binding after translation): reads the syntax trees,
never imports the modules.  Whole numbers may be linear terms under a conjunction of linear facts, coefficients are
quotients of polynomials over named unknowns; a comparison the facts do not settle splits the path."""
import ast
import builtins
import math
from fractions import Fraction
from lin import *

OBJECT = set(dir(object)) | {'__dict__', '__slots__', '__annotations__'}


class Unsup(Exception):
    pass


class PathEnd(Exception):
    pass


class PyExc(Exception):
    def __init__(self, name, node=None, mod=None, text=''):
        self.name, self.node, self.mod, self.text = name, node, mod, text


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Rat:
    """coefficient: quotient of two polynomials"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=ONE if 'ONE' in globals() else Lin.const(1)):
        if not n.t:
            d = Lin.const(1)
        elif d.is_const():
            n, d = n * Fraction(1, 1) * (1 / Fraction(d.cval())), Lin.const(1)
        else:
            ms = list(n.t) + list(d.t)
            com = None
            for m in ms:
                c = {}
                for a in m:
                    c[a] = c.get(a, 0) + 1
                com = c if com is None else {a: min(k, c.get(a, 0)) for a, k in com.items() if c.get(a, 0)}
            if com:
                def cut(l):
                    out = {}
                    for m, k in l.t.items():
                        m = list(m)
                        for a, j in com.items():
                            for _ in range(j):
                                m.remove(a)
                        out[tuple(m)] = k
                    return Lin(out)
                n, d = cut(n), cut(d)
                if d.is_const():
                    n, d = n * (1 / Fraction(d.cval())), Lin.const(1)
        self.n, self.d = n, d

    def __repr__(self):
        return '%s' % self.n if self.d.is_const() else '(%s)/(%s)' % (self.n, self.d)

    def key(self):
        return (self.n, self.d)


class Sym:
    """a sympy symbol (independent variable) or function"""
    def __init__(self, name, kind='var'):
        self.name, self.kind = name, kind

    def __repr__(self):
        return self.name


class SExpr:
    """a sympy expression over functions: head and arguments"""
    def __init__(self, func, args):
        self.func, self.args = func, args

    def __repr__(self):
        return '%s%r' % (self.func, self.args)


class Native:
    def __init__(self, f, name=''):
        self.f, self.name = f, name


class Cls:
    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.ns, self.mod = name, bases, ns, mod
        self.mro = [self]
        for b in bases:
            for c in (b.mro if isinstance(b, Cls) else [b]):
                if c not in self.mro:
                    self.mro.append(c)

    def kind(self):
        for c in self.mro:
            if c in (list, tuple, dict):
                return c
        return None

    def find(self, n):
        for c in self.mro:
            if isinstance(c, Cls) and n in c.ns:
                return c.ns[n], c
        return None

    def __repr__(self):
        return '<class %s>' % self.name


class Inst:
    __slots__ = ('cls', 'at', 'data')

    def __init__(self, cls, data=None):
        self.cls, self.at, self.data = cls, {}, data

    def __repr__(self):
        return '%s(%s)' % (self.cls.name, self.data if self.data is not None else '')


class Func:
    def __init__(self, node, env, mod, cls=None, defaults=(), kwd=None):
        self.node, self.env, self.mod, self.cls, self.defaults, self.kwd = node, env, mod, cls, defaults, kwd or {}
        self.name = getattr(node, 'name', '<lambda>')
        g = getattr(node, 'is_gen', None)
        if g is None:
            body = node.body if isinstance(node.body, list) else [node.body]
            g = node.is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in body for x in own_walk(b))
        self.gen = g


def own_walk(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        return
    for c in ast.iter_child_nodes(n):
        yield from own_walk(c)


class Static:
    def __init__(self, f):
        self.f = f


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Super:
    def __init__(self, cls, obj, after):
        self.cls, self.obj, self.after = cls, obj, after


class Dict:
    """dictionary with abstract keys: equality and hash decide"""
    def __init__(self):
        self.items = []


class Env:
    def __init__(self, parent=None, glob=None):
        self.v, self.parent, self.glob = {}, parent, glob if glob is not None else self
        self.nonloc, self.globs = set(), set()
        self.cls = None

    def get(self, n):
        e = self
        while e is not None:
            if n in e.v:
                return e.v[n]
            e = e.parent
        raise KeyError(n)

    def set(self, n, x):
        if n in self.globs:
            self.glob.v[n] = x
            return
        if n in self.nonloc:
            e = self.parent
            while e is not None and n not in e.v:
                e = e.parent
            if e is not None:
                e.v[n] = x
                return
        self.v[n] = x


OPS = {ast.Add: ('add', '+'), ast.Sub: ('sub', '-'), ast.Mult: ('mul', '*'), ast.Div: ('truediv', '/'), ast.Pow: ('pow', '**'),
       ast.Mod: ('mod', '%'), ast.FloorDiv: ('floordiv', '//'), ast.BitOr: ('or', '|'), ast.BitAnd: ('and', '&')}
CMP = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne'}
SWAP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}


class Interp:
    """one path; choices are replayed from `script`"""

    def __init__(self, trees, script, steps=200000):
        self.trees, self.script, self.pos = trees, script, 0
        self.alts = []                    # number of alternatives at each decision
        self.facts = Facts()
        self.steps = steps
        self.mods = {}
        self.funcs = set()
        self.node = self.last = None
        self.modname = ''
        self.stack = []
        self.opts = {}
        self.trail = []
        self.models = {}

    # ---- decisions -------------------------------------------------------------------------------------------------
    def choose(self, options):
        """options: functions on a copy of the facts returning False when impossible"""
        ok = []
        for o in options:
            f = self.facts.copy()
            if o(f) is not False and f.consistent():
                ok.append(f)
            else:
                ok.append(None)
        live = [i for i, f in enumerate(ok) if f is not None]
        if not live:
            raise PathEnd()
        if len(live) == 1:
            self.facts = ok[live[0]]
            return live[0]
        if self.pos < len(self.script):
            k = self.script[self.pos]
        else:
            k = 0
            self.script.append(0)
        self.alts.append(len(live))
        self.pos += 1
        self.facts = ok[live[k]]
        return live[k]

    def pick(self, n, what=None):
        k = self.choose([lambda f: True] * n) if n > 1 else 0
        if what:
            self.trail.append('%s=%d' % (what, k))
        return k

    def ge(self, e):
        """e >= 0 ?"""
        if not isinstance(e, Lin):
            return e >= 0
        e = self.facts.norm(e)
        if e.is_const():
            return e.cval() >= 0
        if self.facts.entails_ge(e):
            return True
        if self.facts.entails_ge(-e - 1):
            return False
        return self.choose([lambda f: f.add_ge(e), lambda f: f.add_ge(-e - 1)]) == 0

    def is0(self, e):
        e = self.facts.norm(e)
        if e.is_const():
            return e.cval() == 0
        if self.facts.entails_ne(e):
            return False
        if self.facts.entails_eq(e):
            return True
        return self.choose([lambda f: f.add_eq(e), lambda f: f.add_ne(e)]) == 0

    def proved0(self, e):
        e = self.facts.norm(e)
        return e.is_const() and e.cval() == 0 or bool(self.facts.entails_eq(e))

    def concrete(self, x):
        if isinstance(x, Lin):
            x = self.facts.norm(x)
            if x.is_const():
                return int(x.cval())
            for k in range(0, 9):
                if self.is0(x - k):
                    return k
            raise Unsup('unbounded number used as a size or index')
        return x

    # ---- values ----------------------------------------------------------------------------------------------------
    def rat(self, x):
        if isinstance(x, Rat):
            return x
        if isinstance(x, Lin):
            return Rat(x)
        if isinstance(x, (int, Fraction)):
            return Rat(Lin.const(x))
        if isinstance(x, Sym) and x.kind == 'var':
            return Rat(Lin.atom(Atom('sym:' + x.name)))
        raise Unsup('coefficient %r' % (x,))

    def truth(self, x):
        if x is None or isinstance(x, (bool, int, str, float)):
            return bool(x)
        if isinstance(x, (list, tuple, dict, set, frozenset, range)):
            return len(x) > 0
        if isinstance(x, Fraction):
            return x != 0
        if isinstance(x, Dict):
            return len(x.items) > 0
        if isinstance(x, Lin):
            return not self.is0(x)
        if isinstance(x, Rat):
            return not self.is0(x.n)
        if isinstance(x, Inst):
            for n in ('__bool__', '__len__'):
                f = x.cls.find(n)
                if f:
                    return self.truth(self.call(Bound(f[0], x), []))
            if x.data is not None:
                return len(x.data) > 0
            return True
        if isinstance(x, (Func, Bound, Native, Cls, Sym, SExpr)):
            return True
        raise Unsup('truth of %r' % (x,))

    def iterate(self, x):
        if isinstance(x, (list, tuple)):
            return x
        if isinstance(x, str):
            return list(x)
        if isinstance(x, dict):
            return list(x)
        if isinstance(x, range):
            return list(x)
        if isinstance(x, Dict):
            return [k for k, v in x.items]
        if isinstance(x, Super):
            return list(x.obj.data)
        if isinstance(x, Inst):
            f = x.cls.find('__iter__')
            if f:
                return self.iterate(self.call(Bound(f[0], x), []))
            if x.data is not None:
                return x.data
        raise Unsup('iteration over %r' % (x,))

    def loop(self, x):
        """iteration that sees a list grow or shrink, as Python does"""
        it = self.iterate(x)
        if isinstance(it, list):
            i = 0
            while i < len(it):
                yield it[i]
                i += 1
        else:
            yield from it

    def eq(self, a, b):
        if a is b and not isinstance(a, (Lin, Rat)):
            if not (isinstance(a, Inst) and a.cls.find('__eq__')):
                return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst):
                f = x.cls.find('__eq__')
                if f:
                    return self.truth(self.call(Bound(f[0], x), [y]))
        if isinstance(a, Inst) or isinstance(b, Inst):
            if isinstance(a, Inst) and isinstance(b, (Inst, list, tuple)) and a.data is not None:
                d = b.data if isinstance(b, Inst) else b
                return d is not None and type(a.data) is type(d) and self.eqseq(a.data, d)
            if isinstance(b, Inst) and isinstance(a, (list, tuple)) and b.data is not None:
                return type(a) is type(b.data) and self.eqseq(a, b.data)
            return False
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return type(a) is type(b) and self.eqseq(a, b)
        num = (int, Lin, Rat, Fraction)
        if isinstance(a, Sym) and isinstance(b, Sym):
            return a.name == b.name and a.kind == b.kind
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, Rat) or isinstance(b, Rat):
                a, b = self.rat(a), self.rat(b)
                return self.is0(a.n * b.d - b.n * a.d)
            d = lin(a) - lin(b) if isinstance(a, Lin) or isinstance(b, Lin) else a - b
            return self.is0(d) if isinstance(d, Lin) else d == 0
        try:
            return a == b
        except Exception:
            raise Unsup('comparison of %r and %r' % (a, b))

    def eqseq(self, a, b):
        if len(a) != len(b):
            return False
        return all(self.eq(x, y) for x, y in zip(a, b))

    def compare(self, op, a, b):
        if op in ('eq', 'ne'):
            if op == 'ne':
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Inst):
                        f = x.cls.find('__ne__')
                        if f:
                            return self.truth(self.call(Bound(f[0], x), [y]))
                return not self.eq(a, b)
            return self.eq(a, b)
        for x, y, o in ((a, b, op), (b, a, SWAP[op])):
            if isinstance(x, Inst):
                f = x.cls.find('__%s__' % o)
                if f:
                    return self.truth(self.call(Bound(f[0], x), [y]))
        if isinstance(a, Inst):
            a = a.data
        if isinstance(b, Inst):
            b = b.data
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            for x, y in zip(a, b):
                if not self.eq(x, y):
                    return self.compare(op, x, y)
            return {'lt': len(a) < len(b), 'le': len(a) <= len(b), 'gt': len(a) > len(b), 'ge': len(a) >= len(b)}[op]
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            d = lin(a) - lin(b)
            return {'ge': lambda: self.ge(d), 'gt': lambda: self.ge(d - 1), 'le': lambda: self.ge(-d), 'lt': lambda: self.ge(-d - 1)}[op]()
        if isinstance(a, (int, float, Fraction, str)) and isinstance(b, (int, float, Fraction, str)):
            return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]
        if isinstance(a, Rat) or isinstance(b, Rat):
            a, b = self.rat(a), self.rat(b)
            if a.d.is_const() and b.d.is_const() and not any(x.real for x in (a.n - b.n).atoms()):
                return self.compare(op, a.n, b.n)
        raise Unsup('order of %r and %r' % (a, b))

    def binop(self, op, a, b, inplace=False):
        nm, sy = OPS[op]
        if isinstance(a, Inst) and inplace:
            f = a.cls.find('__i%s__' % nm)
            if f:
                return self.call(Bound(f[0], a), [b])
        if isinstance(a, Inst):
            f = a.cls.find('__%s__' % nm)
            if f:
                r = self.call(Bound(f[0], a), [b])
                if r is not NotImplemented:
                    return r
        if isinstance(b, Inst):
            f = b.cls.find('__r%s__' % nm)
            if f:
                r = self.call(Bound(f[0], b), [a])
                if r is not NotImplemented:
                    return r
        if inplace and isinstance(a, list) and nm == 'add':
            a.extend(self.iterate(b))
            return a
        if isinstance(a, Inst) and a.data is not None:
            a = a.data
        if isinstance(b, Inst) and b.data is not None:
            b = b.data
        if isinstance(a, (list, tuple, str)) or isinstance(b, (list, tuple, str)):
            if nm == 'add' and type(a) is type(b):
                return a + b
            if nm == 'mul':
                if isinstance(a, (list, str, tuple)):
                    return a * self.concrete(b)
                return b * self.concrete(a)
            if nm == 'mod' and isinstance(a, str):
                args = b if isinstance(b, tuple) else (b,)
                return self.fmt_percent(a, args)
            raise self.exc('TypeError')
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return a & b if nm == 'and' else a | b if nm == 'or' else a - b
        if isinstance(a, Sym) and a.kind == 'fun' or isinstance(b, Sym) and b.kind == 'fun' or isinstance(a, SExpr) or isinstance(b, SExpr):
            raise Unsup('symbolic expression')
        if isinstance(a, Rat) or isinstance(b, Rat) or isinstance(a, Sym) or isinstance(b, Sym):
            if nm == 'pow':
                k = self.concrete(b)
                x = self.rat(a)
                if k < 0:
                    x, k = Rat(x.d, x.n), -k
                r = Rat(Lin.const(1))
                for _ in range(k):
                    r = Rat(r.n * x.n, r.d * x.d)
                return r
            x, y = self.rat(a), self.rat(b)
            if nm == 'add':
                return Rat(x.n + y.n, x.d) if x.d == y.d else Rat(x.n * y.d + y.n * x.d, x.d * y.d)
            if nm == 'sub':
                return Rat(x.n - y.n, x.d) if x.d == y.d else Rat(x.n * y.d - y.n * x.d, x.d * y.d)
            if nm == 'mul':
                return Rat(x.n * y.n, x.d * y.d)
            if nm == 'truediv':
                if self.is0(y.n):
                    raise self.exc('ZeroDivisionError')
                return Rat(x.n * y.d, x.d * y.n)
            raise Unsup('operation %s on coefficients' % nm)
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            if nm in ('add', 'sub', 'mul'):
                x, y = (lin(a), lin(b)) if isinstance(a, Lin) or isinstance(b, Lin) else (a, b)
                r = x + y if nm == 'add' else x - y if nm == 'sub' else x * y
                return int(r.cval()) if isinstance(r, Lin) and r.is_const() else r
            x, y = self.concrete(a), self.concrete(b)
            if nm == 'pow':
                return x ** y
            if nm == 'truediv':
                if y == 0:
                    raise self.exc('ZeroDivisionError')
                return Fraction(x, y)
            if nm == 'floordiv':
                return x // y
            if nm == 'mod':
                return x % y
            if nm == 'or':
                return x | y
            if nm == 'and':
                return x & y
        if isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)):
            return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'truediv': lambda: a / b, 'pow': lambda: a ** b}[nm]()
        raise Unsup('%r %s %r' % (a, sy, b))

    def fmt_percent(self, s, args):
        def one(x):
            x = self.text(x) if not isinstance(x, (int, float, Fraction)) else x
            return x
        try:
            return s % tuple(one(x) for x in args)
        except Exception as e:
            raise Unsup('format %r' % s)

    def neg(self, x):
        if isinstance(x, Inst):
            f = x.cls.find('__neg__')
            if f:
                return self.call(Bound(f[0], x), [])
        if isinstance(x, Rat):
            return Rat(-x.n, x.d)
        if isinstance(x, Sym):
            x = self.rat(x)
            return Rat(-x.n, x.d)
        if x is None or x is NotImplemented or isinstance(x, (str, list, tuple, dict, set)):
            raise self.exc('TypeError', 'bad operand of unary -')
        return -x

    def exc(self, name, text=''):
        return PyExc(name, self.node, self.modname, text)

    # ---- attributes ------------------------------------------------------------------------------------------------
    def mangle(self, n, cls):
        if cls is not None and n.startswith('__') and not n.endswith('__'):
            return '_%s%s' % (cls.name.lstrip('_'), n)
        return n

    def getattr(self, o, n):
        if isinstance(o, Inst):
            if n in o.at:
                return o.at[n]
            f = o.cls.find(n)
            if f:
                return self.bind(f[0], o)
            if n == '__class__':
                return o.cls
            if o.data is not None:
                return self.builtin_method(o.data, n)
            if n in OBJECT:
                raise Unsup('%s of an object' % n)
            raise self.exc('AttributeError', n)
        if isinstance(o, Cls):
            f = o.find(n)
            if f:
                return f[0].f if isinstance(f[0], Static) else f[0]
            if n == '__name__':
                return o.name
            if n.startswith('__') and n.endswith('__'):
                raise Unsup('%s of a class' % n)
            raise self.exc('AttributeError', n)
        if isinstance(o, Super):
            ms = o.cls.mro
            for c in ms[ms.index(o.after) + 1:]:
                if isinstance(c, Cls):
                    if n in c.ns:
                        f = c.ns[n]
                        return f.f if isinstance(f, Static) or n == '__new__' else Bound(f, o.obj)
                elif c in (list, tuple):
                    return self.super_builtin(c, o, n)
            if n == '__init__':
                return Native(lambda *a, **k: None)
            if n == '__new__':
                return Native(lambda cls, *a, **k: Inst(cls))
            raise self.exc('AttributeError', n)
        if isinstance(o, dict) and '__mod__' in o:
            if n in o:
                return o[n]
            raise Unsup('%s.%s' % (o['__mod__'], n))
        if isinstance(o, Env):
            try:
                return o.v[n]
            except KeyError:
                raise self.exc('AttributeError', n)
        if isinstance(o, (Rat, Sym, SExpr)):
            return self.sym_attr(o, n)
        if o in (list, tuple) and n == '__hash__':
            return Native(lambda x: ('hash', tuple(x.data if isinstance(x, Inst) else x)))
        if isinstance(o, (list, tuple, str, dict, Dict, set)):
            return self.builtin_method(o, n)
        if isinstance(o, (int, Lin)) and n == 'is_integer':
            return True
        raise Unsup('attribute %s of %r' % (n, o))

    def sym_attr(self, o, n):
        if n == 'is_integer':
            if isinstance(o, Rat) and o.n.is_const() and o.d.is_const():
                return o.n.cval().denominator == 1
            if isinstance(o, Rat):
                return self.opts.get('integer', True)
            return False
        if n == 'args':
            return o.args if isinstance(o, SExpr) else ()
        if n == 'func' and isinstance(o, SExpr):
            return o.func
        raise Unsup('attribute %s of an expression' % n)

    def bind(self, f, o):
        if isinstance(f, Static):
            return f.f
        if isinstance(f, (Func, Native)):
            return Bound(f, o)
        return f

    def super_builtin(self, c, o, n):
        def init(*a, **k):
            if c is list:
                o.obj.data[:] = list(self.iterate(a[0])) if a else []

        def new(cls, *a, **k):
            return Inst(cls, c(self.iterate(a[0])) if a and c is tuple else c())
        if n == '__init__':
            return Native(init)
        if n == '__new__':
            return Native(new)
        if n == '__iter__':
            return Native(lambda: list(o.obj.data))
        return self.builtin_method(o.obj.data, n)

    def builtin_method(self, d, n):
        I = self
        if isinstance(d, list):
            def index(x):
                for i, y in enumerate(d):
                    if I.eq(x, y):
                        return i
                raise I.exc('ValueError')

            def remove(x):
                del d[index(x)]

            def sort(key=None, reverse=False):
                d[:] = I.sort(d, key, reverse)
            m = dict(append=lambda x: d.append(x), extend=lambda x: d.extend(list(I.iterate(x))), insert=lambda i, x: d.insert(I.concrete(i), x),
                     pop=lambda *a: d.pop(*[I.concrete(x) for x in a]), index=index, remove=remove, sort=sort, clear=lambda: d.clear(), copy=lambda: list(d),
                     reverse=lambda: d.reverse(), __len__=lambda: len(d), __iter__=lambda: list(d), count=lambda x: sum(1 for y in d if I.eq(x, y)))
        elif isinstance(d, tuple):
            m = dict(index=lambda x: next(i for i, y in enumerate(d) if I.eq(x, y)), count=lambda x: sum(1 for y in d if I.eq(x, y)), __len__=lambda: len(d), __iter__=lambda: d)
        elif isinstance(d, str):
            def join(x):
                return d.join([I.text(y) if not isinstance(y, str) else y for y in I.iterate(x)])
            m = dict(join=join)
            for k in ('split', 'replace', 'strip', 'lower', 'upper', 'startswith', 'endswith', 'encode', 'decode', 'format'):
                m[k] = (lambda k: lambda *a: getattr(d, k)(*a) if k not in ('encode', 'decode') else d)(k)
            if n not in m and hasattr(d, n) and not n.startswith('__'):
                def plain(*a):
                    if not all(isinstance(x, (str, int)) for x in a):
                        raise Unsup('method ' + n)
                    return getattr(d, n)(*a)
                m[n] = plain
        elif isinstance(d, dict):
            m = dict(items=lambda: [(k, v) for k, v in d.items()], keys=lambda: list(d), values=lambda: list(d.values()), get=lambda k, x=None: d.get(k, x))
        elif isinstance(d, Dict):
            m = dict(items=lambda: [(k, v) for k, v in d.items], keys=lambda: [k for k, v in d.items], values=lambda: [v for k, v in d.items],
                     get=lambda k, x=None: (lambda e: d.items[e][1] if e is not None else x)(I.dfind(d, k)), clear=lambda: d.items.clear())

            def setdefault(k, x=None):
                e = I.dfind(d, k)
                if e is None:
                    d.items.append([k, x])
                    return x
                return d.items[e][1]

            def dpop(k, *x):
                e = I.dfind(d, k)
                if e is None:
                    if x:
                        return x[0]
                    raise I.exc('KeyError')
                return d.items.pop(e)[1]
            m.update(setdefault=setdefault, pop=dpop)
        elif isinstance(d, set):
            m = dict(add=lambda x: d.add(x), discard=lambda x: d.discard(x), clear=lambda: d.clear(), update=lambda *x: [d.add(z) for y in x for z in list(I.iterate(y))] and None)
        else:
            m = {}
        if n in m:
            return Native(m[n], n)
        if hasattr(dict if isinstance(d, Dict) else type(d), n):
            raise Unsup('method %s' % n)
        raise self.exc('AttributeError', n)

    def hashkey(self, k):
        """what a dictionary compares before equality"""
        if isinstance(k, Inst):
            f = k.cls.find('__hash__')
            if f:
                return self.call(Bound(f[0], k), [])
            if isinstance(k.data, list):
                raise self.exc('TypeError', 'unhashable')
            if k.data is not None:
                return ('hash', tuple(k.data))
            return ('id', id(k))
        if isinstance(k, tuple):
            return ('hash', k)
        return ('hash', (k,))

    def dfind(self, d, k):
        h = self.hashkey(k)
        for i, (j, v) in enumerate(d.items):
            if j is k:
                return i
            g = self.hashkey(j)
            if self.eq(g, h) and self.eq(j, k):
                return i
        return None

    def sort(self, x, key=None, reverse=False):
        out = []
        for y in list(self.iterate(x)):
            k = self.call(key, [y]) if key is not None else y
            i = len(out)
            while i > 0 and self.compare('gt' if reverse else 'lt', k, out[i - 1][0]):
                i -= 1
            out.insert(i, (k, y))
        return [y for k, y in out]

    def setattr(self, o, n, v):
        if isinstance(o, Inst):
            o.at[n] = v
        elif isinstance(o, Cls):
            o.ns[n] = v
        else:
            raise Unsup('attribute store on %r' % (o,))

    # ---- calls -----------------------------------------------------------------------------------------------------
    def call(self, f, a, k=None):
        k = k or {}
        self.steps -= 1
        if self.steps < 0:
            raise Unsup('step limit')
        if isinstance(f, Bound):
            return self.call(f.f, [f.self_] + list(a), k)
        if isinstance(f, Static):
            return self.call(f.f, a, k)
        if isinstance(f, Native):
            return f.f(*a, **k)
        if isinstance(f, Cls):
            return self.construct(f, a, k)
        if isinstance(f, Func):
            m = self.models.get(self.qual(f))
            if m:
                r = m(self, a, k)
                if r is not NotImplemented:
                    return r
            return self.invoke(f, a, k)
        if isinstance(f, Sym) and f.kind == 'fun':
            return SExpr(f, tuple(a))
        if isinstance(f, Inst):
            g = f.cls.find('__call__')
            if g:
                return self.call(Bound(g[0], f), a, k)
        raise Unsup('call of %r' % (f,))

    def qual(self, f):
        return '%s.%s%s' % (f.mod, f.cls.name + '.' if f.cls else '', f.name)

    def construct(self, c, a, k):
        new = c.find('__new__')
        if new:
            f = new[0].f if isinstance(new[0], Static) else new[0]
            o = self.call(f, [c] + list(a), k)
        else:
            kd = c.kind()
            if kd is list:
                o = Inst(c, [])
            elif kd is tuple:
                o = Inst(c, tuple(self.iterate(a[0])) if a else ())
            else:
                o = Inst(c)
        if not isinstance(o, Inst) or c not in o.cls.mro:
            return o
        init = o.cls.find('__init__')
        if init:
            self.call(Bound(init[0], o), a, k)
        elif c.kind() is list and a:
            o.data[:] = list(self.iterate(a[0]))
        return o

    def invoke(self, f, a, k):
        if len(self.stack) > 150:
            raise Unsup('recursion')
        n = f.node
        env = Env(f.env, f.env.glob)
        env.cls = f.cls
        ar = n.args
        names = [x.arg for x in ar.posonlyargs + ar.args]
        a = list(a)
        if len(a) > len(names) and not ar.vararg:
            raise self.exc('TypeError', 'arguments of ' + f.name)
        for i, nm in enumerate(names):
            if i < len(a):
                env.v[nm] = a[i]
            elif nm in k:
                env.v[nm] = k.pop(nm) if False else k[nm]
            else:
                j = i - (len(names) - len(f.defaults))
                if j < 0:
                    raise self.exc('TypeError', 'missing argument of ' + f.name)
                env.v[nm] = f.defaults[j]
        if ar.vararg:
            env.v[ar.vararg.arg] = tuple(a[len(names):])
        for x in ar.kwonlyargs:
            env.v[x.arg] = k[x.arg] if x.arg in k else f.kwd[x.arg]
        rest = {x: y for x, y in k.items() if x not in names and x not in [y.arg for y in ar.kwonlyargs]}
        if ar.kwarg:
            env.v[ar.kwarg.arg] = rest
        elif rest:
            raise self.exc('TypeError', 'unexpected argument of ' + f.name)
        self.funcs.add(self.qual(f))
        if not self.stack and (self.last is None or f.name not in ('position', '__new__', '__init__', '__iter__', 'init', 'degree', 'lm', 'findWrap')):
            self.last = (f.mod, n.lineno, self.qual(f))
        save = self.node, self.modname
        self.modname = f.mod
        self.stack.append(f)
        env.v['__self__'] = a[0] if a else None
        if f.gen:
            env.gen = []
        try:
            if isinstance(n, ast.Lambda):
                return self.ev(n.body, env)
            self.body(n.body, env)
            r = None
        except Ret as e:
            r = e.v
        finally:
            self.stack.pop()
        self.node, self.modname = save
        return env.gen if f.gen else r

    # ---- statements ------------------------------------------------------------------------------------------------
    def body(self, b, env):
        for s in b:
            self.st(s, env)

    def st(self, s, env):
        self.steps -= 1
        if self.steps < 0:
            raise Unsup('step limit')
        self.node = s
        getattr(self, 's_' + type(s).__name__, self.s_other)(s, env)

    def s_other(self, s, env):
        raise Unsup('statement ' + type(s).__name__)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Return(self, s, env):
        raise Ret(self.ev(s.value, env) if s.value else None)

    def s_Break(self, s, env):
        raise Brk()

    def s_Continue(self, s, env):
        raise Cnt()

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.node = s
            raise self.exc('AssertionError')

    def s_Raise(self, s, env):
        if s.exc is None:
            raise self.exc('RuntimeError')
        x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        raise self.exc(x.id if isinstance(x, ast.Name) else 'Exception')

    def s_Try(self, s, env):
        try:
            self.body(s.body, env)
        except PyExc as e:
            for h in s.handlers:
                names = [] if h.type is None else [x.id for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]) if isinstance(x, ast.Name)]
                if h.type is None or e.name in names or 'Exception' in names:
                    self.body(h.body, env)
                    break
            else:
                raise
        else:
            self.body(s.orelse, env)
        finally:
            self.body(s.finalbody, env)

    def s_If(self, s, env):
        self.body(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def s_While(self, s, env):
        try:
            while self.truth(self.ev(s.test, env)):
                try:
                    self.body(s.body, env)
                except Cnt:
                    pass
                self.steps -= 1
                if self.steps < 0:
                    raise Unsup('step limit')
            self.body(s.orelse, env)
        except Brk:
            pass

    def s_For(self, s, env):
        try:
            for x in self.loop(self.ev(s.iter, env)):
                self.assign(s.target, x, env)
                try:
                    self.body(s.body, env)
                except Cnt:
                    pass
                self.steps -= 1
                if self.steps < 0:
                    raise Unsup('step limit')
            self.body(s.orelse, env)
        except Brk:
            pass

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            self.assign(t, self.binop(type(s.op), self.ev(ast.Name(t.id, ast.Load()), env), self.ev(s.value, env), True), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            n = self.mangle(t.attr, env_cls(env))
            self.setattr(o, n, self.binop(type(s.op), self.getattr(o, n), self.ev(s.value, env), True))
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, env), self.ev(t.slice, env)
            self.setitem(o, i, self.binop(type(s.op), self.getitem(o, i), self.ev(s.value, env), True))
        else:
            raise Unsup('augmented assignment')

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.v.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                d = o.data if isinstance(o, Inst) else o
                i = self.ev(t.slice, env)
                if isinstance(d, Dict):
                    j = self.dfind(d, i)
                    del d.items[j]
                elif isinstance(d, (list, dict)):
                    try:
                        del d[self.idx(i)]
                    except IndexError:
                        raise self.exc('IndexError')
                else:
                    raise Unsup('del')
            else:
                raise Unsup('del')

    def s_Global(self, s, env):
        env.globs |= set(s.names)

    def s_Nonlocal(self, s, env):
        env.nonloc |= set(s.names)

    def s_FunctionDef(self, s, env):
        f = Func(s, env if env.cls is None or not getattr(env, 'isclass', False) else env.parent, self.modname,
                 env.cls, [self.ev(d, env) for d in s.args.defaults],
                 {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})
        for d in s.decorator_list:
            if isinstance(d, ast.Name) and d.id == 'staticmethod':
                f = Static(f)
            else:
                raise Unsup('decorator')
        env.set(self.mangle(s.name, env.cls), f)

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        bases = [b for b in bases if b is not object]
        e = Env(env, env.glob)
        c = Cls(s.name, bases, e.v, self.modname)
        e.cls = c
        e.isclass = True
        for x in s.body:
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                e.v[self.mangle(x.targets[0].id, c)] = self.ev(x.value, e)
            else:
                self.st(x, e)
        env.set(s.name, c)

    def s_Import(self, s, env):
        for a in s.names:
            env.set((a.asname or a.name).split('.')[0], self.module(a.name))

    def s_ImportFrom(self, s, env):
        m = self.module(s.module)
        d = m.v if isinstance(m, Env) else m
        for a in s.names:
            if a.name == '*':
                for n, v in d.items():
                    if not n.startswith('_'):
                        env.set(n, v)
            else:
                if a.name not in d:
                    def no(*x, _w='%s from %s' % (a.name, s.module), **k):
                        raise Unsup('import of ' + _w)
                    env.set(a.asname or a.name, Native(no, a.name))
                    continue
                env.set(a.asname or a.name, d[a.name])

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.trees:
            env = Env()
            env.v['__name__'] = name
            self.mods[name] = env
            save = self.modname
            self.modname = name
            self.body(self.trees[name].body, env)
            self.modname = save
            return env
        import pymodels
        m = pymodels.module(self, name)
        self.mods[name] = m
        return m

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(self.mangle(t.id, env_cls(env)) if False else t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsup('starred target')
            if len(vs) != len(t.elts):
                raise self.exc('ValueError')
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), self.mangle(t.attr, env_cls(env)), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        else:
            raise Unsup('target')

    # ---- subscripts ------------------------------------------------------------------------------------------------
    def idx(self, i):
        if isinstance(i, slice):
            return slice(*[self.concrete(x) if x is not None else None for x in (i.start, i.stop, i.step)])
        return self.concrete(i)

    def getitem(self, o, i):
        if isinstance(o, Inst):
            f = o.cls.find('__getitem__')
            if f:
                return self.call(Bound(f[0], o), [i])
            o = o.data
        if isinstance(o, Dict):
            j = self.dfind(o, i)
            if j is None:
                raise self.exc('KeyError')
            return o.items[j][1]
        if isinstance(o, (list, tuple, str)):
            try:
                return o[self.idx(i)]
            except IndexError:
                raise self.exc('IndexError')
        if isinstance(o, dict):
            if i not in o:
                raise self.exc('KeyError')
            return o[i]
        raise Unsup('subscript of %r' % (o,))

    def setitem(self, o, i, v):
        if isinstance(o, Inst):
            f = o.cls.find('__setitem__')
            if f:
                return self.call(Bound(f[0], o), [i, v])
            o = o.data
        if isinstance(o, Dict):
            j = self.dfind(o, i)
            if j is None:
                o.items.append((i, v))
            else:
                o.items[j] = (o.items[j][0], v)
            return
        if isinstance(o, list):
            i = self.idx(i)
            try:
                if isinstance(i, slice):
                    o[i] = list(self.iterate(v))
                else:
                    o[i] = v
            except IndexError:
                raise self.exc('IndexError')
            return
        raise Unsup('store into %r' % (o,))

    # ---- expressions -----------------------------------------------------------------------------------------------
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsup('expression ' + type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        try:
            return env.get(e.id)
        except KeyError:
            pass
        if e.id in BUILTINS:
            return getattr(self, 'b_' + e.id) if False else Native(getattr(self, 'b_' + e.id), e.id)
        if e.id in TYPES:
            return TYPES[e.id]
        if e.id == 'NotImplemented':
            return NotImplemented
        if e.id.endswith('Error') or e.id == 'Exception':
            return Sym(e.id, 'exc')
        self.node = e
        if hasattr(builtins, e.id):
            raise Unsup('builtin ' + e.id)
        raise self.exc('NameError', e.id)

    def e_BoolOp(self, e, env):
        for x in e.values[:-1]:
            v = self.ev(x, env)
            t = self.truth(v)
            if t != isinstance(e.op, ast.And):
                return v
        return self.ev(e.values[-1], env)

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        return self.binop(type(e.op), a, b)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return self.neg(v)
        if isinstance(e.op, ast.UAdd):
            if isinstance(v, Inst):
                f = v.cls.find('__pos__')
                if f:
                    return self.call(Bound(f[0], v), [])
            return v
        raise Unsup('unary operator')

    def e_Compare(self, e, env):
        a = self.ev(e.left, env)
        for o, x in zip(e.ops, e.comparators):
            b = self.ev(x, env)
            if isinstance(o, (ast.Is, ast.IsNot)):
                r = (a is b) == isinstance(o, ast.Is)
            elif isinstance(o, (ast.In, ast.NotIn)):
                r = self.contains(b, a) == isinstance(o, ast.In)
            else:
                r = self.compare(CMP[type(o)], a, b)
            if not r:
                return False
            a = b
        return True

    def contains(self, c, x):
        if isinstance(c, Dict):
            return self.dfind(c, x) is not None
        if isinstance(c, dict):
            return x in c
        if isinstance(c, str):
            return x in c
        if isinstance(c, (set, frozenset)):
            return x in c
        return any(y is x or self.eq(y, x) for y in self.iterate(c))

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        self.node = e
        return self.getattr(o, self.mangle(e.attr, env_cls(env)))

    def e_Subscript(self, e, env):
        o, i = self.ev(e.value, env), self.ev(e.slice, env)
        self.node = e
        return self.getitem(o, i)

    def e_Slice(self, e, env):
        return slice(*[self.ev(x, env) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def seq(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_List(self, e, env):
        return self.seq(e.elts, env)

    def e_Tuple(self, e, env):
        return tuple(self.seq(e.elts, env))

    def e_Set(self, e, env):
        return set(self.seq(e.elts, env))

    def e_Dict(self, e, env):
        d = Dict()
        for k, v in zip(e.keys, e.values):
            self.setitem(d, self.ev(k, env), self.ev(v, env))
        return d

    def comp(self, gens, env, f):
        """yields lazily; the scope is that of the comprehension"""
        e = Env(env, env.glob)
        e.cls = env_cls(env)

        def rec(i):
            if i == len(gens):
                yield f(e)
                return
            g = gens[i]
            for x in self.loop(self.ev(g.iter, e)):
                self.assign(g.target, x, e)
                if all(self.truth(self.ev(c, e)) for c in g.ifs):
                    yield from rec(i + 1)
        return rec(0)

    def e_ListComp(self, e, env):
        return list(self.comp(e.generators, env, lambda v: self.ev(e.elt, v)))

    def e_GeneratorExp(self, e, env):
        return list(self.comp(e.generators, env, lambda v: self.ev(e.elt, v)))

    def e_SetComp(self, e, env):
        return set(self.comp(e.generators, env, lambda v: self.ev(e.elt, v)))

    def e_DictComp(self, e, env):
        d = Dict()
        for k, v in self.comp(e.generators, env, lambda v: (self.ev(e.key, v), self.ev(e.value, v))):
            self.setitem(d, k, v)
        return d

    def e_Lambda(self, e, env):
        return Func(e, env, self.modname, env_cls(env), [self.ev(d, env) for d in e.args.defaults])

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        raise Unsup('starred')

    def gen_of(self, env):
        while not hasattr(env, 'gen'):
            env = env.parent
        return env.gen

    def e_Yield(self, e, env):
        self.gen_of(env).append(self.ev(e.value, env) if e.value else None)

    def e_YieldFrom(self, e, env):
        self.gen_of(env).extend(list(self.iterate(self.ev(e.value, env))))

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, env)
                out.append(self.repr_(x) if v.conversion == 114 else self.text(x))
        return ''.join(out)

    def text(self, x):
        if isinstance(x, Inst):
            f = x.cls.find('__str__') or x.cls.find('__repr__')
            if f:
                return self.call(Bound(f[0], x), [])
        if isinstance(x, Lin):
            return str(self.concrete(x)) if not self.opts.get('symtext') else '<%s>' % self.facts.norm(x)
        if isinstance(x, Rat):
            return '<%s>' % x
        if isinstance(x, str):
            return x
        if isinstance(x, (Sym,)):
            return x.name
        if isinstance(x, (int, float, Fraction)) or x is None:
            return str(x)
        return '<?>'

    def repr_(self, x):
        if isinstance(x, Inst):
            f = x.cls.find('__repr__')
            if f:
                return self.call(Bound(f[0], x), [])
        if isinstance(x, str):
            return repr(x)
        return self.text(x)

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name):
            n = e.func.id
            if n == 'super' and not e.args:
                f = self.stack[-1]
                o = env
                while '__self__' not in o.v:
                    o = o.parent
                o = o.v['__self__']
                return Super(o if isinstance(o, Cls) else o.cls, o, f.cls)
            if n in ('any', 'all') and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and not self.shadow(env, n):
                g = e.args[0]
                want = n == 'any'
                for x in self.comp(g.generators, env, lambda v: self.truth(self.ev(g.elt, v))):
                    if x == want:
                        return want
                return not want
        f = self.ev(e.func, env)
        a = self.seq(e.args, env)
        k = {}
        for w in e.keywords:
            if w.arg is None:
                d = self.ev(w.value, env)
                k.update(d if isinstance(d, dict) else dict(d.items))
            else:
                k[w.arg] = self.ev(w.value, env)
        self.node = e
        return self.call(f, a, k)

    def shadow(self, env, n):
        try:
            env.get(n)
            return True
        except KeyError:
            return False

    # ---- builtins --------------------------------------------------------------------------------------------------
    def b_len(self, x):
        if isinstance(x, Inst):
            f = x.cls.find('__len__')
            if f:
                return self.call(Bound(f[0], x), [])
            if x.data is None:
                raise self.exc('TypeError')
            return len(x.data)
        if isinstance(x, Dict):
            return len(x.items)
        return len(x)

    def b_range(self, *a):
        return range(*[self.concrete(x) for x in a])

    def b_enumerate(self, x, start=0):
        return [(i + start, y) for i, y in enumerate(list(self.iterate(x)))]

    def b_zip(self, *a):
        return list(zip(*[list(self.iterate(x)) for x in a]))

    def b_sum(self, x, start=0):
        r = start
        for y in self.iterate(x):
            r = self.binop(ast.Add, r, y)
        return r

    def best(self, op, a, key=None, default=()):
        if len(a) == 1:
            a = list(self.iterate(a[0]))
        if not a:
            if default != ():
                return default
            raise self.exc('ValueError')
        r = a[0]
        for y in a[1:]:
            if self.compare(op, *( (y, r) if key is None else (self.call(key, [y]), self.call(key, [r])))):
                r = y
        return r

    def b_max(self, *a, key=None, default=()):
        return self.best('gt', a, key, default)

    def b_min(self, *a, key=None, default=()):
        return self.best('lt', a, key, default)

    def b_any(self, x):
        return any(self.truth(y) for y in self.iterate(x))

    def b_all(self, x):
        return all(self.truth(y) for y in self.iterate(x))

    def b_abs(self, x):
        return x if self.compare('ge', x, 0) else self.neg(x)

    def b_sorted(self, x, key=None, reverse=False):
        return self.sort(x, key, self.truth(reverse))

    def b_reversed(self, x):
        return list(self.iterate(x))[::-1]

    def b_print(self, *a, **k):
        return None

    def b_id(self, x):
        return id(x)

    def b_iter(self, x):
        return list(self.iterate(x))

    def b_repr(self, x):
        return self.repr_(x)

    def b_isinstance(self, x, c):
        if isinstance(c, tuple):
            return any(self.b_isinstance(x, y) for y in c)
        if isinstance(c, Cls):
            return isinstance(x, Inst) and c in x.cls.mro
        if isinstance(c, Sym) and c.kind == 'type':
            return isinstance(x, (Rat, Sym)) and c.name in ('Expr', 'Integer', 'Rational', 'Basic') and not isinstance(x, SExpr)
        if c is int:
            return isinstance(x, (int, Lin))
        if c is str:
            return isinstance(x, str)
        if c in (list, tuple, dict):
            return isinstance(x, c) or isinstance(x, Inst) and isinstance(x.data, c)
        raise Unsup('isinstance')

    def b_type(self, x):
        return x.cls if isinstance(x, Inst) else int if isinstance(x, (int, Lin)) and not isinstance(x, bool) else type(x)

    def b_hash(self, x):
        return self.hashkey(x)

    def b_hex(self, x):
        if isinstance(x, int):
            return hex(x)
        return ('hex', x)

    def b_map(self, f, *a):
        return [self.call(f, list(x)) for x in zip(*[list(self.iterate(y)) for y in a])]

    def b_filter(self, f, a):
        return [x for x in list(self.iterate(a)) if self.truth(self.call(f, [x]))]

    def b_next(self, x, *d):
        if not isinstance(x, list):
            raise Unsup('next')
        if x:
            return x.pop(0)
        if d:
            return d[0]
        raise self.exc('StopIteration')

    def b_callable(self, x):
        return isinstance(x, (Func, Bound, Native, Cls, type))

    def b_setattr(self, o, n, v):
        self.setattr(o, n, v)

    def b_hasattr(self, o, n):
        try:
            self.getattr(o, n)
            return True
        except PyExc:
            return False

    def b_divmod(self, a, b):
        return (self.binop(ast.FloorDiv, a, b), self.binop(ast.Mod, a, b))

    def b_pow(self, a, b):
        return self.binop(ast.Pow, a, b)

    def b_globals(self):
        raise Unsup('globals')

    def b_getattr(self, o, n, *d):
        return self.getattr(o, n)


BUILTINS = [n[2:] for n in dir(Interp) if n.startswith('b_')]


def _conv(c):
    def f(I, *a):
        return c(I.iterate(a[0])) if a else c()
    return f


TYPES = {'int': int, 'str': str, 'list': list, 'tuple': tuple, 'dict': dict, 'set': set, 'object': object, 'bool': bool, 'float': float, 'frozenset': frozenset}


def env_cls(env):
    while env is not None:
        if env.cls is not None:
            return env.cls
        env = env.parent
    return None


_call = Interp.call


def call(self, f, a, k=None):
    if f in (list, tuple) if isinstance(f, type) else False:
        return f(self.iterate(a[0])) if a else f()
    if isinstance(f, type):
        if f is set or f is frozenset:
            xs = list(self.iterate(a[0])) if a else []
            if any(isinstance(x, Inst) for x in xs):
                d = Dict()
                for x in xs:
                    self.setitem(d, x, True)
                return d
            return f(xs)
        if f is int:
            return self.concrete(a[0]) if a and not isinstance(a[0], Rat) else int(a[0]) if a else 0
        if f is str:
            return self.text(a[0]) if a else ''
        if f is bool:
            return self.truth(a[0])
        if f is dict:
            d = Dict()
            if a:
                for x in (a[0].items if isinstance(a[0], Dict) else a[0].items() if isinstance(a[0], dict) else self.iterate(a[0])):
                    y, z = self.iterate(x)
                    self.setitem(d, y, z)
            for y in k or {}:
                self.setitem(d, y, k[y])
            return d
        raise Unsup('type call')
    return _call(self, f, a, k)


Interp.call = call
