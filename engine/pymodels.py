"""What the Python layer takes from outside: sympy's coefficient arithmetic, heapq, itertools."""
import math
from fractions import Fraction
import itertools
from pyabs import *


def flat(I, op, xs):
    """gcd and lcm as operations on sets of coefficients, up to a unit"""
    out = []
    for x in xs:
        x = I.rat(x)
        if x.d.is_const() and len(x.n.t) == 1:
            (m, c), = x.n.t.items()
            if len(m) == 1 and c == 1 and m[0].kind == 'app' and m[0].name == op:
                out += [Rat(l) for l in m[0].args[0]] if False else list(unpack(m[0]))
                continue
        out.append(x)
    return out


PACK = {}


def unpack(a):
    return PACK[a]


def combine(I, op, a, b):
    xs = flat(I, op, [a, b])
    zero = [x for x in xs if I.proved0(x.n)]
    if op == 'gcd':
        xs = [x for x in xs if not I.proved0(x.n)]
        if not xs:
            return Rat(Lin.const(0))
    elif zero:
        return Rat(Lin.const(0))
    u = []
    for x in xs:
        if not any(same(I, x, y) or same(I, Rat(-x.n, x.d), y) for y in u):
            u.append(x)
    cs = [x for x in u if x.n.is_const() and x.d.is_const()]
    if op == 'gcd' and any(abs(x.n.cval()) == 1 for x in cs):
        return Rat(Lin.const(1))
    if len(cs) == len(u) and all(x.n.cval().denominator == 1 for x in cs):
        f = math.gcd if op == 'gcd' else lambda p, q: p * q // math.gcd(p, q)
        r = abs(int(cs[0].n.cval()))
        for x in cs[1:]:
            r = f(r, abs(int(x.n.cval())))
        return Rat(Lin.const(r))
    if op == 'lcm':
        u = [x for x in u if not (x.n.is_const() and abs(x.n.cval()) == 1 and x.d.is_const())]
        if not u:
            return Rat(Lin.const(1))
    if len(u) == 1:
        return u[0]
    u.sort(key=lambda x: repr(x))
    at = Atom(op, 'app', tuple(repr(x) for x in u))
    PACK[at] = tuple(u)
    e = Lin.atom(at)
    I.facts.add_ne(e)
    return Rat(e)


def same(I, x, y):
    d = x.n * y.d - y.n * x.d
    return I.proved0(d)


def derive(I, x, v):
    """partial derivative of a coefficient"""
    def d(l):
        r = Lin({})
        for m, c in l.t.items():
            for i, a in enumerate(m):
                if a.kind == 'app':
                    raise Unsup('derivative of %s' % a)
                if a.name.startswith('sym:'):
                    da = Lin.const(1 if a.name == 'sym:' + v else 0)
                elif a.name.startswith('par:'):
                    da = Lin.const(0)
                else:
                    base, *ds = a.name.split("'")
                    da = Lin.atom(Atom("'".join([base] + sorted(ds + [v]))))
                p = Lin.const(c) * da
                for j, b in enumerate(m):
                    if j != i:
                        p = p * Lin.atom(b)
                r = r + p
        return r
    x = I.rat(x)
    n, e = d(x.n), d(x.d)
    return Rat(n * x.d - x.n * e, x.d * x.d) if e.t else Rat(n, x.d)


def module(I, name):
    if name == 'sympy':
        return sympy(I)
    if name == 'heapq':
        return heapq(I)
    if name == 'itertools':
        def comb(x, k):
            return [tuple(y) for y in itertools.combinations_with_replacement(list(I.iterate(x)), I.concrete(k))]
        return {'__mod__': name, 'combinations_with_replacement': Native(comb)}
    if name == 'time':
        return {'__mod__': name, 'time': Native(lambda: 0)}
    if name == 'pprint':
        return {'__mod__': name, 'pprint': Native(lambda *a: None)}
    if name == 'functools':
        def reduce(f, x, *a):
            x = list(I.iterate(x))
            r = a[0] if a else x.pop(0)
            for y in x:
                r = I.call(f, [r, y])
            return r
        return {'__mod__': name, 'reduce': Native(reduce), 'lru_cache': Native(lambda *a, **k: a[0] if a else Native(lambda f: f)), 'total_ordering': Native(lambda c: c)}
    if name == 'operator':
        m = {'__mod__': name, 'itemgetter': Native(lambda i: Native(lambda x: I.getitem(x, i))), 'attrgetter': Native(lambda i: Native(lambda x: I.getattr(x, i)))}
        for n, o in (('add', ast.Add), ('sub', ast.Sub), ('mul', ast.Mult), ('truediv', ast.Div)):
            m[n] = Native(lambda a, b, o=o: I.binop(o, a, b))
        for n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
            m[n] = Native(lambda a, b, n=n: I.compare(n, a, b))
        return m
    return {'__mod__': name}


def sympy(I):
    ident = Native(lambda x, *a, **k: x)

    def integer(x):
        return I.rat(x)

    def rational(a, b=1):
        return I.binop(ast.Div, I.rat(a), I.rat(b))

    def fraction(x):
        x = I.rat(x)
        k = 1
        for l in (x.n, x.d):
            for c in l.t.values():
                k = k * Fraction(c).denominator // math.gcd(k, Fraction(c).denominator)
        return (whole(x.n * k), whole(x.d * k))

    def whole(l):
        r = Rat(Lin.const(0))
        r.n, r.d = l, Lin.const(1)
        return r

    def symbols(names, cls=None, **k):
        if isinstance(names, str):
            names = names.replace(',', ' ').split()
            r = [Sym(n, 'fun' if cls is not None else 'var') for n in names]
            return r[0] if len(r) == 1 else tuple(r)
        return tuple(Sym(n, 'fun' if cls is not None else 'var') for n in I.iterate(names))

    def diff(x, v):
        if not isinstance(v, Sym):
            raise Unsup('derivative')
        return derive(I, x, v.name)
    s = {'__mod__': 'S', 'Zero': Rat(Lin.const(0)), 'One': Rat(Lin.const(1))}
    m = {'__mod__': 'sympy', 'S': s, 'Integer': Native(integer), 'Rational': Native(rational), 'fraction': Native(fraction),
         'gcd': Native(lambda a, b: combine(I, 'gcd', a, b)), 'lcm': Native(lambda a, b: combine(I, 'lcm', a, b)),
         'symbols': Native(symbols), 'Function': Sym('Function', 'type'), 'diff': Native(diff), 'Add': Sym('Add', 'head'), 'Mul': Sym('Mul', 'head'),
         'Pow': Sym('Pow', 'head'), 'Derivative': Sym('Derivative', 'head'), 'init_printing': Native(lambda *a, **k: None)}
    for n in ('cancel', 'expand', 'simplify', 'ratsimp', 'factor', 'together', 'nsimplify', 'sympify'):
        m[n] = ident
    return m


def heapq(I):
    """the library's algorithm, with the program's comparison"""
    lt = lambda a, b: I.compare('lt', a, b)

    def raw(h):
        return h.data if isinstance(h, Inst) else h

    def down(h, start, pos):
        x = h[pos]
        while pos > start:
            p = (pos - 1) >> 1
            if lt(x, h[p]):
                h[pos] = h[p]
                pos = p
                continue
            break
        h[pos] = x

    def up(h, pos):
        end, start, x = len(h), pos, h[pos]
        c = 2 * pos + 1
        while c < end:
            r = c + 1
            if r < end and not lt(h[c], h[r]):
                c = r
            h[pos] = h[c]
            pos = c
            c = 2 * pos + 1
        h[pos] = x
        down(h, start, pos)

    def heapify(h):
        h = raw(h)
        for i in reversed(range(len(h) // 2)):
            up(h, i)

    def push(h, x):
        h = raw(h)
        h.append(x)
        down(h, 0, len(h) - 1)

    def pop(h):
        h = raw(h)
        if not h:
            raise I.exc('IndexError')
        last = h.pop()
        if h:
            r = h[0]
            h[0] = last
            up(h, 0)
            return r
        return last
    return {'__mod__': 'heapq', 'heapify': Native(heapify), 'heappush': Native(push), 'heappop': Native(pop)}
