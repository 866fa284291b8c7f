"""pyginv: monomials, orders, polynomials over symbolic coefficients."""
import itertools
from fw import Broken
from pyscen import *

ORDERS = ('POTlex', 'TOPlex', 'POTdeglex', 'TOPdeglex')
VARS = ['x', 'y', 'z']
FUNS = ['u', 'v', 'w']


def mods():
    return trees(['monomial', 'polynomial', 'janet', 'ginv'])


def start(p, n, fun=0, order='POTlex', cls=None):
    M = p.get('monomial', 'Monom')
    c = cls or M
    p.m(c, 'init', *([VARS[:n], FUNS[:fun]] if fun else [VARS[:n]]))
    if order:
        p.setattr(M, 'cmp', p.getattr(M, order))
    p.M, p.n, p.fun, p.order = M, n, fun, order
    return M


def mono(p, name, pos=-1, hi=None, e=None):
    e = tuple(e) if e is not None else tuple(p.nat('%s%d' % (name, i), hi) for i in range(p.n))
    return p.call(p.M, [e], {'pos': pos} if pos >= 0 else {})


def ex(p, m):
    return list(p.iterate(m))


def pos(p, m):
    return p.m(m, 'position')


def ismono(p, m, want, wpos, site):
    if not (isinstance(m, Inst) and p.M in m.cls.mro):
        return p.chk(False, site, 'is %r' % (m,))
    e = ex(p, m)
    if len(e) != len(want):
        return p.chk(False, site, 'has %d exponents' % len(e))
    for g, w in zip(e, want):
        p.eqint(g, w, site)
    p.eqint(pos(p, m), wpos, site + ', component')


def ppos(p, what):
    return p.pick(p.fun + 1, what) - 1


def L(x):
    return lin(x)


# ---- monomials -------------------------------------------------------------------------------------------------------
def s_mul(n):
    def f(p):
        start(p, n, 2)
        a = ppos(p, 'component of a')
        b = -1 if a >= 0 else ppos(p, 'component of b')
        x, y = mono(p, 'a', a), mono(p, 'b', b)
        ex0, ey0 = ex(p, x), ex(p, y)
        z = p.op('*', x, y)
        ismono(p, z, [L(i) + j for i, j in zip(ex0, ey0)], max(a, b), 'exact: product')
        p.eqint(p.m(z, 'degree'), sum((L(i) for i in ex0 + ey0), ZERO), 'exact: degree of the product')
        ismono(p, x, ex0, a, 'exact: operands keep their value')
        ismono(p, y, ey0, b, 'exact: operands keep their value')
    return f


def s_div(n):
    def f(p):
        start(p, n, 2)
        a = ppos(p, 'component')
        b = a if a >= 0 and p.pick(2, 'divisor has it') else -1
        y, q = mono(p, 'b', b), [p.nat('q%d' % i) for i in range(n)]
        x = mono(p, 'a', a, e=[L(i) + j for i, j in zip(ex(p, y), q)])
        z = p.op('/', x, y)
        ismono(p, z, q, a if b < 0 else -1, 'exact: quotient')
        ismono(p, x, [L(i) + j for i, j in zip(ex(p, y), q)], a, 'exact: operands keep their value')
    return f


def s_single(n):
    def f(p):
        start(p, n, 2)
        a = ppos(p, 'component')
        x = mono(p, 'a', a)
        e = ex(p, x)
        k = p.pick(5)
        if k == 0:
            v = p.pick(n, 'variable')
            ismono(p, p.m(x, 'prolong', v), [L(d) + (1 if i == v else 0) for i, d in enumerate(e)], a, 'exact: prolongation')
        elif k == 1:
            c = p.m(x, 'copy')
            ismono(p, c, e, a, 'exact: copy')
            p.chk(c is not x, 'exact: a copy is another object')
        elif k == 2:
            p.eqint(p.m(x, 'degree'), sum((L(i) for i in e), ZERO), 'exact: degree')
            p.eqint(pos(p, x), a, 'exact: component')
        elif k == 3:
            if a >= 0:
                raise PathEnd()
            j = p.pick(4, 'power')
            ismono(p, p.op('**', x, j), [L(i) * j for i in e], -1, 'exact: power')
        else:
            p.chk(p.truth(x) == (a >= 0 or any(not p.is0(L(i)) for i in e)), 'exact: only the scalar one is false')
        ismono(p, x, e, a, 'exact: operands keep their value')
    return f


def s_lcm(n):
    def f(p):
        start(p, n, 2)
        a = ppos(p, 'component of a')
        b = [-1, a][p.pick(2, 'other has it')] if a >= 0 else ppos(p, 'component of b')
        x, y = mono(p, 'a', a), mono(p, 'b', b)
        g = p.pick(2)
        z = p.m(x, 'gcd' if g else 'lcm', y)
        w = [(j if p.ge(L(i) - j) else i) if g else (i if p.ge(L(i) - j) else j) for i, j in zip(ex(p, x), ex(p, y))]
        ismono(p, z, w, min(a, b) if g else max(a, b), 'exact: gcd' if g else 'exact: lcm')
    return f


def s_divis(n):
    def f(p):
        start(p, n, 2)
        a, b = ppos(p, 'component of a'), ppos(p, 'component of b')
        x, y = mono(p, 'a', a), mono(p, 'b', b)
        strict = p.pick(2)
        r = p.m(x, 'divisibleTrue' if strict else 'divisible', y)
        want = (b == -1 or a == b) and all(p.ge(L(i) - j) for i, j in zip(ex(p, x), ex(p, y)))
        if strict and want:
            want = p.ge(sum((L(i) - j for i, j in zip(ex(p, x), ex(p, y))), ZERO) - 1)
        p.chk(p.truth(r) == want, 'exact: strict divisibility' if strict else 'exact: divisibility', 'is %s' % r)
    return f


def s_nonmult(n):
    def f(p):
        start(p, n, 2)
        a = ppos(p, 'component')
        x, y = mono(p, 'a', a), mono(p, 'b', a)
        want = next((i for i, (k, l) in enumerate(zip(ex(p, x), ex(p, y))) if not p.ge(L(k) - l)), None)
        if want is None:
            raise PathEnd()
        p.eqint(p.m(x, 'nonmult', y), want, 'exact: first exceeded variable')
    return f


def s_make(n):
    def f(p):
        start(p, n, 2)
        k = p.pick(4)
        if k == 0:
            v = p.pick(n, 'variable')
            ismono(p, p.call(p.M, [v]), [int(i == v) for i in range(n)], -1, 'exact: variable')
        elif k == 1:
            ismono(p, p.call(p.M, []), [0] * n, -1, 'exact: one')
        elif k == 2:
            c = p.pick(2, 'component')
            ismono(p, p.call(p.M, [], {'pos': c}), [0] * n, c, 'exact: unit vector')
            ismono(p, p.call(p.M, []), [0] * n, -1, 'exact: one')
        else:
            r = p.m(p.M, 'init', VARS[:n], FUNS[:2])
            for i, m in enumerate(p.iterate(r[0])):
                ismono(p, m, [int(i == j) for j in range(n)], -1, 'exact: variables of a new ring')
            for i, m in enumerate(p.iterate(r[1])):
                ismono(p, m, [0] * n, i, 'exact: unit vectors of a new module')
            r = p.m(p.M, 'init', VARS[:n])
            for i, m in enumerate(p.iterate(r)):
                ismono(p, m, [int(i == j) for j in range(n)], -1, 'exact: variables of a new ring')
    return f


def s_enum(n):
    def f(p):
        start(p, n, 2)
        k = p.pick(2)
        if k == 0:
            d, c = p.pick(4, 'degree'), ppos(p, 'component')
            ms = p.iterate(p.m(p.M, 'gradus', d, c))
            got = sorted(tuple(p.concrete(i) for i in ex(p, m)) for m in ms)
            want = sorted(e for e in itertools.product(range(d + 1), repeat=n) if sum(e) == d)
            p.chk(got == want, 'exact: all monomials of a degree', 'are %s' % got)
            p.chk(all(pos(p, m) == c for m in ms), 'exact: all monomials of a degree, component')
        else:
            x = mono(p, 'a', ppos(p, 'component'), 2)
            r = [p.concrete(i) for i in p.iterate(p.m(x, 'expand'))]
            p.chk(r == [v for v, d in enumerate(ex(p, x)) for _ in range(p.concrete(d))], 'exact: list of variables', 'is %s' % r)
    return f


def s_hash(n, order):
    def f(p):
        start(p, n, 2, order)
        a, b = ppos(p, 'component of a'), ppos(p, 'component of b')
        x, y = mono(p, 'a', a), mono(p, 'b', b)
        same = a == b and all(p.is0(L(i) - j) for i, j in zip(ex(p, x), ex(p, y)))
        p.chk(p.eq(x, y) == same, 'exact: equality')
        p.chk(p.compare('ne', x, y) != same, 'exact: inequality')
        if same:
            p.chk(p.eq(p.hashkey(x), p.hashkey(y)), 'exact: equal monomials have equal hashes')
    return f


def monomials(ctx, chk):
    pr = {}
    for n in (1, 2, 3):
        for k, s in (('product', s_mul), ('quotient', s_div), ('single', s_single), ('lcm and gcd', s_lcm), ('divisibility', s_divis), ('nonmult', s_nonmult), ('construction', s_make), ('enumeration', s_enum)):
            pr['%s, %d variables' % (k, n)] = s(n)
    for o in ORDERS:
        pr['equality under ' + o] = s_hash(2, o)
    run(chk, mods(), 'pyginv monomials', pr)


# ---- orders ----------------------------------------------------------------------------------------------------------
def cmpex(p, order, a, b):
    if 'deg' in order:
        da, db = sum((L(i) for i in a), ZERO), sum((L(i) for i in b), ZERO)
        if not p.is0(da - db):
            return 1 if p.ge(da - db) else -1
        for i in reversed(range(len(a))):
            if not p.is0(L(a[i]) - b[i]):
                return 1 if p.ge(L(b[i]) - a[i]) else -1
        return 0
    for i in range(len(a)):
        if not p.is0(L(a[i]) - b[i]):
            return 1 if p.ge(L(a[i]) - b[i]) else -1
    return 0


def refcmp(p, order, x, y):
    """what the documentation of the orders says"""
    a, b, i, j = ex(p, x), ex(p, y), pos(p, x), pos(p, y)
    if order in ('lex', 'deglex'):
        return cmpex(p, order, a, b)
    c = 0 if i == j else (1 if j == -1 or (i != -1 and i < j) else -1)
    if order.startswith('POT'):
        return c or cmpex(p, order, a, b)
    return cmpex(p, order, a, b) or c


def s_order(n, order):
    def f(p):
        start(p, n, 2, order if order in ORDERS else None)
        a, b = ppos(p, 'component of a'), ppos(p, 'component of b')
        if order not in ORDERS and (a >= 0 or b >= 0):
            raise PathEnd()
        x, y = mono(p, 'a', a), mono(p, 'b', b)
        got = p.m(x, order, y)
        w = refcmp(p, order, x, y)
        p.eqint(got, w, 'order: verdict')
        p.eqint(p.m(y, order, x), -w, 'order: antisymmetric')
        if order in ORDERS:
            for o, t in (('lt', w < 0), ('le', w <= 0), ('gt', w > 0), ('ge', w >= 0), ('eq', w == 0), ('ne', w != 0)):
                p.chk(p.compare(o, x, y) == t, 'order: rich comparison ' + o)
    return f


def orders(ctx, chk):
    pr = {}
    for n in (1, 2, 3):
        for o in ORDERS + ('lex', 'deglex'):
            pr['%s, %d variables' % (o, n)] = s_order(n, o)
    run(chk, mods(), 'pyginv orders', pr)


# ---- polynomials -----------------------------------------------------------------------------------------------------
def poly(p, terms, cls='Poly'):
    """terms: (monomial, coefficient), descending"""
    r = p.call(p.get('polynomial', cls), [])
    for m, k in terms:
        p.m(r, 'append', [m, k])
    return r


def spoly(p, name, k, posn=(-1,), cls='Poly', e=None, coef=None):
    """k terms with arbitrary strictly descending monomials and non-zero coefficients"""
    ms = []
    for i in range(k):
        ms.append(mono(p, '%s%d_' % (name, i), posn[i % len(posn)], e=e[i] if e else None))
    for a, b in zip(ms, ms[1:]):
        p.assume(refcmp(p, p.order, a, b) > 0)
    cs = [coef[i] if coef else p.coef('%s%d' % (name, i)) for i in range(k)]
    return poly(p, list(zip(ms, cs)), cls)


def terms(p, f):
    return [tuple(p.iterate(t)) for t in p.iterate(f)]


def snap(p, f):
    return [(ex(p, m), pos(p, m), p.rat(k)) for m, k in terms(p, f)]


def tsum(p, *ts):
    """merge lists of (exponents, component, coefficient)"""
    out = []
    for t in ts:
        for e, c, k in t:
            for i, (e2, c2, k2) in enumerate(out):
                if c == c2 and all(p.is0(L(a) - b) for a, b in zip(e, e2)):
                    out[i] = (e2, c2, p.binop(ast.Add, k2, k))
                    break
            else:
                out.append((e, c, k))
    return out


def tmul(p, s, t):
    return tsum(p, [([L(a) + b for a, b in zip(e, f)], max(c, d), p.binop(ast.Mult, k, l)) for e, c, k in s for f, d, l in t])


def scale(p, t, k, e=None, c=None):
    return [([L(a) + b for a, b in zip(x, e)] if e is not None else x, y if c is None else max(y, c), p.binop(ast.Mult, z, p.rat(k))) for x, y, z in t]


def value(p, f, want, site):
    """the polynomial has exactly the coefficients of the sum of terms `want`"""
    if not (isinstance(f, Inst) and f.data is not None):
        return p.chk(False, site, 'is %r' % (f,))
    d = tsum(p, snap(p, f), scale(p, want, -1))
    if not d:
        p.chk(True, site)
    for e, c, k in d:
        if p.proved0(p.rat(k).n):
            p.put('ok', site)
        else:
            w = p.witness(p.rat(k).n)
            p.put('bad' if w else 'unknown', site, 'the coefficient of [%s] is off by %s%s' % (' '.join(str(p.facts.norm(L(x))) for x in e), k, ' for ' + w if w else ''))


def canon(p, f, site, cls=None):
    if not (isinstance(f, Inst) and f.data is not None):
        return p.chk(False, site, 'is %r' % (f,))
    t = terms(p, f)
    for (a, _), (b, _) in zip(t, t[1:]):
        p.chk(refcmp(p, p.order, a, b) > 0, site + ', terms descend')
    for m, k in t:
        n = p.facts.norm(p.rat(k).n)
        if p.facts.entails_ne(n):
            p.chk(True, site + ', no zero coefficient')
        elif n.is_const() and n.cval() == 0 or p.proved0(n):
            p.chk(False, site + ', no zero coefficient', 'a coefficient is zero')
        else:
            q = P(p.trees, [], 1000, p.rec)
            q.facts = p.facts.copy()
            if q.facts.add_eq(n) is False or not q.facts.consistent():
                p.chk(True, site + ', no zero coefficient')
            else:
                q.trail, q.srcdir = p.trail, p.srcdir
                w = q.witness(Lin.const(1))
                p.put('bad' if w else 'unknown', site + ', no zero coefficient', 'the coefficient %s may be zero%s' % (k, ' for ' + w if w else ''))
    if not t:
        p.chk(True, site)
    if cls:
        p.chk(f.cls is p.get('polynomial', cls), site + ', class', 'is a ' + f.cls.name)


def unchanged(p, f, s, site):
    t = snap(p, f)
    ok = len(t) == len(s) and all(c == c2 and all(p.is0(L(a) - b) for a, b in zip(e, e2)) for (e, c, k), (e2, c2, k2) in zip(t, s))
    if not ok:
        return p.chk(False, site, 'has other terms')
    p.chk(True, site)
    for (_, _, k), (_, _, k2) in zip(t, s):
        p.eqrat(k, k2, site)


def shapes(sizes, mod):
    for i, j in sizes:
        yield 'ring %d and %d terms' % (i, j), i, j, (-1,), (-1,)
        if mod:
            yield 'module %d and %d terms' % (i, j), i, j, (0, 1), (1, 0)


def s_addsub(n, order, k, l, pa, pb, cls='Poly'):
    def f(p):
        start(p, n, 2, order)
        a, b = spoly(p, 'a', k, pa, cls), spoly(p, 'b', l, pb, cls)
        sa, sb = snap(p, a), snap(p, b)
        o = p.pick(2)
        r = p.op('-' if o else '+', a, b)
        canon(p, r, 'canon: difference' if o else 'canon: sum', cls)
        value(p, r, sa + scale(p, sb, -1 if o else 1), 'value: difference' if o else 'value: sum')
        unchanged(p, a, sa, 'value: operands keep their value')
        unchanged(p, b, sb, 'value: operands keep their value')
    return f


def s_mulp(n, order, k, l, pa, pb, cls='Poly'):
    def f(p):
        start(p, n, 2, order)
        a, b = spoly(p, 'a', k, pa, cls), spoly(p, 'b', l, pb, cls)
        sa, sb = snap(p, a), snap(p, b)
        r = p.op('*', a, b)
        canon(p, r, 'canon: product', cls)
        value(p, r, tmul(p, sa, sb), 'value: product')
        unchanged(p, a, sa, 'value: operands keep their value')
        unchanged(p, b, sb, 'value: operands keep their value')
    return f


def s_scalar(cls='Poly'):
    """a number on either side; 0, 1, another whole number or a coefficient"""
    def f(p):
        start(p, 1, 2, 'POTlex')
        a = spoly(p, 'a', p.pick(3, 'terms'), cls=cls)
        sa = snap(p, a)
        c = [0, 1, 5, -1, Rat(Lin.const(0)), Rat(Lin.const(1)), p.coef('c')][p.pick(7, 'number')]
        rc = p.rat(c)
        one = [([0], -1, rc)] if not p.proved0(rc.n) else []
        k = p.pick(7, 'operation')
        if k == 0:
            r, w, s = p.op('+', a, c), sa + one, 'sum with a number'
        elif k == 1:
            r, w, s = p.op('+', c, a), sa + one, 'number plus polynomial'
        elif k == 2:
            r, w, s = p.op('-', a, c), sa + scale(p, one, -1), 'difference with a number'
        elif k == 3:
            r, w, s = p.op('-', c, a), scale(p, sa, -1) + one, 'number minus polynomial'
        elif k == 4:
            r, w, s = p.op('*', a, c), scale(p, sa, rc), 'multiple'
        elif k == 5:
            r, w, s = p.op('*', c, a), scale(p, sa, rc), 'number times polynomial'
        else:
            if p.proved0(rc.n):
                raise PathEnd()
            r, w, s = p.op('/', a, c), scale(p, sa, Rat(rc.d, rc.n)), 'quotient by a number'
        canon(p, r, 'canon: ' + s, cls)
        value(p, r, w, 'value: ' + s)
        unchanged(p, a, sa, 'value: operands keep their value')
    return f


def s_unary(cls='Poly'):
    def f(p):
        start(p, 2, 2, 'TOPdeglex')
        a = spoly(p, 'a', p.pick(3, 'terms'), (0, 1) if p.pick(2, 'module') else (-1,), cls)
        sa = snap(p, a)
        k = p.pick(6, 'operation')
        if k == 0:
            r, w, s = p.neg(a), scale(p, sa, -1), 'negation'
        elif k == 1:
            r, w, s = p.m(a, '__pos__'), sa, 'plus sign'
        elif k == 2:
            if any(c >= 0 for _, c, _ in sa):
                raise PathEnd()
            j = p.pick(3, 'power')
            r, w, s = p.op('**', a, j), [([0, 0], -1, Rat(Lin.const(1)))] if j == 0 else sa if j == 1 else tmul(p, sa, sa), 'power'
        elif k == 3:
            if cls == 'PolyDiff':
                raise PathEnd()
            v = p.pick(2, 'variable')
            r, w, s = p.m(a, 'prolong', v), scale(p, sa, 1, [int(i == v) for i in range(2)]), 'prolongation'
        elif k == 4:
            m = mono(p, 'm', -1 if any(c >= 0 for _, c, _ in sa) else p.pick(2, 'component of the factor') - 1)
            c = p.coef('c')
            r, w, s = p.m(a, 'mult', m, c), scale(p, sa, c, ex(p, m), pos(p, m)), 'multiple by a term'
        else:
            r, w, s = p.call(p.get('polynomial', cls), [a]), sa, 'copy'
        canon(p, r, 'canon: ' + s, cls)
        value(p, r, w, 'value: ' + s)
        unchanged(p, a, sa, 'value: operands keep their value')
    return f


def s_construct(cls='Poly'):
    def f(p):
        start(p, 2, 2, 'POTlex')
        C = p.get('polynomial', cls)
        k = p.pick(6)
        if k == 0:
            r, w = p.call(C, []), []
        elif k == 1:
            m = mono(p, 'm', p.pick(2) - 1)
            r, w = p.call(C, [m]), [(ex(p, m), pos(p, m), Rat(Lin.const(1)))]
        elif k == 2:
            r, w = p.call(C, [0]), []
        elif k == 3:
            r, w = p.call(C, [7]), [([0, 0], -1, Rat(Lin.const(7)))]
        elif k == 4:
            c = p.coef('c', False)
            r, w = p.call(C, [c]), [([0, 0], -1, c)]
        else:
            r, w = p.call(C, [Rat(Lin.const(0))]), []
        canon(p, r, 'canon: construction', cls)
        value(p, r, w, 'value: construction')
        if k in (0, 2, 5):
            p.chk(not p.truth(r), 'value: zero is false')
        if w and k != 4:
            p.chk(p.truth(r), 'value: a non-zero polynomial is true')
            m, c = p.m(r, 'lm'), p.m(r, 'lc')
            ismono(p, m, w[0][0], w[0][1], 'value: leading monomial')
            p.eqrat(c, w[0][2], 'value: leading coefficient')
    return f


def s_lead(cls='Poly'):
    def f(p):
        start(p, 2, 2, ORDERS[p.pick(4, 'order')])
        q = (0, 1) if p.pick(2, 'module') else (-1,)
        a, b = spoly(p, 'a', 2, q, cls), spoly(p, 'b', 1, q, cls)
        sa, sb = snap(p, a), snap(p, b)
        k = p.pick(2)
        if k == 0:
            ismono(p, p.m(a, 'lm'), sa[0][0], sa[0][1], 'value: leading monomial')
            p.eqrat(p.m(a, 'lc'), sa[0][2], 'value: leading coefficient')
            p.eqint(p.m(a, 'cmp', b), refcmp(p, p.order, terms(p, a)[0][0], terms(p, b)[0][0]), 'value: comparison of leading monomials')
        else:
            m = mono(p, 'm', p.pick(3, 'component') - 1)
            r = p.m(a, 'find', m)
            want = (sa[0][1] == -1 or sa[0][1] == pos(p, m)) and all(p.ge(L(i) - j) for i, j in zip(ex(p, m), sa[0][0]))
            p.chk((r is a) == want and (r is None) == (not want), 'value: a polynomial finds itself as divisor')
    return f


def arith(chk, only):
    pr = {}
    for nm, k, l, pa, pb in shapes([(0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2)], True):
        pr['sum and difference, ' + nm] = s_addsub(1, 'POTlex', k, l, pa, pb)
    pr['sum and difference, two variables'] = s_addsub(2, 'TOPdeglex', 2, 1, (0, 1), (1,))
    for nm, k, l, pa, pb in shapes([(0, 2), (1, 1), (1, 2), (2, 1), (2, 2)], False):
        pr['product, ' + nm] = s_mulp(1, 'POTlex', k, l, pa, pb)
    pr['product with a vector'] = s_mulp(1, 'TOPlex', 2, 2, (0, 1), (-1,))
    pr['product with a vector on the right'] = s_mulp(1, 'POTdeglex', 1, 2, (-1,), (1, 0))
    pr['product, two variables'] = s_mulp(2, 'TOPdeglex', 2, 1, (-1,), (-1,))
    for c in ('Poly', 'PolyDiff', 'PolySchem'):
        pr['numbers, ' + c] = s_scalar(c)
        pr['one operand, ' + c] = s_unary(c)
        pr['construction, ' + c] = s_construct(c)
    pr['leading term'] = s_lead()
    run(chk, mods(), 'pyginv polynomials', pr, only)


def p_canon(ctx, chk):
    arith(chk, ('canon', 'raise'))


def p_value(ctx, chk):
    arith(chk, ('value', 'raise'))
