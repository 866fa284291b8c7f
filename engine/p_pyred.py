"""pyginv: independence of results, reductions, normal forms, content, derivations, text forms."""
import itertools
from p_py import *

ONE_ = Rat(Lin.const(1))


def fresh(p, n=[0]):
    n[0] += 1
    return Rat(Lin.atom(Atom('w%d' % n[0])))


# ---- results do not share what an in-place operation changes ---------------------------------------------------------------
def scribble(p, r):
    """what reduction, content removal or a change of the list do to a polynomial"""
    for t in list(r.data):
        if isinstance(t, list):
            t[1] = fresh(p)
    r.data.append([None, None])


def s_share(cls):
    def f(p):
        start(p, 1, 2, 'POTlex')
        a = spoly(p, 'a', p.pick(3, 'terms'), cls=cls)
        sa = snap(p, a)
        k = p.pick(12, 'operation')
        ops = [lambda: p.op('+', a, 0), lambda: p.op('-', a, 0), lambda: p.op('*', a, 1), lambda: p.op('**', a, 1), lambda: p.m(a, '__pos__'), lambda: p.neg(a),
               lambda: p.op('+', a, Rat(Lin.const(0))), lambda: p.op('+', 3, a), lambda: p.call(a.cls, [a]), lambda: p.op('*', Rat(Lin.const(1)), a), lambda: p.op('-', 0, a), lambda: p.op('/', a, p.coef('c'))]
        r = ops[k]()
        scribble(p, r)
        unchanged(p, a, sa, 'share: changing the result of %s changes the operand' % ('+0 -0 *1 **1 + - +0 3+ copy 1* 0- /c'.split()[k]))
    return f


def s_share2(cls, o):
    def f(p):
        start(p, 1, 2, 'POTlex')
        a, b = spoly(p, 'a', p.pick(3, 'terms of a'), cls=cls), spoly(p, 'b', p.pick(3, 'terms of b'), cls=cls)
        sa, sb = snap(p, a), snap(p, b)
        r = p.op(o, a, b)
        scribble(p, r)
        unchanged(p, a, sa, 'share: changing the result of a%sb changes the left operand' % o)
        unchanged(p, b, sb, 'share: changing the result of a%sb changes the right operand' % o)
    return f


def p_share(ctx, chk):
    pr = {}
    for c in ('Poly', 'PolyDiff', 'PolySchem'):
        pr['one operand, ' + c] = s_share(c)
    for o in '+-*':
        pr['two operands, ' + o] = s_share2('Poly', o)
    run(chk, mods(), 'pyginv independence', pr, ('share', 'raise'))


# ---- oracle on lists of terms ----------------------------------------------------------------------------------------------
def clean(p, t):
    return [x for x in tsum(p, t) if not p.is0(p.rat(x[2]).n)]


def tcmp(p, x, y):
    e, c, _ = x
    g, d, _ = y
    o = p.order
    k = 0 if c == d else (1 if d == -1 or (c != -1 and c < d) else -1)
    if o.startswith('POT'):
        return k or cmpex(p, o, e, g)
    return cmpex(p, o, e, g) or k


def tsort(p, t):
    out = []
    for x in t:
        i = len(out)
        while i > 0 and tcmp(p, x, out[i - 1]) > 0:
            i -= 1
        out.insert(i, x)
    return out


def mulrat(p, a, b):
    return p.binop(ast.Mult, p.rat(a), p.rat(b))


def inv(r):
    return Rat(r.d, r.n)


def upto(p, f, want, site):
    """f is the polynomial with the terms `want`, up to a factor that is not zero"""
    w = clean(p, want)
    s = snap(p, f)
    if len(w) != len(s):
        return p.chk(False, site, 'has %d terms, must have %d' % (len(s), len(w)))
    match = []
    for e, c, k in s:
        for e2, c2, k2 in w:
            if c == c2 and all(p.is0(L(a) - b) for a, b in zip(e, e2)):
                match.append((k, p.rat(k2)))
                break
        else:
            return p.chk(False, site, 'has a term [%s] that must not be there' % ' '.join(str(p.facts.norm(L(x))) for x in e))
    p.chk(True, site)
    for k, k2 in match[1:]:
        k0, w0 = match[0]
        p.eqrat(mulrat(p, k, w0), mulrat(p, k2, k0), site)


def divs(p, m, d):
    return (d[1] == -1 or d[1] == m[1]) and all(p.ge(L(a) - b) for a, b in zip(m[0], d[0]))


def shifted(p, g, t, diffs=None):
    """g multiplied (derived) up to the monomial of the term t"""
    if diffs is None:
        q = [L(a) - b for a, b in zip(t[0], g[0][0])]
        return scale(p, g, 1, q, t[1] if g[0][1] < 0 else -1)
    for v, (a, b) in enumerate(zip(t[0], g[0][0])):
        for _ in range(p.concrete(L(a) - b)):
            g = total(p, g, v)
    return g


def redterm(p, f, t, g, diffs=None):
    """f minus the multiple of g that removes the term t"""
    h = shifted(p, g, t, diffs)
    return tsum(p, f, scale(p, h, mulrat(p, mulrat(p, t[2], -1), inv(g[0][2]))))


def total(p, t, v):
    """total derivative; every function depends on every variable"""
    name = VARS[v]
    out = [([L(a) + (1 if i == v else 0) for i, a in enumerate(e)], c, k) for e, c, k in t if c >= 0 or any(not p.is0(L(a)) for a in e)]
    return tsum(p, out + [(e, c, d) for e, c, k in t for d in [pymodels.derive(p, k, name)] if not p.proved0(d.n)])


# ---- single reductions -----------------------------------------------------------------------------------------------------
def s_red(n, order, k, i, l, how, cp, cq):
    """k terms, the i-th divisible by the first of l terms; components cp, and -1 or the same for the reducer"""
    def f(p):
        start(p, n, 2, order)
        g = spoly(p, 'g', l, cq)
        lead = snap(p, g)[0]
        e = [None] * k
        es = []
        for j in range(k):
            if j == i:
                es.append([L(a) + p.nat('q%d' % v) for v, a in enumerate(lead[0])])
            else:
                es.append([p.nat('f%d_%d' % (j, v)) for v in range(n)])
        f_ = spoly(p, 'f', k, cp, e=es)
        sf, sg = snap(p, f_), snap(p, g)
        t = sf[i]
        if how == 'reduction':
            p.m(f_, 'reduction', i, g)
            upto(p, f_, redterm(p, sf, t, sg), 'red: fraction-free reduction')
            canon(p, f_, 'red: canonical after a fraction-free reduction')
        else:
            p.m(f_, 'redRat', i, g)
            value(p, f_, redterm(p, sf, t, sg), 'red: reduction with division')
            canon(p, f_, 'red: canonical after a reduction with division')
        for x in snap(p, f_):
            p.chk(not (x[1] == t[1] and all(p.is0(L(a) - b) for a, b in zip(x[0], t[0]))), 'red: the term is gone')
        unchanged(p, g, sg, 'red: the reducer keeps its value')
    return f


def s_reduce(order, k, l, q):
    def f(p):
        start(p, 1, 2, order)
        g, h = spoly(p, 'g', l, q), spoly(p, 'f', k, q)
        sf, sg = snap(p, h), snap(p, g)
        hit = [t for t in sf if t[1] == sg[0][1] and all(p.is0(L(a) - b) for a, b in zip(t[0], sg[0][0]))]
        p.m(h, 'reduce', g)
        if hit:
            upto(p, h, redterm(p, sf, hit[0], sg), 'red: reduction by an equal leading monomial')
        else:
            unchanged(p, h, sf, 'red: nothing to reduce')
        canon(p, h, 'red: canonical after reduce')
        unchanged(p, g, sg, 'red: the reducer keeps its value')
    return f


def s_spoly(n, order, k, l, q):
    def f(p):
        start(p, n, 2, order)
        a, b = spoly(p, 'a', k, q), spoly(p, 'b', l, q)
        sa, sb = snap(p, a), snap(p, b)
        x, y = sa[0], sb[0]
        m = [i if p.ge(L(i) - j) else j for i, j in zip(x[0], y[0])]
        up = lambda s: [L(i) - j for i, j in zip(m, s[0][0])]
        want = scale(p, sa, y[2], up(sa)) + scale(p, sb, mulrat(p, x[2], -1), up(sb))
        want = [t for t in tsum(p, want) if not p.proved0(p.rat(t[2]).n)]
        r = p.m(p.get('polynomial', 'Poly'), 'S', a, b)
        upto(p, r, want, 'red: S-polynomial')
        canon(p, r, 'red: canonical S-polynomial')
        for t in snap(p, r):
            p.chk(tcmp(p, t, (m, x[1], None)) < 0, 'red: the leading terms cancel')
        unchanged(p, a, sa, 'red: the operands of S keep their value')
        unchanged(p, b, sb, 'red: the operands of S keep their value')
    return f


def p_red(ctx, chk):
    pr = {}
    for how in ('reduction', 'redRat'):
        for k, i, l in ((1, 0, 1), (1, 0, 2), (2, 0, 2), (2, 1, 1), (2, 1, 2), (3, 1, 2), (2, 0, 3)):
            pr['%s, term %d of %d by %d terms' % (how, i, k, l)] = s_red(1, 'POTlex', k, i, l, how, (-1,), (-1,))
        pr[how + ' of a vector'] = s_red(1, 'POTdeglex', 2, 0, 2, how, (0, 1), (0, 1))
        pr[how + ' of a vector, second term'] = s_red(1, 'TOPlex', 2, 1, 2, how, (0, 1), (1, 0))
        pr[how + ' of a vector by a polynomial'] = s_red(1, 'POTlex', 2, 0, 2, how, (0, 1), (-1,))
        pr[how + ', two variables'] = s_red(2, 'TOPdeglex', 2, 0, 1, how, (-1,), (-1,))
    for k, l in ((1, 1), (2, 1), (2, 2), (3, 1)):
        pr['reduce %d by %d' % (k, l)] = s_reduce('POTlex', k, l, (-1,))
    pr['reduce vectors'] = s_reduce('TOPlex', 2, 2, (0, 1))
    for k, l in ((1, 1), (2, 1), (2, 2)):
        pr['S %d and %d' % (k, l)] = s_spoly(1, 'POTlex', k, l, (-1,))
    pr['S of vectors'] = s_spoly(1, 'POTlex', 2, 2, (0, 1))
    pr['S, two variables'] = s_spoly(2, 'TOPdeglex', 1, 2, (-1,))
    run(chk, mods(), 'pyginv reductions', pr, ('red', 'raise'), deadline=500)


# ---- normal forms ----------------------------------------------------------------------------------------------------------
def box(n, hi):
    return list(itertools.product(range(hi + 1), repeat=n))


def conc(p, name, k, exps, cp):
    """k terms with monomials out of a finite set, descending"""
    es, cs = [], []
    for j in range(k):
        es.append(exps[p.pick(len(exps))])
        cs.append(cp[j % len(cp)])
    ts = [(list(e), c, None) for e, c in zip(es, cs)]
    for x, y in zip(ts, ts[1:]):
        p.assume(tcmp(p, x, y) > 0)
    return ts


def varying(p, name):
    """a coefficient that depends on the variable"""
    e = Lin.atom(Atom('sym:x')) * p.coef(name).n
    p.facts.add_ne(e)
    return Rat(e)


def s_nf(order, n, k, l, hi, cp, cq, fn, cls='Poly', low=1, fe=None, ge=None):
    def f(p):
        start(p, n, 2, order, p.get('polynomial', cls) if cls != 'Poly' else None)
        d = cls == 'PolyDiff' or None
        tf, tg = conc(p, 'f', k, fe or box(n, hi), cp), conc(p, 'g', l, ge or box(n, hi), cq)
        p.assume(sum(tg[0][0]) >= low)
        p.trail.append('%s over %s' % ([x[:2] for x in tf], [x[:2] for x in tg]))
        a = spoly(p, 'f', k, cp, cls, e=[x[0] for x in tf])
        g = spoly(p, 'g', l, cq, cls, e=[x[0] for x in tg], coef=[varying(p, 'v%d' % i) for i in range(l)] if fe else None)
        sf, sg = snap(p, a), snap(p, g)
        r = p.m(a, fn, g)
        w, head = sf, sf[0]
        for _ in range(40):
            w = tsort(p, clean(p, w))
            if fn == 'NFhead':
                todo = [t for t in w[:1] if divs(p, t, sg[0])]
            elif fn == 'NFtail':
                todo = [t for t in w[1:] if divs(p, t, sg[0])]
            else:
                todo = [t for t in w if divs(p, t, sg[0])]
            if not todo:
                break
            w = redterm(p, w, todo[0], sg, d)
        site = 'nf: ' + {'NFhead': 'head reduction', 'NFtail': 'tail reduction', 'NF': 'normal form'}[fn]
        if fn == 'NF':
            value(p, a, w, site)
            p.chk(r is a or snap(p, r) == snap(p, a), site + ' is returned')
        else:
            upto(p, a, w, site)
        canon(p, a, site + ', canonical')
        for i, t in enumerate(snap(p, a)):
            if (fn != 'NFhead' or i == 0) and (fn != 'NFtail' or i > 0):
                p.chk(not divs(p, t, sg[0]), site + ', irreducible')
        unchanged(p, g, sg, site + ', the basis keeps its value')
    return f


def p_nf(ctx, chk):
    pr = {}
    for fn in ('NFhead', 'NFtail', 'NF'):
        pr[fn + ' in one variable'] = s_nf('POTlex', 1, 2, 2, 2, (-1,), (-1,), fn)
        pr[fn + ', three terms'] = s_nf('POTlex', 1, 3, 1, 3, (-1,), (-1,), fn)
        pr[fn + ' in two variables'] = s_nf('TOPdeglex', 2, 2, 2, 1, (-1,), (-1,), fn)
        pr[fn + ' of vectors'] = s_nf('POTlex', 1, 2, 2, 1, (0, 1), (0, 1), fn, low=0)
    run(chk, mods(), 'pyginv normal forms', pr, ('nf', 'raise'), deadline=500)


# ---- content ---------------------------------------------------------------------------------------------------------------
NUMS = [(6, 4), (4, 6, 8), (-6, 9), (5,), (-7,), (3, 5, 7), (2, 4), (-4, -6), (1, 8), (10, 15, 6), (12, 18, 30)]
FRAC = [((1, 2), (1, 3)), ((2, 3),), ((5, 1), (1, 4)), ((1, 4), (1, 6), (1, 9)), ((3, 1), (7, 1)), ((-1, 2), (3, 8)), ((2, 3), (4, 3))]


def s_pp(sym):
    def f(p):
        start(p, 1, 2, 'POTlex')
        if sym:
            k = 1 + p.pick(3)
            a = spoly(p, 'a', k)
        else:
            cs = NUMS[p.pick(len(NUMS), 'numbers')]
            a = spoly(p, 'a', len(cs), coef=[Rat(Lin.const(c)) for c in cs])
        sa = snap(p, a)
        p.m(a, 'pp')
        upto(p, a, sa, 'content: removing it keeps the polynomial up to a factor')
        canon(p, a, 'content: canonical')
        if not sym:
            ks = [x[2].n.cval() if x[2].n.is_const() and x[2].d.is_const() else Fraction(1, 2) for x in snap(p, a)]
            p.chk(all(x.denominator == 1 for x in map(Fraction, ks)), 'content: whole coefficients stay whole', 'are %s' % ks)
            p.chk(math.gcd(*[abs(int(x)) for x in ks]) == 1, 'content: coprime afterwards', 'are %s' % ks)
        else:
            g = sa[0][2]
            unit = p.proved0(g.n - g.d)
            for x in sa[1:]:
                g = pymodels.combine(p, 'gcd', g, x[2])
                unit = unit or p.proved0(g.n - g.d)
            for x, y in zip(snap(p, a), sa):
                z = mulrat(p, x[2], g)
                u = p.proved0(z.n * y[2].d - y[2].n * z.d) or p.proved0(z.n * y[2].d + y[2].n * z.d)
                p.put('ok' if u or unit else 'unknown', 'content: the whole content is removed', '' if u or unit else 'a factor of the content may be left')
    return f


def s_cancel(sym):
    def f(p):
        start(p, 1, 2, 'POTlex')
        if sym:
            k = 1 + p.pick(3)
            ds = [p.pick(2) for _ in range(k)]
            a = spoly(p, 'a', k, coef=[Rat(p.coef('n%d' % i).n, p.coef('d%d' % i).n) if ds[i] else p.coef('n%d' % i) for i in range(k)])
        else:
            cs = FRAC[p.pick(len(FRAC), 'numbers')]
            a = spoly(p, 'a', len(cs), coef=[Rat(Lin.const(Fraction(*c))) for c in cs])
        sa = snap(p, a)
        p.m(a, 'cancel')
        upto(p, a, sa, 'content: clearing denominators keeps the polynomial up to a factor')
        canon(p, a, 'content: canonical')
        if not sym:
            ks = [x[2].n.cval() if x[2].n.is_const() and x[2].d.is_const() else Fraction(1, 2) for x in snap(p, a)]
            p.chk(all(Fraction(x).denominator == 1 for x in ks), 'content: no denominator is left', 'are %s' % ks)
    return f


def p_content(ctx, chk):
    run(chk, mods(), 'pyginv contents', {'pp, unknown coefficients': s_pp(True), 'pp, numbers': s_pp(False),
        'cancel, unknown coefficients': s_cancel(True), 'cancel, numbers': s_cancel(False)}, ('content', 'raise'))


# ---- derivations and shifts ------------------------------------------------------------------------------------------------
def fcoef(p, name):
    k = p.pick(3)
    if k < 2:
        return Rat(Lin.const(3)) if k else p.coef(name)
    e = Lin.atom(Atom('sym:x')) * p.coef(name).n
    p.facts.add_ne(e)
    return Rat(e)


def s_total(n, order):
    def f(p):
        C = p.get('polynomial', 'PolyDiff')
        start(p, n, 2, order, C)
        k = p.pick(3, 'terms')
        q = [(0, 1), (1, -1), (0, 0)][p.pick(3, 'components')]
        a = spoly(p, 'a', k, q, 'PolyDiff', coef=[fcoef(p, 'c%d' % i) for i in range(k)])
        if any(c < 0 and not all(p.is0(L(x)) for x in e) for e, c, _ in snap(p, a)):
            raise PathEnd()
        sa = snap(p, a)
        v = p.pick(n, 'variable')
        r = p.m(a, 'prolong', v)
        value(p, r, total(p, sa, v), 'diff: prolongation is the total derivative')
        canon(p, r, 'diff: the derivative is canonical', 'PolyDiff')
        scribble(p, r)
        unchanged(p, a, sa, 'diff: the operand keeps its value')
    return f


def s_partial(cls):
    def f(p):
        C = p.get('polynomial', cls)
        start(p, 1, 2, 'POTlex', C if cls != 'Poly' else None)
        k = p.pick(3, 'terms')
        a = spoly(p, 'a', k, (0, 1), cls, coef=[fcoef(p, 'c%d' % i) for i in range(k)])
        sa = snap(p, a)
        r = p.m(a, 'diff', Sym('x'))
        value(p, r, [(e, c, pymodels.derive(p, x, 'x')) for e, c, x in sa], 'diff: coefficientwise derivative')
        canon(p, r, 'diff: the derivative is canonical', cls)
        unchanged(p, a, sa, 'diff: the operand keeps its value')
    return f


ARGS = [(), ('x',), ('y',), ('x', 2), ('x', 'y'), ('x', 2, 'y'), ('x', 'y', 3), ('x', 'x'), ('y', 2, 'x', 3), ('y', 'x', 'y'), ('x', 1), ('y', 0), ('x', 'x', 2), ('x', 2, 'y', 'x', 3)]


def s_op(cls, fn):
    def f(p):
        C = p.get('polynomial', cls)
        v, u = p.m(C, 'init', ['x', 'y'], ['u', 'v'])
        p.M, p.n, p.fun, p.order = p.get('monomial', 'Monom'), 2, 2, 'POTlex'
        p.setattr(p.M, 'cmp', p.getattr(p.M, 'POTlex'))
        fu = p.pick(2, 'function')
        args = ARGS[p.pick(len(ARGS), 'arguments')]
        env = {'x': v[0], 'y': v[1]}
        want, last = [0, 0], None
        for a in args:
            if isinstance(a, str):
                last = 'xy'.index(a)
                want[last] += 1
            else:
                want[last] += a - 1
        r = p.call(p.getattr(C, fn), [u[fu]] + [env.get(a, a) for a in args])
        value(p, r, [(want, fu, ONE_)], 'diff: the operator %s builds the monomial' % fn)
        canon(p, r, 'diff: canonical', cls)
    return f


def s_import():
    """differential expressions of the computer algebra system"""
    def f(p):
        C = p.get('polynomial', 'PolyDiff')
        v, u = p.m(C, 'init', ['x', 'y'], ['u', 'v'])
        p.M, p.n, p.fun, p.order = p.get('monomial', 'Monom'), 2, 2, 'POTlex'
        p.setattr(p.M, 'cmp', p.getattr(p.M, 'POTlex'))
        S_ = p.module('sympy') if hasattr(p, 'pymod') else None
        head = lambda n: p.mods['sympy'][n] if isinstance(p.mods.get('sympy'), dict) else p.module('sympy')[n]
        c = p.coef('c')
        fx = SExpr(u[0], (v[0], v[1]))
        gx = SExpr(u[1], (v[0], v[1]))
        D = lambda w, *a: SExpr(head('Derivative'), (w,) + tuple(a))
        one = [([0, 0], -1, ONE_)]
        prog = [
            (fx, [([0, 0], 0, ONE_)]), (gx, [([0, 0], 1, ONE_)]),
            (D(fx, (v[0], 2)), [([2, 0], 0, ONE_)]), (D(gx, (v[1], 1), (v[0], 3)), [([3, 1], 1, ONE_)]),
            (SExpr(head('Mul'), (c, D(fx, (v[1], 1)))), [([0, 1], 0, c)]),
            (SExpr(head('Add'), (c, D(fx, (v[1], 1)), gx)), [([0, 0], -1, c), ([0, 1], 0, ONE_), ([0, 0], 1, ONE_)]),
            (SExpr(head('Add'), (SExpr(head('Mul'), (c, fx)), SExpr(head('Mul'), (c, c, gx)))), [([0, 0], 0, c), ([0, 0], 1, mulrat(p, c, c))]),
            (c, [([0, 0], -1, c)]), (Rat(Lin.const(0)), [])]
        a, want = prog[p.pick(len(prog), 'expression')]
        r = p.call(p.getattr(C, 'diff2poly'), [a])
        value(p, r, want, 'diff: an expression becomes the polynomial it denotes')
        canon(p, r, 'diff: canonical', 'PolyDiff')
    return f


def p_diff(ctx, chk):
    pr = {'total derivative, ' + o: s_total(2, o) for o in ('POTlex', 'TOPdeglex')}
    for c in ('Poly', 'PolyDiff', 'PolySchem'):
        pr['coefficientwise, ' + c] = s_partial(c)
    pr['df'] = s_op('PolyDiff', 'df')
    pr['T'] = s_op('PolySchem', 'T')
    pr['expressions'] = s_import()
    for fn in ('NFhead', 'NFtail', 'NF'):
        pr[fn + ' of differential polynomials'] = s_nf('POTlex', 1, 2, 2, 2, (0, 1), (0, 1), fn, 'PolyDiff', 0)
        pr[fn + ' of differential polynomials, one function'] = s_nf('TOPdeglex', 1, 2, 2, 2, (0,), (0,), fn, 'PolyDiff', 1)
        pr[fn + ' of differential polynomials, three terms'] = s_nf('POTlex', 1, 3, 1, 3, (0,), (0,), fn, 'PolyDiff', 1)
        pr[fn + ' of differential polynomials, variable coefficients, two terms'] = s_nf('POTlex', 1, 1, 2, 0, (0,), (0,), fn, 'PolyDiff', 0, [(2,), (1,)], [(1,), (0,)])
        pr[fn + ' of difference polynomials'] = s_nf('POTlex', 1, 2, 2, 2, (0, 1), (0, 1), fn, 'PolySchem', 0)
    run(chk, mods(), 'pyginv derivations', pr, ('diff', 'nf', 'raise'), deadline=500)


# ---- text ------------------------------------------------------------------------------------------------------------------
def read(s, kind):
    """(exponents, component, coefficient) list of a sum in the notation `kind`"""
    t = ast.parse(s.strip(), mode='eval').body

    def mulmono(a, b):
        return ([x + y for x, y in zip(a[0], b[0])], max(a[1], b[1]), a[2] * b[2])

    def name(n):
        if n in VARS[:2]:
            return ([int(n == 'x'), int(n == 'y')], -1, Fraction(1))
        return ([0, 0], FUNS.index(n), Fraction(1))

    def term(e):
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
            return mulmono(term(e.left), term(e.right))
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Pow):
            b, k = term(e.left), e.right.value
            return ([x * k for x in b[0]], b[1], b[2] ** k)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            b = term(e.operand)
            return (b[0], b[1], -b[2])
        if isinstance(e, ast.Constant):
            return ([0, 0], -1, Fraction(e.value))
        if isinstance(e, ast.Name):
            return name(e.id)
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Name) and fn.id == kind:
                b, args = name(e.args[0].id), e.args[1:]
            elif isinstance(fn, ast.Name):
                assert [a.id for a in e.args] == VARS[:2]
                return name(fn.id)
            else:
                assert fn.attr == 'diff'
                b, args = term(fn.value), e.args
            last = None
            for a in args:
                if isinstance(a, ast.Name):
                    last = VARS.index(a.id)
                    b[0][last] += 1
                else:
                    b[0][last] += a.value - 1
            return b
        raise ValueError

    def total_(e):
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return total_(e.left) + total_(e.right)
        return [term(e)]
    return total_(t)


def s_text(cls, fn, kind):
    def f(p):
        C = p.get('polynomial', cls)
        start(p, 2, 2, 'POTlex', C)
        p.setattr(p.M, 'cmp', p.getattr(p.M, 'POTlex'))
        k = p.pick(3, 'terms')
        ring = cls == 'Poly' and p.pick(2, 'ring')
        q = (-1,) if ring else (0, 1)
        nums = [1, 2, -3, 12]
        es = [box(2, 2 if k < 2 else 1)[p.pick(9 if k < 2 else 4)] for _ in range(k)]
        if k == 2 and not ring and p.pick(2, 'constant'):
            q, es = (1, -1), [es[0], (0, 0)]
        a = spoly(p, 'a', k, q, cls, e=es, coef=[Rat(Lin.const(nums[p.pick(4)])) for _ in range(k)])
        sa = snap(p, a)
        s = p.text(a) if fn == 'str' else p.m(a, fn)
        s = unrat(s)
        try:
            got = [x for x in read(s, kind) if x[2]]
        except Exception as e:
            return p.chk(False, 'text: readable', 'is %r' % s)
        p.chk(sorted((tuple(e), c, k) for e, c, k in got) == sorted((tuple(p.concrete(x) for x in e), c, Fraction(k.n.cval())) for e, c, k in sa), 'text: denotes the polynomial', 'is %r for %s' % (s, sa))
    return f


def unrat(s):
    return s.replace('<', '').replace('>', '')


def s_mtext(fn, kind):
    def f(p):
        start(p, 2, 2, 'POTlex')
        c = p.pick(3, 'component') - 1
        e = box(2, 3)[p.pick(16)]
        if fn in ('df', 'T', 'df_sympy') and c < 0:
            e = (0, 0)
        m = mono(p, 'm', c, e=e)
        s = p.text(m) if fn == 'str' else p.repr_(m) if fn == 'repr' else p.m(m, fn)
        if fn == 'repr':
            want = '[%s%s]' % ('%d;' % c if c >= 0 else '', ' '.join(map(str, e)))
            return p.chk(s == want, 'text: exponents and component', 'is %s for %s' % (s, want))
        try:
            got = read(s, kind)
            ok = len(got) == 1 and tuple(got[0][0]) == tuple(e) and got[0][1] == c and got[0][2] == 1
        except Exception:
            ok = False
        p.chk(ok, 'text: denotes the monomial', '%s of %s, component %d, is %r' % (fn, e, c, s))
    return f


def p_text(ctx, chk):
    pr = {}
    for fn, kind in (('str', ''), ('repr', ''), ('df', 'df'), ('T', 'T'), ('df_sympy', '')):
        pr['monomial ' + fn] = s_mtext(fn, kind)
    for cls, fn, kind in (('Poly', 'str', ''), ('PolyDiff', 'str', 'df'), ('PolyDiff', 'df_sympy', ''), ('PolySchem', 'str', 'T')):
        pr[cls + ' ' + fn] = s_text(cls, fn, kind)
    run(chk, mods(), 'pyginv text', pr, ('text', 'raise'))
