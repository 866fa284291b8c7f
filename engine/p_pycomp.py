"""pyginv: the completions, with polynomials abstracted to leading monomial and identity."""
import p_gb
from p_pyjan import *

LOSS, CLOSE, FORM, TYPE = 1, 2, 4, 8


class Tok(P):
    def __init__(self, *a):
        super().__init__(*a)
        self.ghost = {'hist': p_gb.Hist()}
        self.events = []                 # what was reduced by what to what
        self.others = []                 # no result has a leading monomial that one of these divides
        self.wild, self.what, self.deg, self.maxwild = 0, 0, 2, 1
        red = lambda I, a, k: I.m_red(*a)
        for c in ('Poly', 'PolyDiff'):
            for n, g in (('reduction', red), ('redRat', red), ('NFtail', lambda I, a, k: I.m_tail(a[0])), ('pp', lambda I, a, k: I.m_pp(a[0])),
                         ('cancel', lambda I, a, k: I.m_cancel(a[0]))):
                self.models['polynomial.%s.%s' % (c, n)] = g
        self.models['janet.Janet.__insert'] = lambda I, a, k: I.m_enter(a[1])
        self.models['polynomial.Poly.assertValid'] = lambda I, a, k: True

    # interface of the record
    def deref(self, x):
        return Lin.const(x) if isinstance(x, int) else x

    @property
    def h(self):
        return self.ghost['hist']

    def up(self, **kw):
        self.ghost['hist'] = self.h.w(**kw)

    def code(self, m):
        e = [self.concrete(x) for x in ex(self, m)]
        r = self.concrete(pos(self, m)) + 1
        for i in range(3):
            r = r * 32 + (e[i] if i < len(e) else 0)
        return r

    def key(self, f):
        m, k = f.data[0]
        k = self.rat(k)
        if not k.n.is_const():
            raise Unsup('coefficient of an abstract polynomial')
        return int(k.n.cval()), self.code(m)

    def tok(self, f):
        i, c = self.key(f)
        return i, c

    def gen(self, c):
        h = self.h
        i = h.next
        self.up(toks={**h.toks, (i, c): c}, np=h.np | {(i, c)}, next=i + 1, clock=h.clock + 1, const=h.const or c == 0)
        return i

    def demand(self, r, site):
        if r:
            self.put('bad' if r[0] == 'bad' else r[0], site, r[1])
        else:
            self.put('ok', site)

    def fresh_tail(self, t):
        h = self.h
        return all(s <= h.tail.get(t, -1) for _, s in h.tree)

    def mono_of(self, c):
        q, *e = p_gb.dig(c)
        return mono(self, '', q, e=e[:self.n])

    def m_red(self, f, i, g):
        if self.concrete(i) != 0 or not f.data or not g.data:
            raise Unsup('reduction of a lower term of an abstract polynomial')
        a, b = self.tok(f), self.tok(g)
        self.chk(p_gb.divides(b[1], a[1]), 'reduce: the reduced term is divisible', '%s by %s' % (p_gb.show(a[1]), p_gb.show(b[1])))
        self.demand(p_gb.n_known(None, self, list(a)), 'provenance: what is reduced stems from the input')
        self.demand(p_gb.n_known(None, self, list(b)), 'provenance: what reduces stems from the input')
        h = self.h
        intree = any(c2 == b[1] or p_gb.divides(c2, b[1]) for c2, _ in h.tree) and not (b[1] == a[1] and (b in h.toks or True) and not self.is_tree(g))
        clean_ = intree or self.fresh_tail(a) and self.fresh_tail(b)
        outs = [-1]
        if h.wild < self.maxwild:
            top = p_gb.deg(a[1]) if 'deg' in self.order else self.deg
            mine = self.mono_of(a[1])
            for q in ([-1] if a[1] < 32768 else range(0, self.fun)):
                for e in itertools.product(range(top + 1), repeat=self.n):
                    if sum(e) > top:
                        continue
                    m = q + 1
                    for v in range(3):
                        m = m * 32 + (e[v] if v < self.n else 0)
                    if m != a[1] and not any(u is not f and u.data and p_gb.divides(self.code(u.data[0][0]), m) for u in self.others) and not (clean_ and p_gb.janet_divisor(h.tree, m)) and refcmp(self, self.order, self.mono_of(m), mine) < 0:
                        outs.append(m)
        o = outs[self.pick(len(outs))]
        if len(outs) > 1:
            self.trail.append('%s -> %s' % (p_gb.show(a[1]), p_gb.show(o) if o >= 0 else '0'))
        g2 = h.w(used=h.used | {a}, clock=h.clock + 1)
        self.events.append((a, b, -1 if o < 0 else h.next))
        if o < 0:
            f.data[:] = []
        else:
            r = h.next
            g2 = g2.w(toks={**g2.toks, (r, o): o}, np=g2.np | {(r, o)}, next=r + 1, wild=g2.wild + 1, const=g2.const or o == 0)
            if clean_ and not intree:
                g2 = g2.w(tail={**g2.tail, (r, o): h.clock})
            f.data[:] = [[self.mono_of(o), Rat(Lin.const(r))]]
        self.ghost['hist'] = g2
        return None

    def is_tree(self, g):
        return any(at(self, w, 'poly') is g for J in self.tree for w in self.iterate(J if J.cls.find('__iter__') is None else self.m(J, '__iter__')))

    def m_tail(self, f):
        if not f.data:
            return None
        t = self.tok(f)
        h = self.h
        g = h.w(tail={**h.tail, t: h.clock}, clock=h.clock + 1)
        if self.what & TYPE and not h.dirty and self.pick(2):
            self.trail.append('the tail of %s changes' % p_gb.show(t[1]))
            g = g.w(dirty=1, np=g.np | {t})
        self.ghost['hist'] = g
        return None

    def m_pp(self, f):
        if f.data:
            t = self.tok(f)
            h = self.h
            self.up(np=h.np - {t}, pp=h.pp | {t}, clock=h.clock + 1)
        return None

    def m_cancel(self, f):
        return None

    def m_enter(self, w):
        h = self.h
        self.up(tree=h.tree + ((self.code(at(self, w, 'lm')), h.clock),), clock=h.clock + 1)
        return NotImplemented


def elements(p, J):
    return list(p.iterate(J if J.cls.find('__iter__') is None else p.m(J, '__iter__')))


def below(p, a, b, v):
    a, b = p_gb.dig(a), p_gb.dig(b)
    return a[0] == b[0] and a[1:1 + v] == b[1:1 + v] and b[1 + v] > a[1 + v]


def verdict(p, J, what):
    ws = elements(p, J)
    p.up(basis=frozenset())
    cs = []
    for w in ws:
        q = at(p, w, 'poly')
        if not p.truth(q):
            return p.chk(False, 'provenance: no element is zero')
        t = p.tok(q)
        p.up(basis=p.h.basis | {t})
        cs.append(t)
    if what & LOSS:
        if not any(c == 0 for _, c in cs):
            p.demand(lost(p), 'loss: the basis generates every polynomial')
        p.demand(p_gb.n_covered(None, p, []), 'loss: every leading monomial has a divisor in the basis')
        for t in cs:
            p.demand(p_gb.n_known(None, p, list(t)), 'provenance: the basis stems from the input')
    for k, w in enumerate(ws):
        lm = p.code(at(p, w, 'lm'))
        for v in range(p.n):
            nm = any(below(p, lm, p.code(at(p, u, 'lm')), v) for u in ws if u is not w)
            if what & FORM:
                p.chk(p.truth(p.getitem(at(p, w, 'nonmult'), v)) == nm, 'form: non-multiplicative variables', 'variable %d of %s' % (v, p_gb.show(lm)))
            if what & CLOSE and nm:
                x = p.m(at(p, w, 'lm'), 'prolong', v)
                p.chk(p.m(J, 'find', x) is not None, 'close: every prolongation has a divisor', p_gb.show(p.code(x)))
                p.demand(p_gb.n_treated(None, p, [cs[k][0], cs[k][1], p.code(x), int(p.cls_ == 'Poly' and lm < 32768)]), 'close: every prolongation is reduced or superfluous')
        if what & FORM:
            p.chk(lm == cs[k][1], 'form: the entry names the leading monomial')
            p.chk(p_gb.divides(p.code(at(p, w, 'ansector')), lm), 'form: the ancestor divides')
            p.chk(p.m(J, 'findWrap', at(p, w, 'lm')) is w, 'form: an element is the divisor of its leading monomial')
        if what & TYPE:
            p.ghost['smaller'] = {cs[k][1]: tuple(c for u, (_, c) in zip(ws, cs) if u is not w and refcmp(p, p.order, at(p, u, 'lm'), at(p, w, 'lm')) < 0)}
            p.demand(p_gb.n_primitive(None, p, list(cs[k])), 'type: the content has been removed')
            p.demand(p_gb.n_tailed(None, p, list(cs[k])), 'type: the tail has been reduced by every smaller element')
    if what & FORM:
        p.eqint(p.m(J, 'count'), len(ws), 'form: size')
        got = sorted(p.code(at(p, w, 'lm')) for w in p.iterate(p.m(J, 'GB')))
        all_ = [c for _, c in cs]
        p.chk(got == sorted(c for c in all_ if not any(d != c and p_gb.divides(d, c) for d in all_)), 'form: the reduced basis consists of the minimal leading monomials', 'are %s of %s' % (list(map(p_gb.show, got)), list(map(p_gb.show, all_))))


def lost(p):
    """every polynomial that ever appeared lies in what the basis generates: it is a basis element, or was reduced to such
    polynomials by such polynomials, or reduced an equal leading monomial of such a polynomial to such a polynomial"""
    h = p.h
    S_ = {t[0] for t in h.basis if t in h.toks}
    own = {i: c for i, c in h.toks}
    while True:
        new = set()
        for (i, c), (j, d), r in p.events:
            if own.get(i) == c and j in S_ and (r < 0 or r in S_):
                new.add(i)
            if own.get(j) == d and c == d and i in S_ and (r < 0 or r in S_):
                new.add(j)
        if new <= S_:
            break
        S_ |= new
    for i, c in sorted(own.items()):
        if i not in S_:
            return 'bad', 'the polynomial with leading monomial %s is not generated by the basis {%s}' % (p_gb.show(c), ', '.join(p_gb.show(d) for _, d in sorted(h.basis)))


def M(c, *e):
    e = list(e) + [0] * (3 - len(e))
    return (((c + 1) * 32 + e[0]) * 32 + e[1]) * 32 + e[2]


def s_complete(alg, what, order, n, gens, deg=1, cls='Poly', tree='Janet', level=0, again=(), wild=1):
    def f(p):
        module = gens[0] >= 32768
        C = p.get('polynomial', cls)
        start(p, n, 2 if module else 0, order, C)
        p.deg, p.what, p.cls_, p.maxwild = deg, what, cls, wild
        p.fun = 2 if module else 0
        J = p.call(p.get('janet', 'Forest'), [p.get('janet', tree)]) if module else p.call(p.get('janet', tree), [])
        p.tree = [J]
        G = p.get('ginv', alg)

        def make(cs):
            out = []
            for c in cs:
                q = p.call(C, [])
                q.data.append([p.mono_of(c), Rat(Lin.const(p.gen(c)))])
                out.append(q)
            return out
        p.call(G, [make(gens), J], {'level': level} if level else {})
        if again:
            p.call(G, [make(again), J])
        verdict(p, J, what)
    return f


SYS = [  # name, order, variables, degree considered, generators
    ('x2 xy', 'TOPdeglex', 2, 1, [M(-1, 2, 0), M(-1, 1, 1)]),
    ('x2 y2', 'TOPdeglex', 2, 1, [M(-1, 2, 0), M(-1, 0, 2)]),
    ('x2 x2', 'TOPdeglex', 2, 2, [M(-1, 2, 0), M(-1, 2, 0)]),
    ('xy y2', 'TOPdeglex', 2, 2, [M(-1, 1, 1), M(-1, 0, 2)]),
    ('x2y xy2', 'TOPdeglex', 2, 1, [M(-1, 2, 1), M(-1, 1, 2)]),
    ('powers', 'TOPdeglex', 1, 3, [M(-1, 3), M(-1, 2), M(-1, 3)]),
    ('gap', 'TOPdeglex', 2, 2, [M(-1, 3, 1), M(-1, 1, 0)]),
    ('three', 'TOPdeglex', 2, 1, [M(-1, 2, 0), M(-1, 1, 1), M(-1, 0, 2)]),
    ('cross', 'TOPdeglex', 3, 1, [M(-1, 1, 1, 0), M(-1, 0, 1, 1)]),
    ('unit', 'TOPdeglex', 2, 1, [M(-1, 1, 0), M(-1, 0, 0)]),
    ('lex', 'TOPlex', 2, 2, [M(-1, 2, 0), M(-1, 1, 1)]),
    ('vectors', 'TOPdeglex', 2, 1, [M(0, 1, 0), M(0, 0, 1)]),
    ('vectors of two components', 'TOPdeglex', 1, 2, [M(0, 2), M(1, 1), M(0, 1)]),
    ('unit vector', 'TOPdeglex', 1, 1, [M(0, 0), M(0, 1)]),
    ('component first', 'POTlex', 1, 2, [M(1, 2), M(0, 1)]),
]
SYS += [
    ('skip', 'TOPdeglex', 2, 1, [M(-1, 1, 0), M(-1, 2, 0), M(-1, 0, 3)]),
    ('chain', 'TOPdeglex', 2, 1, [M(-1, 2, 0), M(-1, 0, 2), M(-1, 1, 1)]),
    ('lex gap', 'TOPlex', 3, 1, [M(-1, 2, 0, 0), M(-1, 0, 0, 1)]),
    ('three variables', 'TOPdeglex', 3, 1, [M(-1, 0, 1, 1), M(-1, 1, 0, 1), M(-1, 1, 1, 0)]),
    ('three vectors', 'TOPdeglex', 2, 1, [M(1, 1, 1), M(1, 0, 2), M(0, 1, 0)]),
    ('equal vectors', 'POTdeglex', 1, 2, [M(0, 1), M(0, 1), M(1, 1)]),
    ('position over term', 'POTdeglex', 2, 1, [M(1, 1, 0), M(0, 0, 1), M(0, 1, 0)]),
]
ALGS = (('ginvMin', 0), ('ginvBlockLow', 0))


def comp(chk, what, names, rule, only, deadline=500, **kw):
    pr = {}
    for nm, o, n, d, g in SYS:
        if nm in names:
            for alg, lv in ALGS:
                if alg == 'ginvBlockLow' and o != 'TOPdeglex':
                    continue
                pr['%s, %s' % (alg, nm)] = s_complete(alg, what, o, n, g, d, **kw)
                if g[0] >= 32768:
                    pr['%s, %s, derivations' % (alg, nm)] = s_complete(alg, what, o, n, g, d, 'PolyDiff', **kw)
    run(chk, mods(), rule, pr, only, cls=Tok, deadline=deadline, limit=20000)


ALLN = [s[0] for s in SYS]


def p_closed(ctx, chk):
    deep = ctx.tier == 'thorough'
    comp(chk, LOSS | CLOSE | FORM, ALLN, 'pyginv completions', ('loss', 'close', 'form', 'provenance', 'reduce', 'raise'), 700 if deep else 500, wild=2)
    pr = {}
    for nm, n, d, g in (('one', 2, 1, [M(-1, 1, 1)]), ('equal pair', 2, 2, [M(-1, 1, 1)] * 2), ('pair', 2, 2, [M(-1, 2, 0), M(-1, 1, 1)]), ('three', 2, 1, [M(-1, 1, 1), M(-1, 0, 2), M(-1, 1, 1)]),
                        ('all equal', 2, 1, [M(-1, 0, 2)] * 3), ('two pairs', 2, 1, [M(-1, 1, 0), M(-1, 0, 1), M(-1, 0, 1), M(-1, 1, 0)]), ('equal vectors', 1, 2, [M(0, 2)] * 2),
                        ('two components', 1, 1, [M(0, 2), M(1, 2), M(0, 2)])):
        pr['mutual reduction, ' + nm] = s_auto('TOPdeglex', n, g, d)
    run(chk, mods(), 'pyginv completions', pr, ('auto', 'raise'), cls=Tok, deadline=100, limit=20000)


def p_tails(ctx, chk):
    comp(chk, TYPE, ['x2 xy', 'x2 x2', 'gap', 'vectors', 'three', 'component first', 'skip', 'unit vector'], 'pyginv completions, tails', ('type', 'raise'), 700 if ctx.tier == "thorough" else 500)


def s_auto(order, n, gens, deg, wild=2, cls='Poly'):
    """mutual reduction of what is about to be inserted"""
    def f(p):
        module = gens[0] >= 32768
        C = p.get('polynomial', cls)
        start(p, n, 2 if module else 0, order, C)
        p.deg, p.what, p.cls_, p.maxwild, p.fun, p.tree = deg, LOSS, cls, wild, 2 if module else 0, []
        W = p.get('janet', 'Wrap')
        ws = []
        for c in gens:
            q = p.call(C, [])
            q.data.append([p.mono_of(c), Rat(Lin.const(p.gen(c)))])
            ws.append(p.call(W, [q]))
            p.others.append(q)
        Q = p.call(p.get('ginv', 'Q'), [])
        res = list(p.iterate(p.m(Q, 'autoReduce', ws)))
        rest = list(p.iterate(Q))
        p.chk(len(res) > 0, 'auto: something remains')
        toks = []
        for w in res + rest:
            q = at(p, w, 'poly')
            if not p.truth(q):
                return p.chk(False, 'auto: no element is zero')
            t = p.tok(q)
            toks.append(t)
            p.chk(p.code(at(p, w, 'lm')) == t[1], 'auto: the entry names the leading monomial', '%s, not %s' % (p_gb.show(p.code(at(p, w, 'lm'))), p_gb.show(t[1])))
            p.chk(p_gb.divides(p.code(at(p, w, 'ansector')), t[1]), 'auto: the ancestor divides')
        p.up(basis=frozenset(toks))
        r = lost(p)
        p.chk(r is None, 'auto: what remains generates every polynomial', r and r[1])
        k = len(res)
        p.chk(len(set(t[1] for t in toks[:k])) == k, 'auto: leading monomials are distinct')
        low = min(p_gb.deg(t[1]) for t in toks)
        p.chk(all(p_gb.deg(t[1]) == low for t in toks[:k]), 'auto: the lowest degree is inserted')
        p.chk(all(p_gb.deg(t[1]) != low for t in toks[k:]) , 'auto: the rest waits')
    return f


def p_more(ctx, chk):
    """a second call with more generators, the printing variants, the caching tree, difference polynomials"""
    W = LOSS | CLOSE | FORM
    D = 'TOPdeglex'
    pr = {}
    for alg in ('ginvMin', 'ginvBlockLow'):
        for nm, n, g, a in (('lower', 2, [M(-1, 1, 1)], [M(-1, 1, 0)]), ('upper', 2, [M(-1, 1, 0)], [M(-1, 1, 1)]), ('same', 1, [M(-1, 2)], [M(-1, 2)]),
                            ('chain', 2, [M(-1, 2, 0), M(-1, 0, 2)], [M(-1, 1, 1)]), ('above', 2, [M(-1, 1, 2)], [M(-1, 2, 0)]), ('vectors', 1, [M(0, 2)], [M(1, 1), M(0, 1)])):
            pr['%s, more generators, %s' % (alg, nm)] = s_complete(alg, W, D, n, g, 1, again=a)
        pr[alg + ', printing'] = s_complete(alg, W, D, 2, [M(-1, 2, 0), M(-1, 1, 1)], 1, level=1)
        pr[alg + ', printing derivations'] = s_complete(alg, W, D, 2, [M(0, 1, 0), M(0, 0, 1)], 1, 'PolyDiff', level=1)
        pr[alg + ', printing differences'] = s_complete(alg, W, D, 2, [M(0, 1, 0), M(0, 0, 1)], 1, 'PolySchem', level=1)
        pr[alg + ', cache'] = s_complete(alg, W, D, 2, [M(-1, 2, 0), M(-1, 1, 1)], 1, tree='JanetCache')
        pr[alg + ', cache, vectors'] = s_complete(alg, W, D, 2, [M(0, 1, 0), M(0, 0, 1)], 1, tree='JanetCache')
        pr[alg + ', differences'] = s_complete(alg, W, D, 1, [M(0, 2), M(1, 1), M(0, 1)], 1, 'PolySchem')
    run(chk, mods(), 'pyginv completions, variants', pr, ('loss', 'close', 'form', 'provenance', 'reduce', 'raise'), cls=Tok, deadline=500, limit=20000)
