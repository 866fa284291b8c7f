"""pyginv: wraps, Janet trees, Hilbert polynomials, completions seen from the leading monomials."""
import itertools
import p_gb
from p_pyred import *


def janet(p):
    return {n: p.get('janet', n) for n in ('Wrap', 'Janet', 'JanetCache', 'Forest', 'CombRepet', 'HilbertPoly')}


def wrap(p, m, k=None):
    c = p.coef('c%d' % len(p.trail)) if k is None else Rat(Lin.const(k))
    return p.call(p.get('janet', 'Wrap'), [poly(p, [(m, c)])])


def at(p, o, n):
    return p.attr(o, n)


def flags(p, w, n):
    return [p.truth(x) for x in p.iterate(at(p, w, n))]


# ---- wraps -----------------------------------------------------------------------------------------------------------------
def s_wrap(n):
    def f(p):
        start(p, n, 2, 'POTlex')
        c = p.pick(2, 'component') - 1
        W = p.get('janet', 'Wrap')
        a = spoly(p, 'a', 2, (c,))
        sa = snap(p, a)
        w = p.call(W, [a])
        ismono(p, at(p, w, 'lm'), sa[0][0], c, 'wrap: leading monomial')
        ismono(p, at(p, w, 'ansector'), sa[0][0], c, 'wrap: a new wrap is its own ancestor')
        p.chk(p.m(w, 'isGB') is True, 'wrap: a new wrap belongs to the basis')
        p.chk(flags(p, w, 'prolong') == [False] * n and flags(p, w, 'nonmult') == [False] * n, 'wrap: nothing is marked')
        p.eqint(p.m(w, 'degree'), sum((L(x) for x in sa[0][0]), ZERO), 'wrap: degree')
        p.eqint(p.m(w, 'multi'), n, 'wrap: number of multiplicative variables')
        v = p.pick(n, 'variable')
        p.setitem(at(p, w, 'nonmult'), v, True)
        p.eqint(p.m(w, 'multi'), n - 1, 'wrap: number of multiplicative variables')
        x = p.call(W, [w, v])
        up = [L(e) + int(i == v) for i, e in enumerate(sa[0][0])]
        ismono(p, at(p, x, 'lm'), up, c, 'wrap: leading monomial of a prolongation')
        ismono(p, at(p, x, 'ansector'), sa[0][0], c, 'wrap: a prolongation keeps the ancestor')
        value(p, at(p, x, 'poly'), scale(p, sa, 1, [int(i == v) for i in range(n)]), 'wrap: prolonged polynomial')
        unchanged(p, a, sa, 'wrap: the prolonged polynomial keeps its value')
        p.chk(flags(p, w, 'prolong') == [i == v for i in range(n)], 'wrap: the prolongation is marked')
        p.chk(flags(p, x, 'prolong') == [False] * n and flags(p, x, 'nonmult') == [False] * n, 'wrap: nothing is marked in a prolongation')
        p.chk(p.m(x, 'isGB') is False, 'wrap: a prolongation is outside the basis')
        p.chk(not p.eq(at(p, x, 'id'), at(p, w, 'id')), 'wrap: identities differ')
        p.chk(p.eq(x, x) and not p.eq(x, w) and p.compare('ne', x, w), 'wrap: equality is identity')
        # a smaller leading monomial later
        b = spoly(p, 'b', 1, (c,))
        sb = snap(p, b)
        q = at(p, x, 'poly')
        q.data[:] = [list(t) for t in b.data]
        p.setitem(at(p, x, 'nonmult'), v, True)
        p.setitem(at(p, x, 'prolong'), v, True)
        p.m(x, 'update')
        same = all(p.is0(L(i) - j) for i, j in zip(up, sb[0][0]))
        ismono(p, at(p, x, 'lm'), sb[0][0], c, 'wrap: leading monomial after an update')
        ismono(p, at(p, x, 'ansector'), sa[0][0] if same else sb[0][0], c, 'wrap: ancestor after an update')
        p.chk(flags(p, x, 'nonmult') == [same and i == v for i in range(n)], 'wrap: marks after an update')
        p.chk(flags(p, x, 'prolong') == [same and i == v for i in range(n)], 'wrap: marks after an update')
    return f


def strictly(p, a, b):
    """b divides a and is smaller"""
    return all(p.ge(L(i) - j) for i, j in zip(a, b)) and p.ge(sum((L(i) - j for i, j in zip(a, b)), ZERO) - 1)


def chain(p, name, c, n):
    """wrap with ancestor dividing the leading monomial"""
    a = [p.nat('%sa%d' % (name, i)) for i in range(n)]
    l = [L(x) + p.nat('%sq%d' % (name, i)) for i, x in enumerate(a)]
    w = wrap(p, mono(p, '', c, e=l))
    p.setattr(w, 'ansector', mono(p, '', c, e=a))
    return w, a, l


def s_crit(n, cls):
    def f(p):
        start(p, n, 2, 'POTlex')
        c = p.pick(2, 'component') - 1
        w1, a1, l1 = chain(p, 'v', c, n)
        a = [p.nat('wa%d' % i) for i in range(n)]
        l = [L(x) + p.nat('q%d' % i) for i, x in enumerate(l1)]
        for x, y in zip(l, a):
            p.assume(p.ge(L(x) - y))
        w = wrap(p, mono(p, '', c, e=l))
        p.setattr(w, 'ansector', mono(p, '', c, e=a))
        if cls != 'Poly':
            for o in (w, w1):
                q = p.call(p.get('polynomial', cls), [])
                q.data[:] = at(p, o, 'poly').data
                p.setattr(o, 'poly', q)
        k = p.pick(2)
        r = p.truth(p.m(w, 'crit2' if k else 'crit1', w1))
        if cls == 'PolyDiff':
            p.chk(not r, 'crit: no criterion for differential polynomials')
        elif r and not k:
            p.chk(c < 0 and all(p.is0(L(i)) or p.is0(L(j)) for i, j in zip(a, a1)), 'crit: product criterion', 'discards although the ancestors have a common variable or component')
        elif r:
            m = ZERO
            for i, j in zip(a, a1):
                m = m + (L(i) if p.ge(L(i) - j) else L(j))
            p.chk(p.ge(sum((L(i) for i in l), ZERO) - m - 1), 'crit: chain criterion', 'discards although no smaller common multiple remains')
        else:
            p.chk(True, 'crit: keeps')
    return f


def s_refresh(n):
    def f(p):
        start(p, n, 2, 'POTlex')
        c = p.pick(2, 'component') - 1
        w, a, l = chain(p, 'w', c, n)
        x, b, m = chain(p, 'x', c, n)
        p.m(w, 'refresh', x)
        got = at(p, x, 'ansector')
        if strictly(p, b, a):
            ismono(p, got, a, c, 'wrap: a divisor inherits a smaller ancestor')
        else:
            ismono(p, got, b, c, 'wrap: a divisor keeps its ancestor')
        ismono(p, at(p, w, 'ansector'), a, c, 'wrap: the divided wrap keeps its ancestor')
        ismono(p, at(p, x, 'lm'), m, c, 'wrap: leading monomials stay')
        ismono(p, at(p, w, 'lm'), l, c, 'wrap: leading monomials stay')
    return f


def s_wless(order):
    def f(p):
        start(p, 2, 2, order)
        a, b = mono(p, 'a', p.pick(2, 'component') - 1), mono(p, 'b', p.pick(2, 'component') - 1)
        v, w = wrap(p, a), wrap(p, b)
        r = refcmp(p, order, a, b)
        p.chk(p.truth(p.compare('lt', v, w)) == (r <= 0), 'wrap: order')
        p.chk(p.truth(p.compare('gt', v, w)) == (r > 0), 'wrap: order')
        p.chk(p.truth(p.compare('lt', w, v)) == (r > 0), 'wrap: order')
        p.chk(not p.compare('lt', v, v), 'wrap: order is strict')
    return f


def p_wrap(ctx, chk):
    pr = {}
    for n in (1, 2, 3):
        pr['life of a wrap, %d variables' % n] = s_wrap(n)
        pr['ancestors, %d variables' % n] = s_refresh(n)
    for n in (1, 2):
        for c in ('Poly', 'PolyDiff'):
            pr['criteria, %s, %d variables' % (c, n)] = s_crit(n, c)
    for o in ('POTlex', 'TOPdeglex'):
        pr['order of wraps, ' + o] = s_wless(o)
    run(chk, mods(), 'pyginv wraps', pr, ('wrap', 'crit', 'raise'), deadline=500)


# ---- the tree --------------------------------------------------------------------------------------------------------------
def jdiv(S_, m):
    """the element of the set of exponent tuples whose Janet multiples contain m"""
    for e in S_:
        if all(x <= y for x, y in zip(e, m)) and all(x == y or not nonm(S_, e, v) for v, (x, y) in enumerate(zip(e, m))):
            return e
    return None


def nonm(S_, e, v):
    return any(f[:v] == e[:v] and f[v] > e[v] for f in S_)


def removed(S_, e):
    """a new element replaces those it divides in the tree"""
    last = max([i for i, x in enumerate(e) if x], default=0)
    return [f for f in S_ if f[:last] == e[:last] and f[last] >= e[last]]


def state(p, J):
    return {tuple(p.concrete(x) for x in ex(p, at(p, w, 'lm'))): w for w in p.iterate(J)}


def build(p, n, hi, k, J, c=-1):
    """insert up to k elements (or those of one of the given sequences) that have no divisor in the tree; the dictionary of
    what must be in it"""
    S_, es = {}, box(n, hi)
    if isinstance(k, (list, tuple)):
        es = k[p.pick(len(k), 'sequence')]
    for j in range(len(es) if isinstance(k, (list, tuple)) else k):
        free = [e for e in es if jdiv(S_, e) is None]
        if isinstance(k, (list, tuple)):
            free = [e for e in es[j:j + 1] if e in free]
            if not free:
                continue
        if not free:
            break
        e = free[p.pick(len(free))]
        p.trail.append('insert %s' % (e,))
        w = wrap(p, mono(p, '', c, e=e), 1)
        out = removed(S_, e)
        r = p.m(J, 'insert', [w])
        back = sorted(tuple(p.concrete(x) for x in ex(p, at(p, u, 'lm'))) for u in p.iterate(r))
        p.chk(back == sorted(out) and all(any(u is S_[o] for o in out) for u in p.iterate(r)), 'tree: insertion gives back the elements it replaces', 'gives %s back, must be %s' % (back, sorted(out)))
        for o in out:
            del S_[o]
        S_[e] = w
    return S_


def s_tree(n, hi, k, cls='Janet'):
    def f(p):
        start(p, n, 2, 'POTlex')
        J = p.call(p.get('janet', cls), [])
        p.chk(p.m(J, 'find', mono(p, 'z', -1, e=[1] * n)) is None, 'tree: nothing divides in an empty tree')
        S_ = build(p, n, hi, k, J)
        T = state(p, J)
        p.chk(sorted(T) == sorted(S_) and all(T[e] is S_[e] for e in T), 'tree: contents', 'are %s, must be %s' % (sorted(T), sorted(S_)))
        p.eqint(p.m(J, 'count'), len(S_), 'tree: number of elements')
        for e, w in S_.items():
            p.chk(flags(p, w, 'nonmult') == [nonm(S_, e, v) for v in range(n)], 'tree: non-multiplicative variables', 'of %s are %s' % (e, flags(p, w, 'nonmult')))
        for m in box(n, hi + 1):
            d = jdiv(S_, m)
            w = p.m(J, 'findWrap', mono(p, '', -1, e=m))
            p.chk(w is (S_[d] if d else None), 'tree: the divisor of a monomial', 'of %s is %s, must be %s' % (m, w, d))
            if k is not SEQ3:
                q = p.m(J, 'find', mono(p, '', -1, e=m))
            else:
                continue
            if cls == 'Janet':
                p.chk(q is (at(p, S_[d], 'poly') if d else None), 'tree: the dividing polynomial')
            else:
                p.chk((q is None) == (d is None), 'tree: the dividing polynomial')
                if d:
                    s = snap(p, q)
                    p.chk(len(s) == 1 and [p.concrete(x) for x in s[0][0]] == list(m), 'tree: the dividing multiple')
    return f


def s_query(n, hi, k):
    def f(p):
        start(p, n, 2, ('POTlex', 'TOPdeglex')[p.pick(2, 'order')])
        J = p.call(p.get('janet', 'Janet'), [])
        S_ = build(p, n, hi, k, J)
        done = {}
        for e, w in S_.items():
            for v in range(n):
                if nonm(S_, e, v) and p.pick(2, 'prolonged'):
                    p.setitem(at(p, w, 'prolong'), v, True)
                    done[e, v] = True
        open_ = [(e, v) for e in sorted(S_) for v in range(n) if nonm(S_, e, v) and (e, v) not in done]
        p.eqint(p.m(J, 'degMinProlong'), min((sum(e) for e, v in open_), default=0), 'tree: lowest degree to prolong')
        how = p.pick(3, 'query')
        if how == 0:
            r, want = p.m(J, 'prolongAll'), open_
        elif how == 1:
            d = p.pick(2 * hi + 1, 'degree')
            r, want = p.m(J, 'prolongDeg', d), [x for x in open_ if d == 0 or sum(x[0]) == d]
        else:
            m = mono(p, 'm', -1, e=box(n, hi)[p.pick(len(box(n, hi)))])
            r = p.m(J, 'prolongMonom', m)
            want = [x for x in open_ if refcmp(p, p.order, mono(p, '', -1, e=[a + int(i == x[1]) for i, a in enumerate(x[0])]), m) <= 0]
        got = sorted(tuple(p.concrete(x) for x in ex(p, at(p, u, 'lm'))) for u in p.iterate(r))
        p.chk(got == sorted(tuple(a + int(i == v) for i, a in enumerate(e)) for e, v in want), 'tree: prolongations', 'are %s for %s' % (got, want))
        for e, w in S_.items():
            p.chk(flags(p, w, 'prolong') == [(e, v) in done or (e, v) in want for v in range(n)], 'tree: prolongations are marked')
        gb = [tuple(p.concrete(x) for x in ex(p, at(p, w, 'lm'))) for w in p.iterate(p.m(J, 'GB'))]
        p.chk(sorted(gb) == sorted(S_), 'tree: basis elements')
        if S_:
            e = sorted(S_)[p.pick(len(S_), 'derived')]
            p.setattr(S_[e], 'ansector', mono(p, '', -1, e=[0] * n))
            gb = [tuple(p.concrete(x) for x in ex(p, at(p, w, 'lm'))) for w in p.iterate(p.m(J, 'GB'))]
            p.chk(sorted(gb) == sorted(x for x in S_ if x != e or not any(e)), 'tree: basis elements')
    return f


def s_force(n, hi, k):
    """marking against a monomial"""
    def f(p):
        start(p, n, 2, 'POTlex')
        J = p.call(p.get('janet', 'Janet'), [])
        S_ = build(p, n, hi, k, J)
        m = [hi + 1] * n
        p.m(J, 'setNonmut', mono(p, '', -1, e=m))
        for e, w in S_.items():
            p.chk(flags(p, w, 'nonmult') == [nonm(S_, e, v) or v == 0 for v in range(n)], 'tree: marking against a larger monomial')
    return f


def prolongations(p, J, S_):
    """insert what the elements are prolonged to"""
    for w in list(p.iterate(p.m(J, 'prolongAll'))):
        e = tuple(p.concrete(x) for x in ex(p, at(p, w, 'lm')))
        if jdiv(S_, e) is None:
            for o in removed(S_, e):
                del S_[o]
            p.m(J, 'insert', [w])
            S_[e] = w


def s_hp(n, hi, k, forest=False):
    def f(p):
        start(p, n, 2, 'POTlex')
        if forest:
            F = p.call(p.get('janet', 'Forest'), [p.get('janet', 'Janet')])
            Ss = []
            for c in range(2):
                Ss.append(build(p, n, hi, k, p.getitem(F, c), c))
            J = F
        else:
            J = p.call(p.get('janet', 'Janet'), [])
            Ss = [build(p, n, hi, k, J)]
            if p.pick(2, 'prolongations'):
                prolongations(p, J, Ss[0])
        hp = p.m(J, 'HP')
        s = Rat(Lin.atom(Atom('s')))
        def binom(top, k):
            r = ONE_
            for i in range(k):
                r = mulrat(p, r, p.binop(ast.Div, p.binop(ast.Sub, p.rat(top), i), i + 1))
            return r
        want = Rat(Lin.const(0))
        for S_ in Ss:
            want = p.binop(ast.Add, want, binom(p.binop(ast.Add, s, n), n))
            for e in S_:
                mu = sum(not nonm(S_, e, v) for v in range(n))
                want = p.binop(ast.Sub, want, binom(p.binop(ast.Add, s, mu - sum(e)), mu))
        p.eqrat(p.m(hp, 'subs', s), want, 'hilbert: polynomial')
        got = Rat(Lin.const(0))
        for i, c in enumerate(p.iterate(hp)):
            got = p.binop(ast.Add, got, mulrat(p, p.rat(c), p.binop(ast.Pow, s, i)))
        p.eqrat(got, want, 'hilbert: coefficients')
    return f


def s_binom():
    def f(p):
        start(p, 2, 0, 'POTlex')
        n, d = 1 + p.pick(5, 'n'), p.pick(4, 'd')
        C = p.get('janet', 'CombRepet')
        if p.pick(2, 'again'):
            p.call(C, [n], {'d': d})
        c = p.call(C, [n], {'d': d}) if p.pick(2, 'keyword') else p.call(C, [n, d])
        s = Rat(Lin.atom(Atom('s')))
        want = ONE_
        for i in range(1, n):
            want = mulrat(p, want, p.binop(ast.Div, p.binop(ast.Add, s, n - i - d), i))
        p.eqrat(p.m(c, 'subs', s), want, 'hilbert: number of multisets')
    return f


def s_forest(n, hi, k, seq=None):
    def f(p):
        start(p, n, 2, 'POTlex')
        F = p.call(p.get('janet', 'Forest'), [p.get('janet', 'Janet')])
        p.chk(p.m(F, 'is_forest') is True and p.m(p.getitem(F, 0), 'is_forest') is False, 'forest: kind')
        S_, es = [{}, {}], box(n, hi)
        sq = seq[p.pick(len(seq), 'sequence')] if seq else None
        for j in range(len(sq) if sq else k):
            c = sq[j][0] if sq else p.pick(2, 'component')
            free = [e for e in es if jdiv(S_[c], e) is None]
            if not free:
                break
            e = sq[j][1] if sq else free[p.pick(len(free))]
            p.trail.append('insert %s' % (e,))
            w = wrap(p, mono(p, '', c, e=e), 1)
            out = removed(S_[c], e)
            r = p.m(F, 'insert', [w])
            back = list(p.iterate(r))
            p.chk(len(back) == len(out) and all(any(u is S_[c][o] for u in back) for o in out), 'forest: insertion gives back the elements it replaces')
            for o in out:
                del S_[c][o]
            S_[c][e] = w
        al = [(c, e) for c in (0, 1) for e in sorted(S_[c])]
        T = list(p.iterate(F)) if F.cls.find('__iter__') is None else list(p.iterate(p.m(F, '__iter__')))
        p.chk(len(T) == len(al) and all(any(t is S_[c][e] for t in T) for c, e in al), 'forest: contents')
        p.eqint(p.m(F, 'count'), len(al), 'forest: number of elements')
        for c in (-1, 0, 1):
            for m in box(n, hi + 1):
                d = jdiv(S_[c], m) if c >= 0 else None
                w = p.m(F, 'findWrap', mono(p, '', c, e=m))
                p.chk(w is (S_[c][d] if d else None), 'forest: the divisor of a monomial')
                q = p.m(F, 'find', mono(p, '', c, e=m))
                p.chk(q is (at(p, S_[c][d], 'poly') if d else None), 'forest: the dividing polynomial')
        open_ = [(c, e, v) for c, e in al for v in range(n) if nonm(S_[c], e, v)]
        p.eqint(p.m(F, 'degMinProlong'), min((sum(e) for c, e, v in open_), default=0), 'forest: lowest degree to prolong')
        gb = list(p.iterate(p.m(F, 'GB')))
        p.chk(len(gb) == len(al), 'forest: basis elements')
        how = p.pick(3, 'query')
        if how == 0:
            r, want = p.m(F, 'prolongAll'), open_
        elif how == 1:
            d = p.pick(2 * hi + 1, 'degree')
            r, want = p.m(F, 'prolongDeg', d), [x for x in open_ if d == 0 or sum(x[1]) == d]
        else:
            m = mono(p, 'm', p.pick(2), e=es[p.pick(len(es))])
            r = p.m(F, 'prolongMonom', m)
            want = [x for x in open_ if refcmp(p, p.order, mono(p, '', x[0], e=[a + int(i == x[2]) for i, a in enumerate(x[1])]), m) <= 0]
        got = sorted((pos(p, at(p, u, 'lm')), tuple(p.concrete(x) for x in ex(p, at(p, u, 'lm')))) for u in p.iterate(r))
        p.chk(got == sorted((c, tuple(a + int(i == v) for i, a in enumerate(e))) for c, e, v in want), 'forest: prolongations')
    return f


def s_again():
    """two lookups in a tree that remembers multiples"""
    def f(p):
        start(p, 2, 2, 'POTlex')
        J = p.call(p.get('janet', 'JanetCache'), [])
        S_ = build(p, 2, 2, [[(1, 0)], [(0, 1)], [(1, 0), (0, 1)], [(0, 2), (1, 1), (2, 0)]], J)
        # what they are needed for: the same value as the multiple of the divisor, whatever was asked before
        es = [m for m in box(2, 4) if jdiv(S_, m) and sum(m) <= 4]
        for i in range(2):
            m = es[p.pick(len(es))]
            p.trail.append('find %s' % (m,))
            q = p.m(J, 'find', mono(p, '', -1, e=m))
            d = jdiv(S_, m)
            s = snap(p, q)
            p.chk(len(s) == 1 and [p.concrete(x) for x in s[0][0]] == list(m), 'tree: the dividing multiple')
            ismono(p, at(p, S_[d], 'lm'), list(d), -1, 'tree: a lookup leaves the elements alone')
            s = snap(p, at(p, S_[d], 'poly'))
            p.chk(len(s) == 1 and [p.concrete(x) for x in s[0][0]] == list(d), 'tree: a lookup leaves the elements alone')
    return f


def perms(*sets):
    return [list(q) for s in sets for q in itertools.permutations(s)]


def forests(a, b):
    return [[(c, e) for c, s in o for e in s] for s1 in itertools.permutations(a) for s2 in itertools.permutations(b)
            for o in ([(0, s1), (1, s2)], [(1, s1), (0, s2)])]


SEQ3 = perms([(1, 0, 0), (0, 1, 0), (0, 0, 1)], [(1, 0, 0), (0, 1, 1), (0, 0, 2)], [(2, 0, 0), (1, 1, 0), (0, 0, 1), (0, 1, 0)],
             [(1, 1, 0), (1, 0, 1), (0, 2, 0)], [(2, 0, 0), (0, 2, 1), (0, 1, 2)])
SEQ2 = perms([(2, 0), (1, 2), (0, 4)], [(3, 0), (1, 1), (0, 2)], [(2, 1), (2, 0), (0, 3), (1, 2)])


def p_jtree(ctx, chk):
    pr = {'tree of 2 in two variables': s_tree(2, 2, 2), 'tree of 3 in two variables': s_tree(2, 1, 3), 'tree of 3 in one variable': s_tree(1, 3, 3),
          'tree of 2 in three variables': s_tree(3, 1, 2), 'tree of 2 with a cache': s_tree(2, 1, 2, 'JanetCache'),
          'queries, 2 elements': s_query(2, 2, 2), 'queries in three variables': s_query(3, 1, 2),
          'chosen trees in three variables': s_tree(3, 2, SEQ3), 'chosen trees in two variables': s_tree(2, 4, SEQ2),
          'chosen queries in two variables': s_query(2, 3, SEQ2[:12:2] + SEQ2[12::6]), 'lookups in a tree that remembers': s_again(),
          'forest of 2 and 2': s_forest(2, 3, 4, forests([(1, 0), (0, 2)], [(2, 0), (0, 3)])),
          'marking': s_force(2, 2, 2), 'marking chosen trees': s_force(3, 2, SEQ3[:12]), 'forest': s_forest(2, 1, 2), 'forest in one variable': s_forest(1, 2, 2)}
    run(chk, mods(), 'pyginv Janet trees', pr, ('tree', 'forest', 'raise'), deadline=500, limit=20000)


def p_hp(ctx, chk):
    pr = {'multisets': s_binom(), 'tree of 2': s_hp(2, 2, 2), 'tree of 3': s_hp(2, 1, 3), 'three variables': s_hp(3, 1, 2), 'forest': s_hp(2, 1, 1, True), 'one variable': s_hp(1, 3, 2)}
    run(chk, mods(), 'pyginv Hilbert polynomials', pr, ('hilbert', 'raise'), deadline=500)
