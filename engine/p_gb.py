"""Involutive completions: polynomials abstracted to leading monomial and identity (drivers/d_tok.cpp).  The history of
identities is kept here: what was obtained from what, and what an exhaustive completion may leave out."""
import re
from scen import *
import intmodel
from p_util import rats


class Hist:
    """immutable record of one abstract history"""
    toks = {}         # (id, code) -> code of the ancestor; only polynomials that appeared by themselves
    used = frozenset()    # reduced
    basis = frozenset()
    tree = ()         # (code, time) inserted
    tail = {}         # (id, code) -> time of the last tail reduction
    np = frozenset()      # content may be left
    pp = frozenset()      # content has been removed once
    clock = 0
    wild = 0          # non-zero outcomes so far
    const = False
    dirty = 0
    next = 1

    def w(self, **kw):
        n = Hist()
        n.__dict__.update(self.__dict__)
        n.__dict__.update(kw)
        return n


def H(st):
    return st.ghost.get('hist') or Hist()


def dig(c):
    return (c // 32768 - 1, (c // 1024) % 32, (c // 32) % 32, c % 32)


def deg(c):
    return sum(dig(c)[1:])


def divides(a, b):
    a, b = dig(a), dig(b)
    return a[0] == b[0] and all(x <= y for x, y in zip(a[1:], b[1:]))


def lcm(a, b):
    return sum(max(x, y) for x, y in zip(dig(a)[1:], dig(b)[1:]))


def anc(h, i):
    return next((a for (k, c), a in h.toks.items() if k == i), None)


def show(c):
    p, *e = dig(c)
    return '*'.join('%s^%d' % (v, k) if k > 1 else v for v, k in zip('xyz', e) if k) or '1' if p < 0 else 'e%d*' % p + show(c - (p + 1) * 32768)


def janet_divisor(tree, m):
    """does some monomial of the set divide m, exceeding only in variables multiplicative for it"""
    cs = [c for c, t in tree]
    d = dig(m)
    for c in cs:
        e = dig(c)
        if e[0] != d[0]:
            continue
        for v in range(1, 4):
            if e[v] > d[v]:
                break
            if e[v] < d[v] and any(f[0] == e[0] and f[1:v] == e[1:v] and f[v] > e[v] for f in map(dig, cs)):
                break
        else:
            return True
    return False


def ints(st, a):
    return [int(st.deref(x).cval()) for x in a]


def m_int_value(eng, st, a, ins):
    return intmodel.I(eng, st, a[0], eng.int_fields).value()


def m_begin(eng, st, a, ins):
    h = H(st)
    st.ghost['hist'] = h.w(basis=frozenset())
    st.ghost['what'], = ints(st, a)


def m_gen(eng, st, a, ins):
    c, = ints(st, a)
    h = H(st)
    i = h.next
    st.ghost['hist'] = h.w(toks={**h.toks, (i, c): c}, np=h.np | {(i, c)}, next=i + 1, clock=h.clock + 1, const=h.const or c == 0)
    return lin(i)


def m_choose(eng, st, a, ins):
    i, c, n, deglex, D, P = ints(st, a)
    h = H(st)
    if h.wild >= eng.wild:
        return lin(-1)
    k = ('out', h.clock)
    if k in st.ghost:
        return lin(st.ghost[k])
    top = deg(c) if deglex else D
    outs = [-1]
    for p in ([-1] if c < 32768 else range(0, P + 1)):
        for x in range(top + 1):
            for y in range(top + 1 - x if n > 1 else 1):
                for z in range(top + 1 - x - y if n > 2 else 1):
                    m = (((p + 1) * 32 + x) * 32 + y) * 32 + z
                    if m != c and not divides(c, m) and not janet_divisor(h.tree, m):
                        outs.append(m)

    def to(o):
        def f(s):
            s.ghost[k] = o
            s.trail = s.trail + ('%s -> %s' % (show(c), show(o) if o >= 0 else '0'),)
            return True
        return f
    if len(outs) == 1:
        return lin(-1)
    raise Fork([to(o) for o in outs])


def m_result(eng, st, a, ins):
    i, c, j, d, nx = ints(st, a)
    h = H(st)
    g = h.w(used=h.used | {(i, c)}, clock=h.clock + 1)
    r = -1
    if nx >= 0:
        r = h.next
        g = g.w(toks={**g.toks, (r, nx): nx}, np=g.np | {(r, nx)}, next=r + 1, wild=g.wild + 1, const=g.const or nx == 0)
    st.ghost['hist'] = g
    return lin(r)


def m_basis(eng, st, a, ins):
    h = H(st)
    st.ghost['hist'] = h.w(basis=h.basis | {tuple(ints(st, a))})


def m_constant(eng, st, a, ins):
    return lin(int(H(st).const))


def m_tail(eng, st, a, ins):
    """the tail is reduced; for one polynomial of a history this changes it"""
    i, c = ints(st, a)
    h = H(st)
    g = h.w(tail={**h.tail, (i, c): h.clock}, clock=h.clock + 1)
    if not st.ghost.get('what', 0) & 8 or h.dirty:
        st.ghost['hist'] = g
        return ZERO
    k = ('tail', h.clock)
    if k not in st.ghost:
        raise Fork([lambda s, v=v: s.ghost.__setitem__(k, v) or True for v in (0, 1)])
    if st.ghost[k]:
        st.trail = st.trail + ('the tail of %s changes' % show(c),)
        g = g.w(dirty=1, np=g.np | {(i, c)})
    st.ghost['hist'] = g
    return lin(st.ghost[k])


def m_pp(eng, st, a, ins):
    i, c = ints(st, a)
    h = H(st)
    st.ghost['hist'] = h.w(np=h.np - {(i, c)}, pp=h.pp | {(i, c)}, clock=h.clock + 1)


def m_entered(eng, st, a, ins):
    i, c = ints(st, a)
    h = H(st)
    st.ghost['hist'] = h.w(tree=h.tree + ((c, h.clock),), clock=h.clock + 1)
    st.ghost['pass'] = True


def m_insert(eng, st, a, ins):
    """a tree insertion is recorded, then carried out"""
    if st.ghost.pop('pass', None):
        return NotImplemented
    return EnterCall(eng.mod.functions['stub_insert'], a)


def known(h, i, c):
    a = anc(h, i)
    return a is not None and divides(a, c)


def n_known(eng, st, a):
    i, c = ints(st, a)
    if not known(H(st), i, c):
        return 'bad', 'the polynomial with leading monomial %s is neither a generator, a multiple nor a remainder' % show(c)


def n_lost(eng, st, a):
    h = H(st)
    for (i, c) in h.toks:
        if (i, c) not in h.used and (i, c) not in h.basis:
            return 'bad', 'the polynomial with leading monomial %s is neither reduced nor in the basis {%s}' % (show(c), ', '.join(show(d) for _, d in sorted(h.basis)))


def n_covered(eng, st, a):
    h = H(st)
    for (i, c) in sorted(set(h.toks) | h.used):
        if not any(divides(d, c) for _, d in h.basis):
            return 'bad', '%s has no divisor in the basis {%s}' % (show(c), ', '.join(show(d) for _, d in sorted(h.basis)))


def n_treated(eng, st, a):
    i, c, m, ring = ints(st, a)
    h = H(st)
    if (i, m) in h.used or (i, m) in h.basis:
        return None
    p = anc(h, i)
    for j, d in sorted(h.basis):
        q = anc(h, j)
        if (j, d) != (i, c) and divides(d, m) and p is not None and q is not None and (ring and deg(m) >= deg(p) + deg(q) or deg(m) > lcm(p, q)):
            return None
    return 'bad', 'the prolongation %s of %s (ancestor %s) is neither reduced nor superfluous; basis {%s}' % (
        show(m), show(c), show(p) if p is not None else '?', ', '.join(show(d) for _, d in sorted(h.basis)))


def n_primitive(eng, st, a):
    i, c = ints(st, a)
    h = H(st)
    if (i, c) in h.np or (i, anc(h, i)) in h.np and (i, c) not in h.pp:
        return 'bad', 'the content of the element with leading monomial %s may stay' % show(c)


def m_smaller(eng, st, a, ins):
    c, d = ints(st, a)
    s = dict(st.ghost.get('smaller', {}))
    s[c] = s.get(c, ()) + (d,)
    st.ghost['smaller'] = s


def n_tailed(eng, st, a):
    """after the last insertion of a smaller element the tail has been looked at"""
    i, c = ints(st, a)
    h = H(st)
    t = h.tail.get((i, c), -1)
    for d, s in h.tree:
        if d != c and s > t and d in st.ghost.get('smaller', {}).get(c, ()):
            return 'bad', 'the element with leading monomial %s may keep terms divisible by %s' % (show(c), show(d))


NAT = [
    (r'^int_value$', m_int_value), (r'^tok_begin$', m_begin), (r'^tok_gen$', m_gen), (r'^tok_choose$', m_choose), (r'^tok_entered$', m_entered), (r'^tok_tail$', m_tail), (r'^tok_pp$', m_pp), (r'^tok_result$', m_result),
    (r'^tok_basis$', m_basis), (r'^tok_constant$', m_constant), (r'^tok_known$', native(n_known)),
    (r'^tok_lost$', native(n_lost)), (r'^tok_covered$', native(n_covered)), (r'^tok_treated$', native(n_treated)),
    (r'^tok_primitive$', native(n_primitive)), (r'^tok_tailed$', native(n_tailed)), (r'^tok_smaller$', m_smaller),
]


def stub(mod, name):
    def m(eng, st, a, ins):
        f = mod.functions.get(name)
        return EnterCall(f, a)
    return m


def m_norm(eng, st, a, ins):
    """the size of a polynomial is arbitrary"""
    i = st.ghost.get('norm', 0)
    st.ghost['norm'] = i + 1
    return Lin.atom(Atom('norm.%d' % i))


def m_arith(eng, st, a, ins):
    raise Undecided('arithmetic on an abstracted coefficient')


def extra(ctx):
    mod = ctx.mod
    P = r'GInv::PolyInt::'
    return [(r'operator<<\(std::', models.m_ident)] + intmodel.models(intmodel.layout(ctx)) + rats() + [
        (r'^GInv::Integer::(add|sub|mult|div|gcd)\(', m_arith),
        (P + r'reduction\(GInv::PolyInt const&\)$', stub(mod, 'stub_reduction')),
        (P + r'maxPos\(\) const$', stub(mod, 'stub_maxpos')),
        (P + r'norm\(\) const$', m_norm),
        (P + r'pp\(\)$', stub(mod, 'stub_pp')),
        (r'(?:^| )' + P + r'nfTail<', stub(mod, 'stub_tail')),
        (r'^GInv::Janet::insert\(GInv::Wrap\*\)$', m_insert),
    ] + NAT


def run(ctx, chk, groups, rule, only=None, **kw):
    names = sorted(n for n in ctx.mod.functions if re.match(r'sc_(%s)_' % '|'.join(groups), n))
    if not names:
        raise Broken('no scenario')
    opts = dict(int_fields=intmodel.layout(ctx), wild=1 if ctx.tier == 'quick' else 2)
    scen_parallel(ctx, chk, names, rule=rule, extra=extra(ctx), only=only, opts=opts, **kw)


def p_loss(ctx, chk):
    run(ctx, chk, ('K0', 'K1'), 'no polynomial is lost', ('loss',), skip=OWN)


def p_close(ctx, chk):
    run(ctx, chk, ('K0', 'K1'), 'prolongations', ('close',), skip=OWN)


def p_form(ctx, chk):
    run(ctx, chk, ('K0', 'K1', 'K2'), 'finished basis', ('form',), skip=OWN)


def p_unit(ctx, chk):
    run(ctx, chk, ('K0', 'K1', 'K2'), 'unit ideal', ('unit',), skip=OWN)


def p_provenance(ctx, chk):
    run(ctx, chk, ('K0', 'K1', 'K2'), 'provenance', ('provenance', 'reduce'), skip=OWN)


def p_type(ctx, chk):
    run(ctx, chk, ('K3',) + (('K4',) if ctx.tier != 'quick' else ()), 'content and tails', ('type',), skip=OWN)


def p_again(ctx, chk):
    run(ctx, chk, ('K2',), 'more generators later', ('loss', 'close'), skip=OWN)


def p_store(ctx, chk):
    run(ctx, chk, ('K0', 'K1', 'K2', 'K3'), 'storage', values=False)


def p_hilb(ctx, chk):
    run(ctx, chk, ('K5',), 'Hilbert polynomial', ('hilbert',), skip=OWN)


def p_nf(ctx, chk):
    run(ctx, chk, ('K6',) + (('K7',) if ctx.tier != 'quick' else ()), 'public normal form', ('nf',), skip=OWN)
