"""Printed forms: what the stream operators write, as a sequence of characters and numbers."""
import re
from fractions import Fraction
from scen import *
from absint import whole
import gmp
from gmp import Q, app
import intmodel


def _log(st, *items):
    st.ghost['text'] = st.ghost.get('text', ()) + items


def o_start(eng, st, a, ins):
    st.ghost['text'] = ()
    st.ghost['want'] = ()


def o_stream(eng, st, a, ins):
    r = st.ghost.get('stream')
    if r is None:
        g = st.new_region('global', lin(4096), tag='stream', meta={'boot': True})
        r = st.ghost['stream'] = g.rid
    return Ptr(r, ZERO)


def chars_at(eng, st, p):
    """the characters and numbers of the C string at p"""
    p = eng.force(st, p)
    if not isinstance(p, Ptr) or not p.r:
        eng.report(st, 'null-dereference', 'a null text is printed')
        raise PathEnd()
    if p.r.startswith('@'):
        s = cstr(eng, st, Ptr(p.r, ZERO))
        if p.o.is_const() and s != '?':
            return tuple(('c', c) for c in s[int(p.o.cval()):])
    r = st.region(p.r)
    if not r.alive:
        eng.report(st, 'use-after-free', 'the text has been released')
        raise PathEnd()
    t = r.meta.get('tok')
    if t is not None:
        v, b = st.deref(t[0]), st.deref(t[1])
        first = r.cells.get(st.facts.norm(t[2] if len(t) > 2 else ZERO))
        if b != lin(10):
            return (('b', '%s in base %s' % (v, b)),)
        off = st.facts.norm(p.o - (t[2] if len(t) > 2 else ZERO))
        if first is None:
            return (('?', 'a text that was overwritten'),)
        if off == ZERO:
            return (('n', v),)
        if off == ONE and eng.sign(st, whole(v)) < 0:
            return (('n', -v),)
        return (('?', 'a part of a number'),)
    out, o = (), 0
    while o < 64:
        c = eng.force(st, eng.load(st, Ptr(p.r, p.o + o), ('int', 8)))
        if not isinstance(c, Lin) or not c.is_const():
            return out + (('?', 'an unknown character'),)
        if c == ZERO:
            return out
        out += (('c', chr(int(c.cval()) & 255)),)
        o += 1
    return out + (('?', 'a long text'),)


def o_str(eng, st, a, ins):
    _log(st, *chars_at(eng, st, a[1]))
    return a[0]


def o_char(eng, st, a, ins):
    c = eng.force(st, a[1])
    _log(st, ('c', chr(int(c.cval()) & 255)) if isinstance(c, Lin) and c.is_const() else ('?', 'an unknown character'))
    return a[0]


def o_num(eng, st, a, ins):
    v = eng.force(st, a[1])
    _log(st, ('n', v) if isinstance(v, Lin) else ('?', 'an unknown number'))
    return a[0]


def w_char(eng, st, a, ins):
    st.ghost['want'] = st.ghost.get('want', ()) + (('c', chr(int(st.deref(a[0]).cval()))),)


def w_str(eng, st, a, ins):
    st.ghost['want'] = st.ghost.get('want', ()) + tuple(('c', c) for c in cstr(eng, st, a[0]))


def w_num(eng, st, a, ins):
    st.ghost['want'] = st.ghost.get('want', ()) + (('n', eng.force(st, a[0])),)


def tokens(t):
    """digits written as characters belong to the number next to them"""
    out = []
    for k, v in t:
        if k == 'c' and v.isdigit():
            if out and out[-1][0] == 'd':
                out[-1] = ('d', out[-1][1] + v)
            else:
                out.append(('d', v))
        else:
            out.append((k, v))
    return [('n', lin(int(v))) if k == 'd' else (k, v) for k, v in out]


def show(t):
    return ''.join(str(v) if k == 'c' else '{%s}' % (v,) for k, v in t)


def o_check(eng, st, a, ins):
    w = cstr(eng, st, a[0])
    if any(v.is_const() and Fraction(v.cval()).denominator != 1 for k, v in st.facts.sub.items() if not k.real):
        raise PathEnd()                # an integer would have to be a fraction
    got, want = tokens(st.ghost.get('text', ())), tokens(st.ghost.get('want', ()))
    st.ghost['text'], st.ghost['want'] = (), ()
    msg = 'prints "%s", must print "%s" %s' % (show(got), show(want), picks(st))
    q = [v for k, v in got if k == '?']
    if q:
        note(eng, st, 'unknown', w, 'prints ' + q[0])
        raise PathEnd()
    bad = [k for k, v in got] != [k for k, v in want] or any(x[0] == 'c' and x != y for x, y in zip(got, want))
    if not bad:
        for (k, v), (_, x) in zip(got, want):
            if k != 'n' or not isinstance(v, Lin) or not isinstance(x, Lin):
                continue
            d = st.facts.norm(v - x)
            if d == ZERO or st.facts.entails_eq(d):
                continue
            if d.is_const() or not eng.is_zero(st, d):
                bad = True
                break
    if bad:
        if not st.facts.harden().consistent():
            raise PathEnd()
        note(eng, st, 'unknown' if st.taint else 'bad', w, msg)
        raise PathEnd()
    note(eng, st, 'unknown' if st.taint else 'ok', w, '')


def q_text(eng, st, a, ins):
    """as gmp.q_get_str, and the first character tells the sign"""
    buf = gmp.q_get_str(eng, st, a, ins)
    v = Q(eng, st, a[2]).value()
    w = st.wregion(buf.r)
    w.meta['tok'] = (v, st.deref(a[1]), buf.o)
    if eng.sign(st, whole(v)) < 0:
        w.cells[st.facts.norm(buf.o)] = (1, lin(ord('-')))
    else:
        d = app('digit', v)
        st.facts.add_ge(d - ord('0'))
        st.facts.add_ge(lin(ord('9')) - d)
        w.cells[st.facts.norm(buf.o)] = (1, d)
    return buf


STREAM = [
    (r'operator<< ?<.*\(std::(basic_)?ostream.*&, (signed |unsigned )?char\)$', o_char),
    (r'operator<< ?<.*\(std::(basic_)?ostream.*&, (signed |unsigned )?char const\*\)$', o_str),
    (r'^std::(basic_)?ostream.*::operator<<\((unsigned )?(int|long|short|long long)\)$', o_num),
    (r'^std::(basic_)?ostream.*::put\(char\)$', o_char),
    (r'^std::(basic_)?ostream.*::_M_insert<(unsigned )?long>\(', o_num),
    (r'^text_start$', o_start), (r'^out_stream$', o_stream), (r'^text_is$', o_check),
    (r'^want_char$', w_char), (r'^want_str$', w_str), (r'^want_num$', w_num), (r'^want_real$', w_num),
]


def p_out(ctx, chk):
    poly = intmodel.models(intmodel.layout(ctx))
    for n in sorted(n for n in ctx.mod.functions if n.startswith('sc_O01_')):
        ex = gmp.QOPS + gmp.QSPEC + gmp.ZSPEC + gmp.MISC + [(r'^__gmpq_get_str$', q_text)] if n.startswith('sc_O01_hilbert') else poly + gmp.MISC
        Scenario(ctx, chk, n, rule='printed form', extra=list(ex) + STREAM).run()
