"""Polynomials: client programs over PolyInt with integers replaced by their meaning."""
import re
from scen import *
import intmodel


def run(ctx, chk, groups, rule, only=None, **kw):
    ex = intmodel.models(intmodel.layout(ctx))
    names = sorted(n for n in ctx.mod.functions if re.match(r'sc_(%s)_' % '|'.join(groups), n))
    if not names:
        raise Broken('no scenario')
    scen_parallel(ctx, chk, names, rule=rule, extra=ex, only=only, **kw)


def p_form(ctx, chk):
    run(ctx, chk, ('Q0', 'QR', 'QP', 'QN'), 'canonical form', only='form', skip=OWN)


def p_ring(ctx, chk):
    run(ctx, chk, ('Q0',), 'ring operation', only='value', skip=OWN)


def p_reduce(ctx, chk):
    run(ctx, chk, ('QR',), 'reduction', only='value', skip=OWN)


def p_content(ctx, chk):
    run(ctx, chk, ('QP',), 'content', only='value', skip=OWN)


def p_store(ctx, chk):
    run(ctx, chk, ('Q0', 'QR', 'QP', 'QN'), 'polynomial storage', values=False)


def p_nf(ctx, chk):
    run(ctx, chk, ('QN',), 'normal form', only='value', skip=OWN)
