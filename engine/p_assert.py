"""The library compiled with its assertions: no path of the client programs may reach a failing one."""
import re
from scen import *
from ctx import Ctx
import gmp
import intmodel
import p_gb
import p_util


def m_assert(eng, st, a, ins):
    eng.report(st, 'assert', 'assertion "%s" fails' % cstr(eng, st, a[0]))
    raise PathEnd()


def m_primitive(eng, st, a, ins):
    return ZERO if p_gb.n_primitive(eng, st, a) else ONE


def tokens(ctx):
    return p_gb.extra(ctx) + [(r'GInv::PolyInt::isPp\(\) const$', p_gb.stub(ctx.mod, 'stub_ispp')), (r'^tok_ispp$', m_primitive)]


ASSERT = [(r'^__assert_fail$', m_assert)]
HEAVY = r'sc_(JI_|JU_|J1_flag33$|JC_list[23]|JC_tree3|J0_find32|J0_find23|K4_|K6_ring|K7_)'


def groups(ctx):
    """driver, scenarios, models, options"""
    yield 'd_list.cpp', 'L', lambda c: [], dict()
    yield 'd_arena.cpp', 'A', lambda c: [], dict(arena=False)
    yield 'd_tree.cpp', 'T', lambda c: [], dict()
    yield 'd_int.cpp', 'I', lambda c: p_util.ints(), dict(opts={'short_numbers': True})
    yield 'd_misc.cpp', 'H', lambda c: p_util.rats(), dict()
    yield 'd_poly.cpp', 'Q', lambda c: intmodel.models(intmodel.layout(c)), dict()
    yield 'd_janet.cpp', 'J', lambda c: p_util.rats(), dict()
    yield 'd_tok.cpp', 'K', tokens, dict(opts=None)


def p_assertions(ctx, chk):
    for drv, g, ex, kw in groups(ctx):
        c = Ctx(ctx.tier, drivers=(drv,), asserts=True)
        c.t0 = ctx.t0
        names = sorted(n for n in c.mod.functions if n.startswith('sc_' + g) and not (ctx.tier == 'quick' and re.match(HEAVY, n)))
        if not names:
            raise Broken('no scenario in ' + drv)
        if 'opts' in kw and kw['opts'] is None:
            kw = dict(kw, opts=dict(int_fields=intmodel.layout(c), wild=1 if ctx.tier == 'quick' else 2))
        scen_parallel(c, chk, names, rule='assertions', extra=list(ex(c)) + ASSERT, values=False, kinds=('assert',), **kw)
