"""Janet trees, tree entries, completions."""
import re
from scen import *
from p_util import rats


def run(ctx, chk, groups, rule, **kw):
    names = sorted(n for n in ctx.mod.functions if re.match(r'sc_(%s)_' % '|'.join(groups), n))
    if not names:
        raise Broken('no scenario')
    scen_parallel(ctx, chk, names, rule=rule, **kw)


def p_find(ctx, chk):
    run(ctx, chk, ('J0',) + (('JT',) if ctx.tier != 'quick' else ()), 'Janet divisor', skip=OWN)


def p_flags(ctx, chk):
    run(ctx, chk, ('J1',) + (('JU',) if ctx.tier != 'quick' else ()), 'multiplicative variables', skip=OWN)


def p_copies(ctx, chk):
    run(ctx, chk, ('J2',), 'tree copies')


def p_entry(ctx, chk):
    run(ctx, chk, ('JW',), 'tree entry')


def p_forest(ctx, chk):
    run(ctx, chk, ('JG',) + (('JI',) if ctx.tier != 'quick' else ()), 'forest')


def p_list(ctx, chk):
    run(ctx, chk, ('JM',), 'completion list')


def p_close(ctx, chk):
    run(ctx, chk, ('JC',), 'completion')


def p_hilbert(ctx, chk):
    run(ctx, chk, ('JH',), 'Hilbert polynomial', extra=rats())
