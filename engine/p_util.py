"""Properties of the utility containers."""
import itertools
from scen import *


def p_list_seq(ctx, chk):
    scenarios(ctx, chk, 'L01', rule='sequence')


def p_list_own(ctx, chk):
    scenarios(ctx, chk, 'L02', rule='copy')


def p_stack(ctx, chk):
    scenarios(ctx, chk, 'L03', rule='stack')


def p_arena_blocks(ctx, chk):
    scenarios(ctx, chk, 'A01', rule='arena block', arena=False)


def p_arena_account(ctx, chk):
    scenarios(ctx, chk, 'A02', rule='arena account', arena=False)


def p_arena_holder(ctx, chk):
    scenarios(ctx, chk, 'A03', rule='arena holder', arena=False)


OWN = ('leak', 'free-size', 'wrong-arena', 'double-free')


def ints():
    import gmp
    return gmp.ZOPS + gmp.ZSPEC


def p_int_value(ctx, chk):
    scenarios(ctx, chk, 'I01', rule='integer result', extra=ints(), opts={'short_numbers': True}, skip=OWN)


def p_int_pred(ctx, chk):
    scenarios(ctx, chk, 'I02', rule='integer predicate', extra=ints(), opts={'short_numbers': True}, skip=OWN)


def p_int_store(ctx, chk):
    scenarios(ctx, chk, 'I01', rule='', extra=ints(), opts={'short_numbers': True}, values=False)
    scenarios(ctx, chk, 'I03', rule='integer storage', extra=ints(), opts={'short_numbers': True})


def p_int_text(ctx, chk):
    scenarios(ctx, chk, 'I04', rule='integer text', extra=ints())


def rats():
    import gmp
    return gmp.QOPS + gmp.QSPEC + gmp.ZSPEC


def p_hilbert(ctx, chk):
    scenarios(ctx, chk, 'H01', rule='hilbert polynomial', extra=rats(), skip=OWN)


def p_hilbert_store(ctx, chk):
    scenarios(ctx, chk, 'H02', rule='rational storage', extra=rats())


def p_timer(ctx, chk):
    import gmp
    scenarios(ctx, chk, 'U01', rule='timer', extra=gmp.MISC)


def p_perm(ctx, chk):
    import gmp
    for n in sorted(n for n in ctx.mod.functions if n.startswith('sc_R01_')):
        fin = Scenario(ctx, chk, n, rule='permutation', extra=gmp.MISC).run()
        m = re.match(r'sc_R01_uniform(\d)$', n)
        if m:
            k = int(m.group(1))
            import math
            got = [s.ghost.get('rec') for s in fin]
            if any(not isinstance(g, Lin) or not g.is_const() for g in got):
                chk.unk('permutation', n, 'a permutation depends on unknown values')
            elif len(set(got)) == math.factorial(k) == len(got):
                chk.ok('permutation', 'all %d permutations of %d, each for one draw' % (len(got), k))
            else:
                f = next((f for f in ctx.mod.functions.values() if 'RandPermutation::next<' in f.demangled), None)
                l = ctx.mod.func_loc(f) if f else None
                chk.bad('permutation', 'all permutations of %d, each for one draw' % k, '%d sequences of draws reach %d of %d permutations' % (
                    len(got), len(set(got)), math.factorial(k)), (ctx.repo_path(l[0]), l[1]) if l else None)


def p_random(ctx, chk):
    """random and permuted monomials"""
    import gmp
    noop = lambda e, s, a, i: ZERO
    ex = gmp.MISC + [(r'^std::random_device::(random_device|~random_device|_M_fini|_M_init)', noop),
                     (r'^std::random_device::(operator\(\)|_M_getval)', lambda e, s, a, i: Lin.atom(Atom('seed'))),
                     (r'^std::mersenne_twister_engine<.*>::(mersenne_twister_engine|seed)', noop),
                     (r'^__cxa_guard_(release|abort)$', noop), (r'^__cxa_guard_acquire$', lambda e, s, a, i: ONE)]
    for n in sorted(n for n in ctx.mod.functions if n.startswith('sc_R02_')):
        fin = Scenario(ctx, chk, n, rule='random monomial', extra=ex).run()
        m = re.match(r'sc_R02_reach_(\d)_(\d)_(\d)$', n)
        if not m:
            continue
        k, lo, hi = map(int, m.groups())
        got = [s.ghost.get('rec') for s in fin]
        want = set()
        for t in itertools.product(range(hi + 1), repeat=k):
            if lo <= sum(t) <= hi:
                want.add(int(''.join(map(str, t))))
        what = 'every monomial of degree %d to %d in %d variables can be drawn' % (lo, hi, k)
        if any(not isinstance(g, Lin) or not g.is_const() for g in got):
            chk.unk('random monomial', n, 'a random monomial depends on unknown values')
        elif {int(g.cval()) for g in got} == want:
            chk.ok('random monomial', what)
        else:
            f = next((f for f in ctx.mod.functions.values() if 'Monom::rand_next(GInv::Monom&)' in f.demangled), None)
            l = ctx.mod.func_loc(f) if f else None
            chk.bad('random monomial', what, 'never drawn: %s; not allowed: %s' % (sorted(want - {int(g.cval()) for g in got}), sorted({int(g.cval()) for g in got} - want)),
                    (ctx.repo_path(l[0]), l[1]) if l else None)
