"""Properties of monomials and of the polynomial term orders."""
from absint import *
from lin import *
import models
from monoms import *
from fw import *


def classify(st, got, want):
    """ok / bad / unknown for got == want in the final state st"""
    if isinstance(got, Top):
        return 'unknown' if st.taint or 'never written' not in got.why and 'uninit' not in got.why else 'bad'
    if isinstance(got, Lin) and isinstance(want, Lin):
        d = st.facts.norm(got - want)
        if d == ZERO or st.facts.entails_eq(d):
            return 'ok'
        h = st.facts.harden()
        d = h.norm(d)
        if d == ZERO or h.entails_eq(d):
            return 'ok'
        if st.taint or any(a.kind == 'gen' for a in d.deep_atoms()):
            return 'unknown'
        return 'bad'
    if isinstance(got, Ptr) and isinstance(want, Ptr):
        if got.r == want.r and (got.o - want.o == ZERO or st.facts.entails_eq(got.o - want.o)):
            return 'ok'
        return 'unknown' if st.taint else 'bad'
    return 'unknown' if st.taint else ('ok' if got == want else 'bad')


def fact_text(st, lim=12):
    out = []
    for k, e in st.facts.all():
        if any(a.kind == 'gen' for a in e.deep_atoms()):
            continue
        out.append('%s %s 0' % (e, {'ge': '>=', 'ne': '!=', 'eq': '='}[k]))
    return '; '.join(out[:lim])


class Case:
    """one wrapper analysed under one family of inputs"""

    def __init__(self, ctx, chk, fname, label, extra_models=(), n=None, k=None):
        self.ctx, self.chk, self.fname = ctx, chk, fname
        self.n = n
        if n is not None:
            label = (label + ', ' if label else '') + 'n=%d k=%d' % (n, k)
        self.label = label
        self.mod = ctx.mod
        self.L = ctx.monom_layout
        if self.mod.get(fname) is None:
            raise Broken('driver entry %s' % fname)
        self.eng = Engine(self.mod, models.BASE + ARENA + list(extra_models), max_steps=ctx.max_steps)
        self.eng.repo_path = ctx.repo_path
        self.k = self.eng.skolem('k') if n is None else lin(k)
        self.ks = [self.k] if n is None else []
        if n is not None:
            self.eng.unroll = max(8, n + 3)
            self.eng.skolems = set()

    def site(self, extra=''):
        return self.fname + (' [' + self.label + ']' if self.label else '') + extra

    def floc(self):
        f = self.mod.get(self.fname)
        return None

    def go(self, build, mem_rule=None):
        """build(st, case) -> args; returns finals (empty list on undecided)"""
        eng = self.eng

        def make():
            st = State()
            self.N = eng.sym('n') if self.n is None else lin(self.n)
            st.facts.add_ge(self.N - 1)
            st.facts.add_ge(self.k)
            st.facts.add_ge(self.N - 1 - self.k)
            st.new_region('sym', None, rid='ALLOC', tag='arena')
            st.new_region('sym', None, rid='ALLOC2', tag='arena')
            self.vacuous = False
            eng.array_skolem = (lambda e, s, sz: (self.L.stride, [self.k])) if self.n is None else None
            args = build(st, self)
            if not st.facts.consistent() or getattr(self, 'skip', False):
                self.vacuous = True
                return []
            return eng.start(st, self.fname, args)
        try:
            fin = eng.explore(make)
        except Undecided as e:
            self.chk.unk('analysis', self.site(), str(e))
            fin = []
        for n in eng.funcs_seen:
            self.chk.functions.add(self.mod.demangle(n))
        self.chk.count('abstract states', eng.steps)
        self.chk.count('loop-head joins', eng.joins)
        self.chk.count('paths to exit', len(fin))
        if not fin and not eng.reports and not self.vacuous:
            self.chk.unk('analysis', self.site(), 'no path reaches the exit')
        return fin

    vacuous = False
    also = ()            # further indices with an arbitrary exponent in large concrete runs

    def mon(self, st, nm, elem=None, pos=None, alloc='ALLOC', deg=None):
        """valid monomial: exponents >= 0, degree >= every exponent"""
        if elem is None:
            def elem(e, s, i, nm=nm):
                return self.nn(nm, i)
        d = self.deg(nm) if deg is None else deg
        p = self.L.monom(st, nm, self.N, self.ks, elem, d, self.pos(nm) if pos is None else lin(pos), alloc)
        st.facts.add_ge(d)
        if pos is None:
            st.facts.add_ge(self.pos(nm) + 1)
        return p

    def deg(self, nm):
        if self.n is not None:
            r = ZERO
            for i in range(self.n):
                r = r + self.nn(nm, lin(i))
            return r
        return Lin.atom(Atom('deg_' + nm))

    def pos(self, nm):
        return Lin.atom(Atom('pos_' + nm))

    def nn(self, nm, i):
        if self.n is not None and self.n > 3 and i.is_const() and i != self.k and i not in self.also:
            return ZERO              # large confirmation runs: only the exponent under scrutiny is arbitrary
        return app('nn', Atom_(nm), i)

    def ex(self, nm):
        return self.nn(nm, self.k)

    def expect(self, st, rule, site, got, want, what, loc=None):
        s = classify(st, got, want)
        if s == 'bad' and rule == 'degree' and self.n is None and isinstance(got, Lin) and \
                any(a.kind == 'app' for a in st.facts.norm(got).deep_atoms()):
            s = 'unknown'       # recomputed from the exponents: decided by the runs with a concrete size
        if s == 'bad' and st.widened:
            # the exit state may over-approximate: decided by a run with a concrete size
            self.eng.candidates.append(st.facts)
            s = 'unknown'
        if self.eng.candidates:
            self.chk.confirm = getattr(self.chk, 'confirm', []) + self.eng.candidates
            self.eng.candidates = []
        t = ''
        if s != 'ok':
            t = '%s is %s, must be %s%s' % (what, st.facts.norm(got) if isinstance(got, Lin) else got, want,
                                            (' [when %s]' % fact_text(st)) if st.facts.all() else '')
        self.chk.put(s, rule, site, t, loc or self.loc())
        return s

    def loc(self):
        """source position of the analysed operation: the first callee outside the driver"""
        for n in sorted(self.eng.funcs_seen):
            f = self.mod.functions[n]
            if f.name == self.fname:
                continue
            l = self.mod.func_loc(f)
            if l and '/drivers/' not in l[0]:
                return (self.ctx.repo_path(l[0]), l[1])
        return None

    def mem_reports(self, rule, kinds=None):
        """feed the engine's memory-safety reports into the check"""
        n = 0
        if self.eng.candidates:
            self.chk.confirm = getattr(self.chk, 'confirm', []) + self.eng.candidates
            self.eng.candidates = []
        for r in self.eng.reports.values():
            if r.kind == 'undecided':
                self.chk.unk(rule, self.site(' ' + r.func.split('(')[0]), r.msg, r.loc)
                continue
            if kinds and r.kind not in kinds:
                continue
            n += 1
            self.chk.put('bad' if r.sure else 'unknown', rule, self.site(' ' + r.func.split('(')[0]), '[%s] %s' % (r.kind, r.msg), r.loc)
        if not n:
            self.chk.ok(rule, self.site())


def Atom_(nm):
    return Lin.atom(Atom(nm))


def setskip(c, ok):
    if ok is False:
        c.skip = True


def both_pos(f):
    """scenarios for the components of two factors: one of them has none"""
    yield 'left scalar', -1, None
    yield 'right scalar', None, -1


SIZES = [(None, None), (1, 0), (2, 0), (2, 1), (3, 1)]


def sized(f):
    """run for every size at once (skolem index) and for small concrete sizes; an obligation refuted only on a
    widened state is re-examined at a concrete size satisfying that state's facts"""
    def g(ctx, chk, *a):
        chk.confirm = []
        for n, k in SIZES:
            f(ctx, chk, n, k, *a)
        more = []
        for fc in chk.confirm[:40]:
            for v in range(1, 70):
                f1 = fc.copy()
                if f1.add_eq(Lin.atom(Atom('n')) - v) and f1.consistent():
                    for kk in list(range(0, v)):
                        f2 = f1.copy()
                        if f2.add_eq(Lin.atom(Atom('k')) - kk) and f2.consistent() and (v, kk) not in more:
                            more.append((v, kk))
                    break
        chk.confirm = []
        todo = [m for m in more if m not in SIZES]
        for n, k in todo[:6] + todo[-2:] if len(todo) > 8 else todo:
            f(ctx, chk, n, k, *a)
    return g


def obj_state(c, st, p):
    L = c.L
    return dict(size=L.get(st, p, L.o_size), pos=L.get(st, p, L.o_pos), deg=L.get(st, p, L.o_deg),
                ex=L.elem(c.eng, st, p, c.k), arena=L.get(st, p, L.o_alloc), arr=L.get(st, p, L.o_vars))


OPS = []


def op(*names):
    def d(f):
        for n in names:
            OPS.append((n, f))
        return f
    return d


def operations(ctx, chk, n=None, k=None):
    """yield (case, finals, specs) where specs(st) yields (group, what, got, want)"""
    def unary(fname, build, spec, label=''):
        c = Case(ctx, chk, fname, label, n=n, k=k)
        fin = c.go(build)
        return c, fin, spec
    R = Ptr('R', ZERO)

    def same(c, st, nm, pos=None):
        """operand must be unchanged"""
        o = obj_state(c, st, Ptr(nm, ZERO))
        yield 'operand', 'exponent k of operand ' + nm, o['ex'], c.ex(nm)
        yield 'operand', 'degree of operand ' + nm, o['deg'], c.deg(nm)
        yield 'operand', 'component of operand ' + nm, o['pos'], c.pos(nm) if pos is None else lin(pos)
        yield 'operand', 'size of operand ' + nm, o['size'], c.N

    def res(c, st, p, ex, deg, pos, arena='ALLOC'):
        o = obj_state(c, st, p)
        yield 'exponent', 'exponent k of the result', o['ex'], ex
        yield 'degree', 'degree of the result', o['deg'], deg
        yield 'component', 'component of the result', o['pos'], pos
        yield 'storage', 'number of variables of the result', o['size'], c.N
        if arena:
            yield 'storage', 'arena of the result', o['arena'], Ptr(arena, ZERO)

    # ---- constructors
    def b(st, c):
        c.L.raw(st)
        c.p0 = Lin.atom(Atom('p0'))
        st.facts.add_ge(c.p0 + 1)
        return [R, Ptr('ALLOC', ZERO), c.N, c.p0]
    yield unary('monom_ctor', b, lambda c, st: res(c, st, R, ZERO, ZERO, c.p0))

    for lab in ('k is the variable', 'k before it', 'k after it'):
        def b(st, c, lab=lab):
            c.L.raw(st)
            c.v = c.k if lab == 'k is the variable' else Lin.atom(Atom('v'))
            c.p0 = Lin.atom(Atom('p0'))
            st.facts.add_ge(c.p0 + 1)
            st.facts.add_ge(c.v)
            st.facts.add_ge(c.N - 1 - c.v)
            {'k is the variable': lambda: None, 'k before it': lambda: setskip(c, st.facts.add_ge(c.v - c.k - 1)),
             'k after it': lambda: setskip(c, st.facts.add_ge(c.k - c.v - 1))}[lab]()
            c.inc = ONE if lab == 'k is the variable' else ZERO
            return [R, Ptr('ALLOC', ZERO), c.v, c.N, c.p0]
        yield unary('monom_ctor_var', b, lambda c, st: res(c, st, R, c.inc, ONE, c.p0), lab)

        def b(st, c, lab=lab):
            a0 = b_prol(st, c, lab)
            c.L.raw(st)
            return [R, Ptr('ALLOC', ZERO), c.v, Ptr('a', ZERO)]

        def b_prol(st, c, lab):
            c.mon(st, 'a', alloc='ALLOC2')
            c.v = c.k if lab == 'k is the variable' else Lin.atom(Atom('v'))
            st.facts.add_ge(c.v)
            st.facts.add_ge(c.N - 1 - c.v)
            {'k is the variable': lambda: None, 'k before it': lambda: setskip(c, st.facts.add_ge(c.v - c.k - 1)),
             'k after it': lambda: setskip(c, st.facts.add_ge(c.k - c.v - 1))}[lab]()
            c.inc = ONE if lab == 'k is the variable' else ZERO
        yield unary('monom_ctor_prolong', b, lambda c, st: list(res(c, st, R, c.ex('a') + c.inc, c.deg('a') + 1, c.pos('a')))
                    + list(same(c, st, 'a')), lab)

        def b(st, c, lab=lab):
            b_prol(st, c, lab)
            c.mon(st, 'R')
            return [R, c.v, Ptr('a', ZERO)]
        yield unary('monom_multv', b, lambda c, st: list(res(c, st, R, c.ex('a') + c.inc, c.deg('a') + 1, c.pos('a')))
                    + list(same(c, st, 'a')), lab)

    def b(st, c):
        c.L.raw(st)
        c.mon(st, 'a', alloc='ALLOC2')
        return [R, Ptr('ALLOC', ZERO), Ptr('a', ZERO)]
    yield unary('monom_ctor_copy', b, lambda c, st: list(res(c, st, R, c.ex('a'), c.deg('a'), c.pos('a'))) + list(same(c, st, 'a')))

    for lab, pa, pb in both_pos(None):
        def b(st, c, pa=pa, pb=pb):
            c.L.raw(st)
            c.mon(st, 'a', pos=pa, alloc='ALLOC2')
            c.mon(st, 'b', pos=pb, alloc='ALLOC2')
            c.rp = c.pos('b') if pa == -1 else c.pos('a')
            c.pab = (pa, pb)
            return [R, Ptr('ALLOC', ZERO), Ptr('a', ZERO), Ptr('b', ZERO)]
        yield unary('monom_ctor_mul', b, lambda c, st: list(res(c, st, R, c.ex('a') + c.ex('b'), c.deg('a') + c.deg('b'), c.rp))
                    + list(same(c, st, 'a', c.pab[0])) + list(same(c, st, 'b', c.pab[1])), lab)

        def b(st, c, pa=pa, pb=pb):
            c.mon(st, 'a', pos=pa)
            c.mon(st, 'b', pos=pb, alloc='ALLOC2')
            c.rp = c.pos('b') if pa == -1 else c.pos('a')
            c.pab = (pa, pb)
            return [Ptr('a', ZERO), Ptr('b', ZERO)]
        yield unary('monom_mult', b, lambda c, st: list(res(c, st, Ptr('a', ZERO), c.ex('a') + c.ex('b'), c.deg('a') + c.deg('b'), c.rp))
                    + list(same(c, st, 'b', c.pab[1])), lab)

        def b(st, c, pa=pa, pb=pb):
            c.L.raw(st)
            c.mon(st, 'a', pos=pa)
            c.mon(st, 'b', pos=pb, alloc='ALLOC2')
            c.rp = c.pos('b') if pa == -1 else c.pos('a')
            c.pab = (pa, pb)
            return [R, Ptr('a', ZERO), Ptr('b', ZERO)]
        yield unary('monom_times', b, lambda c, st: list(res(c, st, R, c.ex('a') + c.ex('b'), c.deg('a') + c.deg('b'), c.rp))
                    + list(same(c, st, 'b', c.pab[1])), lab)

    def b(st, c):
        c.L.raw(st)
        c.mon(st, 'a', alloc='ALLOC2')
        c.e = Lin.atom(Atom('e'))
        st.facts.add_ge(c.e)
        return [R, Ptr('ALLOC', ZERO), Ptr('a', ZERO), c.e]
    yield unary('monom_ctor_pow', b, lambda c, st: list(res(c, st, R, c.ex('a') * c.e, c.deg('a') * c.e, c.pos('a')))
                + list(same(c, st, 'a')))

    def b(st, c):
        c.L.raw(st)
        c.mon(st, 'a')
        return [R, Ptr('a', ZERO)]

    def moved(c, st):
        # the source keeps nothing that its destructor would release
        return list(res(c, st, R, c.ex('a'), c.deg('a'), c.pos('a')))
    yield unary('monom_ctor_move', b, moved)

    def b(st, c):
        c.mon(st, 'R')
        c.mon(st, 'a', alloc='ALLOC2')
        return [R, Ptr('a', ZERO)]
    yield unary('monom_massign', b, lambda c, st: list(res(c, st, R, c.ex('a'), c.deg('a'), c.pos('a'), 'ALLOC2')))
    yield unary('monom_assign', b, lambda c, st: list(res(c, st, R, c.ex('a'), c.deg('a'), c.pos('a'), 'ALLOC')) + list(same(c, st, 'a')))
    yield unary('monom_swap', b, lambda c, st: list(res(c, st, R, c.ex('a'), c.deg('a'), c.pos('a'), 'ALLOC2')) +
                [(g, w.replace('result', 'other object'), x, y) for g, w, x, y in
                 res(c, st, Ptr('a', ZERO), c.ex('R'), c.deg('R'), c.pos('R'), 'ALLOC')])

    # ---- quotient: the divisor divides
    for lab, pb in (('scalar divisor', -1), ('module divisor', None)):
        def b(st, c, pb=pb):
            # this(i) = b(i) + d(i)
            c.mon(st, 'a', elem=lambda e, s, i: c.nn('b', i) + c.nn('d', i),
                  pos=None, deg=c.deg('b') + c.deg('d'))
            st.facts.add_ge(c.deg('b'))
            st.facts.add_ge(c.deg('d'))
            c.mon(st, 'b', pos=(-1 if pb == -1 else c.pos('a')), alloc='ALLOC2')
            c.pb = lin(-1) if pb == -1 else c.pos('a')
            return [Ptr('a', ZERO), Ptr('b', ZERO)]
        yield unary('monom_div', b, lambda c, st: list(res(c, st, Ptr('a', ZERO), c.ex('d'), c.deg('d'), c.pos('a') if lab == 'scalar divisor' else lin(-1)))
                    + list(same(c, st, 'b', c.pb)), lab)

    # ---- permutation
    def b(st, c):
        c.mon(st, 'R')
        c.mon(st, 'a', alloc='ALLOC2')
        perm = st.new_region('sym', None, rid='perm', tag='permutation')
        return [R, Ptr('a', ZERO), Ptr('perm', ZERO)]

    def perm_model(eng, st, a, ins):
        raise NotImplementedError
    if n is None:
        yield perm_case(ctx, chk, res, same)


def perm_case(ctx, chk, res, same):
    R = Ptr('R', ZERO)

    def m_at(eng, st, a, ins):
        i = a[1]
        return app('perm', i)

    def m_size(eng, st, a, ins):
        return c.N
    c = Case(ctx, chk, 'monom_permutation', '', [(r'RandPermutation(<.*>)?::operator\[\]', m_at),
                                                (r'RandPermutation(<.*>)?::size\(\)', m_size)])

    def b(st, c):
        c.mon(st, 'R')
        c.mon(st, 'a', alloc='ALLOC2')
        # the permutation's values index the operand: within bounds by precondition
        w = st.wregion('a.v')
        w.skolem, w.size = None, None
        st.new_region('sym', None, rid='perm', tag='permutation')
        return [R, Ptr('a', ZERO), Ptr('perm', ZERO)]
    fin = c.go(b)

    def spec(c, st):
        return [x for x in res(c, st, R, app('nn', Atom_('a'), app('perm', c.k)), c.deg('a'), ZERO) if x[0] != 'component'] + \
            list(same(c, st, 'a'))
    return c, fin, spec


def all_ops(ctx, n, k):
    if not hasattr(ctx, '_monom_ops'):
        ctx._monom_ops = {}
        ctx._monom_tmp = {}
    if (n, k) not in ctx._monom_ops:
        tmp = Check('tmp')
        ctx._monom_ops[n, k] = [(c, fin, [list(spec(c, st)) for st in fin]) for c, fin, spec in operations(ctx, tmp, n, k)]
        ctx._monom_tmp[n, k] = tmp
    return ctx._monom_ops[n, k]


def feed(ctx, chk, groups, n, k):
    ops = all_ops(ctx, n, k)
    tmp = ctx._monom_tmp[n, k]
    chk.functions |= tmp.functions
    for kk, v in tmp.explored.items():
        chk.count(kk, v)
    for o in tmp.obs:
        chk.obs.append(o)
    for c, fin, specs in ops:
        c.chk = chk
        for st, sp in zip(fin, specs):
            for g, what, got, want in sp:
                if g in groups:
                    c.expect(st, g, c.site(' ' + what), got, want, what)


@sized
def p_exponents(ctx, chk, n, k):
    feed(ctx, chk, ('exponent', 'degree', 'operand'), n, k)


@sized
def p_component(ctx, chk, n, k):
    feed(ctx, chk, ('component',), n, k)


@sized
def p_storage(ctx, chk, n, k):
    """ownership: exact release, no overrun, destructor releases everything once"""
    feed(ctx, chk, ('storage',), n, k)
    for c, fin, specs in all_ops(ctx, n, k):
        c.chk = chk
        c.mem_reports('memory')
    L = ctx.monom_layout
    # destroying / moving
    R, A = Ptr('R', ZERO), Ptr('a', ZERO)

    def owned(st, p):
        """the object would release this block on destruction: size != 0"""
        return L.get(st, p, L.o_size), L.get(st, p, L.o_vars)
    c = Case(ctx, chk, 'monom_dtor', '', n=n, k=k)

    def b(st, c):
        c.mon(st, 'a')
        heapify(c, st, 'a', 'ALLOC')
        return [A]
    for st in c.go(b):
        r = st.mem.get('a.v')
        chk.put('ok' if r is not None and not r.alive else ('unknown' if st.taint else 'bad'), 'release', c.site(),
                'the destructor leaves the exponent block of a live monomial unreleased', c.loc())
    c.mem_reports('memory')
    # destructor of a moved-from object releases nothing; the target owns the block
    for nm in ('monom_ctor_move', 'monom_massign'):
        c = Case(ctx, chk, nm, 'then both destroyed', n=n, k=k)

        def b(st, c, nm=nm):
            if nm == 'monom_ctor_move':
                c.L.raw(st)
            else:
                c.mon(st, 'R', alloc='ALLOC2')
                heapify(c, st, 'R', 'ALLOC2')
            c.mon(st, 'a')
            heapify(c, st, 'a', 'ALLOC')
            return [R, A]
        fin = c.go(b)
        for st in fin:
            if nm == 'monom_massign':
                r = st.mem.get('R.v')
                chk.put('ok' if r is None or not r.alive else ('unknown' if st.taint else 'bad'), 'release', c.site(' previous block'),
                        'the block previously owned by the target is not released', c.loc())
        c.mem_reports('memory')
        # continue: destroy both
        for first, second in (('a', 'R'), ('R', 'a')):
            for st in fin:
                ok = destroy_both(ctx, chk, c, st, first, second)
    # after construction the object's block is its own, taken from its arena, with the size the destructor returns
    for c, fin, specs in all_ops(ctx, n, k):
        c.chk = chk
        if c.fname.startswith('monom_ctor') and c.fname != 'monom_ctor_move' or c.fname == 'monom_times':
            for st in fin:
                v = L.get(st, R, L.o_vars)
                al = L.get(st, R, L.o_alloc)
                ok = isinstance(v, Ptr) and v.r in st.mem and v.r not in ('a.v', 'b.v') or c.fname == 'monom_times'
                chk.put('ok' if ok else ('unknown' if st.taint else 'bad'), 'own block', c.site(),
                        'the new monomial shares the exponent block of an operand', c.loc())
                if ok and c.fname != 'monom_times':
                    rg = st.mem[v.r]
                    chk.put('ok' if rg.meta.get('arena') == (al.r if isinstance(al, Ptr) else None) else 'bad',
                            'own arena', c.site(), 'the exponent block comes from a different arena than the object records', c.loc())
                    sz = L.get(st, R, L.o_size)
                    if isinstance(sz, Lin) and isinstance(rg.meta.get('asize'), Lin):
                        c.expect(st, 'block size', c.site(), rg.meta['asize'], sz * L.stride, 'size of the exponent block')
                    destroy_one(ctx, chk, c, st, 'R', v.r)


def heapify(c, st, nm, arena):
    r = st.wregion(nm + '.v')
    r.meta['arena'] = arena
    r.meta['asize'] = c.N * c.L.stride


def destroy_one(ctx, chk, c, st0, nm, rid):
    eng = Engine(ctx.mod, models.BASE + ARENA)
    eng.repo_path = ctx.repo_path

    def make():
        st = st0.copy()
        for r in list(st.mem):
            st.wregion(r)
        return eng.start(st, 'monom_dtor', [Ptr(nm, ZERO)])
    try:
        fin = eng.explore(make)
    except Undecided as e:
        chk.unk('release', c.site(), str(e))
        return
    for st in fin:
        r = st.mem.get(rid)
        dead = r is None or not r.alive
        chk.put('ok' if dead else ('unknown' if st.taint else 'bad'), 'release', c.site(' result destroyed'),
                'the block of the result is never returned to the arena', c.loc())
    for r in eng.reports.values():
        chk.put('bad' if r.sure else 'unknown', 'release', c.site(' result destroyed'), '[%s] %s' % (r.kind, r.msg), r.loc)


def destroy_both(ctx, chk, c, st0, first, second):
    eng = Engine(ctx.mod, models.BASE + ARENA)
    eng.repo_path = ctx.repo_path
    sts = [st0]
    for nm in (first, second):
        nxt = []
        for s0 in sts:
            def make(s0=s0):
                st = s0.copy()
                for r in list(st.mem):
                    st.wregion(r)
                return eng.start(st, 'monom_dtor', [Ptr(nm, ZERO)])
            try:
                nxt += eng.explore(make)
            except Undecided as e:
                chk.unk('release', c.site(), str(e))
            for r in eng.reports.values():
                chk.put('bad' if r.sure else 'unknown', 'release', c.site(' %s then %s destroyed' % (first, second)),
                        '[%s] %s' % (r.kind, r.msg), r.loc)
        sts = nxt
    for st in sts:
        for rid in ('a.v',):
            r = st.mem.get(rid)
            chk.put('ok' if r is None or not r.alive else ('unknown' if st.taint else 'bad'), 'release',
                    c.site(' %s then %s destroyed' % (first, second)),
                    'the moved exponent block is never returned to the arena', c.loc())


# ------------------------------------------------------------ comparisons
@sized
def p_divides(ctx, chk, n, k):
    A, B = Ptr('a', ZERO), Ptr('b', ZERO)

    def two(st, c, ea=None, eb=None, pa=None, pb=None, da=None, db=None):
        c.mon(st, 'a', elem=ea, pos=pa, deg=da)
        c.mon(st, 'b', elem=eb, pos=pb, deg=db, alloc='ALLOC2')
        return [A, B]

    def run(fname, label, build, want):
        c = Case(ctx, chk, fname, label, n=n, k=k)
        for st in c.go(build):
            got = st.ret
            c.expect(st, 'verdict', c.site(), got, lin(want), 'the answer')
            for nm in ('a', 'b'):
                o = obj_state(c, st, Ptr(nm, ZERO))
        c.mem_reports('memory')

    # divisible: every exponent of a is b's plus something non-negative
    for lab, pa, pb, want in (('scalar divisor', None, -1, 1), ('same component', 3, 3, 1), ('other component', 3, 2, 0),
                              ('scalar dividend, module divisor', -1, 2, 0)):
        def b(st, c, pa=pa, pb=pb):
            r = two(st, c, ea=lambda e, s, i: c.nn('b', i) + c.nn('d', i), pa=pa, pb=pb, da=c.deg('b') + c.deg('d'), db=c.deg('b'))
            st.facts.add_ge(c.deg('d'))
            return r
        run('monom_divisible', 'multiple, ' + lab, b, want)
    # not divisible: some exponent k is smaller
    for lab, pa, pb in (('scalar divisor', None, -1), ('same component', 3, 3)):
        def b(st, c, pa=pa, pb=pb):
            def ea(e, s, i):
                if e.sign(s, i - c.k) == 0:
                    return c.nn('a', c.k)
                return c.nn('a', i)
            r = two(st, c, ea=ea, pa=pa, pb=pb)
            st.facts.add_ge(c.nn('b', c.k) - c.nn('a', c.k) - 1)
            st.facts.add_ge(c.deg('b') - c.nn('b', c.k))
            st.facts.add_ge(c.deg('a') - c.nn('a', c.k))
            return r
        run('monom_divisible', 'some exponent smaller, ' + lab, b, 0)
    # equality within one component
    for fname, neg in (('monom_eq', 0), ('monom_ne', 1)):
        def b(st, c):
            sh = lambda e, s, i: c.nn('c', i)
            return two(st, c, ea=sh, eb=sh, pa=c.pos('p'), pb=c.pos('p'), da=c.deg('c'), db=c.deg('c'))
        run(fname, 'equal exponents', b, 1 - neg)
        for pa, pb in ((-1, 2), (1, -1), (0, 1)):
            def b(st, c, pa=pa, pb=pb):
                sh = lambda e, s, i: c.nn('c', i)
                return two(st, c, ea=sh, eb=sh, pa=pa, pb=pb, da=c.deg('c'), db=c.deg('c'))
            run(fname, 'equal exponents, components %d and %d' % (pa, pb), b, neg)
        for sg in (1, -1):
            def b(st, c, sg=sg):
                r = two(st, c, pa=c.pos('p'), pb=c.pos('p'))
                st.facts.add_ge((c.nn('a', c.k) - c.nn('b', c.k)) * sg - 1)
                st.facts.add_ge(c.deg('b') - c.nn('b', c.k))
                st.facts.add_ge(c.deg('a') - c.nn('a', c.k))
                return r
            run(fname, 'an exponent differs (%+d)' % sg, b, neg)


def p_gcdlcm(ctx, chk):
    """r = sum over i of min/max(a(i), b(i)): the k-th contribution enters exactly once, nothing else is added"""
    A, B = Ptr('a', ZERO), Ptr('b', ZERO)
    for fname, pick in (('monom_gcd', -1), ('monom_lcm', 1)):
        for lab, sg in (('a(k)<b(k)', -1), ('a(k)=b(k)', 0), ('a(k)>b(k)', 1)):
            c = Case(ctx, chk, fname, lab)

            def b(st, c, sg=sg):
                c.mon(st, 'a', pos=-1)
                c.mon(st, 'b', pos=-1, alloc='ALLOC2')
                for nm in 'ab':          # notice when a stored degree takes part in the sum
                    w = st.wregion(nm)
                    del w.cells[lin(c.L.o_deg)]

                    def content(e, s, r, o, z, t, nm=nm):
                        s.ghost['degree read'] = ONE
                        return c.deg(nm)
                    w.content = content
                d = c.ex('a') - c.ex('b')
                st.facts.add_eq(d) if sg == 0 else st.facts.add_ge(d * sg - 1)
                return [A, B]
            want = c.ex('b') if sg * pick < 0 else c.ex('a')
            for st in c.go(b):
                r = st.ret
                if not isinstance(r, Lin):
                    chk.unk('contribution', c.site(), 'result %r' % (r,))
                    continue
                r = st.facts.norm(r)
                kp = Lin({m: x for m, x in r.t.items() if any(a.kind == 'app' and any(isinstance(y, Lin) and y == c.k for y in a.args) for a in m)})
                s = classify(st, kp, want) if not st.taint else 'unknown'
                if s == 'bad' and 'degree read' in st.ghost:
                    s = 'unknown'      # derived from a stored degree: decided by the runs with a concrete size
                chk.put(s, 'contribution', c.site(), 'exponent k contributes %s to the sum, must contribute %s' % (kp, want), c.loc())
            c.mem_reports('memory')
        # exact sums for n = 1 and n = 2
        for n in (1, 2, 3):
            c = Case(ctx, chk, fname, '', n=n, k=0)

            def b(st, c, n=n):
                c.mon(st, 'a', pos=-1)
                c.mon(st, 'b', pos=-1, alloc='ALLOC2')
                return [A, B]
            for st in c.go(b):
                if not isinstance(st.ret, Lin):
                    chk.unk('sum', c.site(), 'result %r' % (st.ret,))
                    continue
                want = ZERO
                und = False
                for i in range(n):
                    x, y = app('nn', Atom_('a'), lin(i)), app('nn', Atom_('b'), lin(i))
                    s = st.facts.sign(x - y)
                    if s is None:
                        if st.facts.entails_ge(x - y):
                            s = 1
                        elif st.facts.entails_ge(y - x):
                            s = -1
                        else:
                            und = True
                            break
                    want = want + (y if s * pick < 0 else x)
                if und:
                    chk.put('unknown' if st.taint else 'bad', 'sum', c.site(), 'the result does not depend on how exponents %d compare' % i, c.loc())
                else:
                    c.expect(st, 'sum', c.site(), st.ret, want, 'the sum')


def order_lhs(c, diff, shared, rhs):
    """exponents of the left operand: those on the `shared` side of k agree with the right operand"""

    def ea(e, s, i):
        if diff is None:
            return c.nn('a', i)
        if diff == 0:
            return rhs(i)
        d = i - c.k
        sg = (d.cval() > 0) - (d.cval() < 0) if d.is_const() else e.sign(s, d)
        if sg == 0:
            return c.nn('a', c.k)
        return rhs(i) if sg == shared else c.nn('a', i)
    return ea


def order_facts(st, c, ea, rhs, drel, diff, db, three):
    """place the operands of a comparison and relate their degrees; False if no such operands exist"""
    ok = True
    if c.n is not None:
        da = ZERO
        for i in range(c.n):
            da = da + ea(c.eng, st, lin(i))
    else:
        da = db if drel == 0 or diff == 0 else c.deg('a')
    c.mon(st, 'a', elem=ea, deg=da)
    c.mon(st, 'b', pos=None, alloc='ALLOC2')
    if three:
        c.mon(st, 'c', pos=-1, alloc='ALLOC2')
    if drel == 0:
        ok = st.facts.add_eq(da - db) and ok
    elif drel:
        ok = st.facts.add_ge((da - db) * drel - 1) and ok
    if diff in (1, -1):
        ok = st.facts.add_ge((c.nn('a', c.k) - rhs(c.k)) * diff - 1) and ok
    if diff != 0:
        ok = st.facts.add_ge(da - c.nn('a', c.k)) and ok
    ok = st.facts.add_ge(c.deg('b') - c.nn('b', c.k)) and ok
    if three:
        ok = st.facts.add_ge(c.deg('c') - c.nn('c', c.k)) and ok
    return ok


def order_cases(kind):
    """(label, degree relation, differing?, sign of a(k)-b(k), expected)"""
    out = []
    if kind == 'lex':
        out += [('equal', None, 0, 0), ('first difference, larger', None, 1, 1), ('first difference, smaller', None, -1, -1)]
    else:
        up = 1 if kind == 'deglex' else -1
        out += [('larger degree', 1, None, up), ('smaller degree', -1, None, -up), ('equal', 0, 0, 0)]
        if kind == 'deglex':
            out += [('same degree, last difference larger', 0, 1, -1), ('same degree, last difference smaller', 0, -1, 1)]
        else:
            out += [('same degree, first difference larger', 0, 1, 1), ('same degree, first difference smaller', 0, -1, -1)]
    return out


def _orders(ctx, chk, n, k, three=False):
    A, B, C = Ptr('a', ZERO), Ptr('b', ZERO), Ptr('c', ZERO)
    for kind in ('lex', 'deglex', 'alex'):
        for lab, drel, diff, want in order_cases(kind):
            c = Case(ctx, chk, 'monom_' + kind + ('3' if three else ''), lab, n=n, k=k)
            shared = -1 if kind in ('lex', 'alex') else 1       # indices i with sign(i-k)==shared are equal
            c.also = (c.k - shared,) if c.n is not None else ()

            def b(st, c, drel=drel, diff=diff):
                eng = c.eng
                # right-hand side exponents: one monomial b, or the product b*c
                rhs = (lambda i: c.nn('b', i) + c.nn('c', i)) if three else (lambda i: c.nn('b', i))
                db = c.deg('b') + c.deg('c') if three else c.deg('b')

                ea = order_lhs(c, diff, shared, rhs)
                ok = order_facts(st, c, ea, rhs, drel, diff, db, three)
                if not ok:
                    c.skip = True
                return [A, B, C] if three else [A, B]
            for st in c.go(b):
                c.expect(st, 'order', c.site(), st.ret, lin(want), 'the comparison')
            c.mem_reports('memory')


@sized
def p_orders(ctx, chk, n, k):
    _orders(ctx, chk, n, k)


@sized
def p_orders3(ctx, chk, n, k):
    _orders(ctx, chk, n, k, True)


# ------------------------------------------------ term order of a polynomial
TOP, POT = 0x10, 0x20
KIND = {1: 'lex', 2: 'deglex', 4: 'alex'}


def poly_order_obj(ctx, chk, order, rid='P'):
    """abstractly construct a polynomial base with the given order; returns (state, case)"""
    c = Case(ctx, chk, 'poly_ctor', 'order %#x' % order)
    ty = class_type(ctx.mod, 'Poly')
    size = ctx.mod.size(ty)

    def b(st, c):
        st.new_region('sym', Lin.const(size), rid=rid, tag=rid)
        return [Ptr(rid, ZERO), lin(order), c.N]
    fin = c.go(b)
    return fin, c


def comparators(ctx, chk, order):
    fin, c = poly_order_obj(ctx, chk, order)
    out = {}
    for st in fin:
        for o, (sz, v) in st.mem['P'].cells.items():
            v = st.deref(v)
            if isinstance(v, Fn):
                out[len(ctx.mod.functions[v.name].params)] = v.name
    if len(fin) != 1 or set(out) != {2, 3}:
        raise Broken('order %#x: comparison functions not found in the constructed object' % order)
    return out, fin[0]


@sized
def p_module_order(ctx, chk, n, k):
    A, B, C = Ptr('a', ZERO), Ptr('b', ZERO), Ptr('c', ZERO)
    for where in (TOP, POT):
        for code, kind in KIND.items():
            order = where | code
            cmps, pst = comparators(ctx, chk, order)
            for three in (False, True):
                for prel in (1, 0, -1):
                    for lab, drel, diff, want in order_cases(kind):
                        if where == POT and prel:
                            if lab not in ('equal',) and diff != 1 and drel is None:
                                pass
                            w = prel
                        else:
                            w = want if want else prel
                        name = '%s/%s%s' % ('TOP' if where == TOP else 'POT', kind, ' (product)' if three else '')
                        c = Case(ctx, chk, 'poly_cmp', '%s, component %s, %s' % (
                            name, {1: 'larger', 0: 'equal', -1: 'smaller'}[prel], lab), n=n, k=k)
                        shared = -1 if kind in ('lex', 'alex') else 1
                        c.also = (c.k - shared,) if c.n is not None else ()

                        def b(st, c, drel=drel, diff=diff, prel=prel):
                            rhs = (lambda i: c.nn('b', i) + c.nn('c', i)) if three else (lambda i: c.nn('b', i))
                            db = c.deg('b') + c.deg('c') if three else c.deg('b')

                            ea = order_lhs(c, diff, shared, rhs)
                            if not order_facts(st, c, ea, rhs, drel, diff, db, three):
                                c.skip = True
                            dp = c.pos('a') - c.pos('b')
                            st.facts.add_eq(dp) if prel == 0 else st.facts.add_ge(dp * prel - 1)
                            if three:
                                return [A, B, C]
                            c.eng2 = None
                            w = st.new_region('sym', pst.mem['P'].size, rid='P', tag='P')
                            w.cells.update(pst.mem['P'].cells)
                            return [Ptr('P', ZERO), A, B]
                        if three:
                            c.fname = cmps[3]
                        fin = c.go(b)
                        for st in fin:
                            c.fname = 'comparison'
                            c.expect(st, 'order', c.site(), st.ret, lin(w), 'the comparison')
                        c.mem_reports('memory')


def p_order_travels(ctx, chk):
    """order code, size and both comparison functions move together"""
    ty = class_type(ctx.mod, 'Poly')
    size = ctx.mod.size(ty)
    objs = {}
    for o1 in (TOP | 1, TOP | 2, TOP | 4, POT | 1, POT | 2, POT | 4):
        fin, c = poly_order_obj(ctx, chk, o1)
        for st in fin:
            objs[o1] = {o: v for o, v in st.mem['P'].cells.items()}
            c2 = Case(ctx, chk, 'poly_order', 'constructed with %#x' % o1)

            def b(st2, c2, src=objs[o1]):
                w = st2.new_region('sym', Lin.const(size), rid='P', tag='P')
                w.cells.update(src)
                return [Ptr('P', ZERO)]
            for s2 in c2.go(b):
                c2.expect(s2, 'order code', c2.site(), s2.ret, lin(o1), 'the reported order')
            c3 = Case(ctx, chk, 'poly_size', 'constructed with %#x' % o1)
            for s2 in c3.go(b):
                c3.expect(s2, 'order code', c3.site(), s2.ret, Lin.atom(Atom('n')), 'the reported number of variables')
    codes = sorted(objs)
    for i, o1 in enumerate(codes):
        o2 = codes[(i + 1) % len(codes)]
        o3 = codes[(i + 3) % len(codes)]
        for oth in (o2, o3):
            ren = {Atom('n'): Lin.atom(Atom('m'))}
            va = {o: (sz, v) for o, (sz, v) in objs[o1].items()}
            vr = {o: (sz, v.subst(ren) if isinstance(v, Lin) else v) for o, (sz, v) in objs[oth].items()}
            for fname in ('poly_ctor_copy', 'poly_ctor_move', 'poly_assign', 'poly_massign', 'poly_swap'):
                c = Case(ctx, chk, fname, '%#x <- %#x' % (oth, o1))

                def b(st, c):
                    w = st.new_region('sym', Lin.const(size), rid='a', tag='a')
                    w.cells.update(va)
                    w = st.new_region('sym', Lin.const(size), rid='R', tag='R')
                    if 'ctor' not in fname:
                        w.cells.update(vr)
                    return [Ptr('R', ZERO), Ptr('a', ZERO)]
                for st in c.go(b):
                    for o, (sz, v) in va.items():
                        got = st.mem['R'].cells.get(o)
                        g = st.deref(got[1]) if got else Top('never written')
                        c.expect(st, 'order travels', c.site(' field+%s' % o), g, v, 'field at offset %s of the target' % o)
                        got = st.mem['a'].cells.get(o)
                        g = st.deref(got[1]) if got else Top('never written')
                        if fname in ('poly_swap',):
                            c.expect(st, 'order travels', c.site(' other+%s' % o), g, vr[o][1], 'field at offset %s of the other object' % o)
                        elif fname in ('poly_assign', 'poly_ctor_copy'):
                            c.expect(st, 'order travels', c.site(' source+%s' % o), g, v, 'field at offset %s of the source' % o)
                c.mem_reports('memory')
    # comparable: same size and same order
    for lab, os, ns, want in (('same', codes[0], 0, 1), ('other order', codes[1], 0, 0), ('other size', codes[0], 1, 0)):
        c = Case(ctx, chk, 'poly_comparable', lab)

        def b(st, c):
            w = st.new_region('sym', Lin.const(size), rid='a', tag='a')
            w.cells.update(objs[codes[0]])
            w = st.new_region('sym', Lin.const(size), rid='R', tag='R')
            ren = {Atom('n'): Lin.atom(Atom('n')) + ns}
            w.cells.update({o: (sz, v.subst(ren) if isinstance(v, Lin) else v) for o, (sz, v) in objs[os].items()})
            return [Ptr('R', ZERO), Ptr('a', ZERO)]
        for st in c.go(b):
            c.expect(st, 'comparable', c.site(), st.ret, lin(want), 'the answer')
