"""Class-level meaning of GInv::Integer for the analysis of polynomial code: each method is replaced by what I01-I03
establish for it (exact value, one limb block of its arena).  The representation written is the real one, so that a
method unknown here can still be interpreted from its own code."""
from absint import *
from lin import *
from gmp import Z, quo, gcdval, divides, dummy
import gmp
from scen import m_new_by
from monoms import m_arena_free

CAP = Lin.const(1000)


class I:
    def __init__(self, eng, st, p, fields):
        self.eng, self.st = eng, st
        self.p = eng.force(st, p)
        self.oa, self.oz = fields
        eng.check_access(st, self.p, 24, 'integer')
        self.z = Z(eng, st, Ptr(self.p.r, self.p.o + self.oz))

    @property
    def arena(self):
        return self.eng.force(self.st, self.eng.load(self.st, Ptr(self.p.r, self.p.o + self.oa), ('ptr',)))

    def set_arena(self, a):
        self.eng.store(self.st, Ptr(self.p.r, self.p.o + self.oa), a, ('ptr',))

    def init(self, a):
        self.set_arena(a)
        self.z.put(alloc=ZERO, size=ZERO, d=dummy(self.st))

    def raw_size(self):
        return self.st.deref(self.eng.load(self.st, Ptr(self.p.r, self.p.o + self.oz + 4), ('int', 32)))

    def value(self):
        e, st = self.eng, self.st
        s = self.raw_size()
        if isinstance(s, Top):
            e.report(st, 'gmp', 'a number is used before it is initialised')
            raise PathEnd()
        if s == ZERO:
            return ZERO
        return self.z.value()

    def free(self):
        e, st = self.eng, self.st
        if e.is_zero(st, self.z.alloc):
            return
        m_arena_free(e, st, [self.arena, self.z.d, self.z.alloc * 8], None)

    def set(self, v):
        e, st = self.eng, self.st
        v = st.facts.norm(v)
        al = self.z.alloc
        if not isinstance(al, Lin):
            e.report(st, 'gmp', 'a number is used before it is initialised')
            raise PathEnd()
        if v == ZERO:
            self.z.put(size=ZERO)
            return
        if e.is_zero(st, al):
            p = m_new_by(e, st, [CAP * 8, self.arena], None)
            self.z.put(alloc=CAP, d=p)
        d = self.z.d
        r = st.region(d.r) if isinstance(d, Ptr) and d.r else None
        if r is None or not r.alive:
            e.report(st, 'use-after-free', 'a result is written to released limbs')
            raise PathEnd()
        w = st.wregion(d.r)
        s = size_field(v)
        w.meta['tok'] = (v, s)
        w.meta['terms'] = (v, s)
        self.z.put(size=s)


def size_field(v):
    if v.is_const():
        return lin((v.cval() > 0) - (v.cval() < 0))

    def resolve(e, s, z, v=v):
        def to(k):
            def f(s2):
                e2 = s2.facts.norm(v)
                if k == 0:
                    ok = s2.facts.add_eq(e2)
                    val = ZERO
                else:
                    ok = s2.facts.add_ge(e2 * k - 1)
                    a = s2.facts.norm(e2 * k)
                    val = app('limbs', a) if not a.is_const() else ONE
                    if not val.is_const():
                        s2.facts.add_ge(val - 1)
                    val = val * k
                if ok is False:
                    return False
                s2.bind_lazy(z.id, val)
            return f
        return [to(0), to(1), to(-1)]
    return Lazy(resolve)


def models(fields):
    def it(eng, st, p):
        return I(eng, st, p, fields)

    def ctor(eng, st, a, ins):
        it(eng, st, a[0]).init(a[1])

    def ctor_copy(eng, st, a, ins):
        v = it(eng, st, a[2]).value()
        x = it(eng, st, a[0])
        x.init(a[1])
        x.set(v)

    def ctor_str(eng, st, a, ins):
        from scen import cstr
        nm = cstr(eng, st, a[2])
        try:
            v = lin(int(nm, 0))
        except ValueError:
            v = Lin.atom(Atom(nm))
        x = it(eng, st, a[0])
        x.init(a[1])
        x.set(v)

    def dtor(eng, st, a, ins):
        it(eng, st, a[0]).free()

    def assign(eng, st, a, ins):
        v = it(eng, st, a[1]).value()
        it(eng, st, a[0]).set(v)

    def set_c(eng, st, a, ins):
        it(eng, st, a[0]).set(a[1])

    def neg(eng, st, a, ins):
        x = it(eng, st, a[0])
        x.set(-x.value())

    def op2(f):
        def m(eng, st, a, ins):
            x = it(eng, st, a[0])
            x.set(f(eng, st, x.value(), it(eng, st, a[1]).value()))
        return m

    def op3(f):
        def m(eng, st, a, ins):
            x = it(eng, st, a[0])
            p, q, r = (st.deref(eng.force(st, y)) for y in a[:3])
            if p == q or p == r:
                eng.report(st, 'gmp', 'the destination of a three-operand operation is one of its operands')
                raise PathEnd()
            x.set(f(eng, st, it(eng, st, a[1]).value(), it(eng, st, a[2]).value()))
        return m

    def div(eng, st, x, y):
        if eng.is_zero(st, y):
            eng.report(st, 'div-by-zero', 'division by zero')
            raise PathEnd()
        q = quo(st, x, y)
        s = q.single()
        if s is not None and s.name == 'quo':
            p = app('divides', y, x)
            if st.facts.norm(p) != ONE and not st.facts.entails_ge(p - 1):
                eng.report(st, 'gmp', 'exact division of %s by %s, which may not divide it' % (x, y), sure=False)
        return q

    def gcd(eng, st, x, y):
        if eng.is_zero(st, x) or eng.is_zero(st, y):
            eng.report(st, 'gmp', 'greatest common divisor with zero')
            raise PathEnd()
        g = gcdval(st, x, y)
        if g.single() is not None and g.single().name == 'abs':
            g = g.single().args[0]
            g = g if eng.is_ge(st, g) else -g
        st.facts.add_ge(g - 1)
        return g

    def iszero(eng, st, a, ins):
        return ONE if eng.is_zero(st, it(eng, st, a[0]).value()) else ZERO

    def isone(eng, st, a, ins):
        return ONE if eng.is_zero(st, it(eng, st, a[0]).value() - 1) else ZERO

    def isabsone(eng, st, a, ins):
        v = it(eng, st, a[0]).value()
        return ONE if eng.is_zero(st, v - 1) or eng.is_zero(st, v + 1) else ZERO

    def sgn(eng, st, a, ins):
        return lin(eng.sign(st, it(eng, st, a[0]).value()))

    def norm(eng, st, a, ins):
        v = st.facts.norm(it(eng, st, a[0]).value())
        if v.is_const():
            return lin(int(v.cval() != 0))
        v = v if v.sortkey() < (-v).sortkey() else -v
        n = app('norm', v)
        st.facts.add_ge(n)
        return n

    def divisible(eng, st, a, ins):
        return ONE if divides(eng, st, it(eng, st, a[1]).value(), it(eng, st, a[0]).value()) else ZERO

    def text(eng, st, a, ins):
        v = it(eng, st, a[0]).value()
        r = st.new_region('heap', lin(64), tag='text', meta={'lost': True})
        r.meta['boot'] = True
        r.meta['tok'] = (v, st.deref(a[1]))
        r.cells[ZERO] = (1, app('chr', v, st.deref(a[1])))
        return Ptr(r.rid, ZERO)

    def swap(eng, st, a, ins):
        x, y = it(eng, st, a[0]), it(eng, st, a[1])
        fx = (x.arena, x.z.alloc, x.raw_size(), x.z.d)
        fy = (y.arena, y.z.alloc, y.raw_size(), y.z.d)
        for t, f in ((x, fy), (y, fx)):
            t.set_arena(f[0])
            t.z.put(*f[1:])

    N = r'^GInv::Integer::'
    S = r'\((GInv::)?Integer const&\)'
    out = [
        (N + r'Integer\(GInv::Allocator\*\)$', ctor), (N + r'Integer\(GInv::Allocator\*, GInv::Integer const&\)$', ctor_copy),
        (N + r'Integer\(GInv::Allocator\*, char const\*\)$', ctor_str), (N + r'~Integer\(\)$', dtor),
        (N + r'operator=\(GInv::Integer const&\)$', assign), (N + r'set_[su]i\((unsigned )?long\)$', set_c), (N + r'set_neg\(\)$', neg),
        (N + r'swap\(GInv::Integer&\)$', swap), (N + r'isZero\(\) const$', iszero), (N + r'isOne\(\) const$', isone),
        (N + r'isAbsOne\(\) const$', isabsone), (N + r'sgn\(\) const$', sgn), (N + r'norm\(\) const$', norm), (N + r'get_str\(int\) const$', text),
        (N + r'divisible\(GInv::Integer const&\) const$', divisible),
    ]
    for nm, f in (('add', lambda e, s, x, y: x + y), ('sub', lambda e, s, x, y: x - y), ('mult', lambda e, s, x, y: x * y), ('div', div), ('gcd', gcd)):
        out.append((N + nm + r'\(GInv::Integer const&\)$', op2(f)))
        out.append((N + nm + r'\(GInv::Integer const&, GInv::Integer const&\)$', op3(f)))
    return gmp.ZOPS + gmp.ZSPEC + out


def layout(ctx):
    """offsets of the arena pointer and of the number inside an Integer"""
    from monoms import class_type, leaf_fields, Anchor
    from fw import Broken
    try:
        f = leaf_fields(ctx.mod, class_type(ctx.mod, 'Integer'))
    except Anchor as e:
        raise Broken(str(e))
    sizes = [(o, s, t[0]) for o, s, t in f]
    # an mpz is {int, int, ptr}
    for i in range(len(sizes) - 2):
        if [x[1:] for x in sizes[i:i + 3]] == [(4, 'int'), (4, 'int'), (8, 'ptr')]:
            oz = sizes[i][0]
            rest = [x for x in sizes if not oz <= x[0] < oz + 16]
            if len(rest) == 1 and rest[0][2] == 'ptr':
                return rest[0][0], oz
    raise Broken('layout of Integer')
