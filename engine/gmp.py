"""Models of GMP: an mpz is {alloc, size, limbs}; the limb block carries the value as a ghost token together with the
size it was written with, so that moved, negated and reallocated numbers are tracked exactly.  Growth of a number whose
limbs live in an arena block is an error (GMP would call realloc on it)."""
from absint import *
from lin import *
import re
import models

REALVAL = False


def limbs_of(eng, st, v):
    """size field of a number with value v (forks on the sign)"""
    s = eng.sign(st, v)
    if s == 0:
        return ZERO
    a = st.facts.norm(v if s > 0 else -v)
    if a.is_const() and abs(a.cval()) < 2 ** 63:
        return lin(s)
    L = app('limbs', a)
    st.facts.add_ge(L - 1)
    return L if s > 0 else -L


def absl(eng, st, x):
    return x if eng.is_ge(st, x) else -x


class Z:
    """view of an __mpz_struct in memory"""

    def __init__(self, eng, st, p):
        self.eng, self.st = eng, st
        self.p = eng.check_access(st, p, 16, 'number')
        self.p = eng.force(st, p)

    def fld(self, o, sz, ty):
        return self.eng.force(self.st, self.eng.load(self.st, Ptr(self.p.r, self.p.o + o), ty))

    @property
    def alloc(self):
        return self.fld(0, 4, ('int', 32))

    @property
    def size(self):
        return self.fld(4, 4, ('int', 32))

    @property
    def d(self):
        return self.fld(8, 8, ('ptr',))

    def put(self, alloc=None, size=None, d=None):
        e, st = self.eng, self.st
        if alloc is not None:
            e.store(st, Ptr(self.p.r, self.p.o), alloc, ('int', 32))
        if size is not None:
            e.store(st, Ptr(self.p.r, self.p.o + 4), size, ('int', 32))
        if d is not None:
            e.store(st, Ptr(self.p.r, self.p.o + 8), d, ('ptr',))

    def value(self):
        e, st = self.eng, self.st
        d = self.d
        if isinstance(d, Ptr) and d.r in st.mem and 'tok' in st.mem[d.r].meta and st.mem[d.r].alive:
            tok = st.mem[d.r].meta['tok']              # an undetermined sign stays undetermined
            s = st.deref(e.load(st, Ptr(self.p.r, self.p.o + 4), ('int', 32)))
            if isinstance(s, Lazy) and s == st.deref(tok[1]):
                return st.deref(tok[0])
        s = self.size
        if not isinstance(s, Lin):
            e.report(st, 'gmp', 'a number is used before it is initialised')
            raise PathEnd()
        if e.is_zero(st, s):
            return ZERO
        d = self.d
        if not isinstance(d, Ptr) or d.r is None:
            e.report(st, 'gmp', 'a number without limbs is read')
            raise PathEnd()
        r = st.region(d.r)
        if not r.alive:
            e.report(st, 'use-after-free', 'released limbs of a number are read')
            raise PathEnd()
        tok = r.meta.get('tok')
        if tok is None:
            e.report(st, 'gmp', 'limbs that were never written are read')
            raise PathEnd()
        v, s0 = st.deref(tok[0]), st.deref(tok[1])
        if isinstance(s0, Lazy):
            s0 = e.force(st, s0)
        if st.facts.entails_eq(s - s0):
            return v
        if st.facts.entails_eq(s + s0):
            return -v
        e.report(st, 'gmp', 'the size field %s does not match the limbs (%s written)' % (s, s0))
        raise PathEnd()

    def set(self, v, need):
        """store v; GMP asks for `need` limbs"""
        e, st = self.eng, self.st
        v = st.facts.norm(v)
        if need is not None:
            al = self.alloc
            if not isinstance(al, Lin):
                e.report(st, 'gmp', 'a number is used before it is initialised')
                raise PathEnd()
            if not e.is_ge(st, al - need):
                self.grow(need)
        s = limbs_of(e, st, v)
        if need is not None and s != ZERO:
            n = absl(e, st, s)
            if n.is_const() is False:
                st.facts.add_ge(st.deref(need) - n)
        if s == ZERO:
            self.put(size=ZERO)
            return
        d = self.d
        if not isinstance(d, Ptr) or d.r is None:
            e.report(st, 'gmp', 'a result is written to a number without limbs')
            raise PathEnd()
        r = st.region(d.r)
        if not r.alive:
            e.report(st, 'use-after-free', 'a result is written to released limbs')
            raise PathEnd()
        al = self.alloc
        if r.size is not None and not st.facts.entails_ge(lin(r.size) - al * 8):
            e.report(st, 'limb-capacity', 'the limb block holds fewer limbs than the capacity field says')
            raise PathEnd()
        w = st.wregion(d.r)
        w.meta['tok'] = (v, s)
        w.meta['terms'] = (v, s)
        self.put(size=s)

    def grow(self, need):
        e, st = self.eng, self.st
        d = self.d
        r = st.region(d.r) if isinstance(d, Ptr) and d.r else None
        if r is not None and r.meta.get('arena') not in (None, 'GMP'):
            e.report(st, 'limb-capacity', 'the result may need %s limbs but the arena block has %s: GMP would resize it behind the arena' % (
                st.facts.norm(need), st.facts.norm(self.alloc)))
            raise PathEnd()
        if r is not None and r.kind == 'heap':
            w = st.wregion(d.r)
            w.alive = False
        nr = st.new_region('heap', need * 8, tag='limbs', meta={'lost': True})
        nr.meta['arena'] = 'GMP'
        nr.meta['by'] = 'by GMP'
        self.put(alloc=need, d=Ptr(nr.rid, ZERO))


DUMMY = '@gmp-dummy-limb'


def dummy(st):
    if DUMMY not in st.mem:
        st.new_region('global', None, tag='dummy limb', rid=DUMMY)
    return Ptr(DUMMY, ZERO)


def z_init(eng, st, a, ins):
    p = eng.force(st, a[0])
    z = Z(eng, st, p)
    z.put(alloc=ZERO, size=ZERO, d=dummy(st))
    return None


def z_clear(eng, st, a, ins):
    z = Z(eng, st, a[0])
    al = z.alloc
    if isinstance(al, Lin) and eng.is_zero(st, al):
        return None
    d = z.d
    if isinstance(d, Ptr) and d.r:
        r = st.wregion(d.r)
        if r.meta.get('arena') not in (None, 'GMP'):
            eng.report(st, 'wrong-arena', 'limbs from an arena are released by GMP')
        if not r.alive:
            eng.report(st, 'double-free', 'limbs released twice')
        r.alive = False
    return None


def bin(f):
    def m(eng, st, a, ins):
        x, y = Z(eng, st, a[1]), Z(eng, st, a[2])
        vx, vy = x.value(), y.value()
        sx, sy = absl(eng, st, x.size), absl(eng, st, y.size)
        v, need = f(eng, st, vx, vy, sx, sy)
        Z(eng, st, a[0]).set(v, need)
        return None
    return m


def bin_c(f, flip=False):
    """an operation with a machine number"""
    def m(eng, st, a, ins):
        x = Z(eng, st, a[2 if flip else 1])
        c = eng.force(st, a[1 if flip else 2])
        if not isinstance(c, Lin):
            return NotImplemented
        vx, sx = x.value(), absl(eng, st, x.size)
        v, need = f(eng, st, c, vx, ONE, sx) if flip else f(eng, st, vx, c, sx, ONE)
        Z(eng, st, a[0]).set(v, need)
        return None
    return m


def acc(k):
    """z +- x*y"""
    def m(eng, st, a, ins):
        z, x, y = Z(eng, st, a[0]), Z(eng, st, a[1]), Z(eng, st, a[2])
        vz, vx, vy = z.value(), x.value(), y.value()
        if eng.is_zero(st, vx) or eng.is_zero(st, vy):
            return None
        sz, sp = absl(eng, st, z.size), absl(eng, st, x.size) + absl(eng, st, y.size)
        z.set(vz + vx * vy * k, mx(eng, st, sz, sp) + 1)
        return None
    return m


def mx(eng, st, a, b):
    return a if eng.is_ge(st, a - b) else b


def f_add(eng, st, vx, vy, sx, sy):
    return vx + vy, mx(eng, st, sx, sy) + 1


def f_sub(eng, st, vx, vy, sx, sy):
    return vx - vy, mx(eng, st, sx, sy) + 1


def f_mul(eng, st, vx, vy, sx, sy):
    if eng.is_zero(st, vx) or eng.is_zero(st, vy):
        return ZERO, None
    v = vx * vy
    # sign of the product
    s = eng.sign(st, vx) * eng.sign(st, vy)
    st.facts.add_ge(v * s - 1)
    return v, sx + sy


def f_divexact(eng, st, vx, vy, sx, sy):
    if eng.is_zero(st, vy):
        eng.report(st, 'div-by-zero', 'division by zero')
        raise PathEnd()
    if eng.is_zero(st, vx):
        return ZERO, None
    v = quo(st, vx, vy)
    s = eng.sign(st, vx) * eng.sign(st, vy)
    st.facts.add_ge(v * s - 1)
    st.facts.add_ge(sx - sy)
    return v, sx - sy + 1


def quo(st, x, y):
    """exact quotient of polynomials when y is a monomial dividing every term, else an uninterpreted quotient"""
    x, y = st.facts.norm(x), st.facts.norm(y)
    if x == y:
        return ONE
    if len(y.t) == 1:
        (m, c), = y.t.items()
        out = {}
        for mm, cc in x.t.items():
            rest = list(mm)
            ok = True
            for at in m:
                if at in rest:
                    rest.remove(at)
                else:
                    ok = False
            q = Fraction(cc) / Fraction(c)
            if not ok or q.denominator != 1:
                break
            out[tuple(rest)] = int(q)
        else:
            return Lin(out)
    return app('quo', x, y)


def f_gcd(eng, st, vx, vy, sx, sy):
    if eng.is_zero(st, vx):
        return (vy if eng.is_ge(st, vy) else -vy), sy
    if eng.is_zero(st, vy):
        return (vx if eng.is_ge(st, vx) else -vx), sx
    g = gcdval(st, vx, vy)
    st.facts.add_ge(g - 1)
    return g, (sx if eng.is_ge(st, sy - sx) else sy)


def _g(a, b):
    a, b = abs(a), abs(b)
    while b:
        a, b = b, a % b
    return a


def unsigned(x):
    """a representative of ±x: greatest common divisors do not depend on signs"""
    while x.single() is not None and x.single().name == 'abs':
        x = x.single().args[0]
    if len(x.t) == 1 and next(iter(x.t.values())) < 0:
        x = -x
    return x


def gcdval(st, x, y):
    x, y = unsigned(st.facts.norm(x)), unsigned(st.facts.norm(y))
    if x.is_const() and y.is_const():
        return lin(_g(int(x.cval()), int(y.cval())))
    if x in (ONE, -ONE) or y in (ONE, -ONE):
        return ONE
    if len(x.t) == 1 and len(y.t) == 1:                # G*cpA, G*cpB with cpA, cpB coprime and G > 0
        (mx_, cx), = x.t.items()
        (my, cy), = y.t.items()
        com, rx, ry = [], list(mx_), list(my)
        for a in mx_:
            if a in ry:
                ry.remove(a)
                rx.remove(a)
                com.append(a)
        if all(a.name.startswith('cp') for a in rx + ry) and abs(cx) == 1 and abs(cy) == 1 and not set(rx) & set(ry):
            g = Lin({tuple(com): 1})
            return g if st.facts.entails_ge(g) else -g if st.facts.entails_ge(-g) else app('abs', g)
    if x == y:
        return x if st.facts.entails_ge(x) else -x if st.facts.entails_ge(-x) else app('abs', x)
    parts = []
    for v in (x, y):
        g = v.single()
        parts += list(g.args) if g is not None and g.name == 'gcd' else [v]
    parts = sorted(set(parts), key=lambda v: v.sortkey())
    return app('gcd', *parts)


def z_set(eng, st, a, ins):
    z = Z(eng, st, a[1])
    v = z.value()
    Z(eng, st, a[0]).set(v, absl(eng, st, z.size))
    return None


def z_set_si(eng, st, a, ins):
    Z(eng, st, a[0]).set(a[1], ONE)
    return None


def z_init_set(eng, st, a, ins):
    z_init(eng, st, a[:1], ins)
    return z_set(eng, st, a, ins)


def z_init_set_si(eng, st, a, ins):
    z_init(eng, st, a[:1], ins)
    return z_set_si(eng, st, a, ins)


def z_swap(eng, st, a, ins):
    x, y = Z(eng, st, a[0]), Z(eng, st, a[1])
    fx, fy = (x.alloc, x.size, x.d), (y.alloc, y.size, y.d)
    x.put(*fy)
    y.put(*fx)
    return None


def sgn3(eng, st, e):
    return lin(eng.sign(st, e))


def z_cmp_ui(eng, st, a, ins):
    return sgn3(eng, st, Z(eng, st, a[0]).value() - a[1])


def z_cmp(eng, st, a, ins):
    return sgn3(eng, st, Z(eng, st, a[0]).value() - Z(eng, st, a[1]).value())


def z_cmpabs_ui(eng, st, a, ins):
    v = Z(eng, st, a[0]).value()
    return sgn3(eng, st, (v if eng.is_ge(st, v) else -v) - a[1])


def z_cmpabs(eng, st, a, ins):
    v, w = Z(eng, st, a[0]).value(), Z(eng, st, a[1]).value()
    return sgn3(eng, st, (v if eng.is_ge(st, v) else -v) - (w if eng.is_ge(st, w) else -w))


def divides(eng, st, y, x):
    """does y divide x?  remembered per pair"""
    y, x = st.facts.norm(y), st.facts.norm(x)
    if eng.is_zero(st, y):
        return eng.is_zero(st, x)
    if x == ZERO:
        return True
    q = quo(st, x, y)
    if q.single() is None or q.single().name != 'quo':
        return True
    p = app('divides', y, x)
    st.facts.add_ge(p)
    st.facts.add_ge(ONE - p)
    return eng.is_ge(st, p - 1)


def z_divisible(eng, st, a, ins):
    x, y = Z(eng, st, a[0]).value(), Z(eng, st, a[1]).value()
    return ONE if divides(eng, st, y, x) else ZERO


def z_divisible_c(eng, st, a, ins):
    return ONE if divides(eng, st, st.deref(a[1]), Z(eng, st, a[0]).value()) else ZERO


def z_neg(eng, st, a, ins):
    z = Z(eng, st, a[1])
    v = z.value()
    Z(eng, st, a[0]).set(-v, absl(eng, st, z.size))
    return None


def z_abs(eng, st, a, ins):
    z = Z(eng, st, a[1])
    v = z.value()
    Z(eng, st, a[0]).set(v if eng.is_ge(st, v) else -v, absl(eng, st, z.size))
    return None


def z_set_str(eng, st, a, ins):
    """an arbitrary number, named by the text"""
    from scen import cstr
    nm = cstr(eng, st, a[1])
    try:
        v = lin(int(nm, 0))
    except ValueError:
        v = Lin.atom(Atom(nm))
    base = st.deref(a[2])
    if isinstance(base, Lin) and base.is_const() and base.cval() not in (0, 10) and not v.is_const():
        st.add_taint('number read in base %s' % base)
    p = Z(eng, st, a[0])
    s = limbs_of(eng, st, v)
    n = absl(eng, st, s) if s != ZERO else ONE
    p.set(v, n)
    return ZERO


def z_sizeinbase(eng, st, a, ins):
    v = Z(eng, st, a[0]).value()
    v = v if eng.is_ge(st, v) else -v
    b = st.deref(a[1])
    if getattr(eng, 'short_numbers', False):
        return lin(20)
    d = app('digits', v, b if isinstance(b, Lin) else ZERO)
    st.facts.add_ge(d - 1)
    return d


def z_get_str(eng, st, a, ins):
    buf, base, p = eng.force(st, a[0]), a[1], a[2]
    z = Z(eng, st, p)
    v = z.value()
    s = eng.sign(st, v)
    if not getattr(eng, 'short_numbers', False):
        d = app('digits', st.facts.norm(v if s >= 0 else -v), st.deref(base))
        st.facts.add_ge(d - 1)
        n = d + (1 if s < 0 else 0) + 1
    else:
        n = lin(20)
    eng.check_access(st, buf, 1, 'write')
    r = st.region(buf.r)
    if r.size is not None:
        eng.require_ge(st, lin(r.size) - buf.o - n, 'out-of-bounds', 'the text of the number is longer than its buffer')
    w = st.wregion(buf.r)
    w.cells = {}
    w.cells[st.facts.norm(buf.o)] = (1, app('chr', v, st.deref(base)))
    w.meta['tok'] = (v, st.deref(base))
    return buf


ZOPS = [
    (r'^__gmpz_init2?$', z_init), (r'^__gmpz_clear$', z_clear), (r'^__gmpz_add$', bin(f_add)), (r'^__gmpz_sub$', bin(f_sub)),
    (r'^__gmpz_mul$', bin(f_mul)), (r'^__gmpz_divexact$', bin(f_divexact)), (r'^__gmpz_gcd$', bin(f_gcd)),
    (r'^__gmpz_(tdiv_q|fdiv_q|cdiv_q)$', bin(f_divexact)),
    (r'^__gmpz_set$', z_set), (r'^__gmpz_set_[su]i$', z_set_si), (r'^__gmpz_init_set$', z_init_set),
    (r'^__gmpz_init_set_[su]i$', z_init_set_si), (r'^__gmpz_swap$', z_swap), (r'^__gmpz_cmp_[us]i$', z_cmp_ui), (r'^__gmpz_cmp$', z_cmp),
    (r'^__gmpz_cmpabs_ui$', z_cmpabs_ui), (r'^__gmpz_cmpabs$', z_cmpabs), (r'^__gmpz_divisible_p$', z_divisible),
    (r'^__gmpz_neg$', z_neg), (r'^__gmpz_abs$', z_abs), (r'^__gmpz_set_str$', z_set_str), (r'^__gmpz_sizeinbase$', z_sizeinbase),
    (r'^__gmpz_get_str$', z_get_str),
    (r'^__gmpz_add_ui$', bin_c(f_add)), (r'^__gmpz_sub_ui$', bin_c(f_sub)), (r'^__gmpz_mul_[su]i$', bin_c(f_mul)),
    (r'^__gmpz_ui_sub$', bin_c(f_sub, True)), (r'^__gmpz_divexact_ui$', bin_c(f_divexact)),
    (r'^__gmpz_addmul$', acc(1)), (r'^__gmpz_submul$', acc(-1)), (r'^__gmpz_divisible_ui_p$', z_divisible_c),
]


# ---------------------------------------------------------------- rationals
class Q:
    """an __mpq_struct: two mpz; the value is kept with the numerator's limbs"""

    def __init__(self, eng, st, p):
        self.eng, self.st = eng, st
        eng.check_access(st, p, 32, 'rational')
        self.p = eng.force(st, p)

    def f(self, o, ty):
        return self.eng.force(self.st, self.eng.load(self.st, Ptr(self.p.r, self.p.o + o), ty))

    def put(self, o, v, ty):
        self.eng.store(self.st, Ptr(self.p.r, self.p.o + o), v, ty)

    def region(self):
        d = self.f(8, ('ptr',))
        if not isinstance(d, Ptr) or d.r is None:
            self.eng.report(self.st, 'gmp', 'a rational is used before it is initialised')
            raise PathEnd()
        r = self.st.region(d.r)
        if not r.alive:
            self.eng.report(self.st, 'use-after-free', 'a rational is used after it was cleared')
            raise PathEnd()
        return r

    def value(self):
        r = self.region()
        return self.st.deref(r.meta['tok'])

    def canonical(self):
        return self.region().meta.get('canon', True)

    def init(self):
        st = self.st
        r = st.new_region('heap', Lin.const(8), tag='rational', meta={'lost': True})
        r.meta['how'] = 'gmp'
        r.meta['by'] = 'by mpq_init'
        r.meta['tok'] = ZERO
        self.put(0, ONE, ('int', 32))
        self.put(4, ZERO, ('int', 32))
        self.put(8, Ptr(r.rid, ZERO), ('ptr',))
        self.put(16, ONE, ('int', 32))
        self.put(20, ONE, ('int', 32))
        self.put(24, Ptr(r.rid, ZERO), ('ptr',))

    def set(self, v, canon=True):
        st, eng = self.st, self.eng
        v = st.facts.norm(v)
        w = st.wregion(self.region().rid)
        w.meta['tok'] = v
        w.meta['canon'] = canon
        if v.is_const():
            self.put(4, lin((v.cval() > 0) - (v.cval() < 0)), ('int', 32))
        else:
            def resolve(e, s, z, v=v):
                def zero(s2):
                    if s2.facts.add_eq(s2.facts.norm(v)) is False:
                        return False
                    s2.bind_lazy(z.id, ZERO)

                def other(s2):
                    e2 = s2.facts.norm(v)
                    if s2.facts.add_ne(e2) is False:
                        return False
                    n = app('qsize', e2)
                    s2.facts.add_ne(n)
                    s2.bind_lazy(z.id, n)
                return [zero, other]
            self.put(4, Lazy(resolve), ('int', 32))


def q_init(eng, st, a, ins):
    Q(eng, st, a[0]).init()
    return None


def q_clear(eng, st, a, ins):
    q = Q(eng, st, a[0])
    d = q.f(8, ('ptr',))
    if isinstance(d, Ptr) and d.r:
        r = st.wregion(d.r)
        if not r.alive:
            eng.report(st, 'double-free', 'a rational is cleared twice')
        r.alive = False
    else:
        eng.report(st, 'gmp', 'an uninitialised rational is cleared')
    return None


def q_bin(f):
    def m(eng, st, a, ins):
        x, y = Q(eng, st, a[1]).value(), Q(eng, st, a[2]).value()
        Q(eng, st, a[0]).set(f(eng, st, x, y))
        return None
    return m


def q_div(eng, st, x, y):
    if y.is_const():
        if y.cval() == 0:
            eng.report(st, 'div-by-zero', 'division by zero')
            raise PathEnd()
        return x * (Fraction(1) / Fraction(y.cval()))
    return x * app('inv', y, real=True)


def q_set_ui(eng, st, a, ins):
    n, d = st.deref(a[1]), st.deref(a[2])
    if isinstance(d, Lin) and d.is_const() and d.cval():
        Q(eng, st, a[0]).set(n * (Fraction(1) / Fraction(d.cval())), d == ONE)
    else:
        eng.report(st, 'div-by-zero', 'denominator %s' % (d,))
    return None


def q_set(eng, st, a, ins):
    v = Q(eng, st, a[1]).value()
    Q(eng, st, a[0]).set(v)
    return None


def q_set_z(eng, st, a, ins):
    v = Z(eng, st, a[1]).value()
    Q(eng, st, a[0]).set(v)
    return None


def q_abs(eng, st, a, ins):
    v = Q(eng, st, a[1]).value()
    Q(eng, st, a[0]).set(v if eng.is_ge(st, v) else -v)
    return None


def q_inv(eng, st, a, ins):
    Q(eng, st, a[0]).set(q_div(eng, st, ONE, Q(eng, st, a[1]).value()))
    return None


def q_equal(eng, st, a, ins):
    return ONE if eng.is_zero(st, Q(eng, st, a[0]).value() - Q(eng, st, a[1]).value()) else ZERO


def q_cmp(eng, st, a, ins):
    return sgn3(eng, st, Q(eng, st, a[0]).value() - Q(eng, st, a[1]).value())


def q_cmp_c(eng, st, a, ins):
    n, d = st.deref(a[1]), st.deref(a[2])
    if not d.is_const():
        return NotImplemented
    return sgn3(eng, st, Q(eng, st, a[0]).value() * d - n)


def q_canon(eng, st, a, ins):
    q = Q(eng, st, a[0])
    q.region()
    return None


def q_swap(eng, st, a, ins):
    x, y = Q(eng, st, a[0]), Q(eng, st, a[1])
    tys = [(0, ('int', 32)), (4, ('int', 32)), (8, ('ptr',)), (16, ('int', 32)), (20, ('int', 32)), (24, ('ptr',))]
    fx = [x.f(o, t) if o != 4 else st.deref(eng.load(st, Ptr(x.p.r, x.p.o + 4), t)) for o, t in tys]
    fy = [y.f(o, t) if o != 4 else st.deref(eng.load(st, Ptr(y.p.r, y.p.o + 4), t)) for o, t in tys]
    for (o, t), u, v in zip(tys, fx, fy):
        y.put(o, u, t)
        x.put(o, v, t)
    return None


def q_neg(eng, st, a, ins):
    Q(eng, st, a[0]).set(-Q(eng, st, a[1]).value())
    return None


def q_get_str(eng, st, a, ins):
    buf = eng.force(st, a[0])
    v = Q(eng, st, a[2]).value()
    r = st.region(buf.r)
    n = app('qdigits', v)
    if r.size is not None:
        eng.require_ge(st, lin(r.size) - buf.o - n, 'out-of-bounds', 'the text of the number is longer than its buffer')
    w = st.wregion(buf.r)
    w.cells = {}
    w.cells[st.facts.norm(buf.o)] = (1, app('chr', v, st.deref(a[1])))
    w.meta['tok'] = (v, st.deref(a[1]))
    return buf


def q_sizeinbase(eng, st, a, ins):
    """digits of a numerator or denominator: qdigits <= num + den + 3"""
    p = eng.force(st, a[0])
    base = p.o
    c = st.region(p.r)
    d = eng.force(st, eng.load(st, Ptr(p.r, p.o + 8), ('ptr',)))
    v = st.deref(st.region(d.r).meta['tok'])
    x = app('digits', v, p.o - (p.o if False else ZERO))
    st.facts.add_ge(x - 1)
    st.ghost['digs'] = st.ghost.get('digs', ()) + (x,)
    ds = st.ghost['digs']
    if len(ds) >= 2 and ds[-1] != ds[-2]:
        st.facts.add_ge(ds[-1] + ds[-2] + 3 - app('qdigits', v))
    return x


QOPS = [
    (r'^__gmpq_init$', q_init), (r'^__gmpq_clear$', q_clear), (r'^__gmpq_add$', q_bin(lambda e, s, x, y: x + y)),
    (r'^__gmpq_sub$', q_bin(lambda e, s, x, y: x - y)), (r'^__gmpq_mul$', q_bin(lambda e, s, x, y: x * y)),
    (r'^__gmpq_div$', q_bin(q_div)), (r'^__gmpq_set_[us]i$', q_set_ui), (r'^__gmpq_set$', q_set),
    (r'^__gmpq_canonicalize$', q_canon), (r'^__gmpq_swap$', q_swap), (r'^__gmpq_neg$', q_neg), (r'^__gmpq_get_str$', q_get_str),
    (r'^__gmpz_sizeinbase$', q_sizeinbase), (r'^__gmpq_set_z$', q_set_z), (r'^__gmpq_abs$', q_abs), (r'^__gmpq_inv$', q_inv),
    (r'^__gmpq_equal$', q_equal), (r'^__gmpq_cmp$', q_cmp), (r'^__gmpq_cmp_[su]i$', q_cmp_c),
]


# ---------------------------------------------------------------- specification side
def m_text_value(eng, st, a, ins):
    """the number a printed text denotes"""
    p = eng.force(st, a[0])
    if not isinstance(p, Ptr) or not p.r or not st.region(p.r).alive:
        eng.report(st, 'use-after-free', 'the text has been released')
        raise PathEnd()
    r = st.region(p.r)
    tok = r.meta.get('tok')
    c = r.cells.get(ZERO)
    c0 = eng.force(st, eng.load(st, p, ('int', 8)))
    if isinstance(c0, Lin) and c0.is_const():            # written by the library itself
        t, o = '', 0
        while o < 8 and isinstance(c0, Lin) and c0.is_const() and c0.cval():
            t += chr(int(c0.cval()))
            o += 1
            c0 = eng.force(st, eng.load(st, Ptr(p.r, p.o + o), ('int', 8)))
        if not (isinstance(c0, Lin) and c0 == ZERO):
            return Top('text not terminated')
        return lin(int(t)) if re.match(r'-?\d+$', t) else Top('text %r' % t)
    if tok is None or p.o != ZERO or not isinstance(c0, Lin) or c0 != app('chr', st.deref(tok[0]), st.deref(tok[1])):
        return Top('text is not the printed form of a number')
    if st.deref(tok[1]) != st.deref(a[1]):
        return Top('printed in base %s' % st.deref(tok[1]))
    return st.deref(tok[0])


def m_text_gcd(eng, st, a, ins):
    return gcdval(st, st.deref(a[0]), st.deref(a[1]))


def m_text_divides(eng, st, a, ins):
    return ONE if divides(eng, st, st.deref(a[0]), st.deref(a[1])) else ZERO


ZSPEC = [(r'^text_value$', m_text_value), (r'^text_gcd$', m_text_gcd), (r'^text_divides$', m_text_divides)]


def m_rational_value(eng, st, a, ins):
    return m_text_value(eng, st, [a[0], lin(10)], ins)


def m_chk_real(eng, st, a, ins):
    from scen import note, cstr, picks
    w = cstr(eng, st, a[2])
    g, x = eng.force(st, a[0]), eng.force(st, a[1])
    if isinstance(g, Lin) and isinstance(x, Lin):
        d = st.facts.norm(g - x)
        if d == ZERO or st.facts.entails_eq(d):
            return note(eng, st, 'unknown' if st.taint else 'ok', w, '')
        if not st.facts.harden().consistent():
            raise PathEnd()
        note(eng, st, 'unknown' if st.taint else 'bad', w, 'is %s, must be %s %s' % (g, x, picks(st)))
        raise PathEnd()
    note(eng, st, 'unknown', w, 'is %s, must be %s %s' % (g, x, picks(st)))
    raise PathEnd()


def n_cleared(eng, st, a):
    for r in st.mem.values():
        if r.meta.get('how') == 'gmp' and r.alive:
            return 'bad', 'a rational is initialised but never cleared'


def m_record(eng, st, a, ins):
    st.ghost['rec'] = st.deref(a[0])


def m_times(eng, st, a, ins):
    i = st.ghost.get('clock', 0)
    st.ghost['clock'] = i + 1
    p = eng.force(st, a[0])
    eng.check_access(st, p, 32, 'clock')
    for k, o in ((0, 0), (1, 8)):
        eng.store(st, Ptr(p.r, p.o + o), Lin.atom(Atom('clock%d.%d' % (k, i))), ('int', 64))
    for o in (16, 24):
        eng.store(st, Ptr(p.r, p.o + o), Lin.atom(Atom('children%d.%d' % (o, i))), ('int', 64))
    return Lin.atom(Atom('clock2.%d' % i))


def m_clock_value(eng, st, a, ins):
    return Lin.atom(Atom('clock%d.%d' % (int(st.deref(a[0]).cval()), int(st.deref(a[1]).cval()))))


def m_sysconf(eng, st, a, ins):
    v = Lin.atom(Atom('ticks'))
    st.facts.add_ge(v - 1)
    return v if st.deref(a[0]) == lin(2) else Lin.atom(Atom('sysconf'))


def m_draw(eng, st, a, ins):
    p = eng.force(st, a[0])
    lo = eng.force(st, eng.load(st, p, ('int', 32)))
    hi = eng.force(st, eng.load(st, Ptr(p.r, p.o + 4), ('int', 32)))
    lo, hi = int(lo.cval()), int(hi.cval())
    i = st.ghost.get('draw', 0)
    at = Lin.atom(Atom('draw%d' % i))
    v = st.facts.norm(at)
    if v.is_const():
        st.ghost['draw'] = i + 1
        st.trail = st.trail + (int(v.cval()),)
        return v
    raise Fork([lambda s, j=j: s.facts.add_eq(at - j) and True for j in range(lo, hi + 1)])


def q_native(f):
    def m(eng, st, a, ins):
        import scen
        return scen.native(f)(eng, st, a, ins)
    return m


QSPEC = [(r'^rational_value$', m_rational_value), (r'^chk_real$', m_chk_real), (r'^rationals_cleared$', q_native(n_cleared))]
MISC = [(r'^record$', m_record), (r'^chk_real$', m_chk_real), (r'^clock_value$', m_clock_value), (r'^times$', m_times), (r'^sysconf$', m_sysconf),
        (r'^ticks$', lambda e, s, a, i: Lin.atom(Atom('ticks'))), (r'std::uniform_int_distribution<int>::operator\(\)', m_draw)]
