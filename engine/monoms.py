"""Symbolic monomials: layout inference through the public observers and
construction of symbolic Monom objects with skolemised exponent arrays."""
from absint import *
from lin import *
import models


class Anchor(Exception):
    pass


def probe(mod, fname, args, setup=None):
    """abstractly interpret an observer; returns list of final states"""
    eng = Engine(mod, models.BASE, max_steps=20000)

    def make():
        st = State()
        a = args(st)
        return eng.start(st, fname, a)
    return eng.explore(make)


def class_type(mod, cls):
    for n in ('%%"class.GInv::%s"' % cls, '%class.GInv::' + cls, '%%"struct.GInv::%s"' % cls):
        if n in mod.types:
            return ('named', n)
    raise Anchor('class %s not found' % cls)


def leaf_fields(mod, ty, base=0):
    """[(offset, size, type)] of scalar leaves"""
    rt = mod.resolve(ty)
    if rt[0] == 'struct':
        out = []
        for i in range(len(rt[2])):
            fo, ft = mod.field_offset(rt, i)
            out += leaf_fields(mod, ft, base + fo)
        return out
    if rt[0] == 'array':
        es = mod.size(rt[2])
        out = []
        if rt[1] <= 64:
            for i in range(rt[1]):
                out += leaf_fields(mod, rt[2], base + i * es)
        return out
    return [(base, mod.size(rt), rt)]


class MonomLayout:
    def __init__(self, mod):
        self.mod = mod
        if not mod.get('monom_size'):
            raise Anchor('driver')
        self.ty = class_type(mod, 'Monom')
        self.size = mod.size(self.ty)
        self.fields = leaf_fields(mod, self.ty)

        def obj(st):
            def content(eng, s, reg, off, size, ty):
                o = int(off.cval())
                if ty and ty[0] == 'ptr':
                    rid = 'probe_f%d' % o
                    if rid not in s.mem:
                        s.new_region('sym', None, rid=rid, content=lambda e, s2, r, of, sz, t: Lin.atom(
                            Atom('el%d' % o, 'app', (of,))))
                    return Ptr(rid, ZERO)
                return Lin.atom(Atom('f%d' % o))
            r = st.new_region('sym', Lin.const(self.size), rid='probe', content=content)
            return Ptr('probe', ZERO)

        def field(fname):
            fs = probe(mod, fname, lambda st: [obj(st)])
            if len(fs) != 1 or not isinstance(fs[0].ret, Lin):
                raise Anchor('observer %s is not a plain field read' % fname)
            a = fs[0].ret.single()
            if a is None or not a.name.startswith('f'):
                raise Anchor('observer %s is not a plain field read' % fname)
            return int(a.name[1:])
        self.o_size, self.o_pos, self.o_deg = field('monom_size'), field('monom_pos'), field('monom_degree')
        ix = Lin.atom(Atom('ix'))
        fs = probe(mod, 'monom_at', lambda st: [obj(st), ix])
        a = fs[0].ret.single() if len(fs) == 1 and isinstance(fs[0].ret, Lin) else None
        if a is None or a.kind != 'app' or not a.name.startswith('el'):
            raise Anchor('exponent access is not an array read')
        self.o_vars = int(a.name[2:])
        self.stride = a.args[0].t.get((Atom('ix'),), 0)
        self.base = int((a.args[0] - ix * self.stride).cval())
        others = [o for o, s, t in self.fields if t[0] == 'ptr' and o != self.o_vars]
        if len(others) != 1 or self.stride <= 0:
            raise Anchor('monomial storage layout')
        self.o_alloc = others[0]

    # ---- object construction
    def monom(self, st, name, n, ks, elem, deg, pos, alloc='ALLOC', root=True):
        """region holding a valid monomial; elem(idx)->Lin gives exponents"""
        arr = st.new_region('sym', n * self.stride + self.base, tag='exponents of ' + name, rid=name + '.v',
                            skolem=(self.stride, ks) if ks else None)
        lay = self

        def content(eng, s, reg, off, size, ty):
            idx = s.facts.norm((off - lay.base) * (Fraction(1, lay.stride)))
            idx = Lin({m: (int(c) if isinstance(c, Fraction) and c.denominator == 1 else c) for m, c in idx.t.items()})
            return elem(eng, s, idx)
        arr.content = content
        if n.is_const():
            arr.meta['layout'] = [(self.base + i * self.stride, self.stride, ('int', 32)) for i in range(int(n.cval()))]
        ob = st.new_region('sym', Lin.const(self.size), tag=name, rid=name)
        c = ob.cells
        c[lin(self.o_alloc)] = (8, Ptr(alloc, ZERO))
        c[lin(self.o_vars)] = (8, Ptr(name + '.v', ZERO))
        c[lin(self.o_size)] = (4, n)
        c[lin(self.o_pos)] = (4, pos)
        c[lin(self.o_deg)] = (4, deg)
        # a private field the observers do not reveal keeps an arbitrary value
        for o, s, t in self.fields:
            if lin(o) not in c:
                c[lin(o)] = (s, Ptr('x%s%d' % (name, o), ZERO) if t[0] == 'ptr' else Lin.atom(Atom('x:%s:%d' % (name, o))))
        return Ptr(name, ZERO)

    def raw(self, st, name='R'):
        r = st.new_region('sym', Lin.const(self.size), tag=name, rid=name)
        return Ptr(name, ZERO)

    def get(self, st, p, off):
        c = st.region(p.r).cells.get(lin(p.o + off))
        return st.deref(c[1]) if c else Top('unset field')

    def elem(self, eng, st, p, k):
        """exponent number k of the object, or Top"""
        v = self.get(st, p, self.o_vars)
        if not isinstance(v, Ptr) or v.r is None:
            return Top('no exponent array')
        reg = st.region(v.r)
        want = st.facts.norm(v.o + k * self.stride + self.base)
        for o, (sz, val) in reg.cells.items():
            d = st.facts.norm(o - want)
            if (d.is_const() and d.cval() == 0) or (not d.is_const() and st.facts.entails_eq(d)):
                return st.deref(val)
        if reg.havoc:
            return Top('exponent not determined')
        if reg.content:
            return reg.content(eng, st, reg, want, self.stride, ('int', 32))
        return Top('exponent never written')


def m_arena_new(eng, st, a, ins):
    """operator new(size, Allocator*) and new[](size, Allocator*)"""
    n, al = a[0], eng.force(st, a[1])
    r = st.new_region('heap', n if isinstance(n, Lin) else None, tag='arena')
    r.meta['arena'] = al.r if isinstance(al, Ptr) else None
    r.meta['asize'] = n
    sk = getattr(eng, 'array_skolem', None)
    if sk:
        x = sk(eng, st, n)
        if x:
            r.skolem = x
    return Ptr(r.rid, ZERO)


def m_arena_free(eng, st, a, ins):
    al, p, n = eng.force(st, a[0]), eng.force(st, a[1]), st.deref(a[2])
    if isinstance(p, Ptr):
        if p.r is None:
            eng.report(st, 'null-free', 'null block returned to the arena')
            return None
        r = st.wregion(p.r)
        if not r.alive:
            eng.report(st, 'double-free', 'block returned to the arena twice')
        r.alive = False
        ow = r.meta.get('arena')
        if ow is not None and isinstance(al, Ptr) and ow != al.r:
            eng.report(st, 'wrong-arena', 'block returned to an arena it was not taken from')
        if r.meta.get('asize') is not None and isinstance(n, Lin):
            eng.require_eq(st, n, r.meta['asize'], 'free-size', 'block returned to the arena with a size different from the one requested')
    return None


ARENA = [
    (r'^operator new(\[\])?\(unsigned long, GInv::Allocator\*\)$', m_arena_new),
    (r'^GInv::Allocator::allocate\(unsigned long\)$', lambda e, s, a, i: m_arena_new(e, s, [a[1], a[0]], i)),
    (r'^GInv::Allocator::deallocate\(void const\*, unsigned long\)$', m_arena_free),
]
