"""The Cython binding over models of the C++ classes: what the library means is decided elsewhere (M, I, Q, J, G); here, whether
the binding asks it for the right thing, keeps its preconditions and keeps its objects alive."""
import ast
import itertools
import re
import cyx
from pyscen import *

PATH = os.path.join(REPO, 'cython', 'ginv.pyx')
FAM = {'lex': 1, 'deglex': 2, 'alex': 4}


class Cpp:
    """a C++ object"""
    n = 0

    def __init__(self, kind, arena=None, parent=None, heap=False, **v):
        self.kind, self.arena, self.parent, self.heap, self.v = kind, arena, parent, heap, v
        self.alive = True
        Cpp.n += 1
        self.no = Cpp.n

    def __repr__(self):
        return '<C++ %s>' % self.kind


NULL = Cpp('NULL')


class CStr:
    def __init__(self, s, stamp):
        self.s, self.stamp = s, stamp


class Hex:
    """the text of hex() of an unknown integer"""
    def __init__(self, v):
        self.v = v


class Cy(P):
    suffix = '.pyx'

    def __init__(self, conv, script, steps, rec):
        self.conv = conv
        super().__init__({'ginv': conv.tree}, script, steps, rec)
        Cpp.n = 0
        self.memo_ = {}
        self.all_ = []                    # C++ objects made by new
        self.insts = []                   # Python objects of extension types
        self.stamp = 0                    # uses of the library's shared text buffer
        self.version = {}
        self.rand = None
        self.opts['symtext'] = True

    # ---- module
    def module(self, name):
        if name in self.mods or name != 'ginv':
            return super().module(name)
        env = Env()
        v = env.v
        v['__name__'] = name
        v['__null__'] = NULL
        v['__addr__'] = Native(lambda x: x)
        v['__cyarg__'] = Native(self.cyarg)
        v['__clocal__'] = Native(self.clocal)
        v['__new__'] = Native(self.new)
        v['__delete__'] = Native(self.delete)
        v['__unsupported__'] = Native(self.unsupported)
        v['hex'] = Native(lambda x: hex(x) if isinstance(x, int) else Hex(x))
        for n, c in self.conv.cxx.items():
            v[n] = Native(lambda *a, _c=c: self.free(_c, list(a)))
        self.mods[name] = env
        self.modname, save = name, self.modname
        self.body(self.trees[name].body, env)
        self.modname = save
        return env

    def unsupported(self, t):
        raise Unsup('Cython ' + t)

    def cyarg(self, x, ty, name):
        if ty in ('int', 'Variable', 'long', 'size_t', 'Py_ssize_t'):
            if not isinstance(x, (int, Lin)):
                raise self.exc('TypeError', name)
            return x
        c = self.module('ginv').v.get(ty)
        if isinstance(c, Cls) and x is not None and not (isinstance(x, Inst) and c in x.cls.mro):
            raise self.exc('TypeError', name)
        return x

    def clocal(self, ty, kind):
        if kind == 'ptr':
            return NULL
        if ty in self.conv.ext:
            return Cpp(ty)
        return 0

    # ---- objects of extension types
    def cmro(self, c):
        return [x for x in reversed(c.mro) if isinstance(x, Cls)]

    def construct(self, c, a, k, init=True):
        if c.name not in self.conv.attrs or c.mod != 'ginv':
            return super().construct(c, a, k)
        o = Inst(c)
        for x in self.cmro(c):
            for n, (ty, kind) in self.conv.attrs.get(x.name, {}).items():
                if kind == 'array' or kind == 'value' and ty in self.conv.ext:
                    o.at[n] = Cpp(ty)
                elif kind == 'ptr':
                    o.at[n] = NULL
                else:
                    o.at[n] = 0 if ty in ('int', 'size_t', 'bool', 'bint', 'Variable') else None
        self.insts.append(o)
        for x in self.cmro(c):
            f = x.ns.get('__cinit__')
            if f:
                few = len(f.node.args.args) == 1
                self.call(Bound(f, o), [] if few else a, {} if few else k)
        f = c.find('__init__') if init else None
        if f:
            self.call(Bound(f[0], o), a, k)
        elif a and not any('__cinit__' in x.ns for x in self.cmro(c)):
            raise self.exc('TypeError')
        return o

    def dealloc(self, o):
        """nothing refers to o any more"""
        if o not in self.insts:
            return
        self.insts.remove(o)
        for x in reversed(self.cmro(o.cls)):
            f = x.ns.get('__dealloc__')
            if f:
                self.call(Bound(f, o), [])
        for n, x in o.at.items():
            if isinstance(x, Cpp) and not x.heap and x.parent is None and x is not NULL and self.own(o, n):
                if x.kind == 'Allocator':
                    left = [y for y in self.all_ if y.arena is x and y.alive]
                    self.chk(not left, 'lifetime: everything in an arena is released before it', 'a %s is not' % (left and left[0].kind))
                x.alive = False

    def own(self, o, n):
        return any(self.conv.attrs.get(x.name, {}).get(n, ('', ''))[1] in ('array', 'value') for x in self.cmro(o.cls))

    def reach(self, roots):
        out, todo = [], list(roots)
        while todo:
            x = todo.pop()
            if any(x is y for y in out):
                continue
            out.append(x)
            if isinstance(x, Inst):
                todo += list(x.at.values())
            elif isinstance(x, (list, tuple)):
                todo += list(x)
            elif isinstance(x, dict):
                todo += list(x.values())
        return out

    def collect(self, *roots):
        """only these are still held"""
        live = self.reach(roots)
        for o in list(self.insts):
            if not any(o is x for x in live):
                self.dealloc(o)

    def end(self):
        self.collect()
        left = [x for x in self.all_ if x.alive]
        self.chk(not left, 'lifetime: everything made is released', 'a %s is not' % (left and left[0].kind))

    # ---- use of C++ objects
    def use(self, o):
        if o is NULL:
            self.put('bad', 'safety: no null object reaches the library', 'a call on a null pointer')
            raise PathEnd()
        x, seen = o, 0
        while x is not None and seen < 20:
            if not x.alive or x.arena is not None and not x.arena.alive:
                self.put('bad', 'lifetime: an object that is used exists', 'a %s is used after the %s it belongs to was released' % (o.kind, x.kind if not x.alive else 'arena'))
                raise PathEnd()
            if 'born' in x.v and x.parent is not None and self.version.get(x.parent.no, 0) != x.v['born']:
                raise Unsup('use of a view after its object changed')
            x, seen = x.parent, seen + 1
        return o

    def pre(self, c, what):
        if not c:
            self.put('bad', 'safety: ' + what, 'the library is called although this is not so')
            raise PathEnd()
        self.put('ok', 'safety: ' + what)

    def delete(self, o):
        if o is NULL:
            return
        self.use(o)
        o.alive = False

    def new(self, kind, *a):
        kind = str(kind)
        a = [self.use(x) if isinstance(x, Cpp) else x for x in a]
        arena = a[0] if a and isinstance(a[0], Cpp) and a[0].kind == 'Allocator' else None
        rest = a[1:] if arena is not None else a
        o = Cpp(kind, arena, None, True)
        f = getattr(self, 'new_' + kind, None)
        if f is None:
            raise Unsup('new ' + kind)
        f(o, *rest)
        self.all_.append(o)
        return o

    def cname(self, kind, n):
        d = self.conv.ext.get(kind, {})
        if n not in d:
            raise self.exc('AttributeError', n)
        return d[n]

    def getattr(self, o, n):
        if isinstance(o, Cpp):
            if o is NULL:
                return Native(lambda *a: self.use(o))
            c = self.cname(o.kind, n)
            return Native(lambda *a: self.method(o, c, [self.use(x) if isinstance(x, Cpp) else x for x in a]))
        if isinstance(o, CStr):
            if n == 'decode':
                def decode(*a, **k):
                    self.chk(o.stamp == self.stamp, 'safety: a text is read before the next one overwrites it')
                    return o.s
                return Native(decode)
            raise Unsup('attribute %s of a C string' % n)
        if isinstance(o, Hex):
            if n == 'encode':
                return Native(lambda *a, **k: o)
            raise Unsup('attribute %s of the text of an integer' % n)
        if isinstance(o, Cls) and n == '__new__' and o.name in self.conv.attrs and not o.find('__new__'):
            return Native(lambda c, *a, **k: self.construct(c, list(a), k, False))
        if isinstance(o, str) and n == 'encode':
            return Native(lambda *a, **k: o)
        return super().getattr(o, n)

    def truth(self, x):
        if isinstance(x, Cpp):
            return x is not NULL
        return super().truth(x)

    def eq(self, a, b):
        if isinstance(a, Cpp) or isinstance(b, Cpp):
            return a is b
        return super().eq(a, b)

    def compare(self, op, a, b):
        if isinstance(a, Cpp) or isinstance(b, Cpp):
            if op in ('eq', 'ne'):
                return (a is b) == (op == 'eq')
            raise Unsup('comparison of pointers')
        return super().compare(op, a, b)

    def getitem(self, o, i):
        if isinstance(o, Cpp):
            if i != 0:
                raise Unsup('pointer arithmetic')
            return self.use(o)
        return super().getitem(o, i)

    def iterate(self, x):
        if isinstance(x, Cpp):
            raise Unsup('iteration over a C++ object')
        return super().iterate(x)

    def fmt_percent(self, s, args):
        try:
            return re.sub(r'%[-0-9.]*[a-zA-Z]', '%s', s) % tuple(self.text(x) for x in args)
        except Exception:
            raise Unsup('format %r' % s)

    # ---- uninterpreted values
    def U(self, name, *keys):
        """an unknown integer, the same for the same arguments"""
        return Lin.atom(Atom('%s(%s)' % (name, ','.join(str(k) for k in keys))))

    def once(self, key, f):
        if key not in self.memo_:
            self.memo_[key] = f()
        return self.memo_[key]

    def B(self, name, *keys):
        k = (name,) + tuple(str(x) for x in keys)
        return self.once(k, lambda: bool(self.pick(2, '%s(%s)' % (name, ','.join(k[1:])))))

    def key(self, o):
        if o.kind == 'PolyInt':
            return str(self.facts.norm(o.v['val']))
        if o.kind == 'Monom':
            return '%s:%s' % (self.facts.norm(lin(o.v['pos'])), ' '.join(str(self.facts.norm(lin(x))) for x in o.v['e']))
        if o.kind == 'Integer':
            return str(self.facts.norm(o.v['val']))
        return '%s%d.%d' % (o.kind, o.no, self.version.get(o.no, 0))

    def mutable(self, o):
        self.pre(o.parent is None, 'an object that is not to be changed is not changed')

    def view(self, kind, parent, **v):
        return Cpp(kind, None, parent, False, born=self.version.get(parent.no, 0), **v)

    def changed(self, o):
        self.version[o.no] = self.version.get(o.no, 0) + 1

    # ---- functions
    def free(self, c, a):
        a = [self.use(x) if isinstance(x, Cpp) else x for x in a]
        c = c.replace('GInv::', '')
        if c == 'Allocator::timer':
            return self.once('gctimer', lambda: Cpp('Timer'))
        if c in ('Allocator::maxMemory', 'Allocator::currMemory'):
            return self.U(c)
        if c == 'Allocator::setLimitMemory':
            self.memo_['limit'] = a[0]
            return None
        if c == 'Monom::rand_init':
            self.pre(self.ge(lin(a[0]) - 1) and self.ge(lin(a[1]) - 1) and self.ge(lin(a[2]) - a[1]), 'arguments of a random generator')
            self.rand = a
            return None
        if c == 'Monom::rand_next':
            self.pre(self.rand is not None, 'a random generator has been initialised')
            o = Cpp('Monom', a[0], None, True, pos=-1, e=[self.nat('r%d.%d' % (len(self.all_), i)) for i in range(self.concrete(self.rand[0]))])
            self.all_.append(o)
            return o
        raise Unsup('C++ ' + c)

    def method(self, o, c, a):
        f = getattr(self, 'm_' + o.kind, None)
        if f is None:
            raise Unsup('method of ' + o.kind)
        r = f(self.use(o), c.split('::')[-1], a)
        return r

    def m_Timer(self, o, c, a):
        if c in ('userTime', 'sysTime', 'realTime'):
            return Rat(self.U(c, self.key(o)))
        if c in ('start', 'cont', 'stop'):
            o.v['calls'] = o.v.get('calls', []) + [c]
            self.changed(o)
            return None
        raise Unsup(c)

    def m_Allocator(self, o, c, a):
        return self.U('Allocator::' + c, o.no)

    def new_RandPermutation_mt19937(self, o, n):
        self.pre(self.ge(lin(n) - 1), 'length of a permutation')
        o.v['n'] = n

    def m_RandPermutation_mt19937(self, o, c, a):
        if c == 'size':
            return o.v['n']
        if c == 'operator[]':
            self.pre(self.ge(lin(a[0])) and self.ge(lin(o.v['n']) - a[0] - 1), 'an index of a permutation is inside')
            return self.U('perm', self.key(o), self.facts.norm(lin(a[0])))
        if c == 'next':
            self.changed(o)
            return None
        raise Unsup(c)

    def new_Integer(self, o, *a):
        raise Unsup('new Integer')

    def m_Integer(self, o, c, a):
        v = o.v['val']
        if c == 'isZero':
            return self.is0(v)
        if c == 'isOne':
            return self.is0(v - 1)
        if c == 'isAbsOne':
            return self.is0(v - 1) or self.is0(v + 1)
        if c == 'sgn':
            return 0 if self.is0(v) else 1 if self.ge(v) else -1
        if c == 'norm':
            return self.U('Integer::norm', self.key(o))
        if c == 'get_str':
            b = self.concrete(a[0])
            self.stamp += 1
            if b == 10:
                return CStr(('' if self.ge(v) else '-') + '<10:|%s|>' % self.key(o), self.stamp)
            return CStr(('' if self.ge(v) else '-') + '<%d:|%s|>' % (b, self.key(o)), self.stamp)
        raise Unsup(c)

    def new_Monom(self, o, *a):
        if a and isinstance(a[0], Cpp):
            m = a[0].v
            if len(a) == 1:
                o.v.update(pos=m['pos'], e=list(m['e']))
            elif isinstance(a[1], Cpp):
                b = a[1].v
                self.pre(len(m['e']) == len(b['e']), 'the same number of variables')
                pm, pb = self.is0(lin(m['pos']) + 1), self.is0(lin(b['pos']) + 1)
                self.pre(pm or pb, 'at most one factor of a product has a component')
                o.v.update(pos=b['pos'] if pm else m['pos'], e=[lin(x) + y for x, y in zip(m['e'], b['e'])])
            else:
                self.pre(self.ge(lin(a[1])), 'the power is not negative')
                o.v.update(pos=m['pos'], e=[lin(x) * a[1] for x in m['e']])
            return
        if len(a) == 2:
            v, size, pos = None, a[0], a[1]
        elif len(a) == 3:
            v, size, pos = a
        elif isinstance(a[-1], Cpp):
            raise Unsup('new Monom')
        else:
            raise self.exc('TypeError')
        self.pre(self.ge(lin(size) - 1), 'there is a variable')
        self.pre(self.ge(lin(pos) + 1), 'the component is valid')
        if v is not None:
            self.pre(self.ge(lin(v)) and self.ge(lin(size) - v - 1), 'the variable exists')
        n = self.concrete(size)
        e = [0] * n
        if v is not None:
            e[self.concrete(v)] = 1
        o.v.update(pos=pos, e=e)

    def m_Monom(self, o, c, a):
        v = o.v
        if c == 'size':
            return len(v['e'])
        if c == 'pos':
            return v['pos']
        if c == 'degree':
            return sum((lin(x) for x in v['e']), Lin.const(0))
        if c == 'isZero':
            return self.is0(sum((lin(x) for x in v['e']), Lin.const(0)))
        if c == 'operator[]':
            self.pre(self.ge(lin(a[0])) and self.ge(Lin.const(len(v['e']) - 1) - a[0]), 'an index of a monomial is inside')
            return v['e'][self.concrete(a[0])]
        if c == 'setPos':
            self.mutable(o)
            self.pre(self.ge(lin(a[0]) + 1), 'the component is valid')
            v['pos'] = a[0]
            return None
        b = a[0].v
        if c in ('permutation', 'div', 'mult'):
            self.mutable(o)
        if c == 'permutation':
            p = a[1]
            self.pre(self.is0(lin(p.v['n']) - len(v['e'])) and len(b['e']) == len(v['e']), 'a permutation of the variables')
            k = self.key(a[0])
            v['e'] = [self.U('permuted', k, self.key(p), i) for i in range(len(v['e']))]
            return None
        self.pre(len(b['e']) == len(v['e']), 'the same number of variables')
        if c == 'divisiable':
            return self.once(('div', self.key(o), self.key(a[0])), lambda: all(self.ge(lin(x) - y) for x, y in zip(v['e'], b['e'])) and
                             (self.is0(lin(b['pos']) + 1) or self.is0(lin(b['pos']) - v['pos'])))
        if c == 'div':
            self.pre(self.method(o, 'divisiable', a), 'the divisor divides')
            v['pos'] = v['pos'] if self.is0(lin(b['pos']) + 1) else -1
            v['e'] = [lin(x) - y for x, y in zip(v['e'], b['e'])]
            return None
        if c == 'mult':
            v['e'] = [lin(x) + y for x, y in zip(v['e'], b['e'])]
            return None
        if c in ('lex', 'deglex', 'alex', 'gcd', 'lcm'):
            return self.U(c, self.key(o), self.key(a[0]))
        raise Unsup(c)

    # polynomials: elements of a commutative ring
    def new_PolyInt(self, o, *a):
        if a and isinstance(a[0], Cpp) and a[0].kind == 'PolyInt':
            o.v.update(a[0].v)
            o.v.pop('born', None)
        elif len(a) == 2 and isinstance(a[1], Cpp):
            o.v.update(val=self.U('term', self.key(a[1])), fam=('order', self.concrete(a[0]), len(a[1].v['e'])))
        else:
            raise Unsup('new PolyInt')

    def length(self, o):
        if self.proved0(o.v['val']):
            return Lin.const(0)
        return self.once(('len', self.key(o)), lambda: self.nat('length(%s)' % self.key(o)))

    def comparable(self, o, b):
        x, y = o.v['fam'], b.v['fam']
        if x == y:
            return True
        return self.B('comparable', *sorted((str(x), str(y))))

    def nz(self, o):
        return not self.is0(self.length(o))

    def integer(self, s):
        if isinstance(s, Hex):
            return s.v
        if isinstance(s, str):
            try:
                return Lin.const(int(s, 0))
            except ValueError:
                pass
        raise Unsup('a text that is no integer')

    def terms(self, o):
        """monomials and coefficients of its terms"""
        n = o.v.get('n', 2)
        k = self.key(o)

        def make():
            out = []
            for i in range(2):
                if self.is0(self.length(o) - i):
                    return out
                pos = self.pick(2, 'component') - 1
                c = self.U('coefficient', k, i)
                self.facts.add_ne(c)
                out.append((pos, [self.nat('e%d.%d(%s)' % (i, j, k)) for j in range(n)], c))
            self.assume(self.is0(self.length(o) - 2))
            return out
        return self.once(('terms', k), make)

    def lead(self, o):
        k, n = self.key(o), o.v.get('n', 2)
        t = self.memo_.get(('terms', k))
        if t:
            return t[0]

        def make():
            pos = self.pick(2, 'component') - 1
            c = self.U('coefficient', k, 0)
            self.facts.add_ne(c)
            return pos, [self.nat('e0.%d(%s)' % (j, k)) for j in range(n)], c
        return self.once(('lead', k), make)

    def m_PolyInt(self, o, c, a):
        v = o.v
        if c == 'isZero':
            return not self.nz(o)
        if c == 'length':
            return self.length(o)
        if c in ('norm', 'size', 'maxPos'):
            return self.U('PolyInt::' + c, self.key(o))
        if c == 'order':
            if v['fam'][0] == 'order':
                return v['fam'][1]
            return self.once(('order', str(v['fam'])), lambda: (0x11, 0x12, 0x14, 0x21, 0x22, 0x24)[self.pick(6, 'order')])
        if c == 'isPp':
            return self.B('isPp', self.key(o))
        if c in ('lm', 'lc', 'degree'):
            self.pre(self.nz(o), 'only a non-zero polynomial is asked for its leading term')
            p, e, x = self.lead(o)
            if c == 'degree':
                return sum(e, Lin.const(0))
            return self.view('Monom', o, pos=p, e=list(e)) if c == 'lm' else self.view('Integer', o, val=x)
        if c == 'begin':
            return Cpp('PolyIntConstIterator', None, o, False, at=0, born=self.version.get(o.no, 0))
        if c == 'comparable':
            return self.comparable(o, a[0])
        if c in ('minus', 'pow', 'add', 'sub', 'mult', 'reduction', 'pp'):
            self.mutable(o)
        if c == 'minus':
            v['val'] = -v['val']
            return self.changed(o)
        if c == 'pow':
            self.pre(self.ge(lin(a[0])), 'the power is not negative')
            r = Lin.const(1)
            if not lin(a[0]).is_const():
                r = self.U('power', self.key(o), self.facts.norm(lin(a[0])))
            else:
                for i in range(self.concrete(a[0])):
                    r = r * v['val']
            v['val'] = r
            return self.changed(o)
        if c in ('add', 'sub', 'mult'):
            if isinstance(a[0], Cpp):
                self.pre(self.comparable(o, a[0]), 'operands have the same order and number of variables')
                x = a[0].v['val']
            else:
                x = lin(self.integer(a[0]))
            v['val'] = v['val'] + x if c == 'add' else v['val'] - x if c == 'sub' else v['val'] * x
            return self.changed(o)
        if c == 'reduction':
            self.pre(self.comparable(o, a[0]), 'operands have the same order and number of variables')
            self.pre(self.nz(o) and self.nz(a[0]), 'only non-zero polynomials are reduced')
            p, e, _ = self.lead(o)
            q, f, _ = self.lead(a[0])
            self.pre(all(self.ge(x - y) for x, y in zip(e, f)) and (q == -1 or q == p), 'the reduced term is divisible')
            v['val'] = self.U('reduction', self.key(o), self.key(a[0]))
            return self.changed(o)
        if c == 'pp':
            v['val'] = self.U('pp', self.key(o))
            return self.changed(o)
        raise Unsup(c)

    def m_PolyIntConstIterator(self, o, c, a):
        ts = self.terms(o.parent)
        i = o.v['at']
        if c == 'operator bool':
            return i < len(ts)
        self.pre(i < len(ts), 'an iterator is inside')
        if c == 'operator++':
            o.v['at'] += 1
            return None
        if c == 'coeff':
            return self.view('Integer', o.parent, val=ts[i][2])
        if c == 'monom':
            return self.view('Monom', o.parent, pos=ts[i][0], e=list(ts[i][1]))
        raise Unsup(c)

    # bases
    def new_JanetPolyInt(self, o, *a):
        o.v.update(pushed=[], built=0, fam=None)

    def jcomparable(self, o, b):
        f = o.v['fam']
        return f is None or f == b.v['fam'] or self.B('comparable', *sorted((str(f), str(b.v['fam']))))

    def jsize(self, o):
        return self.once(('jsize', self.key(o)), lambda: self.nat('size(%s)' % self.key(o)) if o.v['built'] else Lin.const(0))

    def jwrap(self, o, tag):
        n = 2
        return self.view('WrapPolyInt', o, tag=tag, n=n)

    def m_JanetPolyInt(self, o, c, a):
        v, k = o.v, self.key(o)
        if c == 'comparable':
            return self.jcomparable(o, a[0])
        if c == 'push':
            self.pre(self.jcomparable(o, a[0]), 'generators have the same order and number of variables')
            v['pushed'] = v['pushed'] + [self.key(a[0])]
            v['fam'] = a[0].v['fam']
            return self.changed(o)
        if c in ('build', 'algorithmBlockTQ'):
            v['built'] += 1
            return self.changed(o)
        if c == 'isOne':
            return bool(v['built']) and self.B('isOne', k)
        if c == 'size':
            return self.jsize(o)
        if c == 'begin':
            return Cpp('GCListWrapPolyIntConstIterator', None, o, False, at=0, born=self.version.get(o.no, 0))
        if c == 'find':
            if self.members(o):
                self.pre(len(a[0].v['e']) == 2, 'a monomial that is looked for has the number of variables of the basis')
            return self.jwrap(o, 'find ' + self.key(a[0])) if self.B('found', k, self.key(a[0])) else NULL
        if c == 'nf':
            self.pre(self.jcomparable(o, a[0]), 'a normal form is of a polynomial of the same order and number of variables')
            self.mutable(a[0])
            a[0].v['val'] = self.U('nf', k, self.key(a[0]))
            return self.changed(a[0])
        if c == 'maxPos':
            if not v['built']:
                return -2
            return self.once(('maxPos', k), lambda: self.nat('maxPos(%s)' % k) - 2)
        if c == 'janet':
            mp = lin(self.method(o, 'maxPos', []))
            self.pre(self.ge(lin(a[0]) + 1) and self.ge(mp - a[0]), 'there is a tree for the component')
            return self.view('Janet', o, tag='%s/%s' % (k, self.facts.norm(lin(a[0]))))
        if c == 'buildHP':
            self.pre(not self.method(o, 'isOne', []) and not self.is0(self.jsize(o)), 'only a proper non-empty basis has this Hilbert polynomial')
            a[0].v['of'] = 'basis ' + k
            return None
        if c == 'timer':
            return self.view('Timer', o, tag='timer ' + k)
        if c in ('reduction', 'maxEqualLm', 'critI', 'critII', 'isZeroNf'):
            return self.U(c, k)
        raise Unsup(c)

    def members(self, o):
        return self.once(('elements', self.key(o)), lambda: self.pick(3, 'elements') if o.v['built'] else 0)

    def m_GCListWrapPolyIntConstIterator(self, o, c, a):
        n = self.members(o.parent)
        if c == 'operator bool':
            return o.v['at'] < n
        self.pre(o.v['at'] < n, 'an iterator is inside')
        if c == 'operator++':
            o.v['at'] += 1
            return None
        if c == 'data':
            return self.jwrap(o.parent, 'element %d' % o.v['at'])
        raise Unsup(c)

    def m_WrapPolyInt(self, o, c, a):
        k = self.key(o.parent), o.v['tag']
        if c in ('NM', 'NMd', 'build'):
            self.pre(self.ge(lin(a[0])) and self.ge(Lin.const(o.v['n'] - 1) - a[0]), 'the variable exists')
            return self.B(c, *k, self.concrete(a[0]))
        if c == 'isGB':
            return self.B(c, *k)
        if c in ('lm', 'ansector'):
            e = self.once((c,) + k, lambda: [self.nat('%s%d(%s)' % (c, i, k[1])) for i in range(o.v['n'])])
            pos = self.once((c, 'pos') + k, lambda: self.pick(2, 'component') - 1)
            return self.view('Monom', o, pos=pos, e=list(e))
        if c == 'poly':
            return self.view('PolyInt', o, val=self.U('poly', *k), fam=o.parent.v['fam'])
        raise Unsup(c)

    def m_Janet(self, o, c, a):
        k = o.v['tag']
        if c == 'size':
            return self.once(('size', k), lambda: self.nat('size(%s)' % k))
        if c == 'buildHP':
            self.pre(not self.is0(self.method(o, 'size', [])), 'only a non-empty tree has a Hilbert polynomial')
            a[0].v['of'] = 'tree ' + k
            return None
        if c == 'draw':
            self.pre(not self.is0(self.method(o, 'size', [])), 'only a non-empty tree is drawn')
            self.memo_['drawn'] = (k, a[0], a[1])
            return None
        raise Unsup(c)

    def m_HilbertPoly(self, o, c, a):
        of = o.v.get('of')
        self.pre(of is not None, 'a Hilbert polynomial has been computed')
        d = self.once(('dim', of), lambda: self.pick(2, 'dimension') + 1)
        if c == 'dim':
            return d
        if c == 'isZero':
            return self.B('isZero', of, self.concrete(a[0]))
        if c == 'operator[]':
            self.pre(self.ge(lin(a[0])) and self.ge(Lin.const(d) - a[0]), 'an index of a Hilbert polynomial is inside')
            self.stamp += 1
            return CStr('<%s [%d]>' % (of, self.concrete(a[0])), self.stamp)
        raise Unsup(c)


# ---- inputs ------------------------------------------------------------------------------------------------------------------
def cls(p, n):
    return p.get('ginv', n)


def new(p, c):
    return p.call(cls(p, c), [])


def ptr(p, o):
    x = o.at.get('ptr')
    if not isinstance(x, Cpp):
        raise Unsup('the C++ object of ' + o.cls.name)
    return x


def arena(p, o):
    xs = [x for x in o.at.values() if isinstance(x, Cpp) and x.kind == 'Allocator']
    if len(xs) != 1:
        raise Unsup('the arena of ' + o.cls.name)
    return xs[0]


def mon(p, name, n=2, pos=None):
    m = new(p, 'monom')
    o = Cpp('Monom', arena(p, m), None, True, pos=p.pick(2, 'component') - 1 if pos is None else pos, e=[p.nat('%s%d' % (name, i)) for i in range(n)])
    p.all_.append(o)
    m.at['ptr'] = o
    return m


def pol(p, name, fam='F', nonzero=False, n=2):
    m = new(p, 'poly_int')
    o = Cpp('PolyInt', arena(p, m), None, True, val=Lin.atom(Atom(name)), fam=('fam', fam), n=n)
    p.all_.append(o)
    m.at['ptr'] = o
    if nonzero:
        p.facts.add_ge(p.length(o) - 1)
    return m


def num(p, name='k'):
    return p.whole(name)


def ismon(p, r, e, pos, site, heap=True):
    if not (isinstance(r, Inst) and cls(p, 'const_monom') in r.cls.mro) or ptr(p, r) is NULL:
        return p.chk(False, site, 'is %r' % (r,))
    o = p.use(ptr(p, r))
    if heap:
        p.chk(o.arena is arena(p, r), 'lifetime: a result lives in its own arena')
    if len(o.v['e']) != len(e):
        return p.chk(False, site, 'has %d variables' % len(o.v['e']))
    for x, y in zip(o.v['e'], e):
        p.eqint(lin(x), y, site)
    p.eqint(lin(o.v['pos']), pos, site + ', component')


def ispol(p, r, val, site):
    if not (isinstance(r, Inst) and cls(p, 'poly_int') in r.cls.mro) or ptr(p, r) is NULL:
        return p.chk(False, site, 'is %r' % (r,))
    o = p.use(ptr(p, r))
    p.chk(o.arena is arena(p, r), 'lifetime: a result lives in its own arena')
    p.eqint(o.v['val'], val, site)


def val(p, o):
    return ptr(p, o).v['val']


def exps(p, o):
    return [lin(x) for x in ptr(p, o).v['e']], ptr(p, o).v['pos']


ZERO = Lin.const(0)


# ---- values --------------------------------------------------------------------------------------------------------------------
def s_monom():
    def f(p):
        a, b = mon(p, 'a'), mon(p, 'b', pos=-1)
        (x, px), (y, py) = exps(p, a), exps(p, b)
        ismon(p, p.op('*', a, b), [i + j for i, j in zip(x, y)], px, 'monom: product')
        ismon(p, p.op('*', b, a), [i + j for i, j in zip(x, y)], px, 'monom: product')
        k = p.pick(4, 'power')
        ismon(p, p.op('**', b, k), [i * k for i in y], -1, 'monom: power')
        d = p.m(p.op('*', a, b), 'divisiable', a)
        p.chk(p.truth(d) is True, 'monom: divisible')
        ismon(p, p.op('/', p.op('*', a, b), b), x, px, 'monom: quotient')
        p.eqint(p.m(a, 'degree'), sum(x, ZERO), 'monom: degree')
        p.eqint(lin(p.m(a, 'pos')), px, 'monom: component')
        p.eqint(p.b_len(a), 2, 'monom: number of variables')
        for i in range(2):
            p.eqint(lin(p.getitem(a, i)), x[i], 'monom: exponent')
        got = list(p.iterate(a))
        p.chk(len(got) == 2, 'monom: exponents')
        for g, w in zip(got, x):
            p.eqint(lin(g), w, 'monom: exponents')
        for c in ('lex', 'deglex', 'alex'):
            for u, w in ((a, b), (b, a)):
                p.eqint(p.m(u, c, w), p.U(c, p.key(ptr(p, u)), p.key(ptr(p, w))), 'monom: comparison')
        t = [p.text(i) for i in x]
        p.chk(p.text(a) == ('[%s]' % ' '.join(t) if px < 0 else '[%d:%s]' % (px, ' '.join(t))), 'monom: text', 'is %s' % p.text(a))
        p.chk(p.repr_(a) == '[%d %s:%s]' % (px, p.text(p.facts.norm(sum(x, ZERO))), ' '.join(t)), 'monom: text', 'is %s' % p.repr_(a))
        zero = p.is0(sum(x, ZERO))
        p.chk(p.truth(a) == (not zero), 'monom: truth')
        ismon(p, a, x, px, 'monom: operands keep their values')
        ismon(p, b, y, py, 'monom: operands keep their values')
        p.end()
    return f


def s_divides():
    def f(p):
        a, b = mon(p, 'a'), mon(p, 'b')
        (x, px), (y, py) = exps(p, a), exps(p, b)
        want = all(p.ge(i - j) for i, j in zip(x, y)) and (py == -1 or py == px)
        p.chk(p.truth(p.m(a, 'divisiable', b)) == want, 'monom: divisible')
        if want:
            ismon(p, p.op('/', a, b), [i - j for i, j in zip(x, y)], px if py == -1 else -1, 'monom: quotient')
        else:
            p.chk(p.raises(lambda: p.op('/', a, b)) is not None, 'monom: no quotient')
        p.end()
    return f


def s_make():
    def f(p):
        M = cls(p, 'monom')
        n, pos = 2 + p.pick(2, 'size'), p.pick(3, 'component') - 1
        ismon(p, p.call(p.getattr(M, 'zero'), [n, pos]), [ZERO] * n, pos, 'monom: one')
        v = p.pick(n, 'variable')
        m = p.call(p.getattr(M, 'variable'), [v, n, pos])
        ismon(p, m, [Lin.const(int(i == v)) for i in range(n)], pos, 'monom: variable')
        q = p.pick(3, 'new component') - 1
        r = p.m(m, 'setPos', q)
        p.chk(r is m, 'monom: setting the component answers the monomial')
        ismon(p, m, [Lin.const(int(i == v)) for i in range(n)], q, 'monom: component')
        p.call(p.getattr(M, 'rand_init'), [n, 1, 3])
        p.chk(p.rand is not None and [p.concrete(x) for x in p.rand] == [n, 1, 3], 'monom: random generator')
        r = p.call(p.getattr(M, 'next'), [])
        p.chk(isinstance(r, Inst) and len(p.use(ptr(p, r)).v['e']) == n, 'monom: random generator')
        p.chk(isinstance(r, Inst) and p.use(ptr(p, r)).arena is arena(p, r), 'lifetime: a result lives in its own arena')
        R = p.call(cls(p, 'randpermutation'), [n])
        p.eqint(lin(p.b_len(R)), n, 'monom: length of a permutation')
        for i in range(n):
            p.eqint(p.getitem(R, i), p.U('perm', p.key(ptr(p, R)), i), 'monom: permutation')
        a = mon(p, 'a', n)
        x, px = exps(p, a)
        ismon(p, p.m(a, 'permutation', R), [p.U('permuted', p.key(ptr(p, a)), p.key(ptr(p, R)), i) for i in range(n)], px, 'monom: permuted variables')
        ismon(p, a, x, px, 'monom: operands keep their values')
        k = p.key(ptr(p, R))
        p.m(R, 'next')
        p.chk(p.key(ptr(p, R)) != k, 'monom: next permutation')
        p.end()
    return f


def s_arith(which):
    def f(p):
        a = pol(p, 'P', nonzero=True)
        x = val(p, a)
        if which == 'poly':
            b = pol(p, 'Q') if p.pick(2, 'another') else a
            y = val(p, b)
            ispol(p, p.op('+', a, b), x + y, 'poly: sum')
            ispol(p, p.op('-', a, b), x - y, 'poly: difference')
            ispol(p, p.op('*', a, b), x * y, 'poly: product')
            for n, w in (('add', x + y), ('sub', x - y), ('mul', x * y)):
                ispol(p, p.m(a, n, b), w, 'poly: ' + n)
            ispol(p, b, y, 'poly: operands keep their values')
        elif which == 'int':
            k = num(p)
            ispol(p, p.op('+', a, k), x + k, 'poly: sum with a number')
            ispol(p, p.op('-', a, k), x - k, 'poly: difference with a number')
            ispol(p, p.op('*', a, k), x * k, 'poly: product with a number')
            for n, w in (('add', x + k), ('sub', x - k), ('mul', x * k)):
                ispol(p, p.m(a, n, k), w, 'poly: %s of a number' % n)
            for c in (0, 5, -7):
                ispol(p, p.op('+', a, c), x + c, 'poly: sum with a number')
                ispol(p, p.op('-', a, c), x - c, 'poly: difference with a number')
                ispol(p, p.op('*', a, c), x * c, 'poly: product with a number')
        elif which == 'left':
            k = num(p)
            ispol(p, p.op('+', k, a), x + k, 'poly: sum with a number on the left')
            ispol(p, p.op('-', k, a), Lin.const(0) + k - x, 'poly: difference with a number on the left')
            ispol(p, p.op('*', k, a), x * k, 'poly: product with a number on the left')
        else:
            ispol(p, p.neg(a), -x, 'poly: negative')
            r = Lin.const(1)
            for i in range(p.pick(4, 'power')):
                r = r * x
                n = i + 1
            ispol(p, p.op('**', a, 0 if r is None or r.is_const() else n), r, 'poly: power')
        ispol(p, a, x, 'poly: operands keep their values')
        p.end()
    return f


def integer_text(p, v):
    k = str(p.facts.norm(v))
    s = '' if p.ge(v) else '-'
    return s + '<10:|%s|>' % k, s + '0x<16:|%s|>' % k


def s_poly():
    def f(p):
        a = pol(p, 'P')
        o = ptr(p, a)
        x = val(p, a)
        p.eqint(p.b_len(a), p.length(o), 'poly: number of terms')
        nz = p.nz(o)
        p.chk(p.truth(a) == nz and p.truth(p.m(a, 'isZero')) == (not nz), 'poly: truth')
        p.eqint(p.m(a, 'norm'), p.U('PolyInt::norm', p.key(o)), 'poly: norm')
        p.eqint(p.m(a, 'size'), p.U('PolyInt::size', p.key(o)), 'poly: number of variables')
        p.chk(p.truth(p.m(a, 'isPp')) == p.B('isPp', p.key(o)), 'poly: content')
        ts = p.terms(o)
        got = list(p.iterate(p.m(a, '__iter__')))
        p.chk(len(got) == len(ts), 'poly: terms')
        for g, (pos, e, c) in zip(got, ts):
            g = list(p.iterate(g))
            if len(g) != 2:
                p.chk(False, 'poly: terms', 'are %r' % g)
                continue
            ismon(p, g[0], e, pos, 'poly: terms, monomial', heap=False)
            p.eqint(p.use(ptr(p, g[1])).v['val'], c, 'poly: terms, coefficient')
        if nz:
            pos, e, c = p.lead(o)
            m, l = p.m(a, 'lm'), p.m(a, 'lc')
            ismon(p, m, e, pos, 'poly: leading monomial', heap=False)
            p.eqint(p.use(ptr(p, l)).v['val'], c, 'poly: leading coefficient')
            p.eqint(p.m(a, 'degree'), sum(e, ZERO), 'poly: degree')
            t, h = integer_text(p, c)
            p.chk(p.text(a) == '%s*%s + ...' % (p.text(m), t), 'poly: text', 'is %s' % p.text(a))
            p.chk(p.repr_(a) == '%s*%s + ...' % (p.repr_(m), h), 'poly: text', 'is %s' % p.repr_(a))
        else:
            p.chk(p.text(a) == '0' and p.repr_(a) == '0', 'poly: text')
        ispol(p, a, x, 'poly: queries change nothing')
        p.end()
    return f


def s_integer():
    def f(p):
        a = pol(p, 'P', nonzero=True)
        l = p.m(a, 'lc')
        v = p.lead(ptr(p, a))[2]
        if p.pick(2, 'zero allowed'):
            v = p.whole('z')
            ptr(p, l).v['val'] = v
        z = p.is0(v)
        p.chk(p.truth(l) == (not z) and p.truth(p.m(l, 'isZero')) == z, 'integer: zero')
        p.chk(p.truth(p.m(l, 'isOne')) == p.is0(v - 1), 'integer: one')
        p.chk(p.truth(p.m(l, 'isAbsOne')) == (p.is0(v - 1) or p.is0(v + 1)), 'integer: one or minus one')
        p.eqint(p.m(l, 'sgn'), 0 if z else 1 if p.ge(v) else -1, 'integer: sign')
        p.eqint(p.m(l, 'norm'), p.U('Integer::norm', p.key(ptr(p, l))), 'integer: norm')
        t, h = integer_text(p, v)
        p.chk(p.text(l) == t, 'integer: decimal text', 'is %s' % p.text(l))
        p.chk(p.repr_(l) == h, 'integer: hexadecimal text', 'is %s' % p.repr_(l))
        p.collect(a, l)
        p.collect()
        p.end()
    return f


def s_change():
    def f(p):
        k = p.pick(4, 'what')
        if k == 0:
            pos, o = ('TOP', 'POT')[p.pick(2)], ('lex', 'deglex', 'alex')[p.pick(3)]
            m = mon(p, 'm')
            r = p.call(p.getattr(cls(p, 'poly_int'), 'to_monom'), [pos, o, m])
            ispol(p, r, p.U('term', p.key(ptr(p, m))), 'poly: of a monomial')
            code = (0x10 if pos == 'TOP' else 0x20) | FAM[o]
            p.chk(ptr(p, r).v['fam'] == ('order', code, 2), 'poly: order', 'is %s' % (ptr(p, r).v['fam'],))
            for x, y in (('TOPP', o), (pos, 'grevlex')):
                p.chk(p.raises(lambda: p.call(p.getattr(cls(p, 'poly_int'), 'to_monom'), [x, y, m])) is not None, 'poly: unknown orders are refused')
            got = p.m(r, 'order')
            p.chk(isinstance(got, tuple) and tuple(got) == (pos, o), 'poly: order', 'is %s' % (got,))
        elif k == 1:
            a, b = pol(p, 'P', nonzero=True), pol(p, 'Q', nonzero=True)
            x, y, ka, kb = val(p, a), val(p, b), p.key(ptr(p, a)), p.key(ptr(p, b))
            (q, e, _), (s, g, _) = p.lead(ptr(p, a)), p.lead(ptr(p, b))
            if all(p.ge(i - j) for i, j in zip(e, g)) and (s == -1 or s == q):
                r = p.m(a, 'reduction', b)
                p.chk(r is a, 'poly: reduction answers the polynomial')
                ispol(p, a, p.U('reduction', ka, kb), 'poly: reduction')
                ispol(p, b, y, 'poly: operands keep their values')
            else:
                p.chk(p.raises(lambda: p.m(a, 'reduction', b)) is not None, 'poly: no reduction')
                ispol(p, a, x, 'poly: operands keep their values')
        elif k == 2:
            a = pol(p, 'P', nonzero=True)
            ka = p.key(ptr(p, a))
            if not p.B('isPp', ka):
                r = p.m(a, 'pp')
                p.chk(r is a, 'poly: content removal answers the polynomial')
                ispol(p, a, p.U('pp', ka), 'poly: content removal')
        else:
            a, b = pol(p, 'P'), pol(p, 'Q', 'G')
            p.chk(p.truth(p.m(a, 'comparable', b)) == p.comparable(ptr(p, a), ptr(p, b)), 'poly: comparable')
        p.end()
    return f


def s_basis():
    def f(p):
        G = new(p, 'janet_poly_int')
        o = ptr(p, G)
        p.chk(p.truth(G) is False and p.truth(p.m(G, 'isOne')) is False, 'basis: an empty basis')
        a, b = pol(p, 'P', nonzero=True), pol(p, 'Q', nonzero=True)
        x, y = val(p, a), val(p, b)
        ka, kb = p.key(ptr(p, a)), p.key(ptr(p, b))
        p.chk(p.m(G, 'push', a) is G, 'basis: push answers the basis')
        p.m(G, 'push', b)
        p.chk(o.v['pushed'] == [ka, kb], 'basis: generators', 'are %s' % o.v['pushed'])
        ispol(p, a, x, 'basis: generators keep their values')
        p.collect(G)
        p.m(G, 'build')
        p.chk(o.v['built'] == 1, 'basis: completion')
        k = p.key(o)
        p.eqint(p.b_len(G), p.jsize(o), 'basis: size')
        p.chk(p.truth(G) == (not p.is0(p.jsize(o))), 'basis: truth')
        p.chk(p.truth(p.m(G, 'isOne')) == p.B('isOne', k), 'basis: unit ideal')
        for c in ('reduction', 'maxEqualLm', 'critI', 'critII', 'isZeroNf'):
            p.eqint(p.m(G, c), p.U(c, k), 'basis: ' + c)
        p.eqint(lin(p.m(G, 'maxPos')), p.method(o, 'maxPos', []), 'basis: highest component')
        what = p.pick(4, 'query')
        if what == 0:
            ws = list(p.iterate(p.m(G, '__iter__')))
            p.chk([ptr(p, w).v.get('tag') for w in ws] == ['element %d' % i for i in range(p.memo_[('elements', k)])], 'basis: elements')
        elif what == 1:
            m = mon(p, 'm')
            r = p.m(G, 'find', m)
            if p.B('found', k, p.key(ptr(p, m))):
                p.chk(isinstance(r, Inst) and ptr(p, r).v.get('tag') == 'find ' + p.key(ptr(p, m)), 'basis: divisor')
            else:
                p.chk(r is None, 'basis: no divisor')
        elif what == 2:
            c = pol(p, 'R')
            kc = p.key(ptr(p, c))
            r = p.m(G, 'nf', c)
            ispol(p, r, p.U('nf', k, kc), 'basis: normal form')
            ws = list(p.iterate(p.m(G, '__iter__')))
            p.assume(len(ws) > 0)
            c = p.m(ws[0], 'poly')
            x, kc = val(p, c), p.key(ptr(p, c))
            r = p.m(G, 'nf', c)
            ispol(p, r, p.U('nf', k, kc), 'basis: normal form')
            p.eqint(val(p, c), x, 'basis: elements keep their values')
        else:
            t = p.m(G, 'timer')
            for c in ('userTime', 'sysTime', 'realTime'):
                p.eqrat(p.m(t, c), Rat(p.U(c, p.key(ptr(p, t)))), 'timer: of the completion')
            want = ', '.join('%s: %s' % (c, p.text(Rat(p.U(c, p.key(ptr(p, t)))))) for c in ('userTime', 'sysTime', 'realTime'))
            p.chk(p.text(t).endswith(want), 'timer: text', 'is %s' % p.text(t))
            p.chk(ptr(p, t).v.get('tag') == 'timer ' + k, 'timer: of the completion')
        p.end()
    return f


def s_hp():
    def f(p):
        G = new(p, 'janet_poly_int')
        o = ptr(p, G)
        o.v['built'] = 1
        k = p.key(o)
        d = lambda of: ['<%s [%d]>' % (of, i) for i in range(p.once(('dim', of), lambda: p.pick(2, 'dimension') + 1) + 1)]
        if p.pick(2, 'of a tree'):
            pos = p.pick(3, 'component') - 1
            p.assume(p.ge(lin(p.method(o, 'maxPos', [])) - pos))
            J = p.m(G, 'janet', pos)
            t = ptr(p, J).v.get('tag')
            p.chk(t == '%s/%d' % (k, pos), 'basis: tree of a component', 'is %s' % t)
            p.eqint(p.m(J, 'size'), p.method(ptr(p, J), 'size', []), 'basis: size of a tree')
            if not p.is0(p.method(ptr(p, J), 'size', [])):
                got = p.m(J, 'HilbertPoly')
                p.chk(list(p.iterate(got)) == d('tree ' + t), 'basis: Hilbert polynomial', 'is %s' % got)
                p.m(J, 'draw', 'pdf', 'file')
                p.chk(p.memo_.get('drawn') == (t, 'pdf', 'file'), 'basis: picture')
        elif not p.is0(p.jsize(o)) and not p.B('isOne', k):
            got = p.m(G, 'HilbertPoly')
            p.chk(list(p.iterate(got)) == d('basis ' + k), 'basis: Hilbert polynomial', 'is %s' % got)
        p.end()
    return f


def s_wrap():
    def f(p):
        G = new(p, 'janet_poly_int')
        o = ptr(p, G)
        o.v.update(built=1, fam=('fam', 'F'))
        ws = list(p.iterate(p.m(G, '__iter__')))
        p.assume(len(ws) > 0)
        w = ws[0]
        k = p.key(o), 'element 0'
        W = ptr(p, w)
        l, a = p.m(w, 'lm'), p.m(w, 'ansector')
        for c, g in (('lm', l), ('ansector', a)):
            x = p.method(W, c, [])
            ismon(p, g, [lin(e) for e in x.v['e']], x.v['pos'], 'wrap: ' + c, heap=False)
        p.chk(p.truth(p.m(w, 'isGB')) == p.B('isGB', *k), 'wrap: basis element')
        for v in range(2):
            p.chk(p.truth(p.m(w, 'NM', v)) == p.B('NM', *k, v), 'wrap: non-multiplicative variable')
            p.chk(p.truth(p.m(w, 'build', v)) == p.B('build', *k, v), 'wrap: prolonged variable')
        q = p.m(w, 'poly')
        p.eqint(p.use(ptr(p, q)).v['val'], p.U('poly', *k), 'wrap: polynomial')
        stars = ''.join('*' if p.B('NM', *k, v) else ' ' for v in range(2))
        p.chk(p.text(w) == '%s%s[%s]' % (p.text(l), p.text(a), stars), 'wrap: text', 'is %s' % p.text(w))
        p.end()
    return f


def s_timer():
    def f(p):
        t = new(p, 'timer')
        o = ptr(p, t)
        for c in ('start', 'stop', 'cont', 'stop'):
            p.m(t, c)
        p.chk(o.v.get('calls') == ['start', 'stop', 'cont', 'stop'], 'timer: start, stop, continue', 'are %s' % o.v.get('calls'))
        g = p.call(p.getattr(cls(p, 'allocator'), 'GC_timer'), [])
        gc = p.free('Allocator::timer', [])
        for x, y in ((t, o), (g, gc)):
            for c in ('userTime', 'sysTime', 'realTime'):
                p.eqrat(p.m(x, c), Rat(p.U(c, p.key(y))), 'timer: times')
            want = 'userTime: %s, sysTime: %s, realTime: %s' % tuple(p.text(Rat(p.U(c, p.key(y)))) for c in ('userTime', 'sysTime', 'realTime'))
            p.chk(p.text(x).endswith(want), 'timer: text', 'is %s' % p.text(x))
        A = cls(p, 'allocator')
        p.eqint(p.call(p.getattr(A, 'maxMemory'), []), p.U('Allocator::maxMemory'), 'arena: memory')
        p.eqint(p.call(p.getattr(A, 'currMemory'), []), p.U('Allocator::currMemory'), 'arena: memory')
        k = num(p)
        p.call(p.getattr(A, 'set_limit_memory'), [k])
        p.chk(p.memo_.get('limit') is not None, 'arena: limit')
        p.eqint(lin(p.memo_['limit']), k, 'arena: limit')
        a = new(p, 'allocator')
        n = arena(p, a).no
        p.eqint(p.m(a, 'alloc'), p.U('Allocator::alloc', n), 'arena: memory')
        p.eqint(p.m(a, 'size'), p.U('Allocator::size', n), 'arena: memory')
        p.chk(p.text(a) == 'alloc: %s, size: %s' % (p.text(p.U('Allocator::alloc', n)), p.text(p.U('Allocator::size', n))), 'arena: text')
        p.end()
    return f


# ---- misuse --------------------------------------------------------------------------------------------------------------------
def quiet(p, f):
    """whatever is asked, the answer is a value or an exception"""
    try:
        f()
    except PyExc:
        pass
    p.chk(True, 'safety: an answer or an exception')


def methods(p, c):
    out = []
    for x in c.mro:
        if isinstance(x, Cls):
            for n, f in x.ns.items():
                if n not in out and n not in p.conv.private and (not n.startswith('__') or n in SPECIAL) and isinstance(f, Func):
                    out.append(n)
    return sorted(out)


SPECIAL = ('__bool__', '__len__', '__iter__', '__str__', '__repr__', '__neg__', '__getitem__', '__add__', '__sub__', '__mul__', '__truediv__', '__pow__',
           '__radd__', '__rsub__', '__rmul__')
KINDS = ('const_integer', 'const_monom', 'monom', 'const_poly_int', 'poly_int', 'wrap_poly_int', 'const_janet', 'const_timer', 'janet_poly_int')


def arguments(p, f, me):
    """values for the parameters of a method: of the types it is declared with, or any of the likely ones"""
    out = []
    ar = f.node.args
    types = {}
    for s in f.node.body:
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == '__cyarg__':
            types[s.value.args[2].value] = s.value.args[1].value
    k = len(ar.args) - len(ar.defaults)
    for x in ar.args[1:k]:
        t = types.get(x.arg)
        if t == 'int' or t == 'Variable':
            out.append(p.whole(x.arg))
        elif t in ('const_monom', 'monom'):
            out.append(new(p, 'monom') if p.pick(2, 'null argument') else mon(p, 'y', 2 + p.pick(2, 'more variables')))
        elif t in ('const_poly_int', 'poly_int'):
            out.append(new(p, 'poly_int') if p.pick(2, 'null argument') else pol(p, 'Y', 'G'))
        elif t == 'randpermutation':
            out.append(p.call(cls(p, 'randpermutation'), [2 + p.pick(2, 'longer')]))
        elif f.name == '__getitem__' or x.arg in ('pos', 'k', 'i', 'var'):
            out.append(p.whole(x.arg))
        elif f.name == 'draw':
            out.append('pdf')
        else:
            j = p.pick(4, 'argument')
            out.append([lambda: p.whole(x.arg), lambda: pol(p, 'Y', 'G'), lambda: new(p, 'poly_int'), lambda: mon(p, 'y')][j]())
    return out


def s_null(c):
    def f(p):
        C = cls(p, c)
        ns = methods(p, C)
        n = ns[p.pick(len(ns))]
        p.trail.append('%s.%s' % (c, n))
        o = p.call(C, [])
        g = C.find(n)[0]
        quiet(p, lambda: p.call(Bound(g, o), arguments(p, g, o)))
    return f


def s_misuse(c):
    def f(p):
        C = cls(p, c)
        ns = [n for n in methods(p, C) if n not in ('build',) or c != 'janet_poly_int']
        n = ns[p.pick(len(ns))]
        p.trail.append('%s.%s' % (c, n))
        if c == 'monom':
            o = mon(p, 'x')
        elif c == 'poly_int':
            o = pol(p, 'X')
        elif c == 'janet_poly_int':
            o = new(p, c)
            if p.pick(2, 'generators'):
                ptr(p, o).v.update(fam=('fam', 'F'), pushed=['P'])
                if p.pick(2, 'built'):
                    ptr(p, o).v['built'] = 1
        else:
            G = new(p, 'janet_poly_int')
            ptr(p, G).v.update(fam=('fam', 'F'), pushed=['P'], built=1)
            if c == 'const_janet':
                p.assume(p.ge(lin(p.method(ptr(p, G), 'maxPos', []))))
                o = p.m(G, 'janet', 0)
            else:
                ws = list(p.iterate(p.m(G, '__iter__')))
                p.assume(len(ws) > 0)
                o = ws[0]
        g = C.find(n)[0]
        quiet(p, lambda: p.call(Bound(g, o), arguments(p, g, o)))
    return f


def s_static():
    def f(p):
        k = p.pick(7)
        M = cls(p, 'monom')
        if k == 5:
            m = new(p, 'monom') if p.pick(2, 'null argument') else mon(p, 'm')
            quiet(p, lambda: p.call(p.getattr(cls(p, 'poly_int'), 'to_monom'), ['TOP', 'lex', m]))
            return
        if k == 6:
            R = p.call(cls(p, 'randpermutation'), [1 + p.pick(3, 'length')])
            quiet(p, lambda: p.getitem(R, p.whole('i')))
            return
        if k == 0:
            n = p.whole('size')
            p.assume(p.ge(Lin.const(3) - n))
            quiet(p, lambda: p.call(p.getattr(M, 'zero'), [n, p.whole('pos')]))
        elif k == 1:
            n = p.whole('size')
            p.assume(p.ge(Lin.const(3) - n))
            quiet(p, lambda: p.call(p.getattr(M, 'variable'), [p.whole('v'), n, p.whole('pos')]))
        elif k == 2:
            quiet(p, lambda: p.call(p.getattr(M, 'rand_init'), [p.whole('size'), p.whole('deg1'), p.whole('deg2')]))
        elif k == 3:
            quiet(p, lambda: p.call(p.getattr(M, 'next'), []))
        else:
            quiet(p, lambda: p.call(cls(p, 'randpermutation'), [p.whole('n')]))
    return f


# ---- lifetime ------------------------------------------------------------------------------------------------------------------
def look(p, x):
    """use what was handed out"""
    if isinstance(x, (list, tuple)):
        for y in x:
            look(p, y)
    if not isinstance(x, Inst):
        return
    c = x.cls.name
    if c in ('const_monom', 'monom', 'const_poly_int', 'poly_int', 'const_integer', 'wrap_poly_int'):
        p.text(x)
    if c == 'const_janet':
        p.m(x, 'size')
    if c == 'const_timer':
        p.m(x, 'realTime')
        p.text(x)


def s_views(steps):
    """objects reached over several steps outlive the ones they were reached from"""
    def f(p):
        k = p.pick(len(ROUTES), 'route')
        name, g = ROUTES[k]
        p.trail.append(name)
        x = g(p)
        p.assume(x is not None)
        p.collect(x)
        look(p, x)
        p.collect(x)
        look(p, x)
        p.end()
    return f


def basis(p):
    G = new(p, 'janet_poly_int')
    ptr(p, G).v.update(built=1, fam=('fam', 'F'))
    return G


def first(p, G):
    ws = list(p.iterate(p.m(G, '__iter__')))
    p.assume(len(ws) > 0)
    return ws[-1]


def found(p, G):
    r = p.m(G, 'find', mon(p, 'm'))
    p.assume(r is not None)
    return r


def route_poly(p, w):
    q = p.m(w, 'poly')
    p.assume(p.nz(ptr(p, q)))
    return q


def tree(p, G):
    p.assume(p.ge(lin(p.method(ptr(p, G), 'maxPos', []))))
    return p.m(G, 'janet', 0)


ROUTES = [
    ('lm of a polynomial', lambda p: p.m(pol(p, 'P', nonzero=True), 'lm')),
    ('lc of a polynomial', lambda p: p.m(pol(p, 'P', nonzero=True), 'lc')),
    ('terms of a polynomial', lambda p: list(p.iterate(p.m(pol(p, 'P', nonzero=True), '__iter__')))),
    ('lm of a sum', lambda p: (lambda r: p.assume(p.nz(ptr(p, r))) or p.m(r, 'lm'))(p.op('+', pol(p, 'P', nonzero=True), pol(p, 'Q', nonzero=True)))),
    ('a product of monomials', lambda p: p.op('*', mon(p, 'a', pos=-1), mon(p, 'b'))),
    ('a polynomial of a monomial', lambda p: p.call(p.getattr(cls(p, 'poly_int'), 'to_monom'), ['TOP', 'lex', mon(p, 'a')])),
    ('an element of a basis', lambda p: first(p, basis(p))),
    ('a divisor', lambda p: found(p, basis(p))),
    ('the leading monomial of an element', lambda p: p.m(first(p, basis(p)), 'lm')),
    ('the ancestor of an element', lambda p: p.m(first(p, basis(p)), 'ansector')),
    ('the polynomial of an element', lambda p: p.m(first(p, basis(p)), 'poly')),
    ('the leading coefficient of an element', lambda p: p.m(route_poly(p, first(p, basis(p))), 'lc')),
    ('the leading monomial of the polynomial of an element', lambda p: p.m(route_poly(p, found(p, basis(p))), 'lm')),
    ('a tree', lambda p: tree(p, basis(p))),
    ('the timer of a basis', lambda p: p.m(basis(p), 'timer')),
    ('a normal form', lambda p: p.m(basis(p), 'nf', pol(p, 'P'))),
]


def conv(ctx):
    if not os.path.exists(PATH):
        raise Broken('no ' + PATH)
    return cyx.Conv(PATH)


def go(chk, ctx, rule, pr, only, **kw):
    c = conv(ctx)
    run(chk, c, rule, pr, only, cls=Cy, srcdir='cython', **kw)


def values():
    return {
        'monomials': s_monom(), 'division of monomials': s_divides(), 'constructed monomials': s_make(), 'polynomials': s_arith('poly'), 'polynomials and numbers': s_arith('int'),
        'numbers and polynomials': s_arith('left'), 'negative and power': s_arith('one'), 'queries of a polynomial': s_poly(), 'integers': s_integer(),
        'changes of a polynomial': s_change(), 'basis': s_basis(), 'Hilbert polynomials': s_hp(), 'elements of a basis': s_wrap(), 'timers and arenas': s_timer()}


def p_values(ctx, chk):
    go(chk, ctx, 'Cython binding, values', values(), ('monom', 'poly', 'integer', 'basis', 'wrap', 'timer', 'arena', 'raise'))


def p_misuse(ctx, chk):
    pr = {'object without contents: ' + c: s_null(c) for c in KINDS}
    pr.update({'arguments: ' + c: s_misuse(c) for c in ('monom', 'poly_int', 'janet_poly_int', 'const_janet', 'wrap_poly_int')})
    pr['constructors'] = s_static()
    pr.update({'use: ' + n: f for n, f in values().items()})
    go(chk, ctx, 'Cython binding, preconditions', pr, ('safety',))


def p_life(ctx, chk):
    pr = {'objects handed out': s_views(1)}
    pr.update(values())
    go(chk, ctx, 'Cython binding, lifetimes', pr, ('lifetime',))
