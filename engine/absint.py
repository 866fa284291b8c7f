"""Abstract interpreter over LLVM IR.

Abstract state = call stack + symbolic heap (regions with symbolic-offset
cells, lazily materialised) + a conjunction of linear facts + ghost values
maintained by the models of external functions.  Loops are analysed to a
fixpoint: states arriving at a loop header are partitioned by the learned
sign predicates, compared with the header states already explored (subsumption
by matching) and widened (affine induction / absorption of accumulated
terms / fact weakening).  Nothing is executed on concrete inputs."""
import itertools
import math
import re
import irparse
from fractions import Fraction
from lin import Lin, Atom, Facts, ZERO, ONE, lin, app, REBUILD, SOFT, _norm_ge as _ng, _primitive

_uid = itertools.count(1)


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o=ZERO):
        self.r, self.o = r, lin(o)

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.r == x.r and self.o == x.o

    def __hash__(self):
        return hash((self.r, self.o))

    def __repr__(self):
        return 'null' if self.r is None else '&%s[%s]' % (self.r, self.o)


NULL = Ptr(None, ZERO)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, x):
        return isinstance(x, Fn) and x.name == self.name

    def __hash__(self):
        return hash(('fn', self.name))

    def __repr__(self):
        return 'fn:' + self.name


class Top:
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __eq__(self, x):
        return isinstance(x, Top)

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'T<%s>' % self.why


class Unset(Top):
    """contents of storage that was never written, or computed from such"""
    __slots__ = ()



class Agg:
    __slots__ = ('el',)

    def __init__(self, el):
        self.el = tuple(el)

    def __eq__(self, x):
        return isinstance(x, Agg) and x.el == self.el

    def __hash__(self):
        return hash(self.el)

    def __repr__(self):
        return 'agg%r' % (self.el,)


class Lazy:
    """A not-yet-resolved value; `resolver(engine, state)` returns a list of
    refinement callables, each of which must call state.bind_lazy(id, value)."""
    __slots__ = ('id', 'resolver', 'meta')

    def __init__(self, resolver, meta=None):
        self.id = next(_uid)
        self.resolver, self.meta = resolver, meta

    def __eq__(self, x):
        return isinstance(x, Lazy) and x.id == self.id

    def __hash__(self):
        return hash(('lazy', self.id))

    def __repr__(self):
        return 'lazy#%d' % self.id


class Fork(Exception):
    def __init__(self, refinements):
        self.refinements = refinements


class Restart(Exception):
    pass


class Undecided(Exception):
    pass


class PathEnd(Exception):
    """the path is over (infeasible or cut)"""


class Region:
    __slots__ = ('rid', 'kind', 'size', 'cells', 'alive', 'tag', 'content', 'skolem', 'havoc', 'owner', 'meta', 'ro')

    def __init__(self, rid, kind, size=None, tag='', content=None, skolem=None, meta=None):
        self.rid, self.kind, self.size, self.tag = rid, kind, size, tag
        self.cells = {}
        self.alive = True
        self.content = content
        self.skolem = skolem          # (stride, [Lin index...])
        self.havoc = False
        self.owner = None
        self.meta = meta or {}
        self.ro = False

    def copy(self, owner):
        r = Region.__new__(Region)
        r.rid, r.kind, r.size, r.tag = self.rid, self.kind, self.size, self.tag
        r.cells = dict(self.cells)
        r.alive, r.content, r.skolem, r.havoc = self.alive, self.content, self.skolem, self.havoc
        r.owner = owner
        r.meta = dict(self.meta)
        r.ro = self.ro
        return r


class Frame:
    __slots__ = ('f', 'block', 'idx', 'prev', 'env', 'loops', 'callsite', 'allocas')

    def __init__(self, f, callsite):
        self.f = f
        self.block = f.entry
        self.idx = 0
        self.prev = None
        self.env = {}
        self.loops = {}
        self.callsite = callsite
        self.allocas = ()

    def copy(self):
        n = Frame.__new__(Frame)
        n.f, n.block, n.idx, n.prev = self.f, self.block, self.idx, self.prev
        n.env = dict(self.env)
        n.loops = dict(self.loops)
        n.callsite = self.callsite
        n.allocas = self.allocas
        return n


class State:
    def __init__(self):
        self.id = next(_uid)
        self.frames = []
        self.mem = {}
        self.facts = Facts()
        self.ghost = {}
        self.lazy = {}
        self.taint = ()
        self.pending = None
        self.trail = ()
        self.ret = None
        self.steps = 0
        self.base = ()
        self.widened = False
        self.last = None

    def copy(self):
        n = State.__new__(State)
        n.id = next(_uid)
        n.frames = [f for f in self.frames]
        if n.frames:
            n.frames[-1] = n.frames[-1].copy()
        n.mem = dict(self.mem)
        n.facts = self.facts.copy()
        n.ghost = dict(self.ghost)
        n.lazy = dict(self.lazy)
        n.taint = self.taint
        n.pending = self.pending
        n.trail = self.trail
        n.ret = self.ret
        n.steps = self.steps
        n.base = self.base
        n.widened = self.widened
        n.last = self.last
        return n

    # ---- memory
    def region(self, rid):
        return self.mem[rid]

    def wregion(self, rid):
        r = self.mem[rid]
        if r.owner != self.id:
            r = r.copy(self.id)
            self.mem[rid] = r
        return r

    def new_region(self, kind, size=None, tag='', rid=None, **kw):
        if rid is None:
            n = 1
            while '%s#%d' % (tag or kind, n) in self.mem:
                n += 1
            rid = '%s#%d' % (tag or kind, n)
        r = Region(rid, kind, size, tag, **kw)
        r.owner = self.id
        self.mem[rid] = r
        return r

    def deref(self, v):
        while isinstance(v, Lazy) and v.id in self.lazy:
            v = self.lazy[v.id]
        if isinstance(v, Lin):
            return self.facts.norm(v)
        if isinstance(v, Ptr) and v.o.t:
            o = self.facts.norm(v.o)
            if o is not v.o:
                return Ptr(v.r, o)
        return v

    def bind_lazy(self, lid, val):
        self.lazy[lid] = val
        return True

    def add_taint(self, why):
        if why not in self.taint:
            self.taint = self.taint + (why,)

    @property
    def fr(self):
        return self.frames[-1]


class Family:
    def __init__(self, ctx):
        self.ctx = ctx
        self.nodes = []          # list of (key, State)
        self.lineage = []
        self.s0 = {}             # loc -> value at entry
        self.count = 0
        self.gen_count = {}


class Report:
    def __init__(self, kind, msg, loc, func, trail, sure):
        self.kind, self.msg, self.loc, self.func, self.trail, self.sure = kind, msg, loc, func, trail, sure

    def key(self):
        return (self.kind, self.msg, self.loc, self.func)

    def __str__(self):
        l = '%s:%d' % self.loc if self.loc else '?'
        return '%s: [%s] %s (in %s)%s' % (l, self.kind, self.msg, self.func,
                                          '' if self.sure else ' [UNDECIDED]')


class Engine:
    def __init__(self, mod, models=None, max_steps=400000, name='', verbose=False):
        self.mod = mod
        self.models = []             # (regex, handler)
        self.model_cache = {}
        self.reports = {}
        self.learned = {}
        self.nolearn_ctx = {}
        self.reals = set()
        self.max_steps = max_steps
        self.steps = 0
        self.on_header = None
        self.skolems = set()
        self.gctr = itertools.count()
        self.name = name
        self.verbose = verbose
        self.funcs_seen = set()
        self.headers_seen = set()
        self.unknown_calls = set()
        self.checks = {'null': 0, 'bounds': 0, 'alive': 0, 'oblig': 0}
        self.max_family = 80
        self.joins = 0
        self.no_oob = False
        self.trace = False
        self.nolearn = False
        self.unroll = 0
        self.detect_cycles = False
        self.candidates = []
        self.confirm_kinds = ('out-of-bounds', 'free-size', 'null-deref', 'use-after-free', 'double-free', 'wrong-arena', 'null-free')
        if models:
            for rx, h in models:
                self.model(rx, h)

    # ------------------------------------------------------------ utilities
    def model(self, rx, handler):
        self.models.insert(0, (re.compile(rx), handler))
        self.model_cache = {}

    def gen(self, name, real=False):
        return Lin.atom(Atom('%s#%d' % (name, next(self.gctr)), 'gen', (), real))

    def sym(self, name, real=False):
        return Lin.atom(Atom(name, 'sym', (), real))

    def skolem(self, name):
        a = Atom(name, 'sym')
        self.skolems.add(a)
        SOFT.add(a)
        return Lin.atom(a)

    def cur_loc(self, st):
        if not st.frames:
            return None, ''
        fr = st.fr
        b = fr.f.blocks[fr.block]
        ins = b.ins[min(fr.idx, len(b.ins) - 1)]
        loc = self.mod.loc(ins.line) or self.mod.func_loc(fr.f)
        # prefer a location inside /repo
        if not (loc and '/repo' in self.repo_path(loc[0])):
            for f2 in reversed(st.frames[:-1]):
                b2 = f2.f.blocks[f2.block]
                l2 = self.mod.loc(b2.ins[min(f2.idx, len(b2.ins) - 1)].line)
                if l2 and '/repo' in self.repo_path(l2[0]):
                    loc = l2
                    break
        return loc, fr.f.demangled

    def repo_path(self, p):
        return p

    def report(self, st, kind, msg, sure=True):
        loc, fn = self.cur_loc(st)
        if loc:
            loc = (self.repo_path(loc[0]), loc[1])
        if sure and not st.taint and st.widened and kind in self.confirm_kinds:
            # the state may over-approximate: left to a run with a concrete size
            self.candidates.append(st.facts)
            sure = False
        r = Report(kind, msg, loc, fn, st.trail, sure and not st.taint)
        k = r.key()
        if k not in self.reports or (r.sure and not self.reports[k].sure):
            self.reports[k] = r
            if self.verbose:
                print('REPORT', r, st.taint)

    # ------------------------------------------------------- decisions
    def _loop_t(self, st, e):
        """learn a partition predicate if e relates a loop counter to a skolem index"""
        if not self.skolems or self.nolearn:
            return
        at = e.deep_atoms()
        if not (at & self.skolems):
            return
        ts = [a for a in at if a.name.startswith('t@')]
        if len(ts) != 1:
            return
        t = ts[0]
        for fr in st.frames:
            for h, fam in fr.loops.items():
                inf = self.learned.get(fam.ctx)
                if inf and inf['t'] == t:
                    e = _primitive(e)
                    if e not in inf['preds'] and -e not in inf['preds']:
                        inf['preds'].append(e)
                        raise Restart()
                    return

    def sign(self, st, e):
        e = st.facts.norm(lin(e))
        s = st.facts.sign(e)
        if s is not None:
            return s
        self._loop_t(st, e)
        refs = [lambda s_, e=e: s_.facts.add_ge(e - 1) if not _real(e) else (s_.facts.add_ge(e) and s_.facts.add_ne(e)),
                lambda s_, e=e: s_.facts.add_eq(e),
                lambda s_, e=e: s_.facts.add_ge(-e - 1) if not _real(e) else (s_.facts.add_ge(-e) and s_.facts.add_ne(e))]
        if self.nolearn:
            refs.reverse()
        raise Fork(refs)

    def is_zero(self, st, e):
        e = st.facts.norm(lin(e))
        if e.is_const():
            return e.cval() == 0
        s = st.facts.sign(e)
        if s is not None:
            return s == 0
        if st.facts.entails_ne(e):
            return False
        at = e.deep_atoms()
        if at & self.skolems and any(a.name.startswith('t@') for a in at):
            self._loop_t(st, e)
            return self.sign(st, e) == 0
        raise Fork([lambda s_, e=e: s_.facts.add_eq(e), lambda s_, e=e: s_.facts.add_ne(e)])

    def is_ge(self, st, e):
        """e >= 0 ?"""
        e = st.facts.norm(lin(e))
        if e.is_const():
            return e.cval() >= 0
        if st.facts.entails_ge(e):
            return True
        if _real(e):
            if st.facts.entails_ge(-e) and st.facts.entails_ne(e):
                return False
            raise Fork([lambda s_, e=e: s_.facts.add_ge(e), lambda s_, e=e: s_.facts.add_ge(-e) and s_.facts.add_ne(e)])
        if st.facts.entails_ge(-e - 1):
            return False
        self._loop_t(st, e)
        raise Fork([lambda s_, e=e: s_.facts.add_ge(e), lambda s_, e=e: s_.facts.add_ge(-e - 1)])

    def choose(self, st, key, refs):
        """nondeterministic choice remembered in the ghost store"""
        raise Fork(refs)

    # ---- obligations: three-valued
    def require_ge(self, st, e, kind, msg):
        self.checks['oblig'] += 1
        e = st.facts.norm(lin(e))
        if st.facts.entails_ge(e):
            return True
        # is it refuted on some valuation?  (the complement must be consistent)
        self.report(st, kind, msg + ' [needs %s >= 0]' % e, sure=True)
        return False

    def require_eq(self, st, a, b, kind, msg):
        self.checks['oblig'] += 1
        e = st.facts.norm(lin(a) - lin(b))
        if e.is_const():
            if e.cval() == 0:
                return True
        elif st.facts.entails_eq(e):
            return True
        self.report(st, kind, msg + ' [got %s, expected %s]' % (st.facts.norm(lin(a)), st.facts.norm(lin(b))))
        return False

    def require(self, st, cond, kind, msg):
        self.checks['oblig'] += 1
        if not cond:
            self.report(st, kind, msg)
        return cond

    # ------------------------------------------------------------ memory
    def force(self, st, v):
        """resolve a lazy value (may fork)"""
        v = st.deref(v)
        if isinstance(v, Lazy):
            raise Fork(v.resolver(self, st, v))
        return v

    def check_access(self, st, p, size, what):
        p = self.force(st, p)
        if isinstance(p, Top):
            self.unset(st, p, 'an access')
            st.add_taint('access through unknown pointer: ' + p.why)
            raise PathEnd()
        if isinstance(p, Lin):
            if p.is_const() and p.cval() == 0:
                p = NULL
            else:
                st.add_taint('integer used as pointer')
                raise PathEnd()
        if not isinstance(p, Ptr):
            st.add_taint('bad pointer %r' % (p,))
            raise PathEnd()
        self.checks['null'] += 1
        if p.r is None:
            self.report(st, 'null-deref', '%s through a null pointer' % what)
            raise PathEnd()
        r = st.region(p.r)
        self.checks['alive'] += 1
        if not r.alive:
            self.report(st, 'use-after-free', '%s of released memory (%s)' % (what, r.tag))
            raise PathEnd()
        if r.size is not None and not self.no_oob:
            self.checks['bounds'] += 1
            if not st.facts.entails_ge(p.o) or not st.facts.entails_ge(lin(r.size) - p.o - size):
                o = st.facts.norm(p.o)
                sz = st.facts.norm(lin(r.size))
                self.report(st, 'out-of-bounds', '%s at offset %s of a %s-byte block (%s)' % (what, o, sz, r.tag),
                            sure=self.definite_oob(st, o, sz, size))
        return p

    def definite_oob(self, st, o, sz, size):
        # definitely outside on every valuation, or outside on a consistent subset
        f = st.facts.copy()
        if f.add_ge(o + size - sz - 1):
            return True
        f = st.facts.copy()
        return f.add_ge(-o - 1)

    def find_cell(self, st, reg, off, size):
        """exact cell (or None) for a possibly symbolic offset; may fork"""
        off = st.facts.norm(off)
        c = reg.cells.get(off)
        if c is not None:
            return off, c
        for o2, c2 in list(reg.cells.items()):
            d = st.facts.norm(off - o2)
            if d.is_const():
                if d.cval() == 0:
                    return o2, c2
                continue
            # symbolic difference: aligned arrays of equal element size
            if c2[0] == size:
                if self.is_zero(st, d):
                    return o2, c2
        return off, None

    def load(self, st, p, ty):
        m = self.mod
        ty = m.resolve(ty)
        if ty[0] == 'struct':
            el = []
            for i in range(len(ty[2])):
                fo, ft = m.field_offset(ty, i)
                el.append(self.load(st, Ptr(p.r, p.o + fo), ft))
            return Agg(el)
        if ty[0] == 'array':
            es = m.size(ty[2])
            return Agg([self.load(st, Ptr(p.r, p.o + i * es), ty[2]) for i in range(ty[1])])
        size = m.size(ty)
        p = self.check_access(st, p, size, 'read')
        return self.load_scalar(st, p, size, ty)

    def load_scalar(self, st, p, size, ty=None):
        reg = st.region(p.r)
        if reg.skolem:
            stride, idxs = reg.skolem
            for k in idxs:
                self.sign(st, p.o - k * stride)
        off, c = self.find_cell(st, reg, p.o, size)
        if c is not None:
            if c[0] != size:
                v = c[1]
                if isinstance(v, Lin) and v.is_const() and size < c[0]:
                    return Lin.const(_wrap_s(int(v.cval()), size * 8))
                if isinstance(v, Lin) and size < c[0]:
                    return v
                # two adjacent i32 read as one i64
                return Top('partial read of a %d-byte value as %d bytes' % (c[0], size))
            return st.deref(c[1])
        if reg.skolem and reg.havoc:
            stride, idxs = reg.skolem
            if not any(self.is_zero(st, off - k * stride) for k in idxs):
                return self.gen('h')
        if reg.content is not None:
            v = reg.content(self, st, reg, off, size, ty)
            if v is not None:
                return v
        if reg.havoc and not reg.skolem:
            return self.gen('h')
        why = 'uninitialised %s+%s' % (reg.tag or reg.rid, off)
        if reg.kind in ('alloca', 'heap', 'arena') and reg.content is None and not reg.skolem and not reg.havoc \
                and not reg.meta.get('lost') and not reg.meta.get('zeroed') and not self.overlaps(st, reg, off, size):
            return Unset(why)
        return Top(why)

    def overlaps(self, st, reg, off, size):
        for o2, c2 in reg.cells.items():
            d = st.facts.norm(off - o2)
            if not d.is_const() or -size < d.cval() < c2[0]:
                return True
        return False

    def unset(self, st, v, what):
        if isinstance(v, Unset):
            self.report(st, 'uninitialised', '%s depends on storage that was never written (%s)' % (what, v.why), sure=not st.widened)

    def store(self, st, p, v, ty):
        m = self.mod
        ty = m.resolve(ty)
        if ty[0] == 'struct':
            if isinstance(v, Agg):
                for i in range(len(ty[2])):
                    fo, ft = m.field_offset(ty, i)
                    self.store(st, Ptr(p.r, p.o + fo), v.el[i], ft)
                return
        size = m.size(ty)
        p = self.check_access(st, p, size, 'write')
        self.store_scalar(st, p, v, size)

    def store_scalar(self, st, p, v, size):
        reg = st.region(p.r)
        off = st.facts.norm(p.o)
        if reg.ro:
            self.report(st, 'readonly', 'write to an object that must not be modified (%s)' % reg.tag)
        if reg.skolem and not off.is_const() or reg.skolem:
            stride, idxs = reg.skolem
            for k in idxs:
                self.sign(st, off - k * stride)
        off, c = self.find_cell(st, reg, off, size)
        w = st.wregion(p.r)
        if c is None or c[0] != size:
            # overlapping partial cells with constant offsets
            for o2 in list(w.cells):
                d = st.facts.norm(off - o2)
                if d.is_const() and -size < d.cval() < w.cells[o2][0] and o2 != off:
                    del w.cells[o2]
        w.cells[off] = (size, v)
        if 'on_store' in w.meta:
            w.meta['on_store'](self, st, p, v, size)

    def memcpy(self, st, dst, src, n):
        dst = self.force(st, dst)
        src = self.force(st, src)
        n = st.deref(n)
        if isinstance(n, Lin) and n.is_const():
            n = int(n.cval())
            if n == 0:
                return
            self.check_access(st, dst, n, 'write')
            self.check_access(st, src, n, 'read')
            sreg = st.region(src.r)
            moved = []
            for o2, (sz, v) in sreg.cells.items():
                d = st.facts.norm(o2 - src.o)
                if d.is_const() and 0 <= d.cval() < n:
                    moved.append((d, sz, v))
            covered = sum(sz for _, sz, _ in moved)
            if covered < n and sreg.content is not None and 'layout' in sreg.meta:
                have = {int(d.cval()) for d, _, _ in moved}
                for fo, sz, ft in sreg.meta['layout']:
                    rel = fo - int(src.o.cval()) if src.o.is_const() else None
                    if rel is not None and 0 <= rel < n and rel not in have:
                        moved.append((Lin.const(rel), sz, self.load_scalar(st, Ptr(src.r, src.o + rel), sz, ft)))
            if sum(sz for _, sz, _ in moved) < n and (sreg.content is not None or sreg.havoc):
                st.add_taint('block copy of unmodelled contents')
            w = st.wregion(dst.r)
            for o2 in list(w.cells):
                d = st.facts.norm(o2 - dst.o)
                if d.is_const() and 0 <= d.cval() < n:
                    del w.cells[o2]
            for d, sz, v in moved:
                w.cells[st.facts.norm(dst.o + d)] = (sz, v)
            return
        # symbolic length: meaningful for skolemised element arrays
        dreg, sreg = st.region(dst.r), st.region(src.r)
        sk = dreg.skolem or sreg.skolem
        if sk is None:
            w = st.wregion(dst.r)
            w.cells = {}
            w.meta['lost'] = True
            w.havoc = True
            w.content = None
            st.add_taint('memcpy of symbolic length')
            return
        stride, idxs = sk
        if dreg.size is not None:
            self.require_ge(st, lin(dreg.size) - dst.o - n, 'out-of-bounds', 'block copy overruns the destination')
        if sreg.size is not None:
            self.require_ge(st, lin(sreg.size) - src.o - n, 'out-of-bounds', 'block copy overruns the source')
        vals = []
        for k in idxs:
            rel = k * stride - dst.o
            if self.is_ge(st, rel) and self.is_ge(st, n - rel - 1):
                vals.append((k * stride, self.load_scalar(st, Ptr(src.r, src.o + rel), stride)))
        w = st.wregion(dst.r)
        w.havoc = True
        for o, v in vals:
            w.cells[st.facts.norm(o)] = (stride, v)

    def memset(self, st, dst, val, n):
        dst = self.force(st, dst)
        n = st.deref(n)
        if isinstance(n, Lin) and n.is_const():
            n = int(n.cval())
            self.check_access(st, dst, n, 'write')
            w = st.wregion(dst.r)
            for o2 in list(w.cells):
                d = st.facts.norm(o2 - dst.o)
                if d.is_const() and 0 <= d.cval() < n:
                    sz, _ = w.cells[o2]
                    w.cells[o2] = (sz, ZERO if val == ZERO else Top('memset'))
            w.meta['zeroed'] = True
            old = w.content

            def content(eng, s, reg, off, size, ty, lo=dst.o, n=n, old=old):
                d = s.facts.norm(off - lo)
                if d.is_const() and 0 <= d.cval() < n:
                    return NULL if ty and ty[0] == 'ptr' else ZERO
                return old(eng, s, reg, off, size, ty) if old else None
            w.content = content
            return
        reg = st.region(dst.r)
        if reg.skolem is None:
            st.add_taint('memset of symbolic length')
            return
        stride, idxs = reg.skolem
        if reg.size is not None:
            self.require_ge(st, lin(reg.size) - dst.o - n, 'out-of-bounds', 'block fill overruns the destination')
        hit = []
        for k in idxs:
            rel = k * stride - dst.o
            if self.is_ge(st, rel) and self.is_ge(st, n - rel - 1):
                hit.append(k * stride)
        w = st.wregion(dst.r)
        w.havoc = True
        for o in hit:
            w.cells[st.facts.norm(o)] = (stride, ZERO if val == ZERO else Top('memset'))

    # ------------------------------------------------------- operand eval
    def ev(self, st, v, ty):
        k = v[0]
        if k == 'loc':
            try:
                return st.deref(st.fr.env[v[1]])
            except KeyError:
                raise Undecided('undefined SSA value %s in %s' % (v[1], st.fr.f.demangled))
        if k == 'int':
            return Lin.const(v[1])
        if k == 'null':
            return NULL
        if k == 'fp':
            return Lin.const(v[1])
        if k == 'undef':
            return Top('undef')
        if k == 'zero':
            t = self.mod.resolve(ty)
            return self.zero_of(t)
        if k == 'glob':
            n = self.mod.aliases.get(v[1], v[1])
            if n in self.mod.functions or n in self.mod.declares:
                return Fn(n)
            return self.global_ptr(st, n)
        if k == 'agg':
            return Agg([self.ev(st, x, t) for t, x in v[1]])
        if k == 'cexpr':
            if v[1] == 'getelementptr':
                return self.gep(st, v[2], [(t, self.ev(st, x, t)) for t, x in v[3]])
            if v[1] in ('bitcast', 'ptrtoint', 'inttoptr'):
                return self.ev(st, v[3][0][1], v[3][0][0])
            return Top('constant expression')
        if k == 'str':
            return Top('string')
        raise Undecided('operand %r' % (v,))

    def zero_of(self, t):
        if t[0] == 'ptr':
            return NULL
        if t[0] == 'struct':
            return Agg([self.zero_of(self.mod.resolve(e)) for e in t[2]])
        if t[0] == 'array':
            return Agg([self.zero_of(self.mod.resolve(t[2])) for _ in range(t[1])])
        return ZERO

    def global_ptr(self, st, n):
        rid = '@' + n
        if rid not in st.mem:
            r = st.new_region('global', None, tag=self.mod.demangle(n), rid=rid)
            r.content = global_content
        return Ptr(rid, ZERO)

    def gep(self, st, bt, args):
        base = st.deref(args[0][1])
        off = ZERO
        ty = bt
        first = True
        for t, v in args[1:]:
            v = st.deref(v)
            if first:
                if not isinstance(v, Lin):
                    return Top('gep index %r' % (v,))
                off = off + v * self.mod.size(ty)
                first = False
                continue
            rt = self.mod.resolve(ty)
            if rt[0] == 'struct':
                fo, ty = self.mod.field_offset(rt, int(v.cval()))
                off = off + fo
            else:
                if not isinstance(v, Lin):
                    return Top('gep index %r' % (v,))
                ty = rt[2]
                off = off + v * self.mod.size(ty)
        if isinstance(base, Ptr):
            return Ptr(base.r, st.facts.norm(base.o + off))
        if isinstance(base, Lazy):
            if off == ZERO:
                return base
            base = self.force(st, base)
            return Ptr(base.r, st.facts.norm(base.o + off))
        return base if isinstance(base, Top) else Top('gep base %r' % (base,))

    # -------------------------------------------------------------- running
    def start(self, st, fname, args):
        f = self.mod.get(fname) if isinstance(fname, str) else fname
        fr = Frame(f, 'root')
        for (n, ty), v in zip(f.params, args):
            fr.env[n] = v
        st.frames = [fr]
        return st

    def run(self, st):
        """explore to the end; returns the list of final states (st.ret set)"""
        try:
            return self._run(st)
        except Restart:
            raise

    def explore(self, make):
        """make() builds the initial state(s); restarts on learned predicates"""
        for attempt in range(40):
            self.reports = {}
            self.gctr = itertools.count()
            try:
                finals = []
                inits = make()
                for st in inits if isinstance(inits, list) else [inits]:
                    st.base = tuple(st.facts.all())
                    finals += self._run(st)
                return finals
            except Restart:
                if self.trace:
                    print('RESTART', self.learned)
                continue
        raise Undecided('too many restarts')

    def _run(self, st0):
        work = [st0]
        finals = []
        self.steps = 0
        while work:
            st = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Undecided('step budget exhausted')
                s = st.copy()
                try:
                    done = self.step(s)
                except Fork as fk:
                    for ref in reversed(fk.refinements):
                        n = st.copy()
                        try:
                            ok = ref(n)
                        except PathEnd:
                            ok = False
                        if ok is not False and n.facts.consistent():
                            work.append(n)
                    break
                except PathEnd:
                    if s.taint and s.taint != st.taint:
                        self.report(s, 'undecided', s.taint[-1], sure=False)
                    break
                if done == 'final':
                    finals.append(s)
                    break
                st = s
        return finals

    def step(self, st):
        if st.pending is not None:
            self.arrive(st)
            return
        fr = st.fr
        blk = fr.f.blocks[fr.block]
        ins = blk.ins[fr.idx]
        op = ins.op
        h = getattr(self, 'op_' + op, None)
        if h is None:
            if op in ARITH:
                x = self.ev(st, ins.a[0], ins.ty)
                y = self.ev(st, ins.a[1], ins.ty)
                fr.env[ins.res] = self.arith(st, op, x, y, ins.ty)
                fr.idx += 1
                return
            raise Undecided('instruction ' + op)
        return h(st, fr, ins)

    def goto(self, st, fr, target):
        # leaving loops
        f = fr.f
        for h in list(fr.loops):
            if target not in f.loop_body[h]:
                del fr.loops[h]
        prev = fr.block
        blk = f.blocks[target]
        if blk.phis:
            vals = []
            for p in blk.phis:
                for v, pb in p.a:
                    if pb == prev or (pb.lstrip('%').isdigit() and prev == '%__entry__'):
                        vals.append((p.res, self.ev(st, v, p.ty)))
                        break
            for n, v in vals:
                fr.env[n] = v
        fr.prev = prev
        fr.block = target
        fr.idx = 0
        if target in f.headers:
            st.pending = target

    def op_br(self, st, fr, ins):
        if ins.a[0] is None:
            self.goto(st, fr, ins.a[1])
            return
        c = self.ev(st, ins.a[0], ('int', 1))
        b = self.truth(st, c)
        self.goto(st, fr, ins.a[1] if b else ins.a[2])

    def truth(self, st, c):
        c = self.force(st, c)
        if isinstance(c, Lin):
            return not self.is_zero(st, c)
        if isinstance(c, Ptr):
            return c.r is not None
        if isinstance(c, Top):
            self.unset(st, c, 'a branch')
            why = 'branch on unknown value: ' + c.why
            n = next(_uid)

            def yes(s):
                s.add_taint(why)
                self._settle(s, c, ONE)

            def no(s):
                s.add_taint(why)
                self._settle(s, c, ZERO)
            raise Fork([yes, no])
        raise Undecided('branch on %r' % (c,))

    def _settle(self, s, c, val):
        for k, v in s.fr.env.items():
            if v is c:
                s.fr.env[k] = val

    def op_switch(self, st, fr, ins):
        v = self.force(st, self.ev(st, ins.a[0], ins.ty))
        if isinstance(v, Top):
            st.add_taint('switch on unknown value')
            raise PathEnd()
        w = ins.ty[1]
        for cv, tgt in ins.a[2]:
            if self.is_zero(st, v - cv):
                self.goto(st, fr, tgt)
                return
        self.goto(st, fr, ins.a[1])

    def op_unreachable(self, st, fr, ins):
        raise PathEnd()

    def op_unsupported(self, st, fr, ins):
        raise Undecided('unsupported instruction: ' + ins.txt)

    def op_landingpad(self, st, fr, ins):
        raise PathEnd()

    def op_alloca(self, st, fr, ins):
        n = ONE if ins.a[0] is None else self.ev(st, ins.a[0], ('int', 64))
        sz = n * self.mod.size(ins.ty)
        rid = '%s:%s/%d' % (fr.f.name[:60], ins.res, len(st.frames))
        if rid in st.mem:
            # re-entered: fresh storage
            rid = rid + '#%d' % next(_uid)
        r = st.new_region('alloca', sz, tag=ins.res, rid=rid)
        fr.allocas = fr.allocas + (rid,)
        fr.env[ins.res] = Ptr(rid, ZERO)
        fr.idx += 1

    def op_load(self, st, fr, ins):
        p = self.ev(st, ins.a[0], ('ptr',))
        p = self.force(st, p)
        if isinstance(p, Top):
            self.unset(st, p, 'a read')
            st.add_taint('read through unknown pointer: ' + p.why)
            fr.env[ins.res] = Top('read through unknown pointer')
        else:
            if isinstance(p, Fn):
                v = Top('function bytes')
            else:
                v = self.load(st, p, ins.ty)
            fr.env[ins.res] = v
        fr.idx += 1

    def op_store(self, st, fr, ins):
        v = self.ev(st, ins.a[0], ins.ty)
        p = self.force(st, self.ev(st, ins.a[1], ('ptr',)))
        if isinstance(p, Top):
            self.unset(st, p, 'a write')
            st.add_taint('write through unknown pointer: ' + p.why)
        else:
            self.store(st, p, v, ins.ty)
        fr.idx += 1

    def op_gep(self, st, fr, ins):
        bt, args = ins.a
        fr.env[ins.res] = self.gep(st, bt, [(t, self.ev(st, v, t)) for t, v in args])
        fr.idx += 1

    def op_fneg(self, st, fr, ins):
        x = self.ev(st, ins.a[0], ins.ty)
        fr.env[ins.res] = -x if isinstance(x, Lin) else Top('fneg')
        fr.idx += 1

    def cast(self, st, fr, ins, op):
        x = self.ev(st, ins.a[0], ins.a[1])
        if isinstance(x, Lin):
            sb = ins.a[1][1] if ins.a[1][0] == 'int' else None
            if op == 'zext' and sb == 1 and x.is_const():
                x = Lin.const(int(x.cval()) & 1)
            elif op == 'sext' and sb == 1 and x.is_const():
                x = Lin.const(-(int(x.cval()) & 1))
            elif op == 'trunc' and x.is_const() and ins.ty[0] == 'int':
                if ins.ty[1] == 1:
                    x = Lin.const(int(x.cval()) & 1)
                else:
                    x = Lin.const(_wrap_s(int(x.cval()), ins.ty[1]))
            elif op in ('trunc',) and ins.ty == ('int', 1):
                x = ONE if not self.is_zero(st, x) else ZERO
            elif op in ('fptosi', 'fptoui'):
                x = app('toint', x) if not x.is_const() else Lin.const(int(x.cval()))
            elif op == 'inttoptr':
                x = NULL if x == ZERO else Top('inttoptr')
            elif op == 'zext' and x.is_const() and x.cval() < 0 and sb:
                x = Lin.const(int(x.cval()) & ((1 << sb) - 1))
        elif isinstance(x, Ptr) and op == 'ptrtoint' and x.r is None:
            x = x.o
        fr.env[ins.res] = x
        fr.idx += 1

    def op_sext(self, st, fr, ins): self.cast(st, fr, ins, 'sext')
    def op_zext(self, st, fr, ins): self.cast(st, fr, ins, 'zext')
    def op_trunc(self, st, fr, ins): self.cast(st, fr, ins, 'trunc')
    def op_bitcast(self, st, fr, ins): self.cast(st, fr, ins, 'bitcast')
    def op_ptrtoint(self, st, fr, ins): self.cast(st, fr, ins, 'ptrtoint')
    def op_inttoptr(self, st, fr, ins): self.cast(st, fr, ins, 'inttoptr')
    def op_sitofp(self, st, fr, ins): self.cast(st, fr, ins, 'sitofp')
    def op_uitofp(self, st, fr, ins): self.cast(st, fr, ins, 'uitofp')
    def op_fptosi(self, st, fr, ins): self.cast(st, fr, ins, 'fptosi')
    def op_fptoui(self, st, fr, ins): self.cast(st, fr, ins, 'fptoui')
    def op_fpext(self, st, fr, ins): self.cast(st, fr, ins, 'fpext')
    def op_fptrunc(self, st, fr, ins): self.cast(st, fr, ins, 'fptrunc')

    def op_freeze(self, st, fr, ins):
        fr.env[ins.res] = self.ev(st, ins.a[0], ins.ty)
        fr.idx += 1

    def op_extractvalue(self, st, fr, ins):
        v = self.ev(st, ins.a[0], ins.ty)
        for i in ins.a[1]:
            v = v.el[i] if isinstance(v, Agg) else Top('extractvalue')
        fr.env[ins.res] = st.deref(v)
        fr.idx += 1

    def op_insertvalue(self, st, fr, ins):
        v = self.ev(st, ins.a[0], ins.ty)
        e = self.ev(st, ins.a[1], None) if ins.a[1][0] != 'zero' else ZERO
        t = self.mod.resolve(ins.ty)
        if not isinstance(v, Agg):
            v = Agg([Top('undef')] * (len(t[2]) if t[0] == 'struct' else t[1]))
        i = ins.a[2][0]
        el = list(v.el)
        if len(ins.a[2]) == 1:
            el[i] = e
        else:
            el[i] = Top('nested insertvalue')
        fr.env[ins.res] = Agg(el)
        fr.idx += 1

    def op_select(self, st, fr, ins):
        c = self.ev(st, ins.a[0], ('int', 1))
        b = self.truth(st, c)
        fr.env[ins.res] = self.ev(st, ins.a[1] if b else ins.a[2], ins.ty)
        fr.idx += 1

    def op_fcmp(self, st, fr, ins):
        pred, x, y = ins.a
        x, y = self.ev(st, x, ins.ty), self.ev(st, y, ins.ty)
        if not (isinstance(x, Lin) and isinstance(y, Lin)):
            fr.env[ins.res] = Top('fcmp')
        else:
            fr.env[ins.res] = Lin.const(int(self.cmp_lin(st, pred[1:], whole(x - y))))
        fr.idx += 1

    def cmp_lin(self, st, pred, d):
        if pred == 'eq':
            return self.is_zero(st, d)
        if pred in ('ne',):
            return not self.is_zero(st, d)
        p = pred[-2:]
        one = 0 if _real(d) else 1
        if p == 'lt':
            if _real(d):
                return not self.is_ge(st, d)
            return self.is_ge(st, -d - 1)
        if p == 'le':
            return self.is_ge(st, -d)
        if p == 'gt':
            if _real(d):
                return not self.is_ge(st, -d)
            return self.is_ge(st, d - 1)
        if p == 'ge':
            return self.is_ge(st, d)
        raise Undecided('predicate ' + pred)

    def op_icmp(self, st, fr, ins):
        pred, x, y = ins.a
        x, y = self.ev(st, x, ins.ty), self.ev(st, y, ins.ty)
        fr.env[ins.res] = self.icmp(st, pred, x, y, ins.ty)
        fr.idx += 1

    def icmp(self, st, pred, x, y, ty):
        if isinstance(x, Lazy) and isinstance(y, Lazy) and x == y and pred in ('eq', 'ne'):
            return Lin.const(int(pred == 'eq'))
        x, y = self.force(st, x), self.force(st, y)
        if isinstance(x, Top) or isinstance(y, Top):
            return (Unset if isinstance(x, Unset) or isinstance(y, Unset) else Top)('comparison of ' + (x.why if isinstance(x, Top) else y.why))
        if isinstance(x, Lin) and isinstance(y, Lin):
            return Lin.const(int(self.cmp_lin(st, pred, x - y)))
        if isinstance(x, Fn) or isinstance(y, Fn):
            if pred in ('eq', 'ne'):
                return Lin.const(int((x == y) == (pred == 'eq')))
            return Top('function pointer order')
        if isinstance(x, Lin) and x == ZERO:
            x = NULL
        if isinstance(y, Lin) and y == ZERO:
            y = NULL
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.r == y.r:
                return Lin.const(int(self.cmp_lin(st, pred, x.o - y.o)))
            if pred == 'eq':
                return ZERO
            if pred == 'ne':
                return ONE
            return Top('order of unrelated pointers')
        return Top('comparison of %r and %r' % (x, y))

    def arith(self, st, op, x, y, ty):
        if isinstance(x, Ptr) and isinstance(y, Ptr) and op == 'sub':
            if x.r == y.r:
                return x.o - y.o
            return Top('difference of unrelated pointers')
        if isinstance(x, Ptr) and isinstance(y, Lin) and op in ('add', 'sub') and x.r is not None:
            return Ptr(x.r, x.o + (y if op == 'add' else -y))
        if isinstance(x, Top) or isinstance(y, Top):
            # 0-absorbing cases are rare; stay unknown
            return (Unset if isinstance(x, Unset) or isinstance(y, Unset) else Top)('arithmetic on ' + (x.why if isinstance(x, Top) else y.why))
        if not (isinstance(x, Lin) and isinstance(y, Lin)):
            return Top('arithmetic on %r, %r' % (x, y))
        if op in ('add', 'fadd'):
            return x + y
        if op in ('sub', 'fsub'):
            return x - y
        if op in ('mul', 'fmul'):
            return x * y
        if x.is_const() and y.is_const() and op not in ('fdiv',):
            a, b = int(x.cval()), int(y.cval())
            w = ty[1] if ty[0] == 'int' else 64
            if op in ('sdiv', 'udiv'):
                if b == 0:
                    self.report(st, 'div-by-zero', 'division by zero')
                    raise PathEnd()
                q = abs(a) // abs(b)
                return Lin.const(q if (a < 0) == (b < 0) else -q)
            if op in ('srem', 'urem'):
                if b == 0:
                    raise PathEnd()
                r = abs(a) % abs(b)
                return Lin.const(r if a >= 0 else -r)
            if op == 'shl':
                return Lin.const(_wrap_s(a << b, w) if w < 64 else a << b)
            if op in ('lshr', 'ashr'):
                return Lin.const((a if op == 'ashr' else a & ((1 << w) - 1)) >> b)
            if op == 'and':
                return Lin.const(_wrap_s(a & b, w) if w > 1 else a & b)
            if op == 'or':
                return Lin.const(_wrap_s(a | b, w) if w > 1 else (a | b) & 1)
            if op == 'xor':
                return Lin.const(_wrap_s(a ^ b, w) if w > 1 else (a ^ b) & 1)
        if op in ('and', 'or', 'xor') and ty == ('int', 1):
            bx, by = self.truth(st, x), self.truth(st, y)
            r = (bx and by) if op == 'and' else (bx or by) if op == 'or' else (bx != by)
            return Lin.const(int(r))
        if op == 'fdiv':
            if y.is_const() and y.cval() != 0:
                return x * (Fraction(1) / y.cval())
            a = y.single()
            if a is not None or True:
                inv = app('inv', y, real=True)
                return x * inv
        if op in ('shl',) and y.is_const():
            return x * (1 << int(y.cval()))
        if op in ('lshr', 'ashr') and y.is_const():
            return self.floordiv(st, x, 1 << int(y.cval()))
        if op in ('udiv', 'sdiv'):
            if y.is_const() and y.cval() > 0:
                return self.floordiv(st, x, int(y.cval()))
            return app('fdiv', x, y)
        if op in ('urem', 'srem'):
            if y.is_const() and y.cval() > 0:
                return x - self.floordiv(st, x, int(y.cval())) * int(y.cval())
            return x - app('fdiv', x, y) * y
        if op == 'and' and y.is_const():
            m = int(y.cval())
            if m < 0 and ((-m) & (-m - 1)) == 0:          # ~(2^k-1)
                return self.floordiv(st, x, -m) * (-m)
            if m >= 0 and (m & (m + 1)) == 0:
                return x - self.floordiv(st, x, m + 1) * (m + 1)
        if op == 'xor' and y.is_const() and y.cval() == -1:
            return -x - 1
        return app(op, x, y)

    def floordiv(self, st, x, k):
        """floor(x/k) (x assumed non-negative where signedness would matter)"""
        if k == 1:
            return x
        x = st.facts.norm(x)
        # pull out the multiples of k
        q, r = {}, {}
        for m, c in x.t.items():
            if m and isinstance(c, int) and c % k == 0:
                q[m] = c // k
            elif not m and isinstance(c, int):
                d, e = divmod(c, k)
                if d:
                    q[m] = d
                if e:
                    r[m] = e
            else:
                r[m] = c
        q, r = Lin(q), Lin(r)
        if r.is_const():
            return q
        return q + app('fdiv', r, Lin.const(k))

    def op_ret(self, st, fr, ins):
        v = None if ins.a[0] is None else self.ev(st, ins.a[0], ins.ty)
        return self.do_return(st, v)

    def do_return(self, st, v):
        fr = st.frames.pop()
        for rid in fr.allocas:
            if rid in st.mem:
                r = st.wregion(rid)
                r.alive = False
                r.tag = 'dead local ' + r.tag
        if not st.frames:
            st.ret = v
            return 'final'
        st.frames[-1] = st.frames[-1].copy()
        up = st.frames[-1]
        self.finish_call(st, up, v)

    def finish_call(self, st, up, v):
        ins = up.f.blocks[up.block].ins[up.idx]
        if ins.res:
            up.env[ins.res] = v if v is not None else Top('void')
        if ins.op == 'invoke':
            self.goto(st, up, ins.a[2])
        else:
            up.idx += 1

    def op_invoke(self, st, fr, ins):
        return self.op_call(st, fr, ins)

    def op_call(self, st, fr, ins):
        callee, args = ins.a[0], ins.a[1]
        cv = self.ev(st, callee, ('ptr',)) if callee[0] != 'str' else Top('asm')
        cv = self.force(st, cv)
        if isinstance(cv, Top) or not isinstance(cv, Fn):
            if callee[0] == 'loc':
                st.add_taint('call through unknown pointer')
                raise PathEnd()
            raise Undecided('call of %r' % (cv,))
        vals = [self.ev(st, v, t) if t[0] != 'metadata' else None for t, v in args]
        return self.call(st, fr, ins, cv.name, vals)

    def call(self, st, fr, ins, name, vals):
        name = self.mod.aliases.get(name, name)
        if name.startswith('llvm.'):
            self.intrinsic(st, fr, ins, name, vals)
            return
        h = self.model_cache.get(name, 0)
        if h == 0:
            dem = self.mod.demangle(name)
            h = None
            for rx, hh in self.models:
                if rx.search(dem):
                    h = hh
                    break
            self.model_cache[name] = h
        if h is not None:
            r = h(self, st, vals, ins)
            if r is not NotImplemented:
                if isinstance(r, EnterCall):
                    return self.enter(st, r.f, r.args)
                self.finish_call(st, st.fr, r)
                return
        f = self.mod.functions.get(name)
        if f is None:
            return self.unknown_call(st, fr, ins, name, vals)
        return self.enter(st, f, vals)

    def enter(self, st, f, vals):
        if len(st.frames) > 60:
            raise Undecided('call depth (recursion) in ' + f.demangled)
        self.funcs_seen.add(f.name)
        if not f.name.startswith('sc_'):
            st.last = f.name
        caller = st.fr
        fr = Frame(f, (caller.f.name, caller.block, caller.idx))
        for (n, ty), v in zip(f.params, vals):
            fr.env[n] = v
        st.frames.append(fr)

    def unknown_call(self, st, fr, ins, name, vals):
        dem = self.mod.demangle(name)
        self.unknown_calls.add(dem)
        st.add_taint('call of unmodelled ' + dem)
        self.finish_call(st, st.fr, Top('result of ' + dem))

    def intrinsic(self, st, fr, ins, name, vals):
        r = None
        if name.startswith('llvm.lifetime.start') or name.startswith('llvm.lifetime.end'):
            p = st.deref(vals[1])
            if isinstance(p, Ptr) and p.r in st.mem:
                w = st.wregion(p.r)
                w.cells = {}
                w.meta['lost'] = True
                w.content = None
        elif name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(st, vals[0], vals[1], vals[2])
        elif name.startswith('llvm.memset'):
            self.memset(st, vals[0], vals[1], vals[2])
        elif name.startswith('llvm.abs'):
            x = vals[0]
            r = (x if self.is_ge(st, x) else -x) if isinstance(x, Lin) else Top('abs')
        elif re.match(r'llvm\.(s|u)(max|min)', name):
            x, y = vals
            if isinstance(x, Lin) and isinstance(y, Lin):
                ge = self.is_ge(st, x - y)
                r = (x if ge else y) if 'max' in name else (y if ge else x)
            else:
                r = Top('minmax')
        elif name.startswith('llvm.umul.with.overflow') or name.startswith('llvm.smul.with.overflow'):
            r = Agg([vals[0] * vals[1], ZERO])
        elif re.match(r'llvm\.[us](add|sub)\.with\.overflow', name):
            r = Agg([vals[0] + vals[1] if 'add' in name else vals[0] - vals[1], ZERO])
        elif name.startswith('llvm.fmuladd') or name.startswith('llvm.fma.'):
            r = vals[0] * vals[1] + vals[2] if all(isinstance(v, Lin) for v in vals) else Top('fma')
        elif name.startswith('llvm.expect'):
            r = vals[0]
        elif name.startswith('llvm.assume') or name.startswith('llvm.dbg') or name.startswith('llvm.trap'):
            pass
        elif name.startswith('llvm.is.constant'):
            r = ZERO
        elif name.startswith('llvm.stacksave') or name.startswith('llvm.invariant.start'):
            r = NULL
        elif name.startswith('llvm.stackrestore'):
            pass
        elif name.startswith('llvm.fabs') and isinstance(vals[0], Lin):
            r = app('fabs', vals[0], real=True)
        else:
            st.add_taint('intrinsic ' + name)
            r = Top(name)
        self.finish_call(st, st.fr, r)

    # ------------------------------------------------------------- loops
    def ctx(self, st, h):
        return tuple(f.callsite for f in st.frames) + (st.fr.f.name, h)

    def arrive(self, st):
        fr = st.fr
        h = st.pending
        if isinstance(h, tuple):
            return self.arrive2(st, h[1], h[2])
        self.headers_seen.add((fr.f.name, h))
        self.gc_env(st, h)
        fam = fr.loops.get(h)
        if self.on_header is not None:
            r = self.on_header(self, st, fr, h, fam is None)
            if r == 'cut':
                raise PathEnd()
            if r == 'pass':
                # the hook takes responsibility for termination of this loop
                if fam is None:
                    fr.loops[h] = Family(self.ctx(st, h))
                st.pending = None
                return
        first = fam is None
        if first:
            fam = Family(self.ctx(st, h))
            fr.loops[h] = fam
        if self.unroll:
            n = st.ghost.get(('unroll', fam.ctx), 0)
            n = 0 if first else n + 1
            if n > self.unroll:
                raise Undecided('loop at %s in %s exceeds the unrolling bound' % (h, fr.f.demangled))
            st.ghost[('unroll', fam.ctx)] = n
            if self.detect_cycles and n >= 8 and n % 4 == 0:
                snap = self.snapshot(st)
                k = ('snap', fam.ctx)
                if st.ghost.get(k) == snap:
                    self.report(st, 'no-progress', 'the loop returns to the same state and never ends')
                    raise PathEnd()
                if n % 8 == 0:
                    st.ghost[k] = snap
            st.pending = None
            return
        inf = self.learned.get(fam.ctx)
        if inf:
            self.canonicalise(st, fam, inf, first)
        st.pending = ('canon', h, first)

    def snapshot(self, st):
        def cv(v):
            v = st.deref(v)
            return (type(v).__name__, v.why) if isinstance(v, Top) else v
        out = []
        for f in st.frames:
            out.append((f.f.name, f.block, f.idx, tuple(sorted((k, repr(cv(v))) for k, v in f.env.items()))))
        for rid, r in st.mem.items():
            out.append((rid, r.alive, tuple(sorted((repr(st.facts.norm(o)), repr(cv(c[1]))) for o, c in r.cells.items()))))
        out.append(tuple(sorted(repr(x) for x in st.facts.all())))
        return tuple(out)

    def canonicalise(self, st, fam, inf, first):
        """express the affine locations of the loop through its counter symbol"""
        t, affs = inf['t'], inf['affs']
        T = Lin.atom(t)

        def ban(loc):
            inf['banned'].add(loc)
            affs.pop(loc, None)
            if inf['loc'] == loc or inf['loc'] not in affs:
                env = [l for l in affs if l[0] == 'env'] or list(affs)
                if env:
                    inf['loc'] = env[0]
                    inf['preds'] = []
                else:
                    del self.learned[fam.ctx]
                    self.nolearn_ctx[fam.ctx] = inf['banned']
            raise Restart()
        vals = {}
        for loc in list(affs):
            try:
                vals[loc] = self.get_loc(st, loc)
            except (KeyError, IndexError):
                ban(loc)
            if not isinstance(vals[loc], (Lin, Ptr)):
                ban(loc)
        if first:
            # a stale occurrence of the counter (previous run of this loop) is renamed
            if t in self.live_atoms(st) or t in st.facts.sub or any(t in g.deep_atoms() for g in st.facts.ge + st.facts.ne):
                self.rename(st, {t: self.gen('t0')})
                vals = {loc: self.get_loc(st, loc) for loc in affs}
            fam.s0 = dict(vals)
            tau = ZERO
        else:
            loc0 = inf['loc']
            d = _vdiff(vals[loc0], fam.s0[loc0])
            if d is None:
                ban(loc0)
            tau = st.facts.norm(_intify(d * (Fraction(1) / affs[loc0])))
            if any(isinstance(c, Fraction) for c in tau.t.values()):
                ban(loc0)
            for loc, c in list(affs.items()):
                d = _vdiff(vals[loc], fam.s0[loc])
                if d is None or st.facts.norm(d - tau * c) != ZERO:
                    ban(loc)
        delta = tau - T
        if not first and delta.is_const():
            if delta != ZERO:
                self.rename(st, {t: T - delta})
        else:
            # materialise all values under the current substitution, then free the symbol
            self.rename(st, {})
            tau = st.facts.norm(tau)
            st.facts.sub = {a: v for a, v in st.facts.sub.items() if a != t}
            st.facts._cache = {}
            st.facts.add_ge(T - tau)
            st.facts.add_ge(tau - T)
        st.facts.add_ge(T)
        for loc, c in affs.items():
            self._set_loc(st, loc, None, self._off(fam.s0[loc]) + T * c)

    def _off(self, v):
        return v.o if isinstance(v, Ptr) else v

    def rename(self, st, mp):
        """apply a substitution of atoms to the whole state"""
        nf = st.facts

        def cv(v):
            v = st.deref(v)
            if isinstance(v, Lin):
                return v.subst(mp) if mp else v
            if isinstance(v, Ptr):
                return Ptr(v.r, v.o.subst(mp)) if v.o.t and mp else v
            if isinstance(v, Agg):
                return Agg([cv(x) for x in v.el])
            if isinstance(v, tuple):
                return tuple(cv(x) for x in v)
            return v
        for i, f in enumerate(st.frames):
            st.frames[i] = f = f.copy()
            for k, v in f.env.items():
                f.env[k] = cv(v)
        for rid in list(st.mem):
            w = st.wregion(rid)
            w.cells = {cv(o): (sz, cv(v)) for o, (sz, v) in w.cells.items()}
            if isinstance(w.size, Lin):
                w.size = cv(w.size)
        for k, v in list(st.ghost.items()):
            st.ghost[k] = cv(v)
        for k, v in list(st.lazy.items()):
            st.lazy[k] = cv(v)
        if mp:
            sub = {}
            for a, v in nf.sub.items():
                if a not in mp:
                    sub[a] = v.subst(mp)
            g = Facts([_ng(e.subst(mp)) for e in nf.ge], [e.subst(mp) for e in nf.ne], sub)
            for a, v in nf.sub.items():
                if a in mp:
                    g.add_eq(mp[a] - v.subst(mp))
            st.facts = g

    def arrive2(self, st, h, first):
        fr = st.fr
        fam = fr.loops[h]
        inf = self.learned.get(fam.ctx)
        key = ()
        if inf:
            self.nolearn = True
            try:
                key = tuple(self.sign(st, p) for p in inf['preds'])
            finally:
                self.nolearn = False
        self.drop_nonk(st)
        self.prune_facts(st)
        for k2, node in fam.nodes:
            if k2 == key and self.covered(node, st):
                raise PathEnd()
        self.joins += 1
        fam.count += 1
        if self.trace:
            self.dump(st, 'arrive %s key=%s n=%d' % (h, key, len(fam.nodes)))
        if fam.count > self.max_family:
            raise Undecided('loop at %s in %s did not stabilise' % (h, fr.f.demangled))
        if not first and not inf:
            self.learn(fam, fam.nodes[0][1], st)
        lineage = len(fam.nodes)
        if fam.nodes:
            for i in range(len(fam.nodes) - 1, -1, -1):
                k2, node = fam.nodes[i]
                if k2 != key:
                    continue
                lg = fam.lineage[i]
                g = self.generalise(fam, node, st, key, inf, lg)
                if g is not None:
                    lineage = lg
                    st.widened = True
                    self.adopt(st, g)
                    if self.trace:
                        self.dump(st, '  generalised')
                    break
        st.pending = None
        fam.nodes.append((key, st.copy()))
        fam.lineage.append(lineage)

    def learn(self, fam, A, B):
        """first return to a loop head: positions that moved by a constant become affine in a counter"""
        if fam.ctx in self.nolearn_ctx and self.nolearn_ctx[fam.ctx] is True:
            return
        banned = self.nolearn_ctx.get(fam.ctx, set())
        u = self.unify(A, B)
        if u is None:
            return
        sigma, rho, diffs = u
        affs = {}
        for d in diffs:
            if d[0] != 'val':
                continue
            _, loc, a, b = d
            if loc[0] not in ('env', 'mem', 'ghost') or loc in banned or loc[0] == 'mem' and len(loc) > 3:
                continue
            e = B.facts.norm(b - a.subst(sigma))
            if e.is_const() and e.cval() == int(e.cval()) and not (a.deep_atoms() & self.reals):
                affs[loc] = int(e.cval())
        if not affs:
            return
        loc0 = next((l for l in sorted(affs, key=str) if l[0] == 'env'), next(iter(affs)))
        t = Atom('t@%x:%s' % (hash(fam.ctx) & 0xffffff, fam.ctx[-1]), 'gen')
        SOFT.add(t)
        self.learned[fam.ctx] = {'t': t, 'loc': loc0, 'affs': affs, 'preds': [], 'banned': set(banned)}
        raise Restart()

    def drop_nonk(self, st):
        """elements of skolemised arrays away from the skolem indices are not tracked across loop heads"""
        for rid, r in list(st.mem.items()):
            if r.skolem and r.cells:
                stride, idxs = r.skolem
                for o in list(r.cells):
                    if all(st.facts.entails_ne(o - k * stride) for k in idxs):
                        w = st.wregion(rid)
                        del w.cells[o]
                        w.havoc = True

    def dump(self, st, title):
        print('==', title)
        for i, f in enumerate(st.frames):
            print('   frame', f.f.demangled[:50], f.block, {k: st.deref(v) for k, v in f.env.items()})
        for r in st.mem.values():
            print('   ', r.rid, '' if r.alive else 'DEAD', 'havoc' if r.havoc else '', {st.facts.norm(o): st.deref(c[1]) for o, c in r.cells.items()})
        print('    facts', st.facts.all(), 'taint', st.taint, 'ghost', st.ghost)

    def adopt(self, st, g):
        st.frames, st.mem, st.facts, st.ghost, st.lazy = g.frames, g.mem, g.facts, g.ghost, g.lazy
        for r in st.mem.values():
            pass
        st.id = next(_uid)

    def gc_env(self, st, h):
        live = st.fr.f.live_at_header(h)
        env = st.fr.env
        for k in list(env):
            if k not in live:
                del env[k]
        self.gc_mem(st)

    def roots(self, st):
        for i, f in enumerate(st.frames):
            for k in sorted(f.env):
                yield ('env', i, k), f.env[k]

    def gc_mem(self, st):
        """drop unreachable, unobserved regions"""
        seen = set()
        todo = []

        def visit(v):
            v = st.deref(v)
            if isinstance(v, Ptr) and v.r is not None and v.r not in seen:
                seen.add(v.r)
                todo.append(v.r)
            elif isinstance(v, Agg):
                for x in v.el:
                    visit(x)
        for i, f in enumerate(st.frames):
            if i < len(st.frames) - 1:
                b = f.block
                live = f.f.live_after(b, f.idx)
                if any(k not in live for k in f.env):
                    st.frames[i] = f = f.copy()
                    for k in list(f.env):
                        if k not in live:
                            del f.env[k]
            for v in f.env.values():
                visit(v)
        for rid, r in st.mem.items():
            if r.kind in ('sym', 'global') or 'root' in r.meta:
                if rid not in seen:
                    seen.add(rid)
                    todo.append(rid)
        for v in st.ghost.values():
            for x in (v if isinstance(v, tuple) else (v,)):
                visit(x)
        while todo:
            rid = todo.pop()
            if rid not in st.mem:
                continue
            for sz, v in st.mem[rid].cells.values():
                visit(v)
            for x in st.mem[rid].meta.get('refs', ()):
                visit(x)
        for rid in list(st.mem):
            if rid not in seen:
                # live heap blocks that become unreachable are leaks (reported by users of the hook)
                r = st.mem[rid]
                if self.detect_cycles and r.alive and r.kind == 'heap':
                    continue
                if r.kind == 'heap' and r.alive and 'leak_ok' not in r.meta:
                    st.ghost.setdefault('leaked', ())
                    st.ghost['leaked'] = st.ghost['leaked'] + ((r.tag or rid),)
                del st.mem[rid]

    def get_loc(self, st, loc):
        if loc[0] == 'env':
            return st.deref(st.frames[loc[1]].env[loc[2]])
        return st.deref(st.mem[loc[1]].cells[loc[2]][1])

    def live_atoms(self, st):
        s = set()

        def add(v):
            v = st.deref(v)
            if isinstance(v, Lin):
                s.update(v.deep_atoms())
            elif isinstance(v, Ptr):
                s.update(v.o.deep_atoms())
            elif isinstance(v, Agg):
                for x in v.el:
                    add(x)
            elif isinstance(v, tuple):
                for x in v:
                    add(x)
        for f in st.frames:
            for v in f.env.values():
                add(v)
        for r in st.mem.values():
            if r.size is not None and isinstance(r.size, Lin):
                s.update(r.size.deep_atoms())
            for o, (sz, v) in r.cells.items():
                s.update(o.deep_atoms())
                add(v)
            for x in r.meta.get('terms', ()):
                add(x)
        for v in st.ghost.values():
            add(v)
        return s

    def prune_facts(self, st):
        self.rename(st, {})
        live = self.live_atoms(st)
        f = st.facts

        def ok(e):
            return all(a.kind != 'gen' or a in live for a in e.deep_atoms())
        ge = [e for e in f.ge if ok(e)]
        ne = [e for e in f.ne if ok(e)]
        sub = {a: v for a, v in f.sub.items() if a.kind != 'gen' and ok(v) or (a in live)}
        if len(ge) != len(f.ge) or len(ne) != len(f.ne) or len(sub) != len(f.sub):
            st.facts = Facts(ge, ne, sub)

    # ---- matching
    def unify(self, A, B):
        """simultaneous walk of two states.  Returns (sigma, rho, diffs) or None"""
        if len(A.frames) != len(B.frames):
            return None
        rho, inv = {}, {}
        pairs = []          # (a, b, loc)
        diffs = []
        queue = []

        def visit(a, b, loc):
            a, b = A.deref(a), B.deref(b)
            if isinstance(a, Lin) and isinstance(b, Lin):
                pairs.append((a, b, loc))
                return True
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if (a.r is None) != (b.r is None):
                    return False
                if a.r is not None:
                    if a.r in rho:
                        if rho[a.r] != b.r:
                            return False
                    else:
                        if b.r in inv:
                            return False
                        ra, rb = A.mem.get(a.r), B.mem.get(b.r)
                        if (ra is None) != (rb is None):
                            return False
                        rho[a.r] = b.r
                        inv[b.r] = a.r
                        if ra is not None:
                            if a.r != b.r and (ra.kind in ('sym', 'global') or 'root' in ra.meta or ra.meta.get('fixed')
                                               or rb.meta.get('fixed')):
                                return False
                            queue.append((ra, rb))
                pairs.append((a.o, b.o, loc))
                return True
            if isinstance(a, Agg) and isinstance(b, Agg):
                return len(a.el) == len(b.el) and all(visit(x, y, loc + (i,)) for i, (x, y) in enumerate(zip(a.el, b.el)))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return len(a) == len(b) and all(visit(x, y, loc + (i,)) for i, (x, y) in enumerate(zip(a, b)))
            if isinstance(a, Top) and isinstance(b, Top):
                return True
            if isinstance(a, Lazy) and isinstance(b, Lazy):
                if a == b:
                    return True
                ma, mb = a.meta, b.meta
                return ma is not None and mb is not None and ma[0] == mb[0] and \
                    visit(tuple(ma[1:]), tuple(mb[1:]), loc + ('lz',))
            return a == b
        for i, (fa, fb) in enumerate(zip(A.frames, B.frames)):
            if fa.f is not fb.f or fa.block != fb.block or fa.idx != fb.idx or set(fa.env) != set(fb.env):
                return None
            for k in fa.env:
                if not visit(fa.env[k], fb.env[k], ('env', i, k)):
                    return None
        for rid, ra in A.mem.items():
            if ra.kind in ('sym', 'global') or 'root' in ra.meta:
                if rid in B.mem:
                    if rid not in rho:
                        if rid in inv:
                            return None
                        rho[rid] = rid
                        inv[rid] = rid
                        queue.append((ra, B.mem[rid]))
                elif ra.cells:
                    return None
        if set(A.ghost) != set(B.ghost):
            return None
        for k in A.ghost:
            if not visit(A.ghost[k], B.ghost[k], ('ghost', k)):
                return None
        while queue:
            ra, rb = queue.pop()
            if ra.alive != rb.alive or ra.kind != rb.kind or ra.tag != rb.tag:
                return None
            if (ra.size is None) != (rb.size is None):
                return None
            if ra.size is not None:
                pairs.append((lin(ra.size), lin(rb.size), ('size', ra.rid)))
            ka = {A.facts.norm(o): c for o, c in ra.cells.items()}
            kb = {B.facts.norm(o): c for o, c in rb.cells.items()}
            for o in set(ka) | set(kb):
                ca, cb = ka.get(o), kb.get(o)
                if ca is None or cb is None or ca[0] != cb[0]:
                    if ra.skolem or rb.skolem or ra.meta.get('array') or (ca is None and ra.content) \
                            or (cb is None and rb.content):
                        diffs.append(('cell', ra.rid, o, ca is not None, cb is not None))
                        continue
                    # a cell missing on one side: dropping it is an over-approximation
                    diffs.append(('cell', ra.rid, o, ca is not None, cb is not None))
                    continue
                n = len(diffs)
                if not visit(ca[1], cb[1], ('mem', ra.rid, o)):
                    if ra.skolem:
                        diffs.append(('cell', ra.rid, o, True, True))
                        continue
                    return None
            if ra.havoc != rb.havoc:
                diffs.append(('havoc', ra.rid, ra.havoc, rb.havoc))
            if ra.meta.get('summ') != rb.meta.get('summ'):
                return None
            for x, y in zip(ra.meta.get('terms', ()), rb.meta.get('terms', ())):
                pairs.append((x, y, ('terms', ra.rid)))
        sigma = {}
        rest = []
        for a, b, loc in pairs:
            if a == b and not any(x.kind == 'gen' for x in a.atoms()):
                continue
            s = a.single()
            if s is not None and s.kind == 'gen' and not s.name.startswith('t@'):
                if s in sigma:
                    if sigma[s] != b:
                        diffs.append(('val', loc, a, b))
                    continue
                if self._may_bind(s, b):
                    sigma[s] = b
                    continue
            rest.append((a, b, loc))
        again = True
        while again and rest:
            again = False
            nxt = []
            for a, b, loc in rest:
                fa = a
                d = b - a.subst(sigma) if sigma else b - a
                if d == ZERO:
                    # make sure unbound atoms shared by both sides are bound to themselves
                    for x in a.atoms():
                        if x.kind == 'gen' and x not in sigma:
                            sigma[x] = Lin.atom(x)
                            again = True
                    continue
                ub = [x for x in a.atoms() if x.kind == 'gen' and x not in sigma]
                if len(ub) == 1 and a.t.get((ub[0],)) and sum(ub[0] in m for m in a.t) == 1:
                    x = ub[0]
                    c = a.t[(x,)]
                    others = (a - Lin({(x,): c})).subst(sigma)
                    val = _intify((b - others) * (Fraction(1) / c))
                    if all(not isinstance(v, Fraction) for v in val.t.values()) and self._may_bind(x, val):
                        sigma[x] = val
                        again = True
                        continue
                nxt.append((a, b, loc))
            rest = nxt
        for a, b, loc in rest:
            d = B.facts.norm(b - a.subst(sigma))
            if d != ZERO:
                diffs.append(('val', loc, a, b))
        return sigma, rho, diffs

    def _may_bind(self, x, val):
        if x.name.startswith('REST'):
            return not (val.deep_atoms() & self.kcontaining)
        return True

    @property
    def kcontaining(self):
        return self.skolems

    def covered(self, A, B):
        u = self.unify(A, B)
        if u is None:
            return False
        sigma, rho, diffs = u
        for d in diffs:
            if d[0] == 'cell' and not d[3]:
                # A has no information on that cell: only fine when A havocs it
                ra = A.mem[d[1]]
                if ra.havoc or (not ra.content):
                    continue
                return False
            if d[0] == 'havoc' and d[2]:
                continue
            return False
        ident = {}
        for k, e in A.facts.all():
            e2 = e.subst(sigma)
            if k == 'ge' and not B.facts.entails_ge(e2):
                return False
            if k == 'ne' and not B.facts.entails_ne(e2):
                return False
            if k == 'eq' and not B.facts.entails_eq(e2):
                return False
        return True

    def generalise(self, fam, A, B, key, inf, lg=0):
        u = self.unify(A, B)
        if u is None:
            return None
        sigma, rho, diffs = u
        if any(d[0] == 'size' for d in diffs):
            return None
        absorb, drop = [], []
        for d in diffs:
            if d[0] in ('cell', 'havoc'):
                drop.append(d)
            else:
                absorb.append(d[1:])
        G = A.copy()
        G.pending = B.pending
        for r in list(G.mem):
            G.wregion(r)
        T = Lin.atom(inf['t']) if inf else None
        for loc, a, b in absorb:
            sk_a = self._sk_part(a)
            sk_b = self._sk_part(B.facts.norm(b))
            if sk_a.subst(sigma) != sk_b:
                return None
            # several absorbed positions that move together keep a common symbol
            if self._has_rest(a):
                nv = None
            rest = self._rest_atom(G, loc)
            self._set_loc(G, loc, a, sk_a + Lin.atom(rest))
        for d in drop:
            if d[0] == 'cell':
                w = G.wregion(d[1])
                old = w.cells.pop(d[2], None)
                if w.skolem and any(G.facts.entails_eq(d[2] - k * w.skolem[0]) for k in w.skolem[1]):
                    w.cells[d[2]] = (old[0] if old else w.skolem[0], Top('joined element'))
                elif w.skolem or w.meta.get('array'):
                    w.havoc = True
            elif d[0] == 'havoc':
                G.wregion(d[1]).havoc = True
        # facts valid in both
        fam.gen_count[lg] = fam.gen_count.get(lg, 0) + 1
        late = fam.gen_count[lg] > 2
        ge, ne = [], []
        inv = {}
        for k, e in A.facts.all():
            e2 = e.subst(sigma)
            if k == 'ge' and B.facts.entails_ge(e2):
                ge.append(e)
            elif k == 'ne' and B.facts.entails_ne(e2):
                ne.append(e)
            elif k == 'eq':
                if B.facts.entails_ge(e2):
                    ge.append(e)
                if B.facts.entails_ge(-e2):
                    ge.append(-e)
        atoms = set()
        for k, e in B.facts.all():
            if not late and not any(a.kind == 'gen' for a in e.deep_atoms()):
                if k == 'ge' and A.facts.entails_ge(e):
                    ge.append(e)
                elif k == 'ne' and A.facts.entails_ne(e):
                    ne.append(e)
            atoms |= e.atoms()
        for k, e in A.facts.all():
            atoms |= e.atoms()
        nf = Facts()
        ok = True
        for kk, e in A.base:          # facts about the inputs always hold
            ok = (nf.add_ge(e) if kk == 'ge' else nf.add_ne(e) if kk == 'ne' else nf.add_eq(e)) and ok
        for e in ge:
            ok = nf.add_ge(e) and ok
        for e in ne:
            ok = nf.add_ne(e) and ok
        if T is not None:
            ok = nf.add_ge(T) and ok
            for p, s in zip(inf['preds'], key):
                ok = (nf.add_eq(p) if s == 0 else nf.add_ge(p - 1) if s > 0 else nf.add_ge(-p - 1)) and ok
            Ta, Tb = A.facts.norm(T), B.facts.norm(T)
            for s in sorted(atoms, key=lambda a: a.key_s()):
                if s == inf['t'] or s.real:
                    continue
                if late:
                    break
                S = Lin.atom(s)
                sb = S.subst(sigma)
                for sgn in (1, -1):
                    for c in (3, 2, 1, 0, -1, -2, -3):
                        if A.facts.entails_ge((S - Ta) * sgn - c) and B.facts.entails_ge((sb - Tb) * sgn - c):
                            nf.add_ge((S - T) * sgn - c)
                            break
            for c in (3, 2, 1):
                if A.facts.entails_ge(Ta - c) and B.facts.entails_ge(Tb - c):
                    nf.add_ge(T - c)
                    break
        if not ok:
            return None
        G.facts = nf
        G.taint = tuple(dict.fromkeys(A.taint + B.taint))
        self.gc_mem(G)
        return G

    def _has_t(self, a, fam):
        return hasattr(fam, 't') and fam.t in self._val_atoms(a)

    def _val_atoms(self, a):
        return a.deep_atoms() if isinstance(a, Lin) else set()

    def _has_rest(self, a):
        return any(x.name.startswith('REST') for x in a.atoms())

    def _rest_atom(self, G, loc):
        return Atom('REST#%d' % next(self.gctr), 'gen')

    def _sk_part(self, a):
        return Lin({m: c for m, c in a.t.items() if Lin({m: 1}).deep_atoms() & self.kcontaining})

    def _set_loc(self, G, loc, old, new):
        def conv(v, rest):
            v = G.deref(v)
            if rest and isinstance(v, (Agg, tuple)):
                i = rest[0]
                el = list(v.el if isinstance(v, Agg) else v)
                el[i] = conv(el[i], rest[1:])
                return Agg(el) if isinstance(v, Agg) else tuple(el)
            if isinstance(v, Ptr):
                return Ptr(v.r, new)
            return new
        if loc[0] == 'env':
            fr = G.frames[loc[1]] = G.frames[loc[1]].copy()
            fr.env[loc[2]] = conv(fr.env[loc[2]], loc[3:])
        elif loc[0] == 'mem':
            w = G.wregion(loc[1])
            sz, v = w.cells[loc[2]] if loc[2] in w.cells else next(
                (c for o, c in w.cells.items() if G.facts.norm(o) == loc[2]))
            w.cells[loc[2]] = (sz, conv(v, loc[3:]))
        elif loc[0] == 'ghost':
            G.ghost[loc[1]] = conv(G.ghost[loc[1]], loc[2:])
        elif loc[0] == 'terms':
            raise Undecided('summary terms differ')


class EnterCall:
    """returned by a model to interpret a different function body"""

    def __init__(self, f, args):
        self.f, self.args = f, args


def whole(e):
    """a positive multiple of e with integer coefficients (same sign)"""
    d = 1
    for c in e.t.values():
        k = Fraction(c).denominator
        d = d * k // math.gcd(d, k)
    return e if d == 1 else _intify(e * d)


def _real(e):
    return any(a.real for a in e.atoms())


def _vdiff(a, b):
    if isinstance(a, Lin) and isinstance(b, Lin):
        return a - b
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
        return a.o - b.o
    return None


def _intify(e):
    return Lin({m: (int(c) if isinstance(c, Fraction) and c.denominator == 1 else c) for m, c in e.t.items()})


def _wrap_s(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def _g(a, b):
    while b:
        a, b = b, a % b
    return a


ARITH = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
         'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}


def _string(v):
    raw = v[v.index('"') + 1:-1]
    out, i = [], 0
    while i < len(raw):
        if raw[i] == '\\' and re.match(r'[0-9A-Fa-f]{2}', raw[i + 1:i + 3]):
            out.append(int(raw[i + 1:i + 3], 16))
            i += 3
        elif raw[i] == '\\' and raw[i + 1:i + 2] == '\\':
            out.append(92)
            i += 2
        else:
            out.append(ord(raw[i]))
            i += 1
    return out


def global_table(mod, name):
    """flattened initialiser of a global: (is constant, {offset: (size, value)}, [zero ranges]); None if it has none"""
    tab = mod.__dict__.setdefault('_gtab', {})
    if name in tab:
        return tab[name]
    d, r = mod.globals.get(name, ''), None
    m = re.search(r'(?:^|\s)(constant|global)\s', d)
    if m and not re.match(r'\s*(external|extern_weak|available_externally)\b', d):
        cells, zeros = {}, []

        def put(ty, v, off):
            ty = mod.resolve(ty)
            if v[0] in ('zero', 'null'):
                zeros.append((off, off + mod.size(ty)))
            elif v[0] == 'agg':
                for i, (et, ev) in enumerate(v[1]):
                    put(et, ev, off + (mod.field_offset(ty, i)[0] if ty[0] == 'struct' else i * mod.size(et)))
            elif v[0] == 'str':
                for i, c in enumerate(_string(v[1])):
                    cells[off + i] = (1, ('int', c))
            elif v[0] != 'undef':
                cells[off] = (mod.size(ty), v)
        try:
            t = irparse.Toks(irparse.tokenize(d[m.end():]))
            ty = irparse.parse_type(t)
            put(ty, irparse.parse_value(t, ty), 0)
            r = (m.group(1) == 'constant', cells, zeros)
        except (irparse.ParseError, KeyError, IndexError, TypeError):
            r = None
    tab[name] = r
    return r


def global_content(eng, st, reg, off, size, ty):
    """initial contents of globals are unknown-but-fixed quantities unless constant or interpreted from their initialiser"""
    name = reg.rid[1:]
    d = eng.mod.globals.get(name, '')
    real = bool(ty and ty[0] == 'fp')
    tab = global_table(eng.mod, name)
    if tab and (tab[0] or st.ghost.get('init')) and isinstance(off, Lin) and off.is_const():
        o = int(off.cval())
        c = tab[1].get(o)
        if c and c[0] == size:
            v = c[1]
            if v[0] == 'int':
                return Lin.const(v[1])
            if v[0] == 'fp':
                return Lin.const(v[1])
            if v[0] == 'glob':
                return Fn(v[1]) if v[1] in eng.mod.functions else eng.global_ptr(st, v[1])
        elif any(a <= o and o + size <= b for a, b in tab[2]):
            return NULL if ty and ty[0] == 'ptr' else ZERO
    if ty and ty[0] == 'ptr':
        return Top('global ' + reg.tag)
    return Lin.atom(Atom('glob:%s+%s' % (reg.tag, off), 'sym', (), real))
