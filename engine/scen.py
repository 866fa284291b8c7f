"""Scenarios: client programs of drivers/d_*.cpp analysed on the IR.  `nd` yields an arbitrary value, `pick` an
arbitrary choice, `chk*` an obligation; arenas are modelled with ownership, sizes and leaks."""
from absint import *
from lin import *
import re
import time
import models
from monoms import ARENA, m_arena_new, m_arena_free
from fw import *
from p_monom import classify, fact_text


def cstr(eng, st, v):
    v = eng.force(st, v)
    if isinstance(v, Ptr) and v.r and v.r.startswith('@'):
        d = eng.mod.globals.get(v.r[1:], '')
        m = re.search(r'c"((?:[^"\\]|\\[0-9A-Fa-f]{2})*)"', d)
        if m:
            s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda x: chr(int(x.group(1), 16)), m.group(1))
            return s.split('\0')[0]
    return '?'


def m_nd(eng, st, a, ins):
    return Lin.atom(Atom(cstr(eng, st, a[0])))


def m_nd_fresh(eng, st, a, ins):
    nm = cstr(eng, st, a[0])
    k = ('nd', nm)
    i = st.ghost.get(k, 0)
    st.ghost[k] = i + 1
    return Lin.atom(Atom('%s.%d' % (nm, i)))


def m_pick(eng, st, a, ins):
    n = int(st.deref(a[0]).cval())
    i = st.ghost.get('pick', 0)
    at = Lin.atom(Atom('pick%d' % i))
    v = st.facts.norm(at)
    if v.is_const():
        st.ghost['pick'] = i + 1
        st.trail = st.trail + (int(v.cval()),)
        return v
    raise Fork([lambda s, j=j: s.facts.add_eq(at - j) and True for j in range(n)])


def m_assume(eng, st, a, ins):
    if not eng.truth(st, a[0]):
        raise PathEnd()
    return None


def picks(st):
    return ('choices %s' % (list(st.trail),)) if st.trail else ''


def note(eng, st, status, what, text, rule=None):
    loc = None
    for fr in reversed(st.frames):
        ins = fr.f.blocks[fr.block].ins[fr.idx]
        l = eng.mod.loc(ins.line)
        if l:
            loc = (eng.repo_path(l[0]), l[1])
            break
    k = (rule or eng.scen_rule, eng.scen_name + ': ' + what)
    old = eng.scen_obs.get(k)
    rank = {'ok': 0, 'unknown': 1, 'bad': 2}
    if old is None or rank[status] > rank[old[0]]:
        eng.scen_obs[k] = (status, text, eng.scen_loc(st) or loc)


def m_chk(eng, st, a, ins):
    w = cstr(eng, st, a[1])
    c = eng.force(st, a[0])
    if isinstance(c, Top):
        note(eng, st, 'unknown' if 'uninit' not in c.why and 'undef' not in c.why or st.taint else 'bad', w, 'depends on ' + c.why + ' ' + picks(st))
        raise PathEnd()
    if eng.truth(st, c):
        note(eng, st, 'unknown' if st.taint else 'ok', w, st.taint[-1] if st.taint else '')
    else:
        h = st.facts.harden()
        if not h.consistent():
            raise PathEnd()
        note(eng, st, 'unknown' if st.taint else 'bad', w, 'does not hold %s [%s]' % (picks(st), fact_text(st)))
        raise PathEnd()
    return None


def m_chk_eq(eng, st, a, ins):
    w = cstr(eng, st, a[2])
    g, x = eng.force(st, a[0]), eng.force(st, a[1])
    s = classify(st, g, x)
    if s != 'ok' and isinstance(g, Lin) and isinstance(x, Lin):
        h = st.facts.harden()
        if not h.consistent():
            raise PathEnd()
        # an integer fact set may decide it only after a case split
        d = st.facts.norm(g - x)
        if not d.is_const() and not eng.is_zero(st, d):
            note(eng, st, s, w, 'is %s, must be %s %s [%s]' % (g, x, picks(st), fact_text(st)))
            raise PathEnd()
        if d.is_const() and d.cval() != 0:
            note(eng, st, s, w, 'is %s, must be %s %s [%s]' % (g, x, picks(st), fact_text(st)))
            raise PathEnd()
        s, s0 = 'ok', s
    note(eng, st, 'unknown' if st.taint else s, w, '' if s == 'ok' else 'is %s, must be %s %s' % (g, x, picks(st)))
    return None


def m_done(eng, st, a, ins):
    st.ghost['done'] = 1
    return None


def m_alloc_dtor(eng, st, a, ins):
    p = eng.force(st, a[0])
    for r in st.mem.values():
        if r.alive and r.meta.get('arena') == p.r and r.kind == 'heap':
            eng.report(st, 'leak', 'a block taken from the arena is never returned (%s)' % r.meta.get('by', ''))
    return None


def m_alloc_ctor(eng, st, a, ins):
    p = eng.force(st, a[0])
    return None


def m_new_by(eng, st, a, ins):
    r = m_arena_new(eng, st, a, ins)
    if isinstance(r, Ptr):
        reg = st.region(r.r)
        for fr in reversed(st.frames):
            l = eng.mod.loc(fr.f.blocks[fr.block].ins[fr.idx].line)
            if l:
                reg.meta['by'] = 'taken in ' + fr.f.demangled.split('(')[0]
                break
    return r


def m_run_ctor(eng, st, a, ins):
    i = int(st.deref(a[0]).cval())
    st.ghost['init'] = True
    d = eng.mod.globals.get('llvm.global_ctors', '')
    fs = re.findall(r'ptr @("[^"]+"|[\w.$]+), ptr', d)
    if i < len(fs):
        return EnterCall(eng.mod.get(fs[i].strip('"')), [])
    for r in list(st.mem.values()):
        if r.kind == 'heap' and r.alive and 'boot' not in r.meta:
            st.wregion(r.rid).meta['boot'] = True
    return None


def m_path_end(eng, st, a, ins):
    raise PathEnd()


def native(f):
    """obligation on memory: f returns None (holds), 'bad' or 'unknown' with a text"""
    def m(eng, st, a, ins):
        w = cstr(eng, st, a[-1])
        r = f(eng, st, [eng.force(st, x) for x in a[:-1]])
        if r is None:
            note(eng, st, 'unknown' if st.taint else 'ok', w, st.taint[-1] if st.taint else '')
            return None
        if not st.facts.harden().consistent():
            raise PathEnd()
        note(eng, st, 'unknown' if st.taint else r[0], w, r[1] + ' ' + picks(st) + ' [%s]' % fact_text(st))
        raise PathEnd()
    return m


def n_block(eng, st, a):
    p, n = a
    if not isinstance(p, Ptr) or p.r is None:
        return 'bad', 'no block at all'
    r = st.region(p.r)
    if not r.alive:
        return 'bad', 'the memory has been returned'
    if not eng.is_ge(st, p.o):
        return 'bad', 'starts before the memory'
    if r.size is None:
        return 'unknown', 'size unknown'
    if not eng.is_ge(st, lin(r.size) - p.o - n):
        return 'bad', 'offset %s + %s exceeds %s' % (st.facts.norm(p.o), n, r.size)


def n_aligned(eng, st, a):
    p, k = a
    k = int(k.cval())
    if not isinstance(p, Ptr) or p.r is None:
        return 'bad', 'no block at all'
    if st.region(p.r).meta.get('align', 16) % k:
        return 'bad', 'the underlying memory is aligned to %s only' % st.region(p.r).meta.get('align', 16)
    o = st.facts.norm(p.o)
    for m, c in o.t.items():
        if not isinstance(c, int) or c % k:
            return 'bad', 'offset %s' % o


def n_disjoint(eng, st, a):
    p, n, q, m = a
    if not (isinstance(p, Ptr) and isinstance(q, Ptr)):
        return 'unknown', 'pointers'
    if p.r != q.r:
        return None
    if eng.is_ge(st, q.o - p.o - n) or eng.is_ge(st, p.o - q.o - m):
        return None
    return 'bad', '[%s, +%s) and [%s, +%s)' % (st.facts.norm(p.o), n, st.facts.norm(q.o), m)


def n_dead(eng, st, a):
    p, = a
    if isinstance(p, Ptr) and p.r and st.region(p.r).alive:
        return 'bad', 'the memory is still held'


def n_noleaks(eng, st, a):
    held = set()
    todo = [r for r in st.mem.values() if r.kind == 'global']
    while todo:
        r = todo.pop()
        for c in r.cells.values():
            v = st.deref(c[1])
            if isinstance(v, Ptr) and v.r in st.mem and v.r not in held:
                held.add(v.r)
                todo.append(st.mem[v.r])
    for r in st.mem.values():
        if r.kind == 'heap' and r.alive and not r.meta.get('boot') and r.rid not in held:
            return 'bad', 'a block is never released (%s)' % (r.meta.get('by') or r.tag)


def m_exit_hook(eng, st, a, ins):
    f = eng.mod.functions.get('sc_on_exit')
    if f is None or st.ghost.get('exiting'):
        raise PathEnd()
    st.ghost['exiting'] = True
    return EnterCall(f, [])


def m_aligned_alloc(eng, st, a, ins):
    al, n = st.deref(a[0]), st.deref(a[1])
    r = st.new_region('heap', n if isinstance(n, Lin) else None, tag='aligned_alloc')
    r.meta['how'] = 'malloc'
    r.meta['align'] = int(al.cval()) if isinstance(al, Lin) and al.is_const() else 1
    return Ptr(r.rid, ZERO)


RUNTIME = [
    (r'^aligned_alloc$', m_aligned_alloc), (r'^getpagesize$', lambda e, s, a, i: lin(4096)),
    (r'^exit$', m_exit_hook), (r'^__cxa_atexit$', lambda e, s, a, i: ZERO), (r'^std::ios_base::Init::', models.m_noop),
    (r'^sysconf$', lambda e, s, a, i: Lin.atom(Atom('ticks'))), (r'^times$', models.m_noop),
]
NDET = [
    (r'^run_ctor$', m_run_ctor), (r'^path_end$', m_path_end), (r'^chk_block$', native(n_block)), (r'^chk_aligned$', native(n_aligned)),
    (r'^chk_disjoint$', native(n_disjoint)), (r'^chk_dead$', native(n_dead)), (r'^no_leaks$', native(n_noleaks)),
    (r'^nd$', m_nd), (r'^nd_fresh$', m_nd_fresh), (r'^pick$', m_pick), (r'^assume$', m_assume),
    (r'^chk$', m_chk), (r'^chk_eq$', m_chk_eq), (r'^chk_ptr$', m_chk_eq), (r'^done$', m_done),
]
def m_isgc(eng, st, a, ins):
    """whether an arena asks to be collected: arbitrary, asked anew each time"""
    i = st.ghost.get('isgc', 0)
    at = Lin.atom(Atom('collect%d' % i))
    v = st.facts.norm(at)
    if v.is_const():
        st.ghost['isgc'] = i + 1
        st.trail = st.trail + ('collect' if v == ONE else 'keep',)
        return v
    raise Fork([lambda s, j=j: s.facts.add_eq(at - j) and True for j in (0, 1)])


ARENA2 = [
    (r'^GInv::Allocator::isGC\(\) const$', m_isgc), (r'^GInv::Allocator::timer(Cont|Stop)\(\)$', models.m_noop),
    (r'^GInv::Allocator::(alloc|size)\(\) const$', lambda e, s, a, i: Lin.atom(Atom('arena.%s' % s.deref(a[0])))),
    (r'^operator new(\[\])?\(unsigned long, GInv::Allocator\*\)$', m_new_by),
    (r'^GInv::Allocator::allocate\(unsigned long\)$', lambda e, s, a, i: m_new_by(e, s, [a[1], a[0]], i)),
    (r'^GInv::Allocator::deallocate\(void const\*, unsigned long\)$', m_arena_free),
    (r'^GInv::Allocator::~Allocator\(\)$', m_alloc_dtor),
    (r'^GInv::Allocator::Allocator\(\)$', m_alloc_ctor),
]
MEMKINDS = ('null-deref', 'out-of-bounds', 'use-after-free', 'double-free', 'wrong-arena', 'free-size', 'leak', 'null-free',
            'readonly', 'limb-capacity', 'div-by-zero', 'no-progress', 'gmp')


class Scenario:
    def __init__(self, ctx, chk, fname, extra=(), arena=True, unroll=60, rule=None,
                 values=True, skip=(), opts=None, only=None, kinds=None):
        self.only, self.kinds = only, kinds
        self.values, self.skip = values, skip
        self.ctx, self.chk, self.fname = ctx, chk, fname
        self.eng = e = Engine(ctx.mod, models.BASE + RUNTIME + (ARENA2 if arena else []) + NDET + list(extra), max_steps=ctx.max_steps * 200)
        e.repo_path = ctx.repo_path
        e.unroll = unroll
        e.detect_cycles = True
        e.scen_rule = rule or 'scenario'
        e.scen_name = re.sub(r'^sc_[A-Z]\d+_', '', fname)
        e.scen_obs = {}
        e.scen_loc = self.loc
        self.setup = None
        for k, v in (opts or {}).items():
            setattr(e, k, v)

    def loc(self, st):
        f = self.ctx.mod.functions.get(st.last) if st.last else None
        l = self.ctx.mod.func_loc(f) if f else None
        if l and '/drivers/' not in l[0]:
            return (self.ctx.repo_path(l[0]), l[1])
        return None

    def run(self, args=()):
        eng, chk = self.eng, self.chk

        def make():
            st = State()
            if self.setup:
                self.setup(st)
            return eng.start(st, self.fname, list(args))
        und = None
        fin = []
        try:
            fin = eng.explore(make)
        except Undecided as e:
            und = str(e)
        for n in eng.funcs_seen:
            chk.functions.add(self.ctx.mod.demangle(n))
        chk.count('abstract states', eng.steps)
        chk.count('paths to exit', len(fin))
        for (rule, site), (status, text, loc) in eng.scen_obs.items():
            if self.only and not site.split(': ', 1)[-1].startswith(self.only):
                continue
            if self.values or status == 'unknown':
                chk.put(status, rule, site, text, loc)
        n = 0
        for r in eng.reports.values():
            site = eng.scen_name + ': ' + r.func.split('(')[0]
            if r.kind == 'undecided':
                chk.unk('memory', site, r.msg, r.loc)
                continue
            if r.kind in self.skip or self.kinds and r.kind not in self.kinds:
                continue
            n += 1
            chk.put('bad' if r.sure else 'unknown', self.eng.scen_rule if self.kinds else 'memory', site, '[%s] %s (choices %s)' % (r.kind, r.msg, list(r.trail)), r.loc)
        if not n:
            chk.ok(eng.scen_rule if self.kinds else 'memory', eng.scen_name)
        for s in fin:
            if s.taint:
                chk.unk('analysis', eng.scen_name, s.taint[0])
        if und:
            chk.unk('analysis', eng.scen_name, und)
        if not any(s.ghost.get('done') for s in fin) and not eng.reports and not any(v[0] == 'bad' for v in eng.scen_obs.values()):
            chk.unk('analysis', eng.scen_name, 'the end of the scenario is not reached')
        return fin


OWN = ('leak', 'free-size', 'wrong-arena', 'double-free')
_job = {}


def _one(n):
    import signal
    ctx, chk, kw = _job['ctx'], _job['chk'], _job['kw']

    def late(*_):
        raise Undecided('time budget exhausted')
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, max(1, _job['end'] - time.time()), 20)
    del chk.obs[:]
    chk.functions.clear()
    chk.explored.clear()
    Scenario(ctx, chk, n, **kw).run()
    signal.setitimer(signal.ITIMER_REAL, 0)
    return n, chk.obs, chk.functions, chk.explored


def scen_parallel(ctx, chk, names, **kw):
    """the scenarios in separate processes; the results are merged in order. After a violation the rest has one more minute."""
    import multiprocessing as mp
    import copy
    ctx.mod
    end = ctx.t0 + (420 if ctx.tier == 'quick' else 780)
    _job.update(ctx=ctx, chk=copy.copy(chk), kw=kw, end=end)
    _job['chk'].obs, _job['chk'].functions, _job['chk'].explored = [], set(), {}
    res = {}
    with mp.get_context('fork').Pool(8) as pool:
        it = pool.imap_unordered(_one, names, chunksize=1)
        while len(res) < len(names):
            try:
                n, o, f, e = it.next(timeout=max(0.1, end + 30 - time.time()))
            except mp.TimeoutError:
                break
            res[n] = (o, f, e)
            if any(x.status == 'bad' for x in o):
                end = min(end, time.time() + 30)
        pool.terminate()
    for n in names:
        if n not in res:
            chk.unk('analysis', n, 'time budget exhausted')
            continue
        o, f, e = res[n]
        chk.obs += o
        chk.functions |= f
        for k, v in e.items():
            chk.explored[k] = chk.explored.get(k, 0) + v


def scenarios(ctx, chk, prefix, **kw):
    names = sorted(n for n in ctx.mod.functions if n.startswith('sc_%s_' % prefix))
    if not names:
        raise Broken('no scenario for ' + prefix)
    scen_parallel(ctx, chk, names, **kw)
