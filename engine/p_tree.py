"""Red-black trees: shape analysis over an arbitrary tree.  Subtrees are opaque (black height, key interval) until an
operation looks at them; then they split into "empty", "black root" or "red root" with opaque subtrees.  Only the
length of the path that is walked from the root is bounded."""
from scen import *
from monoms import leaf_fields, class_type, probe, Anchor


class TreeLayout:
    def __init__(self, ctx):
        self.ctx, mod = ctx, ctx.mod
        self.mod = mod
        if not mod.get('t_insert'):
            raise Broken('driver entry t_insert')
        try:
            self._infer()
        except Anchor as e:
            raise Broken(str(e))

    def const(self, fn):
        f = probe(self.mod, fn, lambda st: [])
        return int(f[0].ret.cval())

    def _infer(self):
        mod = self.mod
        if self.const('t_cisize') != 8:
            raise Anchor('tree iterator is not a single node pointer')
        self.tsize = self.const('t_size')
        self.red, self.black = self.const('t_red'), self.const('t_black')

        def obj(st, nm):
            def content(eng, s, reg, off, size, ty):
                o = int(off.cval())
                if ty and ty[0] == 'ptr':
                    return Ptr('p%d' % o, ZERO)
                return Lin.atom(Atom('f%d' % o))
            st.new_region('sym', None, rid=nm, content=content)
            return Ptr(nm, ZERO)

        def ci(st, nm, v):
            r = st.new_region('sym', Lin.const(8), rid=nm)
            if v is not None:
                r.cells[ZERO] = (8, v)
            return Ptr(nm, ZERO)

        def fld(v, what):
            if isinstance(v, Lin) and v.single() is not None and v.single().name.startswith('f'):
                return int(v.single().name[1:])
            if isinstance(v, Ptr) and v.r and v.r.startswith('p'):
                return int(v.r[1:])
            raise Anchor('%s is not a plain field read' % what)

        def observe(fn, out):
            if out:
                fs = probe(mod, fn, lambda st: [ci(st, 'ci', obj(st, 'node')), ci(st, 'out', None)])
                v = fs[0].mem['out'].cells.get(ZERO)
                return fld(v[1] if v else None, fn)
            fs = probe(mod, fn, lambda st: [ci(st, 'ci', obj(st, 'node'))])
            return fld(fs[0].ret, fn)
        self.o_key, self.o_color = observe('t_key', 0), observe('t_color', 0)
        self.o_left, self.o_right = observe('t_left', 1), observe('t_right', 1)
        fs = probe(mod, 't_root', lambda st: [obj(st, 'tree'), ci(st, 'out', None)])
        self.o_root = fld(fs[0].mem['out'].cells[ZERO][1], 't_root')
        # a three-node tree built by the code shows the remaining cells
        eng = Engine(mod, models.BASE + ARENA, max_steps=20000)
        eng.unroll = 20

        def make():
            st = State()
            st.new_region('sym', None, rid='ALLOC', tag='arena')
            st.new_region('sym', Lin.const(self.tsize), rid='T')
            return eng.start(st, 't_ctor', [Ptr('T', ZERO), Ptr('ALLOC', ZERO)])
        st = eng.explore(make)[0]
        tcells0 = {int(o.cval()): c for o, c in st.mem['T'].cells.items()}
        self.o_alloc = next((o for o, (s, v) in tcells0.items() if isinstance(v, Ptr) and v.r == 'ALLOC'), None)
        for k in (2, 1, 3):
            base = st

            def make():
                s = base.copy()
                s.ret = None
                return eng.start(s, 't_insert', [Ptr('T', ZERO), Lin.const(k)])
            st = eng.explore(make)[0]
        root = st.mem['T'].cells[lin(self.o_root)][1]
        R = st.mem[root.r]
        self.nsize = int(R.size.cval())
        L = st.mem[R.cells[lin(self.o_left)][1].r]
        par = [int(o.cval()) for o, (s, v) in L.cells.items() if isinstance(v, Ptr) and v.r == root.r]
        if len(par) != 1:
            raise Anchor('parent link of a tree node')
        self.o_parent = par[0]
        self.ksz = R.cells[lin(self.o_key)][0]
        self.csz = R.cells[lin(self.o_color)][0]
        known = {self.o_key, self.o_color, self.o_left, self.o_right, self.o_parent}
        if {int(o.cval()) for o in R.cells} - known:
            raise Anchor('tree node has further fields')
        cnt = [int(o.cval()) for o, (s, v) in st.mem['T'].cells.items() if isinstance(v, Lin) and v == Lin.const(3)]
        if len(cnt) != 1 or self.o_alloc is None:
            raise Anchor('count field of the tree')
        self.o_count = cnt[0]
        self.cntsz = st.mem['T'].cells[lin(self.o_count)][0]


class Sub:
    """specification of an opaque subtree"""
    __slots__ = ('name', 'bh', 'lo', 'hi', 'parent', 'pred', 'depth')

    def __init__(self, name, bh, lo, hi, parent, pred, depth):
        self.name, self.bh, self.lo, self.hi, self.parent, self.pred, self.depth = name, bh, lo, hi, parent, pred, depth


class TreeCase:
    def __init__(self, ctx, chk, L, fname, label, depth, rule):
        self.ctx, self.chk, self.L, self.fname, self.rule = ctx, chk, L, fname, rule
        self.label = label
        self.maxd = depth
        self.eng = e = Engine(ctx.mod, models.BASE + ARENA2 + NDET, max_steps=ctx.max_steps * 20)
        e.repo_path = ctx.repo_path
        e.unroll = 80
        e.detect_cycles = True
        self.absent = None
        self.lazies = {}

    # ---- materialisation
    def lazy(self, sub):
        z = Lazy(self.resolve)
        z.meta = None
        self.lazies[z.id] = sub
        sub_id = z.id
        return z

    def resolve(self, eng, st, z):
        sub = self.lazies[z.id]

        def empty(s):
            if not s.facts.add_eq(sub.bh):
                return False
            s.bind_lazy(z.id, NULL)

        def node(color):
            def f(s):
                if color == 'black':
                    if not s.facts.add_ge(sub.bh - 1):
                        return False
                p = self.node(s, sub, color)
                s.bind_lazy(z.id, p)
            return f
        out = [empty]
        if sub.depth < self.maxd:
            out.append(node('black'))
            if not sub.pred:
                out.append(node('red'))
        return out

    def node(self, s, sub, color):
        L = self.L
        nm = sub.name
        key = Lin.atom(Atom('k' + nm))
        ok = True
        if sub.lo is not None:
            ok = s.facts.add_ge(key - sub.lo - 1) and ok
        if sub.hi is not None:
            ok = s.facts.add_ge(sub.hi - key - 1) and ok
        if self.absent is not None:
            ok = s.facts.add_ne(key - self.absent) and ok
        r = s.new_region('heap', Lin.const(L.nsize), rid=nm, tag='node')
        r.meta['arena'] = 'ALLOC'
        r.meta['asize'] = Lin.const(L.nsize)
        p = Ptr(nm, ZERO)
        cb = sub.bh - (1 if color == 'black' else 0)
        c = r.cells
        c[lin(L.o_key)] = (L.ksz, key)
        c[lin(L.o_color)] = (L.csz, lin(L.black if color == 'black' else L.red))
        c[lin(L.o_parent)] = (8, sub.parent)
        red = color == 'red'
        c[lin(L.o_left)] = (8, self.lazy(Sub(nm + 'l', cb, sub.lo, key, p, red, sub.depth + 1)))
        c[lin(L.o_right)] = (8, self.lazy(Sub(nm + 'r', cb, key, sub.hi, p, red, sub.depth + 1)))
        s.ghost[('orig', nm)] = (c[lin(L.o_left)][1], key, c[lin(L.o_right)][1])
        return p

    def tree(self, st):
        """an arbitrary red-black tree: 'T'"""
        L = self.L
        st.new_region('sym', None, rid='ALLOC', tag='arena')
        t = st.new_region('sym', Lin.const(L.tsize), rid='T', tag='tree')
        self.h = Lin.atom(Atom('h'))
        self.cnt = Lin.atom(Atom('count'))
        st.facts.add_ge(self.h)
        self.root0 = self.lazy(Sub('n', self.h, None, None, NULL, True, 1))
        t.cells[lin(L.o_root)] = (8, self.root0)
        t.cells[lin(L.o_count)] = (L.cntsz, self.cnt)
        t.cells[lin(L.o_alloc)] = (8, Ptr('ALLOC', ZERO))
        return Ptr('T', ZERO)

    def out(self, st, v=None):
        r = st.new_region('sym', Lin.const(8), rid='OUT', tag='iterator')
        if v is not None:
            r.cells[ZERO] = (8, v)
        return Ptr('OUT', ZERO)

    def cell(self, st, p, o):
        c = st.mem[p.r].cells.get(lin(o))
        return st.deref(c[1]) if c else Top('unset')

    # ---- walking a final state
    def inorder0(self, st, v=None):
        """tokens of the original tree: ('sub', id) and ('key', k, node)"""
        v = st.deref(self.root0 if v is None else v)
        if isinstance(v, Lazy):
            return [('sub', v.id)]
        if v.r is None:
            return []
        l, k, r = st.ghost[('orig', v.r)]
        return self.inorder0(st, l) + [('key', k, v.r)] + self.inorder0(st, r)

    def inorder(self, st, v, seen):
        v = st.deref(v)
        if isinstance(v, Lazy):
            return [('sub', v.id)]
        if not isinstance(v, Ptr):
            return [('bad', v)]
        if v.r is None:
            return []
        if v.r in seen or v.r not in st.mem:
            return [('bad', 'cycle')]
        seen.add(v.r)
        L = self.L
        return self.inorder(st, self.cell(st, v, L.o_left), seen) + [('key', self.cell(st, v, L.o_key), v.r)] + \
            self.inorder(st, self.cell(st, v, L.o_right), seen)

    def put(self, st, ok, what, text=''):
        if isinstance(ok, str):
            s = ok
        else:
            s = 'ok' if ok else 'bad'
        if st.taint and s == 'bad':
            s = 'unknown'
        loc = None
        if st.last:
            l = self.ctx.mod.func_loc(self.ctx.mod.functions[st.last])
            loc = (self.ctx.repo_path(l[0]), l[1]) if l else None
        self.chk.put(s, self.rule, '%s%s: %s' % (self.fname, self.label, what), '' if s == 'ok' else text + ' in ' + self.picture(st), loc)

    def picture(self, st):
        def pic(v):
            v = st.deref(v)
            if isinstance(v, Lazy):
                return '*'
            if not isinstance(v, Ptr):
                return '?'
            if v.r is None:
                return '-'
            l, k, r = st.ghost.get(('orig', v.r), (NULL, '?', NULL))
            return '(%s %s %s)' % (pic(l), k, pic(r))
        return 'original tree %s' % pic(self.root0)

    def run(self, build):
        eng = self.eng

        def make():
            st = State()
            return eng.start(st, self.fname, build(st))
        fin = []
        try:
            fin = eng.explore(make)
        except Undecided as e:
            self.chk.unk('analysis', self.fname + self.label, str(e))
        for n in eng.funcs_seen:
            self.chk.functions.add(self.ctx.mod.demangle(n))
        self.chk.count('abstract states', eng.steps)
        self.chk.count('tree configurations', len(fin))
        n = 0
        for r in eng.reports.values():
            if r.kind == 'undecided':
                self.chk.unk('memory', self.fname + self.label, r.msg, r.loc)
                continue
            n += 1
            self.chk.put('bad' if r.sure else 'unknown', 'memory', '%s%s: %s' % (self.fname, self.label, r.func.split('(')[0]), '[%s] %s' % (r.kind, r.msg), r.loc)
        if not n:
            self.chk.ok('memory', self.fname + self.label)
        if not fin and not eng.reports:
            self.chk.unk('analysis', self.fname + self.label, 'no path reaches the exit')
        return fin

    # ---- invariants of the tree after the operation
    def check_tree(self, st, want, dcount):
        L = self.L
        t = st.mem['T']
        root = self.cell(st, Ptr('T', ZERO), L.o_root)
        probs = []

        def bh(v, parent, pred):
            v = st.deref(v)
            if isinstance(v, Lazy):
                sub = self.lazies[v.id]
                if parent is not None and isinstance(sub.parent, Ptr) and sub.parent.r != (parent.r if parent else None):
                    probs.append(('parent links', 'a moved subtree keeps its old parent'))
                if pred and not sub.pred:
                    probs.append(('no red node has a red child', 'a subtree whose root may be red hangs below a red node'))
                return sub.bh
            if not isinstance(v, Ptr):
                probs.append(('links', 'child link is %r' % (v,)))
                return ZERO
            if v.r is None:
                return ZERO
            if not st.mem[v.r].alive:
                probs.append(('links', 'released node is still linked'))
                return ZERO
            pp = self.cell(st, v, L.o_parent)
            if isinstance(pp, Lin) and pp == ZERO:
                pp = NULL
            if pp != (parent or NULL):
                probs.append(('parent links', 'parent link of a node is %r instead of %r' % (pp, parent)))
            c = self.cell(st, v, L.o_color)
            red = c == lin(L.red)
            if not red and c != lin(L.black):
                probs.append(('colour', 'colour is %r' % (c,)))
            if red and pred:
                probs.append(('no red node has a red child', 'red node below a red node'))
            a = bh(self.cell(st, v, L.o_left), v, red)
            b = bh(self.cell(st, v, L.o_right), v, red)
            if not st.facts.entails_eq(a - b):
                probs.append(('equal black heights', 'black heights %s and %s differ' % (st.facts.norm(a), st.facts.norm(b))))
            return a + (0 if red else 1)
        toks = self.inorder(st, root, set())
        bad = [x for x in toks if x[0] == 'bad']
        self.put(st, not bad, 'links form a tree', str(bad))
        if bad:
            return
        got = [(x[0], x[1]) for x in toks]
        exp = [(x[0], x[1]) for x in want]
        n = lambda l: [(a, st.facts.norm(b) if isinstance(b, Lin) else b) for a, b in l]
        self.put(st, n(got) == n(exp), 'contents and order', 'in-order keys %s, must be %s' % (
            [str(b) if a == 'key' else '*' for a, b in n(got)], [str(b) if a == 'key' else '*' for a, b in n(exp)]))
        rt = st.deref(root)
        bh(rt, None, False)
        if isinstance(rt, Ptr) and rt.r is not None:
            c = self.cell(st, rt, L.o_color)
            self.put(st, c == lin(L.black), 'the root is black', 'root is red')
        names = ('parent links', 'no red node has a red child', 'equal black heights', 'links', 'colour')
        for nm in names:
            p = [x[1] for x in probs if x[0] == nm]
            self.put(st, not p, nm, '; '.join(p[:2]))
        c = self.cell(st, Ptr('T', ZERO), L.o_count)
        self.put(st, classify(st, c, self.cnt + dcount) if isinstance(c, Lin) else False, 'count', 'count is %s' % (c,))
        live = {r.rid for r in st.mem.values() if r.kind == 'heap' and r.alive}
        reach = {x[2] for x in toks if x[0] == 'key'}
        self.put(st, live == reach, 'every node is linked or released', 'unlinked nodes %s' % sorted(live - reach))


def depth(ctx, q, t):
    return t if ctx.tier == 'thorough' else q


def p_update(ctx, chk):
    L = TreeLayout(ctx)
    # insertion of a key that is not stored
    c = TreeCase(ctx, chk, L, 't_insert', '', depth(ctx, 6, 7), 'update')

    def b(st):
        c.absent = Lin.atom(Atom('z'))
        t = c.tree(st)
        return [t, c.absent]
    for st in c.run(b):
        z = c.absent
        w = c.inorder0(st)
        # position of z: after the last original key below z
        i = 0
        for j, x in enumerate(w):
            if x[0] == 'key' and st.facts.entails_ge(z - x[1] - 1):
                i = j + 1
        # an untouched subtree between the neighbours of z cannot exist: z was linked below a leaf
        nb = w[i] if i < len(w) else None
        if nb and nb[0] == 'sub':
            # some operations stop before reaching the leaf
            c.put(st, 'bad', 'contents and order', 'the key is placed without looking at the subtree it belongs to')
            continue
        w = w[:i] + [('key', z)] + w[i:]
        c.check_tree(st, w, 1)
    # removal
    for fn in ('t_remove', 't_remove_it'):
        c = TreeCase(ctx, chk, L, fn, '', depth(ctx, 6, 7), 'update')

        def b(st):
            t = c.tree(st)
            st.facts.add_ge(c.h - 1)
            if fn == 't_remove':
                return [t, Lazy(lambda e, s, z: walk(c, s, z, True))]
            return [t, c.out(st, Lazy(lambda e, s, z: walk(c, s, z)))]
        for st in c.run(b):
            w = c.inorder0(st)
            v = st.deref(st.ghost.get('target', NULL))
            hit = [j for j, x in enumerate(w) if x[0] == 'key' and x[2] == v.r]
            if not hit:
                c.put(st, False, 'contents and order', 'the node to remove was not looked at')
                continue
            w = w[:hit[0]] + w[hit[0] + 1:]
            c.check_tree(st, w, -1)


def walk(c, st, z, key=False):
    """choose an arbitrary node: descend from the root step by step"""
    L = c.L
    cur = st.ghost.get('walk', c.root0)
    v = st.deref(cur)
    if isinstance(v, Lazy):
        return v.resolver(c.eng, st, v)
    if v.r is None:
        return []

    def here(s):
        s.ghost['target'] = v
        s.bind_lazy(z.id, s.ghost[('orig', v.r)][1] if key else v)

    def down(o):
        def f(s):
            s.ghost['walk'] = s.mem[v.r].cells[lin(o)][1]
        return f
    return [here, down(L.o_left), down(L.o_right)]


def p_query(ctx, chk):
    L = TreeLayout(ctx)
    D = depth(ctx, 5, 6)

    def outp(c, st):
        v = c.cell(st, Ptr('OUT', ZERO), 0)
        return NULL if isinstance(v, Lin) and v == ZERO else v

    def clean(toks):
        return toks
    for fn in ('t_find', 't_findPrev', 't_findNext'):
        c = TreeCase(ctx, chk, L, fn, '', D, 'query')

        def b(st):
            t = c.tree(st)
            c.z = Lin.atom(Atom('z'))
            return [t, c.z, c.out(st)]
        for st in c.run(b):
            z = c.z
            toks = c.inorder0(st)
            v = outp(c, st)
            if not isinstance(v, Ptr):
                c.put(st, 'unknown', 'answer', 'iterator is %r' % (v,))
                continue
            f = st.facts
            if fn == 't_find':
                if v.r is not None:
                    k = [x[1] for x in toks if x[0] == 'key' and x[2] == v.r]
                    c.put(st, bool(k) and f.entails_eq(k[0] - z), 'the found node has the key', 'found %s' % k)
                else:
                    c.put(st, gap(c, st, toks, z, 'find') is None, 'a stored key is found', '%s' % gap(c, st, toks, z, 'find'))
            else:
                below = fn == 't_findPrev'
                # greatest key < z / least key > z
                seq = toks if not below else toks[::-1]
                ans = None
                err = None
                for x in seq:
                    if x[0] == 'key':
                        d = (z - x[1]) if below else (x[1] - z)
                        if f.entails_ge(d - 1):
                            ans = x[2]
                            break
                        if not f.entails_ge(-d):
                            err = 'the answer is given without comparing with %s' % x[1]
                            break
                    else:
                        sub = c.lazies[x[1]]
                        lim = sub.lo if not below else sub.hi
                        # every key of an untouched subtree must be on the wrong side of z
                        ok = (sub.hi is not None and f.entails_ge(z - sub.hi)) if not below else (sub.lo is not None and f.entails_ge(sub.lo - z))
                        if not ok:
                            err = 'the answer is given without looking into a subtree that may hold it'
                            break
                if err:
                    c.put(st, False, 'nearest key', err)
                else:
                    c.put(st, v.r == ans, 'nearest key', 'answer is %s, must be %s' % (v.r, ans))
            unchanged(c, st)
    for fn in ('t_min', 't_max', 't_minkey', 't_maxkey'):
        c = TreeCase(ctx, chk, L, fn, '', D, 'query')

        def b(st):
            t = c.tree(st)
            if fn in ('t_minkey', 't_maxkey'):
                st.facts.add_ge(c.h - 1)
                return [t]
            return [t, c.out(st)]
        for st in c.run(b):
            toks = c.inorder0(st)
            e = (toks[0] if fn in ('t_min', 't_minkey') else toks[-1]) if toks else None
            if fn in ('t_minkey', 't_maxkey'):
                c.put(st, e is not None and e[0] == 'key' and isinstance(st.ret, Lin) and st.facts.entails_eq(st.ret - e[1]), 'extreme key', 'got %s' % st.ret)
            else:
                v = outp(c, st)
                c.put(st, isinstance(v, Ptr) and (v.r is None if e is None else e[0] == 'key' and e[2] == v.r), 'extreme node', 'got %r' % (v,))
            unchanged(c, st)
    for fn in ('t_inc', 't_dec'):
        c = TreeCase(ctx, chk, L, fn, '', D, 'query')

        def b(st):
            c.tree(st)
            return [c.out(st, Lazy(lambda e, s, z: walk(c, s, z)))]
        for st in c.run(b):
            toks = c.inorder0(st)
            v = outp(c, st)
            tg = st.deref(st.ghost['target'])
            i = next(j for j, x in enumerate(toks) if x[0] == 'key' and x[2] == tg.r)
            i += 1 if fn == 't_inc' else -1
            e = toks[i] if 0 <= i < len(toks) else None
            c.put(st, isinstance(v, Ptr) and (v.r is None if e is None else e[0] == 'key' and e[2] == v.r), 'neighbour in order',
                  'got %r, must be %s' % (v, e))
            unchanged(c, st)
    for fn in ('t_bool', 't_length', 't_root'):
        c = TreeCase(ctx, chk, L, fn, '', D, 'query')

        def b(st):
            t = c.tree(st)
            return [t] if fn != 't_root' else [t, c.out(st)]
        for st in c.run(b):
            if fn == 't_length':
                c.put(st, classify(st, st.ret, c.cnt), 'length', 'got %s' % st.ret)
            elif fn == 't_root':
                v = outp(c, st)
                c.put(st, st.deref(v) == st.deref(c.root0), 'root', 'got %r' % (v,))
            else:
                r = st.deref(c.root0)
                if isinstance(r, Lazy):
                    c.put(st, 'unknown', 'emptiness test', 'root not inspected')
                else:
                    c.put(st, isinstance(st.ret, Lin) and st.ret.is_const() and (st.ret.cval() != 0) == (r.r is not None), 'emptiness test', 'got %s' % st.ret)


def gap(c, st, toks, z, how):
    """None if z provably differs from every key of the tree"""
    f = st.facts
    for x in toks:
        if x[0] == 'key':
            if not f.entails_ne(z - x[1]):
                return 'a node that may hold the key was not compared'
        else:
            sub = c.lazies[x[1]]
            if not ((sub.lo is not None and f.entails_ge(sub.lo - z)) or (sub.hi is not None and f.entails_ge(z - sub.hi))):
                return 'a subtree that may hold the key was not searched'
    return None


def unchanged(c, st):
    L = c.L
    root = c.cell(st, Ptr('T', ZERO), L.o_root)
    n = lambda l: [(x[0], st.facts.norm(x[1]) if isinstance(x[1], Lin) else x[1]) for x in l]
    a, b = n(c.inorder(st, root, set())), n(c.inorder0(st))
    c.put(st, a == b, 'the tree is not modified', 'modified')


def p_own(ctx, chk):
    scenarios(ctx, chk, 'T03', rule='ownership')
