"""Parser for the subset of textual LLVM-18 IR that clang emits for this
repository.  Functions are parsed lazily; struct layouts follow the x86-64
data layout."""
import re
import subprocess
from fractions import Fraction


class ParseError(Exception):
    pass


# ---------------------------------------------------------------- tokenizer
TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMH]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_$][-a-zA-Z0-9_.$]*)
 | (?P<punct><\{|\}>|\.\.\.|[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c in ' \t\n':
            pos += 1
            continue
        if c == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise ParseError('token at %r' % s[pos:pos + 40])
        out.append((m.lastgroup, m.group()))
        pos = m.end()
    return out


# types: ('int', n) ('ptr',) ('double',) ('float',) ('void',) ('struct', packed, [..])
#        ('array', n, t) ('named', name) ('vec', n, t) ('label',) ('metadata',) ('func',)
class Toks:
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def accept(self, txt):
        if self.peek()[1] == txt:
            self.i += 1
            return True
        return False

    def expect(self, txt):
        if not self.accept(txt):
            raise ParseError('expected %r got %r in %r' % (txt, self.peek(), self.t))


INT = re.compile(r'^i\d+$')
FLOATS = {'double': 8, 'float': 4, 'x86_fp80': 16, 'half': 2, 'fp128': 16}


def parse_type(t):
    k, v = t.next()
    if k == 'word':
        if INT.match(v):
            r = ('int', int(v[1:]))
        elif v == 'ptr':
            r = ('ptr',)
        elif v in FLOATS:
            r = ('fp', v)
        elif v == 'void':
            r = ('void',)
        elif v == 'label':
            r = ('label',)
        elif v == 'metadata':
            r = ('metadata',)
        elif v == 'opaque':
            r = ('opaque',)
        elif v == 'token':
            r = ('token',)
        else:
            raise ParseError('type %r' % v)
    elif k == 'loc':
        r = ('named', v)
    elif v == '{' or v == '<{':
        close = '}' if v == '{' else '}>'
        el = []
        while not t.accept(close):
            el.append(parse_type(t))
            t.accept(',')
        r = ('struct', v == '<{', el)
    elif v == '[':
        n = int(t.next()[1])
        t.expect('x')
        e = parse_type(t)
        t.expect(']')
        r = ('array', n, e)
    elif v == '<':
        n = int(t.next()[1])
        t.expect('x')
        e = parse_type(t)
        t.expect('>')
        r = ('vec', n, e)
    else:
        raise ParseError('type tok %r' % (v,))
    # function type suffix
    while t.peek()[1] == '(':
        depth = 0
        while True:
            _, x = t.next()
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0:
                    break
        r = ('func', r)
    return r


PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly',
               'readnone', 'returned', 'inreg', 'writeonly', 'immarg', 'nest', 'noreturn', 'nofree',
               'swiftself', 'allocalign', 'allocptr', 'writable', 'dead_on_unwind', 'nounwind'}


def skip_attrs(t):
    while True:
        k, v = t.peek()
        if k != 'word':
            if k == 'attr':
                t.next()
                continue
            return
        if v in PARAM_ATTRS:
            t.next()
        elif v == 'align':
            t.next()
            t.next()
        elif v in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'inalloca',
                   'elementtype', 'preallocated', 'memory', 'allocsize', 'range', 'nofpclass', 'captures'):
            t.next()
            if t.accept('('):
                d = 1
                while d:
                    x = t.next()[1]
                    d += (x == '(') - (x == ')')
        else:
            return


CE_OPS = {'getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'add', 'sub', 'mul',
          'select', 'icmp', 'xor', 'addrspacecast', 'shl'}


def parse_value(t, ty):
    """operand of the (already parsed) type"""
    k, v = t.next()
    if k == 'loc':
        return ('loc', v)
    if k == 'glob':
        return ('glob', v[1:].strip('"'))
    if k == 'num':
        if ty[0] == 'fp':
            if v.startswith('0x'):
                import struct
                try:
                    return ('fp', Fraction(struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]))
                except (ValueError, OverflowError):
                    return ('undef',)
            return ('fp', Fraction(v))
        return ('int', int(v))
    if k == 'word':
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'none':
            return ('undef',)
        if v in CE_OPS:
            return parse_cexpr(t, v)
        if v in ('blockaddress', 'dso_local_equivalent', 'no_cfi'):
            return ('undef',)
    if k == 'str':
        return ('str', v)
    if v in ('{', '<{', '[', '<'):
        close = {'{': '}', '<{': '}>', '[': ']', '<': '>'}[v]
        el = []
        while not t.accept(close):
            et = parse_type(t)
            el.append((et, parse_value(t, et)))
            t.accept(',')
        return ('agg', el)
    if k == 'md':
        # metadata operand: swallow
        d = 0
        while True:
            kk, vv = t.peek()
            if vv == '(':
                d += 1
            if vv == ')':
                if d == 0:
                    break
                d -= 1
            if vv is None or (vv == ',' and d == 0):
                break
            t.next()
        return ('undef',)
    raise ParseError('value %r' % (v,))


def parse_cexpr(t, op):
    while t.peek()[0] == 'word' and t.peek()[1] in ('inbounds', 'nuw', 'nsw', 'exact', 'inrange'):
        t.next()
    t.expect('(')
    args = []
    if op == 'getelementptr':
        bt = parse_type(t)
        t.expect(',')
        while True:
            t.accept('inrange')
            at = parse_type(t)
            args.append((at, parse_value(t, at)))
            if not t.accept(','):
                break
        t.expect(')')
        return ('cexpr', 'getelementptr', bt, args)
    if op == 'icmp':
        pred = t.next()[1]
        args.append(pred)
    while True:
        at = parse_type(t)
        args.append((at, parse_value(t, at)))
        if t.accept('to'):
            tt = parse_type(t)
            t.expect(')')
            return ('cexpr', op, tt, args)
        if not t.accept(','):
            break
    t.expect(')')
    return ('cexpr', op, None, args)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'txt')

    def __init__(self, op, res, ty, a, line, txt):
        self.op, self.res, self.ty, self.a, self.line, self.txt = op, res, ty, a, line, txt


class Block:
    __slots__ = ('name', 'phis', 'ins')

    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []


class Func:
    def __init__(self, mod, name, header, body, dbg):
        self.mod, self.name = mod, name
        self._header, self._body = header, body
        self._dbg = dbg
        self._parsed = False

    def __repr__(self):
        return '<Func %s>' % self.demangled

    @property
    def demangled(self):
        return self.mod.demangle(self.name)

    def _ensure(self):
        if self._parsed:
            return
        self._parsed = True
        t = Toks(tokenize(self._header))
        # find '@name' '('
        while t.peek()[0] != 'glob':
            t.next()
        t.next()
        t.expect('(')
        self._params = []
        while not t.accept(')'):
            if t.accept('...'):
                continue
            ty = parse_type(t)
            skip_attrs(t)
            if t.peek()[0] == 'loc':
                self._params.append((t.next()[1], ty))
            t.accept(',')
        self._blocks = {}
        self._order = []
        cur = None
        lines = self._body
        i = 0
        joined = []
        while i < len(lines):
            ln = lines[i]
            s = ln.strip()
            # join multi-line instructions (switch, invoke, landingpad)
            if s.startswith('switch ') or re.match(r'^(%\S+ = )?switch ', s):
                while ']' not in ln:
                    i += 1
                    ln += ' ' + lines[i].strip()
            elif re.match(r'^(%("[^"]*"|\S+) = )?invoke ', s):
                i += 1
                ln += ' ' + lines[i].strip()
            elif re.match(r'^%("[^"]*"|\S+) = landingpad ', s):
                while i + 1 < len(lines) and re.match(r'^\s+(cleanup|catch|filter)', lines[i + 1]):
                    i += 1
                    ln += ' ' + lines[i].strip()
            joined.append(ln)
            i += 1
        nparam_unnamed = 0
        for ln in joined:
            if not ln.strip():
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if m and not ln.startswith(' '):
                nm = '%' + m.group(1)
                cur = Block(nm)
                self._blocks[nm] = cur
                self._order.append(nm)
                continue
            if cur is None:
                cur = Block('%__entry__')
                self._blocks[cur.name] = cur
                self._order.append(cur.name)
            ins = parse_instr(ln, self.mod)
            if ins is None:
                continue
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)
        # an unnamed entry block: predecessors reference it by number; handled by cfg users
        self._analyse()

    @property
    def params(self):
        self._ensure()
        return self._params

    @property
    def blocks(self):
        self._ensure()
        return self._blocks

    @property
    def entry(self):
        self._ensure()
        return self._order[0]

    def succs(self, b):
        term = self.blocks[b].ins[-1]
        return term_succs(term)

    def _analyse(self):
        # natural loop headers by DFS back edges; liveness of SSA values at headers
        blocks = self._blocks
        succ = {b: [s for s in term_succs(blocks[b].ins[-1])] for b in blocks}
        self._succ = succ
        color = {}
        self.headers = set()
        self.backedges = set()
        stack = [(self._order[0], iter(succ[self._order[0]]))]
        color[self._order[0]] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
                elif color[s] == 1:
                    self.headers.add(s)
                    self.backedges.add((b, s))
            else:
                color[b] = 2
                stack.pop()
        preds = {b: [] for b in blocks}
        for b in succ:
            for s in succ[b]:
                preds[s].append(b)
        self.preds = preds
        # loop bodies
        self.loop_body = {}
        for (b, h) in self.backedges:
            body = self.loop_body.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(preds[x])
        # liveness
        use, define, phiuse = {}, {}, {}
        for b in blocks.values():
            u, d = set(), set()
            for p in b.phis:
                d.add(p.res)
                for (v, pb) in p.a:
                    if v[0] == 'loc':
                        phiuse.setdefault((pb, b.name), set()).add(v[1])
            for ins in b.ins:
                for o in instr_uses(ins):
                    if o not in d:
                        u.add(o)
                if ins.res:
                    d.add(ins.res)
            use[b.name], define[b.name] = u, d
        live_in = {b: set() for b in blocks}
        changed = True
        order = list(reversed(self._order))
        while changed:
            changed = False
            for b in order:
                out = set()
                for s in succ[b]:
                    out |= live_in[s]
                    out |= phiuse.get((b, s), set())
                new = use[b] | (out - define[b])
                # phi results are defined at block start
                if new != live_in[b]:
                    live_in[b] = new
                    changed = True
        self.live_in = live_in
        self._phiuse = phiuse

    def live_at_header(self, h):
        self._ensure()
        return self.live_in[h] | {p.res for p in self._blocks[h].phis}

    def live_after(self, b, idx):
        """SSA names live after instruction idx of block b"""
        live = set()
        for s in self._succ[b]:
            live |= self.live_in[s]
            live |= self._phiuse.get((b, s), set())
        for ins in reversed(self._blocks[b].ins[idx + 1:]):
            if ins.res:
                live.discard(ins.res)
            live |= set(instr_uses(ins))
        return live


def term_succs(term):
    if term.op == 'br':
        return list(dict.fromkeys(term.a[1:])) if term.a[0] is not None else [term.a[1]]
    if term.op == 'switch':
        return list(dict.fromkeys([term.a[1]] + [x[1] for x in term.a[2]]))
    if term.op == 'invoke':
        return [term.a[2]]          # normal destination only
    return []


def val_uses(v):
    if v is None:
        return
    if v[0] == 'loc':
        yield v[1]
    elif v[0] == 'agg':
        for _, x in v[1]:
            yield from val_uses(x)
    elif v[0] == 'cexpr':
        return


def instr_uses(ins):
    op, a = ins.op, ins.a
    if op == 'phi':
        return []
    r = []
    if op in ('call', 'invoke'):
        r += list(val_uses(a[0]))
        for ty, v in a[1]:
            r += list(val_uses(v))
    elif op == 'br':
        r += list(val_uses(a[0])) if a[0] is not None else []
    elif op == 'switch':
        r += list(val_uses(a[0]))
    elif op == 'gep':
        for ty, v in a[1]:
            r += list(val_uses(v))
    elif op == 'ret':
        r += list(val_uses(a[0])) if a[0] is not None else []
    else:
        for x in a:
            if isinstance(x, tuple) and x and x[0] in ('loc', 'agg'):
                r += list(val_uses(x))
    return r


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
         'reassoc', 'samesign', 'inbounds', 'volatile'}
CASTS = {'sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
         'fpext', 'fptrunc', 'addrspacecast'}
DBG = re.compile(r', !dbg !(\d+)')


def parse_instr(ln, mod):
    m = DBG.search(ln)
    line = int(m.group(1)) if m else None
    # cut metadata suffix
    s = ln
    k = re.search(r', ![a-zA-Z]', s)
    if k and 'metadata' not in s:
        s = s[:k.start()]
    if '@llvm.dbg.' in s or '@llvm.experimental.noalias' in s:
        return None
    t = Toks(tokenize(s))
    res = None
    if t.peek()[0] == 'loc' and t.peek(1)[1] == '=':
        res = t.next()[1]
        t.next()
    k, op = t.next()
    txt = s.strip()

    def mk(o, ty, a):
        return Instr(o, res, ty, a, line, txt)

    while op in ('tail', 'musttail', 'notail'):
        k, op = t.next()
    if op in BIN or op == 'fneg':
        while t.peek()[1] in FLAGS:
            t.next()
        ty = parse_type(t)
        x = parse_value(t, ty)
        if op == 'fneg':
            return mk('fneg', ty, (x,))
        t.expect(',')
        y = parse_value(t, ty)
        return mk(op, ty, (x, y))
    if op in CASTS:
        while t.peek()[1] in FLAGS:
            t.next()
        ty = parse_type(t)
        x = parse_value(t, ty)
        t.expect('to')
        tt = parse_type(t)
        return mk(op, tt, (x, ty))
    if op in ('icmp', 'fcmp'):
        while t.peek()[1] in FLAGS:
            t.next()
        pred = t.next()[1]
        ty = parse_type(t)
        x = parse_value(t, ty)
        t.expect(',')
        y = parse_value(t, ty)
        return mk(op, ty, (pred, x, y))
    if op == 'alloca':
        t.accept('inalloca')
        ty = parse_type(t)
        n = None
        if t.accept(','):
            if t.peek()[1] != 'align':
                at = parse_type(t)
                n = parse_value(t, at)
        return mk('alloca', ty, (n,))
    if op == 'load':
        while t.peek()[1] in ('volatile', 'atomic'):
            t.next()
        ty = parse_type(t)
        t.expect(',')
        parse_type(t)
        return mk('load', ty, (parse_value(t, ('ptr',)),))
    if op == 'store':
        while t.peek()[1] in ('volatile', 'atomic'):
            t.next()
        ty = parse_type(t)
        v = parse_value(t, ty)
        t.expect(',')
        parse_type(t)
        return mk('store', ty, (v, parse_value(t, ('ptr',))))
    if op == 'getelementptr':
        while t.peek()[1] in FLAGS:
            t.next()
        bt = parse_type(t)
        t.expect(',')
        args = []
        while True:
            at = parse_type(t)
            args.append((at, parse_value(t, at)))
            if not t.accept(','):
                break
        return mk('gep', bt, (bt, args))
    if op == 'br':
        if t.accept('label'):
            return mk('br', None, (None, t.next()[1]))
        parse_type(t)
        c = parse_value(t, ('int', 1))
        t.expect(',')
        t.expect('label')
        a = t.next()[1]
        t.expect(',')
        t.expect('label')
        b = t.next()[1]
        return mk('br', None, (c, a, b))
    if op == 'switch':
        ty = parse_type(t)
        v = parse_value(t, ty)
        t.expect(',')
        t.expect('label')
        d = t.next()[1]
        t.expect('[')
        cases = []
        while not t.accept(']'):
            ct = parse_type(t)
            cv = parse_value(t, ct)
            t.expect(',')
            t.expect('label')
            cases.append((cv[1], t.next()[1]))
        return mk('switch', ty, (v, d, cases))
    if op == 'ret':
        ty = parse_type(t)
        if ty[0] == 'void':
            return mk('ret', ty, (None,))
        return mk('ret', ty, (parse_value(t, ty),))
    if op == 'unreachable':
        return mk('unreachable', None, ())
    if op == 'resume':
        return mk('unreachable', None, ())
    if op == 'phi':
        while t.peek()[1] in FLAGS:
            t.next()
        ty = parse_type(t)
        inc = []
        while t.accept('['):
            v = parse_value(t, ty)
            t.expect(',')
            b = t.next()[1]
            t.expect(']')
            inc.append((v, b))
            t.accept(',')
        return mk('phi', ty, inc)
    if op == 'select':
        while t.peek()[1] in FLAGS:
            t.next()
        ct = parse_type(t)
        c = parse_value(t, ct)
        t.expect(',')
        ty = parse_type(t)
        x = parse_value(t, ty)
        t.expect(',')
        parse_type(t)
        y = parse_value(t, ty)
        return mk('select', ty, (c, x, y))
    if op == 'extractvalue':
        ty = parse_type(t)
        v = parse_value(t, ty)
        idx = []
        while t.accept(','):
            idx.append(int(t.next()[1]))
        return mk('extractvalue', ty, (v, idx))
    if op == 'insertvalue':
        ty = parse_type(t)
        v = parse_value(t, ty)
        t.expect(',')
        et = parse_type(t)
        e = parse_value(t, et)
        idx = []
        while t.accept(','):
            idx.append(int(t.next()[1]))
        return mk('insertvalue', ty, (v, e, idx))
    if op == 'freeze':
        ty = parse_type(t)
        return mk('freeze', ty, (parse_value(t, ty),))
    if op == 'landingpad':
        return mk('landingpad', None, ())
    if op in ('call', 'invoke'):
        while t.peek()[1] in FLAGS or t.peek()[1] in ('fastcc', 'ccc', 'cc', 'coldcc'):
            t.next()
        skip_attrs(t)
        while t.peek()[1] == 'addrspace':
            t.next(), t.next(), t.next(), t.next()
        ty = parse_type(t)
        if ty[0] == 'func':
            ty = ty[1]
        callee = parse_value(t, ('ptr',))
        t.expect('(')
        args = []
        while not t.accept(')'):
            at = parse_type(t)
            skip_attrs(t)
            args.append((at, parse_value(t, at)))
            t.accept(',')
        if op == 'call':
            return mk('call', ty, (callee, args))
        while t.peek()[1] != 'to':
            t.next()
        t.next()
        t.expect('label')
        nd = t.next()[1]
        return mk('invoke', ty, (callee, args, nd))
    if op in ('atomicrmw', 'cmpxchg', 'fence', 'extractelement', 'insertelement', 'shufflevector', 'va_arg',
              'cleanupret', 'catchret'):
        return mk('unsupported', None, (op,))
    raise ParseError('instr %r' % ln)


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.functions = {}
        self.globals = {}
        self.declares = set()
        self.aliases = {}
        self._md = {}
        self._dem = {}
        self._parse(open(path).read())
        self._demangle_all()

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('%'):
                m = re.match(r'^(%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                self.types[m.group(1)] = m.group(2)
            elif ln.startswith('define'):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
                name = m.group(1).strip('"')
                d = re.search(r'!dbg !(\d+)', ln)
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                self.functions[name] = Func(self, name, ln, body, int(d.group(1)) if d else None)
            elif ln.startswith('declare'):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.declares.add(m.group(1).strip('"'))
            elif ln.startswith('@'):
                m = re.match(r'^@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
                nm = m.group(1).strip('"')
                rest = m.group(2)
                ma = re.search(r'\balias\b.*, ptr @("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', rest)
                if ma and re.search(r'\balias\b', rest.split('"')[0]):
                    self.aliases[nm] = ma.group(1).strip('"')
                else:
                    self.globals[nm] = rest
            elif ln.startswith('!'):
                m = re.match(r'^!(\d+) = (.*)$', ln)
                if m:
                    self._md[int(m.group(1))] = m.group(2)
            i += 1

    def _demangle_all(self):
        names = sorted(set(self.functions) | self.declares | set(self.globals) | set(self.aliases))
        r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        for a, b in zip(names, r.stdout.split('\n')):
            self._dem[a] = b

    def demangle(self, n):
        return self._dem.get(n, n)

    # ---- debug locations
    def loc(self, md):
        """(file, line) for a debug-metadata number, the innermost source position"""
        if md is None or md not in self._md:
            return None
        s = self._md[md]
        m = re.search(r'line: (\d+)', s)
        sc = re.search(r'scope: !(\d+)', s)
        return (self._file(int(sc.group(1))) if sc else '?', int(m.group(1)) if m else 0)

    def func_loc(self, f):
        if f._dbg is None or f._dbg not in self._md:
            return None
        s = self._md[f._dbg]
        m = re.search(r'line: (\d+)', s)
        return (self._file(f._dbg), int(m.group(1)) if m else 0)

    def _file(self, sc):
        seen = 0
        while sc in self._md and seen < 40:
            s = self._md[sc]
            m = re.search(r'file: !(\d+)', s)
            if m:
                f = self._md.get(int(m.group(1)), '')
                m2 = re.search(r'filename: "([^"]*)"', f)
                return m2.group(1) if m2 else '?'
            m = re.search(r'scope: !(\d+)', s)
            if not m:
                break
            sc = int(m.group(1))
            seen += 1
        return '?'

    # ---- layouts
    def resolve(self, ty):
        while ty[0] == 'named':
            d = self.types[ty[1]]
            if isinstance(d, str):
                d = parse_type(Toks(tokenize(d)))
                self.types[ty[1]] = d
            ty = d
        return ty

    def align(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == 'int':
            b = (ty[1] + 7) // 8
            return 1 if b <= 1 else 2 if b <= 2 else 4 if b <= 4 else 8 if b <= 8 else 16
        if k == 'ptr':
            return 8
        if k == 'fp':
            return FLOATS[ty[1]]
        if k == 'struct':
            if ty[1]:
                return 1
            return max([self.align(e) for e in ty[2]] or [1])
        if k == 'array':
            return self.align(ty[2])
        if k == 'vec':
            return self.size(ty)
        return 1

    def size(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == 'int':
            b = (ty[1] + 7) // 8
            a = self.align(ty)
            return (b + a - 1) // a * a
        if k == 'ptr':
            return 8
        if k == 'fp':
            return FLOATS[ty[1]]
        if k == 'struct':
            off = 0
            for e in ty[2]:
                if not ty[1]:
                    a = self.align(e)
                    off = (off + a - 1) // a * a
                off += self.size(e)
            a = self.align(ty)
            return (off + a - 1) // a * a
        if k == 'array':
            return ty[1] * self.size(ty[2])
        if k == 'vec':
            return ty[1] * self.size(ty[2])
        return 0

    def field_offset(self, ty, i):
        ty = self.resolve(ty)
        off = 0
        for j, e in enumerate(ty[2]):
            if not ty[1]:
                a = self.align(e)
                off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += self.size(e)
        raise ParseError('field')

    def find(self, pattern):
        """functions whose demangled name matches the regular expression"""
        rx = re.compile(pattern)
        return [f for n, f in self.functions.items() if rx.search(self._dem.get(n, n))]

    def get(self, name):
        name = self.aliases.get(name, name)
        return self.functions.get(name)
