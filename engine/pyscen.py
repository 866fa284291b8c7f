"""Client programs over the Python layer: every path, obligations, witnesses."""
import ast
import warnings
import math
import os
import random
import sys
import time
from fractions import Fraction
from fw import Broken
from build_ir import REPO
from lin import *
import pyabs
from pyabs import *
import pymodels


def trees(names, d='pyginv'):
    out = {}
    for n in names:
        p = os.path.join(REPO, d, n + '.py')
        if not os.path.exists(p):
            raise Broken('no ' + p)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                out[n] = ast.parse(open(p, encoding='utf-8').read(), p)
        except SyntaxError as e:
            raise Broken('%s does not parse: %s' % (p, e))
    return out


class P(Interp):
    """one path of one client program"""
    suffix = '.py'

    def __init__(self, ts, script, steps, rec):
        super().__init__(ts, script, steps)
        self.rec = rec
        self.atoms = []

    # inputs
    def nat(self, name, hi=None, lo=0):
        a = Atom(name)
        self.atoms.append(a)
        e = Lin.atom(a)
        self.facts.add_ge(e - lo)
        if hi is not None:
            self.facts.add_ge(Lin.const(hi) - e)
        return e

    def whole(self, name):
        return Lin.atom(Atom(name))

    def coef(self, name, nonzero=True):
        e = Lin.atom(Atom(name))
        if nonzero:
            self.facts.add_ne(e)
        return Rat(e)

    def assume(self, c):
        if not c:
            raise PathEnd()

    def get(self, mod, name):
        return self.module(mod).v[name]

    def m(self, o, name, *a, **k):
        """method call"""
        return self.call(self.attr(o, name), list(a), k)

    def attr(self, o, name):
        """an attribute the client asks for: without it there is nothing to judge"""
        try:
            return self.getattr(o, name)
        except PyExc as e:
            if e.name == 'AttributeError' and not self.stack:
                raise Unsup('no attribute ' + name)
            raise

    def op(self, s, a, b):
        return self.binop({'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '**': ast.Pow}[s], a, b)

    # obligations
    def put(self, status, site, text=''):
        self.rec.put(status, site, text, self)

    def chk(self, c, site, text='does not hold'):
        self.put('ok' if c else 'bad', site, '' if c else text)

    def eqint(self, got, want, site):
        if not isinstance(got, (int, Lin)) or isinstance(got, bool) and not isinstance(want, bool):
            return self.put('bad', site, 'is %r, must be %s' % (got, want))
        e = self.facts.norm(lin(got) - lin(want))
        if self.proved0(e):
            return self.put('ok', site)
        w = self.witness(e)
        self.put('bad' if w is not None else 'unknown', site, 'is %s, must be %s%s' % (self.facts.norm(lin(got)), self.facts.norm(lin(want)), ' for ' + w if w else ''))

    def eqrat(self, got, want, site):
        try:
            g, w = self.rat(got), self.rat(want)
        except Unsup:
            return self.put('bad', site, 'is %r, must be %r' % (got, want))
        e = self.facts.norm(g.n * w.d - w.n * g.d)
        if self.proved0(e):
            return self.put('ok', site)
        x = self.witness(e)
        self.put('bad' if x is not None else 'unknown', site, 'is %s, must be %s%s' % (g, w, ' for ' + x if x else ''))

    def witness(self, e):
        """values of the unknowns on this path for which e is not zero"""
        base = set()

        def deep(a):
            if a.kind == 'app' and a in pymodels.PACK:
                for x in pymodels.PACK[a]:
                    for b in list(x.n.atoms()) + list(x.d.atoms()):
                        deep(b)
            else:
                base.add(a)
        fs = self.facts
        for l in [e] + list(fs.ge) + list(fs.ne) + list(fs.sub.values()):
            for a in l.atoms():
                deep(a)
        for a in fs.sub:
            pass
        free = sorted(a for a in base if a not in fs.sub)
        rng = random.Random(7)

        def val(a, env):
            if a in env:
                return env[a]
            if a in fs.sub:
                r = ev(fs.sub[a], env)
            elif a.kind == 'app' and a in pymodels.PACK:
                xs = []
                for x in pymodels.PACK[a]:
                    d = ev(x.d, env)
                    if d == 0:
                        raise ValueError
                    xs.append(Fraction(ev(x.n, env)) / d)
                if any(x.denominator != 1 for x in xs):
                    raise ValueError
                r = 0 if a.name == 'gcd' else 1
                for x in xs:
                    if a.name == 'gcd':
                        r = math.gcd(r, abs(int(x)))
                    else:
                        if x == 0:
                            raise ValueError
                        r = r * abs(int(x)) // math.gcd(r, abs(int(x)))
            else:
                raise ValueError
            env[a] = r
            return r

        def ev(l, env):
            r = Fraction(0)
            for m, c in l.t.items():
                p = Fraction(c)
                for a in m:
                    p *= val(a, env)
                r += p
            return r
        for t in range(400):
            hi = 1 if t < 40 else 3 if t < 120 else 12
            env = {a: rng.randint(-hi, hi) if t % 2 else rng.randint(0, hi) for a in free}
            try:
                show = {a: env[a] for a in free}
                if any(ev(g, env) < 0 for g in fs.ge) or any(ev(g, env) == 0 for g in fs.ne):
                    continue
                if any(v.denominator != 1 for v in (ev(s, env) for s in fs.sub.values())):
                    continue
                if ev(e, env) != 0:
                    return ', '.join('%s=%s' % (a, show[a]) for a in free[:12])
            except (ValueError, ZeroDivisionError):
                continue
        return None

    def raises(self, f):
        """exception raised by f, or None"""
        try:
            f()
        except PyExc as e:
            return e.name
        return None


class Rec:
    def __init__(self, chk, rule, name, only, pyexc):
        self.chk, self.rule, self.name, self.only, self.pyexc = chk, rule, name, only, pyexc

    def put(self, status, site, text, p):
        if self.only and not any(site.startswith(o) for o in self.only):
            return
        loc = None
        if p.node is not None and p.modname in p.trees:
            loc = (os.path.join(REPO, p.srcdir, p.modname + p.suffix), getattr(p.node, 'lineno', 0))
        elif p.last and p.last[0] in p.trees:
            loc = (os.path.join(REPO, p.srcdir, p.last[0] + p.suffix), p.last[1])
        if status != 'ok':
            if p.last and p.node is None or p.modname not in p.trees:
                text += ' after %s' % p.last[2] if p.last else ''
            text += ' [%s]' % '; '.join(p.trail) if p.trail else ''
            fs = [str(x) for x in p.facts.sub.items()][:4]
        self.chk.put(status, self.rule, '%s: %s' % (self.name, site), text, loc)


def run(chk, ts, rule, progs, only=None, limit=4000, steps=400000, deadline=None, srcdir='pyginv', setup=None, cls=None):
    """progs: name -> function of a path"""
    t0 = time.time()
    for name, f in progs.items():
        rec = Rec(chk, rule, name, only, None)
        stack, n = [[]], 0
        while stack:
            script = stack.pop()
            n += 1
            p = (cls or P)(ts, list(script), steps, rec)
            p.srcdir = srcdir
            base = len(script)
            stop = False
            try:
                if setup:
                    setup(p)
                f(p)
                rec.put('ok', 'raise: no exception on valid use', '', p)
            except PathEnd:
                pass
            except Unsup as e:
                rec.put('unknown', only[0] + ' analysis' if only else 'analysis', str(e) + (' line %s' % getattr(p.node, 'lineno', '?')), p)
            except PyExc as e:
                if e.node is not None:
                    p.node, p.modname = e.node, e.mod
                rec.put('bad', 'raise: no exception on valid use', '%s %s in %s' % (e.name, e.text, p.stack[-1].name if p.stack else name), p)
            except RecursionError:
                rec.put('unknown', only[0] + ' analysis' if only else 'analysis', 'recursion', p)
            except Broken:
                raise
            except Exception as e:
                rec.put('unknown', only[0] + ' analysis' if only else 'analysis', 'not followed: %s %s' % (type(e).__name__, str(e)[:100]), p)
            chk.functions |= p.funcs
            chk.count('paths')
            for i in range(base, len(p.alts)):
                for k in range(1, p.alts[i]):
                    stack.append(p.script[:i] + [k])
            if n > limit or deadline and time.time() - t0 > deadline:
                rec.put('unknown', only[0] + ' analysis' if only else 'analysis', 'too many paths', p)
                break
