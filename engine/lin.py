"""Terms: multivariate polynomials over atoms with rational coefficients, and a
small linear-inequality (polyhedral) abstract domain over them."""
from fractions import Fraction
from functools import lru_cache
import itertools


class Atom:
    """An uninterpreted quantity.  kind: 'sym' (named input), 'gen' (generic
    element introduced by materialisation or widening), 'app' (function
    application)."""
    __slots__ = ('name', 'kind', 'args', 'real', 'key', '_h')

    def __init__(self, name, kind='sym', args=(), real=False):
        self.name, self.kind, self.args, self.real = name, kind, args, real
        self.key = (kind, name) + tuple(a.sortkey() if isinstance(a, Lin) else a for a in args)
        self._h = hash(self.key)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Atom) and self.key == o.key)

    def __lt__(self, o):
        return self.key_s() < o.key_s()

    def key_s(self):
        return repr(self.key)

    def __repr__(self):
        if self.kind == 'app':
            return '%s(%s)' % (self.name, ','.join(map(str, self.args)))
        return self.name


class Lin:
    """polynomial; immutable"""
    __slots__ = ('t', '_h', '_sk')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._sk = None

    @staticmethod
    def const(c):
        return Lin({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Lin({(a,): 1})

    def sortkey(self):
        if self._sk is None:
            self._sk = tuple(sorted((tuple(a.key_s() for a in m), c) for m, c in self.t.items()))
        return self._sk

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, (int, Fraction)):
            o = Lin.const(o)
        return isinstance(o, Lin) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        if isinstance(o, (int, Fraction)):
            o = Lin.const(o)
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Lin(r)

    __radd__ = __add__

    def __neg__(self):
        return Lin({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if isinstance(o, (int, Fraction)):
            o = Lin.const(o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, (int, Fraction)):
            if o == 0:
                return Lin({})
            return Lin({m: c * o for m, c in self.t.items()})
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else m1 + m2
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Lin(r)

    __rmul__ = __mul__

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def deep_atoms(self):
        """atoms, including those in arguments of applications"""
        out = set()
        st = list(self.atoms())
        while st:
            a = st.pop()
            if a in out:
                continue
            out.add(a)
            for x in a.args:
                if isinstance(x, Lin):
                    st.extend(x.atoms())
        return out

    def subst(self, mp):
        """mp: Atom -> Lin; also rewrites inside applications"""
        if not mp or not self.t:
            return self
        out = None
        for m, c in self.t.items():
            hit = False
            for a in m:
                if a in mp or a.kind == 'app':
                    hit = True
                    break
            if not hit:
                p = Lin({m: c})
            else:
                p = Lin.const(c)
                for a in m:
                    p = p * subst_atom(a, mp)
            out = p if out is None else out + p
        return out

    def single(self):
        """the atom if the term is exactly one atom with coefficient 1"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1:
                return m[0]
        return None

    def __repr__(self):
        if not self.t:
            return '0'
        s = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), repr(x[0]))):
            b = '*'.join(map(repr, m))
            if not m:
                s.append(str(c))
            elif c == 1:
                s.append(b)
            elif c == -1:
                s.append('-' + b)
            else:
                s.append('%s*%s' % (c, b))
        return '+'.join(s).replace('+-', '-')


def subst_atom(a, mp):
    if a in mp:
        return mp[a]
    if a.kind == 'app':
        na = tuple(x.subst(mp) if isinstance(x, Lin) else x for x in a.args)
        if na != a.args:
            return rebuild_app(a.name, na, a.real)
    return Lin.atom(a)


REBUILD = {}


def rebuild_app(name, args, real=False):
    f = REBUILD.get(name)
    if f:
        r = f(*args)
        if r is not None:
            return r
    return Lin.atom(Atom(name, 'app', args, real))


def app(name, *args, real=False):
    return rebuild_app(name, args, real)


ZERO = Lin({})
ONE = Lin.const(1)


def lin(x):
    return x if isinstance(x, Lin) else Lin.const(x)


# ------------------------------------------------- linear inequality domain
def _norm_ge(e):
    """normalise e >= 0 ; integer tightening when every monomial is integral"""
    if not e.t:
        return e
    coeffs = [c for m, c in e.t.items() if m]
    if not coeffs:
        return e
    den = 1
    for c in e.t.values():
        if isinstance(c, Fraction):
            den = den * c.denominator // _gcd(den, c.denominator)
    if den != 1:
        e = Lin({m: int(c * den) for m, c in e.t.items()})
    else:
        e = Lin({m: int(c) for m, c in e.t.items()})
    g = 0
    for m, c in e.t.items():
        if m:
            g = _gcd(g, abs(c))
    if g > 1:
        if any(a.real for m in e.t for a in m):
            return Lin({m: Fraction(c, g) if c % g else c // g for m, c in e.t.items()})
        t = {m: c // g for m, c in e.t.items()}      # floor on the constant = tightening
        return Lin({m: c for m, c in t.items() if c})
    return e


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


FM_CAP = 600
SOFT = set()          # atoms never solved for implicitly


def _divides(e):
    g = 0
    for m, c in e.t.items():
        if isinstance(c, Fraction):
            return False
        if m:
            g = _gcd(g, abs(c))
    return g > 0 and e.cval() % g == 0


def _primitive(e):
    g = 0
    for c in e.t.values():
        if isinstance(c, Fraction):
            return e
        g = _gcd(g, abs(c))
    return Lin({m: c // g for m, c in e.t.items()}) if g > 1 else e


def infeasible(ges):
    """Fourier-Motzkin: True only if the conjunction of e>=0 has no rational
    (with integer tightening: integer) solution"""
    cons = set()
    for e in ges:
        e = _norm_ge(e)
        if e.is_const():
            if e.cval() < 0:
                return True
            continue
        cons.add(e)
    while cons:
        # choose variable (monomial) minimising the product of occurrences
        occ = {}
        for e in cons:
            for m, c in e.t.items():
                if m:
                    p, n = occ.get(m, (0, 0))
                    occ[m] = (p + (c > 0), n + (c < 0))
        if not occ:
            return False
        m = min(occ, key=lambda k: (occ[k][0] * occ[k][1] - occ[k][0] - occ[k][1]))
        pos, neg, rest = [], [], set()
        for e in cons:
            c = e.t.get(m, 0)
            (pos if c > 0 else neg if c < 0 else None or []).append(e) if c else rest.add(e)
        for p in pos:
            for q in neg:
                a, b = p.t[m], -q.t[m]
                e = _norm_ge(p * b + q * a)
                if e.is_const():
                    if e.cval() < 0:
                        return True
                else:
                    rest.add(e)
        # prune: same coefficients, keep the tightest
        best = {}
        for e in rest:
            k = frozenset((mm, cc) for mm, cc in e.t.items() if mm)
            v = e.cval()
            if k not in best or v < best[k].cval():
                best[k] = e
        cons = set(best.values())
        if len(cons) > FM_CAP:
            return False
    return False


class Facts:
    """conjunction of e>=0, e!=0 plus a solved substitution from equalities"""
    __slots__ = ('ge', 'ne', 'sub', '_cache')

    def __init__(self, ge=(), ne=(), sub=None):
        self.ge = tuple(ge)
        self.ne = tuple(ne)
        self.sub = sub or {}
        self._cache = {}

    def copy(self):
        f = Facts(self.ge, self.ne, self.sub)
        f._cache = self._cache          # same facts: share until changed
        return f

    def norm(self, e):
        return e.subst(self.sub) if self.sub else e

    def _rel(self, e):
        """facts connected to e"""
        ms = {m for m in e.t if m}
        todo = list(self.ge) + atom_bounds(e, self.ge)
        out = []
        changed = True
        while changed and todo:
            changed = False
            rest = []
            for g in todo:
                gm = {m for m in g.t if m}
                if gm & ms:
                    out.append(g)
                    ms |= gm
                    changed = True
                else:
                    rest.append(g)
            todo = rest
        return out

    def entails_ge(self, e):
        """e >= 0 on every valuation of the facts"""
        e = self.norm(e)
        if e.is_const():
            return e.cval() >= 0
        k = e
        r = self._cache.get(k)
        if r is None:
            real = any(a.real for a in e.atoms())
            neg = -e if real else -e - 1
            rel = self._rel(e)
            if real:
                # strict: e < 0 ; approximate with e <= 0 infeasible or a direct match
                r = e in self.ge or infeasible(rel + [-e]) 
            else:
                r = infeasible(rel + [neg])
            self._cache[k] = r
        return r

    def entails_ne(self, e):
        e = self.norm(e)
        if e.is_const():
            return e.cval() != 0
        for n in self.ne:
            if n == e or n == -e:
                return True
        # proportional
        for n in self.ne:
            if _proportional(n, e):
                return True
        f = self.factor(e)
        if f is not None and self.entails_ne(f):
            return True
        return self.entails_ge(e - 1) or self.entails_ge(-e - 1)

    def factor(self, e):
        """e without its common atoms that are known to differ from zero, or None"""
        ms = list(e.t)
        if not ms or min(len(m) for m in ms) < 1 or max(len(m) for m in ms) < 2:
            return None
        com = list(ms[0])
        for m in ms[1:]:
            r = list(m)
            com = [a for a in com if a in r and (r.remove(a) or True)]
        com = [a for a in com if self.entails_ne(Lin.atom(a))]
        if not com:
            return None
        out = {}
        for m, c in e.t.items():
            r = list(m)
            for a in com:
                r.remove(a)
            out[tuple(r)] = c
        return Lin(out)

    def entails_eq(self, e):
        e = self.norm(e)
        if e.is_const():
            return e.cval() == 0
        return self.entails_ge(e) and self.entails_ge(-e)

    def sign(self, e):
        """-1, 0, 1 if known, else None"""
        e = self.norm(e)
        if e.is_const():
            v = e.cval()
            return (v > 0) - (v < 0)
        ge0 = self.entails_ge(e)
        le0 = self.entails_ge(-e)
        if ge0 and le0:
            return 0
        if ge0 and self.entails_ne(e):
            return 1
        if le0 and self.entails_ne(e):
            return -1
        return None

    def consistent(self):
        if infeasible(list(self.ge) + [b for g in self.ge for b in atom_bounds(g, self.ge)]):
            return False
        for n in self.ne:
            nn = self.norm(n)
            if nn.is_const() and nn.cval() == 0:
                return False
            if not nn.is_const() and self.entails_ge(nn) and self.entails_ge(-nn):
                return False
        return True

    def add_ge(self, e):
        """returns False when the facts become inconsistent"""
        e = self.norm(e)
        if e.is_const():
            return e.cval() >= 0
        e = _norm_ge(e)
        if e in self.ge:
            return True
        rel = self._rel(e)
        if infeasible(rel + [e]):
            return False
        # keep only the tightest among parallel facts
        lin_part = {m: c for m, c in e.t.items() if m}
        keep = []
        for g in self.ge:
            if {m: c for m, c in g.t.items() if m} == lin_part:
                if g.cval() <= e.cval():
                    return True
                continue
            keep.append(g)
        self.ge = tuple(keep) + (e,)
        self._cache = {}
        # detect equality
        if not (SOFT and e.atoms() & SOFT) and self.entails_ge(-e):
            return self.add_eq(e)
        for n in self.ne:
            if self.entails_eq(n):
                return False
        return True

    def add_ne(self, e):
        e = self.norm(e)
        if e.is_const():
            return e.cval() != 0
        f = self.factor(e)
        if f is not None:
            return self.add_ne(f)
        if self.entails_eq(e):
            return False
        e = _primitive(e) if _divides(e) else e
        if e in self.ne or -e in self.ne:
            return True
        self.ne = self.ne + (e,)
        self._cache = {}
        # integer strengthening: e>=0 & e!=0 -> e>=1
        if not any(a.real for a in e.atoms()):
            if self.entails_ge(e):
                return self.add_ge(e - 1)
            if self.entails_ge(-e):
                return self.add_ge(-e - 1)
        return True

    def add_eq(self, e):
        e = self.norm(e)
        if e.is_const():
            return e.cval() == 0
        if self.entails_ne(e):
            return False
        f = self.factor(e)
        if f is not None:
            return self.add_eq(f)
        # solve for an atom occurring linearly with unit coefficient, prefer generic ones
        cand = []
        for m, c in e.t.items():
            if len(m) == 1:
                a = m[0]
                if any(a in mm for mm in e.t if mm != m):
                    continue
                rest_atoms = set()
                for mm in e.t:
                    if mm != m:
                        rest_atoms |= Lin({mm: 1}).deep_atoms()
                if a in rest_atoms:
                    continue
                cand.append((abs(c) != 1, a.kind != 'gen', a.kind == 'app', a.key_s(), a, c))
        if not cand:
            self.ge = self.ge + (e, -e)
            self._cache = {}
            return True
        _, _, _, _, a, c = min(cand, key=lambda x: x[:4])
        val = (e - Lin({(a,): c})) * Fraction(-1, 1) * (Fraction(1) / c)
        val = Lin({m: (int(x) if isinstance(x, Fraction) and x.denominator == 1 else x) for m, x in val.t.items()})
        mp = {a: val}
        self.sub = {k: v.subst(mp) for k, v in self.sub.items()}
        self.sub[a] = val
        old_ge, old_ne = self.ge, self.ne
        self.ge, self.ne = (), ()
        self._cache = {}
        for g in old_ge:
            if not self.add_ge(g):
                return False
        for n in old_ne:
            if not self.add_ne(n):
                return False
        if a.kind == 'app':             # built-in bounds of the eliminated atom
            for b in atom_bounds(Lin.atom(a), ()):
                if not self.add_ge(b):
                    return False
        return True

    def harden(self):
        """copy in which every implied equality is solved"""
        saved = set(SOFT)
        SOFT.clear()
        try:
            f = Facts((), (), dict(self.sub))
            for g in self.ge:
                f.add_ge(g)
            for n in self.ne:
                f.add_ne(n)
        finally:
            SOFT.update(saved)
        return f

    def all(self):
        return [('ge', g) for g in self.ge] + [('ne', n) for n in self.ne] + \
               [('eq', Lin.atom(k) - v) for k, v in self.sub.items()]


def _proportional(a, b):
    if set(a.t) != set(b.t):
        return False
    r = None
    for m in a.t:
        q = Fraction(a.t[m]) / b.t[m]
        if r is None:
            r = q
        elif r != q:
            return False
    return True


# atoms with built-in bounds: floor(x/k)
def atom_bounds(e, ge):
    out = []
    seen = set()
    st = list(e.atoms())
    for g in ge:
        st.extend(g.atoms())
    while st:
        a = st.pop()
        if a in seen:
            continue
        seen.add(a)
        if a.kind == 'app':
            if a.name == 'fdiv':            # floor division by positive constant / known-positive term
                x, k = a.args
                A = Lin.atom(a)
                if k.is_const():
                    out.append(x - A * k.cval())
                    out.append(A * k.cval() + (k.cval() - 1) - x)
                else:
                    out.append(x - A * k)
                    out.append(A * k + k - 1 - x)
                st.extend(x.atoms())
            elif a.name == 'nn':
                out.append(Lin.atom(a))
            elif a.name == 'abs':
                x, = a.args
                A = Lin.atom(a)
                out += [A - x, A + x]
    return out


_ctr = itertools.count()


def find_model(facts_ge, facts_ne, goal_ge, atoms=None, rng=(0, 1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 17)):
    """small concrete valuation falsifying goal_ge>=0 under the facts (used only
    to classify an undischarged obligation as definitely violated)"""
    return None
