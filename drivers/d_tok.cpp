/* Completions seen from the leading monomials: a polynomial is its leading monomial and an identity (kept in the
   coefficient); a reduction yields zero or an arbitrary smaller polynomial.  Every system whose generators have the
   given leading monomials is covered, whatever its coefficients and lower terms. */
#include "util/allocator.h"
#include "util/list.h"
#include "util/integer.h"
#include "util/hilbertpoly.h"
#include "ginv/monom.h"
#include "ginv/poly.h"
#include "ginv/poly_int.h"
#include "scen.h"
using namespace GInv;

extern "C" {
long int_value(const Integer* x);
double rational_value(const char* s);
void chk_real(double got, double want, const char* what);
long tok_gen(long code);                                                     /* a generator appears */
long tok_choose(long id, long code, int vars, int deglex, int deg, int pos);       /* outcome of a reduction: -1 or a monomial */
long tok_result(long id, long code, long by, long bycode, long next);        /* the reduction has happened */
void tok_basis(long id, long code);
void tok_begin(int what);                                                    /* what is monitored; forgets the last basis */
bool tok_constant();                                                         /* a constant has been obtained */
long tok_tail(long id, long code);
void tok_pp(long id, long code);
bool tok_ispp(long id, long code);
void tok_known(long id, long code, const char* what);
void tok_entered(long id, long code);
void tok_smaller(long code, long other);
void tok_lost(const char* what);
void tok_covered(const char* what);
void tok_treated(long id, long code, long mult, int ring, const char* what);
void tok_primitive(long id, long code, const char* what);
void tok_tailed(long id, long code, const char* what);
}
static int gN, gP, gD, gO;
static long code(const Monom& m) { long r=m.pos()+1; for (int i=0; i < 3; i++) r = r*32 + (i < m.size() ? m[i] : 0); return r; }
static void decode(Allocator* al, Monom& m, long c) {
  int e[3], i; for (i=2; i >= 0; i--) { e[i] = c % 32; c /= 32; }
  for (i=0; i < gN; i++) if (e[i]) { Monom x(al, i, gN, -1); if (e[i] == 1) m.mult(x); else { Monom y(al, x, e[i]); m.mult(y); } }
  m.setPos(c-1);
}
static long ident(const PolyInt& p) { return int_value(&p.lc()); }
static void name(PolyInt& p, long id) { const_cast<Integer&>(p.lc()).set_si(id); }

extern "C" void stub_reduction(PolyInt* p, const PolyInt* a) {
  long i=ident(*p), c=code(p->lm()), j=ident(*a), d=code(a->lm());
  chk(p->lm().pos() == a->lm().pos() && p->lm().divisiable(a->lm()), "reduce: the head is divisible");
  tok_known(i, c, "provenance: what is reduced stems from the input"); tok_known(j, d, "provenance: what reduces stems from the input");
  long next=tok_choose(i, c, gN, gO & Poly::deglex, gD, gP);
  Allocator al;
  if (next < 0) { PolyInt z(&al, p->order(), p->size()); *p = z; tok_result(i, c, j, d, -1); }
  else { Monom m(&al, gN, -1); decode(&al, m, next); PolyInt z(&al, p->order(), m); if (z.cmp(*p) >= 0) path_end();
    name(z, tok_result(i, c, j, d, next)); *p = z; }
}
extern "C" int stub_maxpos(const PolyInt* p) { return p->lm().pos() < 0 ? -1 : gP; }
extern "C" int stub_tail(const PolyInt* p, void*) { return p->isZero() ? 0 : tok_tail(ident(*p), code(p->lm())); }
extern "C" void stub_pp(const PolyInt* p) { if (!p->isZero()) tok_pp(ident(*p), code(p->lm())); }

extern "C" bool stub_ispp(const PolyInt* p) { return p->isZero() || tok_ispp(ident(*p), code(p->lm())); }

extern "C" void stub_insert(Janet* j, Wrap* w) { tok_entered(0, code(w->lm())); j->insert(w); }

static void enter(JanetPolyInt& b, long c) {
  Allocator al;
  if (c < 0) { PolyInt z(&al, gO, gN); b.push(z); }
  else { Monom m(&al, gN, -1); decode(&al, m, c); PolyInt p(&al, gO, m); name(p, tok_gen(c)); b.push(p); }
}
static void run(JanetPolyInt& b, int alg) {
  if (alg == 0) b.algorithmTQ(); else if (alg == 1) b.algorithmTQ1(); else if (alg == 2) b.algorithmTQ2(); else b.algorithmBlockTQ();
}
static bool below(const Monom& a, const Monom& b, int v) {
  if (a.pos() != b.pos()) return false;
  for (int i=0; i < v; i++) if (a[i] != b[i]) return false;
  return b[v] > a[v];
}
enum { LOSS=1, CLOSE=2, FORM=4, TYPE=8, UNIT=16, HILB=32 };
static void verdict(const JanetPolyInt& b, int what) {
  if (what & UNIT) chk(b.isOne() == tok_constant(), "unit: the whole ring exactly when a constant is obtained");
  if (b.isOne()) {
    chk_eq(b.size(), 1, "unit: one element"); Allocator al; Monom m(&al, gN, -1); chk(b.find(m) != nullptr, "unit: everything has a divisor");
    return;
  }
  WrapPolyInt* w[24]; int m=0;
  for (GCListWrapPolyInt::ConstIterator j(b.begin()); j; ++j) { if (m == 24) { chk(false, "form: finite"); } w[m++] = j.data(); }
  for (int k=0; k < m; k++) { const PolyInt& p=w[k]->poly(); chk(!p.isZero(), "provenance: no element is zero"); tok_basis(ident(p), code(p.lm())); }
  if (what & LOSS) {
    tok_lost("loss: every polynomial is reduced or in the basis"); tok_covered("loss: every leading monomial has a divisor in the basis");
    for (int k=0; k < m; k++) tok_known(ident(w[k]->poly()), code(w[k]->poly().lm()), "provenance: the basis stems from the input");
  }
  if (what & CLOSE) {
    Allocator al;
    for (int k=0; k < m; k++) for (int v=0; v < gN; v++) {
      bool nm=false; for (int j=0; j < m; j++) if (j != k && below(w[k]->lm(), w[j]->lm(), v)) nm = true;
      if (nm) { Monom x(&al, v, w[k]->lm());
        chk(b.find(x) != nullptr, "close: every prolongation has a divisor");
        tok_treated(ident(w[k]->poly()), code(w[k]->poly().lm()), code(x), x.pos() < 0, "close: every prolongation is reduced or superfluous"); }
    }
  }
  if (what & FORM) {
    chk_eq(b.size(), m, "form: size");
    for (int k=0; k < m; k++) {
      const PolyInt& p=w[k]->poly();
      chk(w[k]->lm() == p.lm(), "form: the entry names the leading monomial");
      chk(w[k]->lm().pos() == w[k]->ansector().pos() && w[k]->lm().divisiable(w[k]->ansector()), "form: the ancestor divides");
      if (k) chk(w[k-1]->poly().cmp(p) < 0, "form: elements ascend");
      chk_ptr(b.find(p.lm()), w[k], "form: an element is the divisor of its leading monomial");
      for (int v=0; v < gN; v++) { bool nm=false; for (int j=0; j < m; j++) if (j != k && below(w[k]->lm(), w[j]->lm(), v)) nm = true; chk(w[k]->NM(v) == nm, "form: non-multiplicative variables"); }
    }
  }
  if (what & HILB) {
    HilbertPoly h, want(gN), t(gN); b.buildHP(h);
    want.binomial(gN, gN);
    for (int a=0; a < m; a++) { int mu=0; for (int v=0; v < gN; v++) { bool nm=false; for (int j=0; j < m; j++) if (j != a && below(w[a]->lm(), w[j]->lm(), v)) nm = true; if (!nm) mu++; }
      t.binomial(mu-w[a]->lm().degree(), mu); want.sub(t); }
    chk_eq(h.dim(), gN, "hilbert: dimension");
    int k=pick(gN+1); chk_real(rational_value(h[k]), rational_value(want[k]), "hilbert: coefficient");
  }
  if (what & TYPE) for (int k=0; k < m; k++) {
    for (int j=0; j < k; j++) tok_smaller(code(w[k]->lm()), code(w[j]->lm()));
    long i=ident(w[k]->poly()), c=code(w[k]->poly().lm());
    tok_primitive(i, c, "type: the content has been removed"); tok_tailed(i, c, "type: the tail has been reduced by every smaller element");
  }
}
#define DL (Poly::TOP|Poly::deglex)
#define LX (Poly::TOP|Poly::lex)
#define PD (Poly::POT|Poly::deglex)
#define PL (Poly::POT|Poly::lex)
#define M(p, a, b, c) ((((long)(p)+1)*32 + (a))*32 + (b))*32 + (c)
#define X(a, b, c) M(-1, a, b, c)
struct Sys { int ord, n, pos, deg, k; long g[4]; };
static void solve(int alg, int what, const Sys& s) {
  globals(); gN = s.n; gP = s.pos; gD = s.deg; gO = s.ord; { JanetPolyInt b; tok_begin(what);
  for (int k=0; k < s.k; k++) enter(b, s.g[k]);
  run(b, alg); verdict(b, what); } done();
}
#define ALL(g, name, what, ...) \
  static const Sys g##name##_s=__VA_ARGS__; \
  SC sc_##g##_##name##_TQ() { solve(0, what, g##name##_s); } \
  SC sc_##g##_##name##_TQ1() { solve(1, what, g##name##_s); } \
  SC sc_##g##_##name##_TQ2() { solve(2, what, g##name##_s); } \
  SC sc_##g##_##name##_Block() { solve(3, what, g##name##_s); }
#define EV (LOSS|CLOSE|FORM|UNIT)
/* two completions, the second after more generators */
static void again(int alg, int what, const Sys& s, int pos0, int k0) {
  globals(); gN = s.n; gD = s.deg; gO = s.ord; { JanetPolyInt b; tok_begin(what);
  gP = pos0; for (int k=0; k < k0; k++) enter(b, s.g[k]);
  run(b, alg); tok_begin(what);
  gP = s.pos; for (int k=k0; k < s.k; k++) enter(b, s.g[k]);
  run(b, alg); verdict(b, what); } done();
}
#define MORE(g, name, what, pos0, k0, ...) \
  static const Sys g##name##_s=__VA_ARGS__; \
  SC sc_##g##_##name##_TQ() { again(0, what, g##name##_s, pos0, k0); } \
  SC sc_##g##_##name##_TQ1() { again(1, what, g##name##_s, pos0, k0); } \
  SC sc_##g##_##name##_TQ2() { again(2, what, g##name##_s, pos0, k0); } \
  SC sc_##g##_##name##_Block() { again(3, what, g##name##_s, pos0, k0); }
/* normal forms against the finished basis: of a polynomial with leading monomial t */
static void normal(int alg, const Sys& s, int more) {
  globals(); gN = s.n; gP = s.pos; gD = s.deg; gO = s.ord; { JanetPolyInt b; tok_begin(EV);
  Allocator al; int nt=0; long t[16]; { int lo=s.pos < 0 ? -1 : 0, hi=s.pos < 0 ? -1 : s.pos+1; for (int p=lo; p <= hi; p++) for (int x=0; x <= more; x++) for (int y=0; y <= (s.n > 1 ? more : 0); y++) if (nt < 16) t[nt++] = M(p, x, y, 0); }
  long c=t[pick(nt)]; Monom m(&al, gN, -1); decode(&al, m, c);
  if (pick(4) == 0) { PolyInt p(&al, gO, m); name(p, tok_gen(c)); long i=ident(p); chk(b.find(m) == nullptr, "nf: nothing divides before a completion"); b.nf(p); chk(!p.isZero() && code(p.lm()) == c && ident(p) == i, "nf: no basis, no reduction");
    tok_primitive(i, c, "nf: the content has been removed"); }
  else {
    for (int k=0; k < s.k; k++) enter(b, s.g[k]);
    run(b, alg); bool one=b.isOne();
    WrapPolyInt* w[24]; long id[24]; int n=0; if (!one) for (GCListWrapPolyInt::ConstIterator j(b.begin()); j; ++j) { if (n == 24) path_end(); w[n] = j.data(); id[n] = ident(w[n]->poly()); n++; }
    chk(b.comparable(PolyInt(&al, gO, m)), "nf: comparable");
    if (!one) { chk_eq(b.maxPos(), s.k ? gP : b.maxPos(), "nf: highest component");
      for (int q=-1; s.k && q <= gP; q++) { int cnt=0; for (int k=0; k < n; k++) if (w[k]->lm().pos() == q) cnt++; chk_eq(b.janet(q).size(), cnt, "nf: elements of a component's tree"); if (q == m.pos()) chk_ptr(b.janet(q).find(m), b.find(m), "nf: a component's tree"); } }
    PolyInt p(&al, gO, m); name(p, tok_gen(c)); long i0=ident(p); tok_begin(TYPE); b.nf(p);
    if (one) chk(p.isZero(), "nf: zero in the unit ideal");
    else {
      bool red=false; for (int k=0; k < n; k++) if (m.pos() == w[k]->lm().pos() && m.divisiable(w[k]->lm())) red = true;
      if (!red) chk(!p.isZero() && code(p.lm()) == c && ident(p) == i0, "nf: an irreducible head is kept");
      else if (!p.isZero()) chk(code(p.lm()) != c, "nf: a reducible head is reduced");
      if (!p.isZero()) {
        for (int k=0; k < n; k++) chk(!(p.lm().pos() == w[k]->lm().pos() && p.lm().divisiable(w[k]->lm())), "nf: the head is irreducible");
        long i=ident(p), d=code(p.lm()); tok_primitive(i, d, "nf: the content has been removed");
        for (int k=0; k < n; k++) if (w[k]->poly().cmp(p) < 0) tok_smaller(d, code(w[k]->lm())); tok_tailed(i, d, "nf: the tail has been reduced");
      }
      int q=0; for (GCListWrapPolyInt::ConstIterator j(b.begin()); j; ++j) { chk(q < n && j.data() == w[q] && ident(w[q]->poly()) == id[q], "nf: the basis is untouched"); q++; } chk_eq(q, n, "nf: the basis is untouched");
    }
  } } done();
}
#define NORM(g, name, more, ...) \
  static const Sys g##name##_s=__VA_ARGS__; \
  SC sc_##g##_##name##_TQ() { normal(0, g##name##_s, more); } \
  SC sc_##g##_##name##_TQ2() { normal(2, g##name##_s, more); } \
  SC sc_##g##_##name##_Block() { normal(3, g##name##_s, more); }
NORM(K6, ring, 1, {DL, 2, -1, 1, 2, {X(1,1,0), X(0,2,0)}})
NORM(K7, ring, 2, {DL, 2, -1, 1, 2, {X(2,0,0), X(1,1,0)}})
NORM(K6, lex, 2, {LX, 2, -1, 1, 1, {X(1,1,0)}})
NORM(K6, mod, 1, {DL, 2, 1, 1, 2, {M(0,1,0,0), M(1,0,1,0)}})
NORM(K6, pot, 2, {PL, 1, 1, 1, 2, {M(1,2,0,0), M(0,1,0,0)}})
NORM(K6, none, 1, {DL, 2, -1, 1, 0, {}})
NORM(K6, unit, 1, {DL, 2, -1, 1, 2, {X(1,0,0), X(0,0,0)}})
/* polynomial ring: order, variables, components, highest degree considered, generators */
ALL(K0, x2xy, EV, {DL, 2, -1, 2, 2, {X(2,0,0), X(1,1,0)}})
ALL(K0, x2y2, EV, {DL, 2, -1, 2, 2, {X(2,0,0), X(0,2,0)}})
ALL(K0, x2x2, EV, {DL, 2, -1, 2, 2, {X(2,0,0), X(2,0,0)}})
ALL(K0, xyx2, EV, {DL, 2, -1, 2, 2, {X(1,1,0), X(0,2,0)}})
ALL(K0, chain, EV, {DL, 2, -1, 3, 2, {X(2,1,0), X(1,2,0)}})
ALL(K0, power, EV, {DL, 1, -1, 3, 3, {X(3,0,0), X(2,0,0), X(3,0,0)}})
ALL(K0, lex, EV, {LX, 2, -1, 3, 2, {X(2,0,0), X(1,1,0)}})
ALL(K0, lexu, EV, {LX, 2, -1, 3, 2, {X(1,0,0), X(1,0,0)}})
ALL(K0, three, EV, {DL, 2, -1, 2, 3, {X(2,0,0), X(1,1,0), X(0,2,0)}})
ALL(K0, cross, EV, {DL, 3, -1, 1, 2, {X(1,1,0), X(0,1,1)}})
ALL(K0, gap, EV, {DL, 2, -1, 2, 2, {X(3,1,0), X(1,0,0)}})
ALL(K0, gap3, EV, {LX, 3, -1, 1, 2, {X(2,0,0), X(0,0,1)}})
ALL(K0, skip, EV, {DL, 2, -1, 1, 3, {X(1,0,0), X(2,0,0), X(0,3,0)}})
/* modules */
ALL(K1, equal, EV, {DL, 1, 1, 2, 2, {M(0,2,0,0), M(0,1,0,0)}})
ALL(K1, apart, EV, {DL, 1, 1, 2, 2, {M(0,2,0,0), M(1,1,0,0)}})
ALL(K1, coprime, EV, {DL, 2, 1, 1, 2, {M(0,1,0,0), M(0,0,1,0)}})
ALL(K1, pot, EV, {PL, 1, 1, 2, 2, {M(1,2,0,0), M(0,1,0,0)}})
ALL(K1, zero, EV, {PD, 1, 1, 1, 2, {M(0,0,0,0), M(0,1,0,0)}})
ALL(K1, three, EV, {DL, 2, 2, 1, 2, {M(2,1,1,0), M(2,0,2,0)}})
/* more generators later */
MORE(K2, lower, EV, -1, 1, {DL, 2, -1, 2, 2, {X(1,1,0), X(1,0,0)}})
MORE(K2, upper, EV, -1, 1, {DL, 2, -1, 1, 2, {X(1,0,0), X(1,1,0)}})
MORE(K2, same, EV, -1, 1, {DL, 1, -1, 2, 2, {X(2,0,0), X(2,0,0)}})
MORE(K2, chain, EV, -1, 2, {DL, 2, -1, 1, 3, {X(2,0,0), X(0,2,0), X(1,1,0)}})
MORE(K2, empty, EV, -1, 0, {DL, 2, -1, 1, 1, {X(1,0,0)}})
MORE(K2, unit, EV, -1, 1, {DL, 2, -1, 1, 3, {X(0,0,0), X(1,0,0), X(0,1,0)}})
MORE(K2, above, EV, -1, 1, {DL, 2, -1, 1, 2, {X(1,2,0), X(2,0,0)}})
MORE(K2, stop, EV, -1, 2, {DL, 2, -1, 1, 3, {X(1,0,0), X(0,1,0), X(0,0,0)}})
MORE(K2, comp, EV, 0, 1, {DL, 1, 2, 1, 3, {M(0,2,0,0), M(2,1,0,0), M(0,1,0,0)}})
MORE(K2, comps, EV, 1, 2, {PL, 1, 2, 1, 3, {M(1,1,0,0), M(0,1,0,0), M(2,1,0,0)}})
/* content and tails */
ALL(K4, x2xy, TYPE, {DL, 2, -1, 1, 2, {X(2,0,0), X(1,1,0)}})
ALL(K3, both, TYPE, {DL, 1, 1, 1, 2, {M(0,1,0,0), M(1,1,0,0)}})
ALL(K3, gap, TYPE, {DL, 2, -1, 1, 2, {X(2,1,0), X(1,0,0)}})
ALL(K3, same, TYPE, {DL, 1, -1, 1, 2, {X(2,0,0), X(2,0,0)}})
MORE(K3, lower, TYPE, -1, 1, {DL, 2, -1, 1, 2, {X(2,0,0), X(0,1,0)}})
MORE(K3, comp2, TYPE, 1, 1, {PL, 1, 1, 1, 2, {M(1,2,0,0), M(0,1,0,0)}})
MORE(K3, far, TYPE, -1, 1, {LX, 2, -1, 1, 2, {X(3,0,0), X(0,1,0)}})
MORE(K3, comp, TYPE, 1, 1, {PL, 1, 1, 1, 2, {M(0,2,0,0), M(1,1,0,0)}})
/* nothing to do */
ALL(K0, none, EV, {DL, 2, -1, 1, 0, {}})
ALL(K0, nil, EV, {DL, 2, -1, 1, 2, {-1, -1}})
MORE(K2, nil, EV, -1, 1, {DL, 2, -1, 1, 2, {X(1,0,0), -1}})
/* Hilbert polynomial */
ALL(K5, n1, HILB, {DL, 1, -1, 2, 2, {X(3,0,0), X(2,0,0)}})
ALL(K5, gap, HILB, {DL, 2, -1, 1, 2, {X(2,1,0), X(1,0,0)}})
ALL(K5, x2xy, HILB, {DL, 2, -1, 1, 2, {X(2,0,0), X(1,1,0)}})
ALL(K5, three, HILB, {DL, 3, -1, 0, 2, {X(1,1,0), X(0,0,1)}})
