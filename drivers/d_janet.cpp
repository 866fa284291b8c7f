#include "util/allocator.h"
#include "util/list.h"
#include "util/hilbertpoly.h"
#include "ginv/monom.h"
#include "ginv/wrap.h"
#include "ginv/janet.h"
#include "ginv/mcompletion.h"
#include <utility>
#include "scen.h"
using namespace GInv;
extern "C" double rational_value(const char* s);
extern "C" void chk_real(double got, double want, const char* what);

static const char* const XN[15]={"a0", "a1", "a2", "b0", "b1", "b2", "c0", "c1", "c2", "d0", "d1", "d2", "q0", "q1", "q2"};
/* exponents of the k-th monomial: arbitrary */
static void names(long* e, int k, int n) { for (int i=0; i < n; i++) { e[i] = nd(XN[3*k+i]); assume(e[i] >= 0); } }
static void power(Allocator* al, Monom& r, const long* e, int n) {
  for (int i=0; i < n; i++) { Monom x(al, i, n, -1), y(al, x, (int)e[i]); r.mult(y); }
}
static bool one(const long* e, int n) { for (int i=0; i < n; i++) if (e[i] != 0) return false; return true; }
static bool same(const long* a, const long* b, int n) { for (int i=0; i < n; i++) if (a[i] != b[i]) return false; return true; }

/* Janet's rule: variable v is non-multiplicative for a when another monomial of the set agrees before v and exceeds at v */
static bool below(const long* a, const long* b, int v) {
  for (int i=0; i < v; i++) if (a[i] != b[i]) return false;
  return b[v] > a[v];
}
struct Set {
  int n, m;                 /* variables, monomials */
  long e[4][3];
  Wrap* w[4];
  bool nonmult(int a, int v) const { for (int b=0; b < m; b++) if (b != a && below(e[a], e[b], v)) return true; return false; }
  bool divides(int a, const long* q) const {
    for (int v=0; v < n; v++) { if (e[a][v] > q[v]) return false; if (e[a][v] < q[v] && nonmult(a, v)) return false; }
    return true;
  }
};
static Wrap* make(const long* e, int n) {
  Allocator al; Wrap* w; { Monom m(&al, n, -1); power(&al, m, e, n); w = new Wrap(m); } return w;
}
/* a tree of m monomials none of which had a Janet divisor when it was inserted */
static void fill(Janet& J, Set& s, int n, int m) {
  s.n = n; s.m = 0;
  for (int k=0; k < m; k++) {
    long* e=s.e[k]; names(e, k, n);
    assume(!one(e, n));
    for (int a=0; a < s.m; a++) if (s.divides(a, e)) path_end();
    s.w[k] = make(e, n);
    J.insert(s.w[k]); s.m++;
  }
}
static void drop(Set& s) { for (int k=0; k < s.m; k++) delete s.w[k]; s.m = 0; }
static void flags(const Set& s) {
  for (int a=0; a < s.m; a++) for (int v=0; v < s.n; v++) chk(s.w[a]->NM(v) == s.nonmult(a, v), "non-multiplicative variable");
}
static void query(const Janet& J, const Set& s, const char* what) {
  long q[3]; names(q, 4, s.n); assume(!one(q, s.n));
  Wrap* want=nullptr;
  for (int a=0; a < s.m; a++) if (s.divides(a, q)) want = s.w[a];
  Allocator al; { Monom m(&al, s.n, -1); power(&al, m, q, s.n); chk_ptr(J.find(m), want, what); }
}
static void findS(int n, int m, int rel=2) {
  globals(); if (rel == -1) assume(nd("q0") < nd("a0")); if (rel == 0) assume(nd("q0") == nd("a0")); if (rel == 1) assume(nd("q0") > nd("a0")); Allocator al; Set s; { Janet J(&al); fill(J, s, n, m); chk_eq(J.size(), m, "size"); query(J, s, "Janet divisor"); } drop(s); done();
}
SC sc_J0_find10() { findS(1, 0); }
SC sc_J0_find11() { findS(1, 1); }
SC sc_J0_find12() { findS(1, 2); }
SC sc_J0_find13() { findS(1, 3); }
SC sc_J0_find20() { findS(2, 0); }
SC sc_J0_find21() { findS(2, 1); }
SC sc_J0_find22() { findS(2, 2); }
SC sc_J0_find23a() { findS(2, 3, -1); }
SC sc_J0_find23b() { findS(2, 3, 0); }
SC sc_J0_find23c() { findS(2, 3, 1); }
SC sc_J0_find31() { findS(3, 1); }
SC sc_J0_find32a() { findS(3, 2, -1); }
SC sc_J0_find32b() { findS(3, 2, 0); }
SC sc_J0_find32c() { findS(3, 2, 1); }
static void flagS(int n, int m) { globals(); Allocator al; Set s; { Janet J(&al); fill(J, s, n, m); flags(s); } drop(s); done(); }
/* the third monomial is a power of x and a prefix of the others, or they share the power of x */
static void flagP(int k, bool pre) { globals(); assume(nd("a0") == nd("b0")); assume(nd("b0") == nd("c0")); if (k >= 0) assume(nd(XN[3*k+1]) == 0); if (pre) assume(nd(XN[3*k+2]) == 0);
  Allocator al; Set s; { Janet J(&al); fill(J, s, 3, 3); flags(s); } drop(s); done(); }
SC sc_J1_flag33p() { flagP(2, true); }
SC sc_J1_flag33q() { flagP(1, true); }
SC sc_J1_flag33s() { flagP(2, false); }
SC sc_J1_flag33t() { flagP(1, false); }
SC sc_J1_flag12() { flagS(1, 2); }
SC sc_J1_flag13() { flagS(1, 3); }
SC sc_J1_flag21() { flagS(2, 1); }
SC sc_J1_flag22() { flagS(2, 2); }
SC sc_J1_flag23() { flagS(2, 3); }
SC sc_J1_flag32() { flagS(3, 2); }
SC sc_J1_flag33() { flagS(3, 3); }
SC sc_JU_flag24() { flagS(2, 4); }

/* ---- trees as objects: copies, exchanges, collection, storage */
static void copyS(int n, int m) {
  globals(); Allocator al, bl; Set s; { Janet J(&al); fill(J, s, n, m);
  int op=pick(4);
  if (op == 0) { Janet K(&bl, J); chk_eq(K.size(), m, "size of a copy"); query(K, s, "Janet divisor in a copy"); }
  else if (op == 1) { Janet* D=new Janet(&al, J); Janet K(&bl, *D); delete D; query(K, s, "Janet divisor in the copy of a copy"); }
  else if (op == 2) { Janet K(&bl); K.swap(J); chk_eq(K.size(), m, "size after an exchange"); chk_eq(J.size(), 0, "size after an exchange"); query(K, s, "Janet divisor after an exchange"); }
  else { long e[3]; Wrap* w; { Janet K(&bl, J); for (int v=0; v < n; v++) e[v] = v == n-1; w = make(e, n);
    bool clash=false; for (int a=0; a < s.m; a++) if (s.divides(a, e)) clash = true;
    if (!clash) { K.insert(w); chk_eq(K.size(), m+1, "size after an insertion into a copy"); chk_eq(J.size(), m, "a copy has nodes of its own");
      Allocator tl; { Monom q(&tl, n, -1); power(&tl, q, e, n); chk_ptr(J.find(q), nullptr, "a copy has nodes of its own"); chk_ptr(K.find(q), w, "Janet divisor after an insertion into a copy"); } } }
    delete w; } }
  drop(s); done();
}
SC sc_J2_copy11() { copyS(1, 1); }
SC sc_J2_copy12() { copyS(1, 2); }
SC sc_J2_copy20() { copyS(2, 0); }
SC sc_J2_copy21() { copyS(2, 1); }
SC sc_J2_copy22() { copyS(2, 2); }
SC sc_J2_gc() {
  globals(); Set s; { GCJanet J; fill(J, s, 2, 2); J.reallocate(); chk_eq(J.Janet::size(), 2, "size of a collected tree"); query(J, s, "Janet divisor in a collected tree"); flags(s);
  GCJanet K; K.swap(J); chk_eq(J.Janet::size(), 0, "size after an exchange"); K.reallocate(); chk_eq(K.Janet::size(), 2, "size of a collected tree"); } drop(s); done();
}
SC sc_J2_large() {       /* a wider tree with fixed monomials */
  globals(); Allocator al, bl; static const long E[24]={2, 1, 0,  0, 0, 3,  1, 0, 2,  0, 2, 1,  2, 3, 1,  0, 1, 4,  1, 4, 0,  3, 0, 1}; Wrap* w[8]; const long* f[8]; int m=0;
  { Janet J(&al); for (int k=0; k < 8; k++) { w[m] = make(E+3*k, 3); if (J.find(w[m]->lm())) delete w[m]; else { J.insert(w[m]); f[m++] = E+3*k; } }
  chk_eq(J.size(), m, "size"); chk(m >= 7, "size");
  Janet K(&bl, J); chk_eq(K.size(), m, "size of a copy");
  for (int k=0; k < m; k++) { chk_ptr(J.find(w[k]->lm()), w[k], "every monomial is its own Janet divisor"); chk_ptr(K.find(w[k]->lm()), w[k], "every monomial is its own Janet divisor in a copy");
    for (int v=0; v < 3; v++) { bool nm=false; for (int b=0; b < m; b++) if (b != k && below(f[k], f[b], v)) nm = true; chk(w[k]->NM(v) == nm, "non-multiplicative variable"); } } }
  for (int k=0; k < m; k++) delete w[k]; done();
}

/* ---- tree entries */
SC sc_JW_new() {
  globals(); { int n=pick(3)+1; long e[3]; names(e, 0, n); Wrap* w=make(e, n); int k=pick(n);
  chk_eq(w->lm()[k], e[k], "exponent"); chk_eq(w->ansector()[k], e[k], "ancestor"); chk(!w->NM(k) && !w->NMd(k) && !w->build(k), "new entries have no flags");
  chk_eq(w->multi(), n, "all variables are multiplicative"); chk(w->isGB(), "an input element is its own ancestor");
  delete w; } done();
}
SC sc_JW_flags() {
  globals(); { int n=pick(3)+1; long e[3]; names(e, 0, n); Wrap* w=make(e, n); int a=pick(n), b=pick(n), c=pick(n);
  w->setNM(a); w->setNMd(b); w->setBuild(c); int k=pick(n);
  chk(w->NM(k) == (k == a), "non-multiplicative flag"); chk(w->NMd(k) == (k == b), "second non-multiplicative flag"); chk(w->build(k) == (k == c), "prolongation flag");
  chk_eq(w->multi(), n-1, "number of multiplicative variables");
  if (pick(2)) { Wrap v(*w); delete w; chk(v.NM(k) == (k == a), "flag of a copy"); chk(v.NMd(k) == (k == b), "flag of a copy"); chk(v.build(k) == (k == c), "flag of a copy");
    chk_eq(v.lm()[k], e[k], "exponent of a copy"); chk_eq(v.ansector()[k], e[k], "ancestor of a copy"); }
  else { w->clearNM(); chk(!w->NM(k), "cleared flag"); chk(w->NMd(k) == (k == b), "second flag kept"); chk(w->build(k) == (k == c), "prolongation flag kept"); chk_eq(w->multi(), n, "number of multiplicative variables"); delete w; } } done();
}
SC sc_JW_prolong() {
  globals(); { int n=pick(3)+1; long e[3]; names(e, 0, n); Wrap* w=make(e, n); int a=pick(n), b=pick(n); w->setNM(a); if (pick(2)) w->setNMd(b);
  bool d[3]; for (int i=0; i < n; i++) d[i] = w->NMd(i);
  Wrap v(a, w); int k=pick(n);
  chk_eq(v.lm()[k], e[k]+(k == a), "exponent of a prolongation"); chk_eq(v.ansector()[k], e[k], "ancestor of a prolongation"); chk(!v.NM(k) && !v.NMd(k) && !v.build(k), "a prolongation has no flags");
  chk(w->build(k) == (k == a), "the prolonged variable is marked"); chk(w->NM(k) == (k == a), "flags kept"); chk(w->NMd(k) == d[k], "flags kept"); chk_eq(w->lm()[k], e[k], "source unchanged");
  chk(!v.isGB(), "a prolongation is not its own ancestor"); v.setNM(b);
  if (pick(2)) { Wrap u(b, &v); chk_eq(u.ansector()[k], e[k], "the ancestor is inherited"); chk_eq(u.lm()[k], e[k]+(k == a)+(k == b), "exponent of a prolongation"); delete w; chk_eq(v.ansector()[k], e[k], "the ancestor is a copy"); }
  else { Wrap u(v); chk_eq(u.ansector()[k], e[k], "ancestor of a copy"); chk(!u.isGB(), "a copied prolongation is not its own ancestor"); delete w; } } done();
}
SC sc_JW_update() {
  globals(); { int n=pick(2)+1; long e[3], f[3]; names(e, 0, n); names(f, 1, n); int p=pick(3)-1, q=pick(3)-1; Allocator al; { Monom m(&al, n, -1), r(&al, n, -1); power(&al, m, e, n); power(&al, r, f, n); m.setPos(p); r.setPos(q);
  Wrap s(m); int a=pick(n), k=pick(n); s.setNM(a); Wrap w(a, &s); w.setNM(a); w.setBuild(a); w.setNMd(a);
  Monom x(&al, a, m);
  if (pick(2)) { w.update(x); chk_eq(w.lm()[k], e[k]+(k == a), "kept monomial"); chk_eq(w.ansector()[k], e[k], "the ancestor is kept with the monomial"); chk(w.NM(k) == (k == a) && w.build(k) == (k == a) && w.NMd(k) == (k == a), "flags are kept with the monomial"); chk_eq(w.lm().pos(), p, "kept component"); }
  else { if (p == q && same(e, f, n)) path_end(); if (p == q && f[a] == e[a]+1) { bool eq=true; for (int i=0; i < n; i++) if (i != a && e[i] != f[i]) eq = false; if (eq) path_end(); }
    w.update(r); chk_eq(w.lm()[k], f[k], "new monomial"); chk_eq(w.lm().pos(), q, "new component"); chk_eq(w.ansector()[k], f[k], "a new monomial is its own ancestor"); chk_eq(w.ansector().pos(), q, "a new monomial is its own ancestor"); chk(!w.NM(k) && !w.build(k) && !w.NMd(k), "a new monomial has no flags"); } } } done();
}

/* ---- forest by ancestor degree */
#include "ginv/gb.h"
struct Forest {
  int n, m; long e[3][3]; int d[3]; bool nd_[3][3]; Wrap* w[3];
  bool nonmult(int a, int v) const { for (int b=0; b < m; b++) if (b != a && d[b] == d[a] && below(e[a], e[b], v)) return true; return false; }
  bool divides(int a, const long* q) const {
    for (int v=0; v < n; v++) { if (e[a][v] > q[v]) return false; if (e[a][v] < q[v] && (nd_[a][v] || nonmult(a, v))) return false; }
    return true;
  }
  /* the divisor in the first class that has one */
  Wrap* find(const long* q) const {
    Wrap* r=nullptr; int c=0;
    for (int a=0; a < m; a++) if (divides(a, q) && (!r || d[a] < c)) { r = w[a]; c = d[a]; }
    return r;
  }
};
/* v exceeds for the first time at variable v */
static bool exceeds(const long* u, const long* w, int v) {
  for (int i=0; i < v; i++) if (u[i] > w[i]) return false;
  return u[v] > w[v];
}
/* up: 1 later elements have larger, 0 not larger ancestor degree, -1 any */
static void gbS(int n, int m, int base, int span, int up=-1, bool ask=true) {
  globals(); Allocator al; Forest s; s.n = n; s.m = 0; { GB F(&al);
  for (int k=0; k < m; k++) {
    long* e=s.e[k]; names(e, k, n); int d=base+pick(span); long t=0; for (int i=0; i < n; i++) t += e[i]; assume(t == d);
    s.d[k] = d; if (k && up >= 0 && (d > s.d[k-1]) != (up == 1)) path_end();
    if (s.find(e)) path_end();
    for (int v=0; v < n; v++) { bool b=false; for (int j=0; j < k; j++) if (s.d[j] < d && exceeds(s.e[j], e, v)) b = true; s.nd_[k][v] = b; }
    s.w[k] = make(e, n); F.insert(s.w[k]); s.m++;
  }
  chk_eq(F.size(), m, "number of elements");
  for (int k=0; k < m; k++) for (int v=0; v < n; v++) { chk(s.w[k]->NMd(v) == s.nd_[k][v], "variable excluded by an earlier class"); chk(s.w[k]->NM(v) == s.nonmult(k, v), "variable excluded by its own class"); }
  if (ask) { long q[3]; names(q, 4, n); assume(!one(q, n));
  Wrap* want=s.find(q);
  { Allocator tl; { Monom x(&tl, n, -1); power(&tl, x, q, n); chk_ptr(F.find(x), want, "divisor in the forest"); } } } }
  for (int k=0; k < m; k++) delete s.w[k];
  done();
}
SC sc_JG_20() { gbS(2, 0, 1, 1); }
SC sc_JG_21() { gbS(2, 1, 1, 2); }
SC sc_JG_22() { gbS(2, 2, 1, 3); }
SC sc_JG_32() { gbS(3, 2, 2, 2, 1, false); }
SC sc_JG_32b() { gbS(3, 2, 2, 2, 0, false); }
SC sc_JI_32() { gbS(3, 2, 2, 2, 1, true); }
SC sc_JI_32b() { gbS(3, 2, 2, 2, 0, true); }
SC sc_JG_grow() { gbS(1, 1, 18, 4); }
SC sc_JG_grow2() { gbS(2, 2, 19, 2); }
SC sc_JG_grow3() { gbS(1, 2, 33, 2); }
SC sc_JG_grow4() { gbS(2, 1, 38, 1); }

/* ---- monomial completion, list form */
typedef int (*Cmp)(const Wrap&, const Wrap&);
static Cmp cmpOf(int k) { return k == 0 ? &MCompletion::lex : k == 1 ? &MCompletion::deglex : &MCompletion::alex; }
static bool has(const Wrap* w, const long* e, int n) { for (int i=0; i < n; i++) if (w->lm()[i] != e[i]) return false; return true; }
static void listed(const MCompletion& c, Cmp cmp, int n) {
  const Wrap* w[40]; int m=0;
  for (ListWrap::ConstIterator j(c.T().begin()); j; ++j) { chk(m < 40, "finite"); w[m++] = j.data(); }
  chk_eq(c.length(), m, "length");
  for (int k=0; k+1 < m; k++) chk(cmp(*w[k], *w[k+1]) < 0, "the list ascends strictly");
  for (int k=0; k < m; k++) for (int v=0; v < n; v++) {
    bool nm=false;
    for (int b=k+1; b < m && !nm; b++) { int i=0; while (i < n && w[b]->lm()[i] <= w[k]->lm()[i]) i++; if (i == v) nm = true; }
    chk(w[k]->NM(v) == nm, "non-multiplicative variable");
  }
}
static void pushS(int n, int m, int order) {
  globals(); Allocator al; { Cmp cmp=cmpOf(order); MCompletion c(&al, cmp); Set s; s.n = n; s.m = 0; Allocator tl;
  for (int k=0; k < m; k++) { names(s.e[k], k, n); bool dup=false; for (int a=0; a < k; a++) if (same(s.e[a], s.e[k], n)) dup = true; { Monom x(&tl, n, -1); power(&tl, x, s.e[k], n); c.push(x); } if (!dup) s.m++;
    chk_eq(c.length(), s.m, "a duplicate is entered once"); }
  listed(c, cmp, n);
  for (int k=0; k < m; k++) { bool in=false; for (ListWrap::ConstIterator j(c.T().begin()); j; ++j) if (has(j.data(), s.e[k], n)) in = true; chk(in, "every monomial is entered"); } } done();
}
SC sc_JM_push12() { pushS(1, 3, pick(3)); }
SC sc_JM_push22() { pushS(2, 2, pick(3)); }
SC sc_JM_push23() { pushS(2, 3, 0); }
SC sc_JM_push32() { pushS(3, 2, 0); }
static void findM(int n, int m, int order) {
  globals(); Allocator al; { Cmp cmp=cmpOf(order); MCompletion c(&al, cmp); Allocator tl; long q[3]; names(q, 4, n);
  for (int k=0; k < m; k++) { long e[3]; names(e, k, n); Monom x(&tl, n, -1); power(&tl, x, e, n); c.push(x); }
  Wrap* want=nullptr;
  for (ListWrap::ConstIterator j(c.T().begin()); j && !want; ++j) { bool ok=true; for (int v=0; v < n && ok; v++) if (j.data()->lm()[v] > q[v] || (j.data()->lm()[v] < q[v] && j.data()->NM(v))) ok = false; if (ok) want = j.data(); }
  { Monom x(&tl, n, -1); power(&tl, x, q, n); chk_ptr(c.find(x), want, "involutive divisor"); } } done();
}
SC sc_JM_find13() { findM(1, 3, pick(3)); }
SC sc_JM_find22() { findM(2, 2, pick(3)); }
/* completion of arbitrary generators of low degree */
static void gens(long (*g)[3], int n, int m, int max) { for (int k=0; k < m; k++) { long d=0; for (int i=0; i < n; i++) d += g[k][i] = pick(max+1); if (d == 0) path_end(); } }
static bool inIdeal(long (*g)[3], int n, int m, const long* q) {
  for (int k=0; k < m; k++) { bool ok=true; for (int i=0; i < n && ok; i++) if (g[k][i] > q[i]) ok = false; if (ok) return true; }
  return false;
}
static bool divs(const Monom& a, const long* q, int n) { for (int i=0; i < n; i++) if (a[i] > q[i]) return false; return true; }
static void entry(const Wrap* w, long (*g)[3], int n, int m) {
  long e[3]; for (int i=0; i < n; i++) e[i] = w->lm()[i];
  chk(inIdeal(g, n, m, e), "every element is a multiple of a generator");
  bool anc=false; for (int k=0; k < m; k++) if (has(w, g[k], n)) anc = true;
  bool src=false; for (int k=0; k < m; k++) { bool eq=true; for (int i=0; i < n; i++) if (w->ansector()[i] != g[k][i]) eq = false; if (eq) src = true; }
  chk(src, "the ancestor is a generator"); chk(divs(w->ansector(), e, n), "the ancestor divides");
  chk(!anc || w->isGB(), "a generator is its own ancestor");
}
static void closeS(int n, int m, int max, int order) {
  globals(); Allocator al; { long g[3][3]; gens(g, n, m, max); Cmp cmp=cmpOf(order); MCompletion c(&al, cmp); Allocator tl;
  for (int k=0; k < m; k++) { Monom x(&tl, n, -1); power(&tl, x, g[k], n); c.push(x); }
  c.build(); listed(c, cmp, n);
  for (ListWrap::ConstIterator j(c.T().begin()); j; ++j) { entry(j.data(), g, n, m);
    for (int v=0; v < n; v++) if (j.data()->NM(v)) { Monom x(&tl, v, j.data()->lm()); chk(c.find(x) != nullptr, "every prolongation has a divisor"); } }
  for (int k=0; k < m; k++) { bool in=false; for (ListWrap::ConstIterator j(c.T().begin()); j; ++j) if (has(j.data(), g[k], n)) in = true; chk(in, "the generators are kept"); }
  long q[3]; for (int i=0; i < n; i++) q[i] = pick(max+2);
  { Monom x(&tl, n, -1); power(&tl, x, q, n); chk((c.find(x) != nullptr) == inIdeal(g, n, m, q), "exactly the ideal has divisors"); } } done();
}
SC sc_JC_list1() { closeS(1, 2, 3, pick(3)); }
SC sc_JC_list2() { closeS(2, 2, 2, 0); }
SC sc_JC_list2d() { closeS(2, 2, 2, 1); }
SC sc_JC_list2a() { closeS(2, 2, 2, 2); }
SC sc_JC_list3() { closeS(3, 2, 1, 0); }
/* completion, tree form */
static void walk(const MJanet& c, Janet::ConstIterator j, long (*g)[3], int n, int m, int& cnt) {
  Allocator tl;
  while (j) {
    if (j.wrap()) { ++cnt; entry(j.wrap(), g, n, m);
      for (int v=0; v < n; v++) if (j.wrap()->NM(v)) { Monom x(&tl, v, j.wrap()->lm()); chk(c.tree().find(x) != nullptr, "every prolongation has a divisor"); chk(j.wrap()->build(v), "every prolongation was tried"); } }
    if (j.nextVar()) walk(c, j.nextVar(), g, n, m, cnt);
    j.deg();
  }
}
static void treeS(int n, int m, int max) {
  globals(); Allocator al; { long g[3][3]; gens(g, n, m, max); MJanet c(&al); Allocator tl; bool put[3];
  for (int k=0; k < m; k++) { Monom x(&tl, n, -1); power(&tl, x, g[k], n); put[k] = c.tree().find(x) == nullptr; if (put[k]) c.push(x); else path_end(); }
  c.build(); int cnt=0; walk(c, c.tree().begin(), g, n, m, cnt); chk_eq(c.tree().size(), cnt, "size");
  for (int k=0; k < m; k++) { Monom x(&tl, n, -1); power(&tl, x, g[k], n); const Wrap* w=c.tree().find(x); chk(w != nullptr && has(w, g[k], n), "the generators are kept"); }
  long q[3]; long d=0; for (int i=0; i < n; i++) d += q[i] = pick(max+2); if (d == 0) path_end();
  { Monom x(&tl, n, -1); power(&tl, x, q, n); chk((c.tree().find(x) != nullptr) == inIdeal(g, n, m, q), "exactly the ideal has divisors"); } } done();
}
SC sc_JC_tree1() { treeS(1, 2, 3); }
SC sc_JC_tree2() { treeS(2, 2, 2); }
SC sc_JC_tree3() { treeS(3, 2, 1); }
/* storage of a completion that was pushed but not finished */
SC sc_JC_early() { globals(); Allocator al; { MJanet c(&al); Allocator tl; { long e[3]; names(e, 0, 2); assume(!one(e, 2)); Monom x(&tl, 2, -1); power(&tl, x, e, 2); c.push(x); } if (pick(2)) c.build(); chk_eq(c.tree().size(), 1, "one monomial is complete"); } done(); }

/* ---- Hilbert polynomial of a tree: everything minus one cone per entry */
static void hilbertS(int n, int m) {
  globals(); Allocator al; Set s; { Janet J(&al); fill(J, s, n, m);
  HilbertPoly h, want(n), t(n); J.buildHP(h); chk_eq(h.dim(), n, "dimension");
  want.binomial(n, n);
  for (int a=0; a < m; a++) { int mu=0; long d=0; for (int v=0; v < n; v++) { if (!s.nonmult(a, v)) mu++; d += s.e[a][v]; } t.binomial(mu-d, mu); want.sub(t); }
  int k=pick(n); chk_real(rational_value(h[k]), rational_value(want[k]), "coefficient of the Hilbert polynomial"); } drop(s); done();
}
SC sc_JH_11() { hilbertS(1, 1); }
SC sc_JH_12() { hilbertS(1, 2); }
SC sc_JH_21() { hilbertS(2, 1); }
SC sc_JH_22() { hilbertS(2, 2); }
SC sc_JH_31() { hilbertS(3, 1); }
