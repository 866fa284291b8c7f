#include "util/allocator.h"
#include "util/list.h"
#include "util/integer.h"
#include "ginv/monom.h"
#include "ginv/poly.h"
#include "ginv/poly_int.h"
#include <utility>
#include "scen.h"
using namespace GInv;

extern "C" long text_value(const char* s, int base);
static long val(const Integer& x) { return text_value(x.get_str(10), 10); }

/* exponents of one variable: a single number orders the monomials, so every pattern of the merge loops is reached */
static int order() { int k=pick(2); return k == 0 ? (Poly::TOP|Poly::deglex) : (Poly::TOP|Poly::alex); }
/* hi precedes lo in a polynomial of this order */
static void above(int o, long hi, long lo) { if (o & Poly::alex) assume(hi < lo); else assume(hi > lo); }
/* p += c * x^e, c a name or a number */
static void put(PolyInt& p, long e, const char* c, const char* c2=nullptr, int pos=-1) {
  Allocator al;
  { Monom x(&al, 0, 1, -1), m(&al, x, (int)e);
    m.setPos(pos);
    PolyInt t(&al, p.order(), m);
    t.mult(c);
    if (c2) t.mult(c2);
    p.add(t); }
}
/* coefficient of x^e */
static long at(const PolyInt& p, long e, int pos=-1) {
  long s=0;
  for (PolyInt::ConstIterator i(p.begin()); i; ++i)
    if (i.monom()[0] == e && i.monom().pos() == pos) s += val(i.coeff());
  return s;
}
/* canonical form: strictly descending monomials, no zero coefficient, degrees correct, length right */
static void form(const PolyInt& p) {
  int n=0; long prev=0;
  for (PolyInt::ConstIterator i(p.begin()); i; ++i, ++n) {
    long e=i.monom()[0];
    chk(!i.coeff().isZero(), "form: no term has coefficient zero");
    chk_eq(i.monom().degree(), e, "form: degree of a term");
    if (n) chk((p.order() & Poly::alex) ? e > prev : e < prev, "form: terms strictly descend");
    prev = e;
  }
  chk_eq(p.length(), n, "form: length");
  chk(p.isZero() == (n == 0), "form: zero test");
}
static const char* const NA[]={"A0", "A1", "A2", "A3"};
static const char* const NB[]={"B0", "B1", "B2", "B3"};
static const char* const EA[]={"e0", "e1", "e2", "e3"};
static const char* const EB[]={"f0", "f1", "f2", "f3"};
/* n terms with arbitrary exponents in order and arbitrary non-zero coefficients */
static void fill(PolyInt& p, int n, const char* const* names, const char* const* exps) {
  long prev=0;
  for (int i=0; i < n; i++) {
    long e=nd(exps[i]); assume(e >= 0);
    assume(nd(names[i]) != 0);
    if (i) above(p.order(), prev, e);
    prev = e;
    put(p, e, names[i]);
  }
}
static long want(int n, const char* const* names, const char* const* exps, long x) {
  long s=0;
  for (int i=0; i < n; i++) if (nd(exps[i]) == x) s += nd(names[i]);
  return s;
}
#define X long x=nd("x"); assume(x >= 0)

SC sc_Q0_build() {
  globals(); Allocator al; { int o=order(), n=pick(4); PolyInt p(&al, o, 1); fill(p, n, NA, EA); form(p);
  X; chk_eq(at(p, x), want(n, NA, EA, x), "value: terms of a sum of terms"); chk_eq(p.length(), n, "value: length");
  if (n) { chk_eq(p.degree(), nd("e0"), "value: degree"); chk_eq(val(p.lc()), nd("A0"), "value: leading coefficient"); chk_eq(p.lm()[0], nd("e0"), "value: leading monomial"); }
  chk((bool)p == (n > 0), "value: truth"); } done();
}
SC sc_Q0_add() {
  globals(); Allocator al; { int o=order(), n=pick(3), m=pick(3); PolyInt p(&al, o, 1), q(&al, o, 1); fill(p, n, NA, EA); fill(q, m, NB, EB);
  p.add(q); form(p); X; chk_eq(at(p, x), want(n, NA, EA, x)+want(m, NB, EB, x), "value: sum"); chk_eq(at(q, x), want(m, NB, EB, x), "value: operand unchanged"); } done();
}
SC sc_Q0_add3() {
  globals(); Allocator al; { int o=Poly::TOP|Poly::deglex, n=3, m=1; PolyInt p(&al, o, 1), q(&al, o, 1); fill(p, n, NA, EA); fill(q, m, NB, EB);
  if (pick(2)) { p.add(q); form(p); X; chk_eq(at(p, x), want(n, NA, EA, x)+want(m, NB, EB, x), "value: sum"); }
  else { q.add(p); form(q); X; chk_eq(at(q, x), want(n, NA, EA, x)+want(m, NB, EB, x), "value: sum"); } } done();
}
SC sc_Q0_sub() {
  globals(); Allocator al; { int o=order(), n=pick(3), m=pick(3); PolyInt p(&al, o, 1), q(&al, o, 1); fill(p, n, NA, EA); fill(q, m, NB, EB);
  p.sub(q); form(p); X; chk_eq(at(p, x), want(n, NA, EA, x)-want(m, NB, EB, x), "value: difference"); chk_eq(at(q, x), want(m, NB, EB, x), "value: operand unchanged"); } done();
}
SC sc_Q0_self() {
  globals(); Allocator al; { int o=order(), n=pick(3); PolyInt p(&al, o, 1); fill(p, n, NA, EA); X; int op=pick(4);
  if (op == 0) { p.add(p); form(p); chk_eq(at(p, x), 2*want(n, NA, EA, x), "value: doubling"); }
  else if (op == 1) { p.sub(p); form(p); chk(p.isZero(), "value: difference with itself"); }
  else if (op == 2) { p.minus(); form(p); chk_eq(at(p, x), -want(n, NA, EA, x), "value: negation"); }
  else { p.mult("C"); form(p); chk_eq(at(p, x), nd("C")*want(n, NA, EA, x), "value: multiple"); } } done();
}
SC sc_Q0_const() {
  globals(); Allocator al; { int o=order(), n=pick(3); PolyInt p(&al, o, 1); fill(p, n, NA, EA); X; long c=nd("C");
  int op=pick(3);
  if (op == 0) { p.add("C"); form(p); chk_eq(at(p, x), want(n, NA, EA, x)+(x == 0 ? c : 0), "value: sum with a constant"); }
  else if (op == 1) { p.sub("C"); form(p); chk_eq(at(p, x), want(n, NA, EA, x)-(x == 0 ? c : 0), "value: difference with a constant"); }
  else { PolyInt q(&al, o, 1, "C"); form(q); chk_eq(at(q, x), x == 0 ? c : 0, "value: constant"); } } done();
}
static long prod(int n, int m, long x) {
  long s=0;
  for (int i=0; i < n; i++) for (int j=0; j < m; j++) if (nd(EA[i])+nd(EB[j]) == x) s += nd(NA[i])*nd(NB[j]);
  return s;
}
static void times(int o, int n, int m) {
  Allocator al; { PolyInt p(&al, o, 1), q(&al, o, 1); fill(p, n, NA, EA); fill(q, m, NB, EB);
  p.mult(q); form(p); X; chk_eq(at(p, x), prod(n, m, x), "value: product"); chk_eq(at(q, x), want(m, NB, EB, x), "value: operand unchanged"); } done();
}
SC sc_Q0_mult1() { globals(); times(order(), pick(4), 1); }
SC sc_Q0_mult1b() { globals(); times(order(), 1, pick(4)); }
SC sc_Q0_mult0() { globals(); if (pick(2)) times(order(), pick(3), 0); else times(order(), 0, pick(3)); }
SC sc_Q0_mult2() { globals(); times(order(), 2, 2); }
SC sc_Q0_mult3() { globals(); times(Poly::TOP|Poly::deglex, 3, 2); }
SC sc_Q0_mult4() { globals(); times(Poly::TOP|Poly::deglex, 2, 3); }
SC sc_Q0_square() {
  globals(); Allocator al; { int n=pick(3); PolyInt p(&al, order(), 1); fill(p, n, NA, EA); p.mult(p); form(p); X;
  long s=0; for (int i=0; i < n; i++) for (int j=0; j < n; j++) if (nd(EA[i])+nd(EA[j]) == x) s += nd(NA[i])*nd(NA[j]);
  chk_eq(at(p, x), s, "value: square"); } done();
}
SC sc_Q0_pow() {
  globals(); Allocator al; { int o=order(), n=pick(3), d=pick(4); PolyInt p(&al, o, 1); fill(p, n, NA, EA);
  p.pow(d); form(p); X; long s=0;
  if (d == 0) s = (x == 0);
  else if (d == 1) s = want(n, NA, EA, x);
  else if (d == 2) { for (int i=0; i < n; i++) for (int j=0; j < n; j++) if (nd(EA[i])+nd(EA[j]) == x) s += nd(NA[i])*nd(NA[j]); }
  else for (int i=0; i < n; i++) for (int j=0; j < n; j++) for (int k=0; k < n; k++) if (nd(EA[i])+nd(EA[j])+nd(EA[k]) == x) s += nd(NA[i])*nd(NA[j])*nd(NA[k]);
  chk_eq(at(p, x), s, "value: power"); } done();
}
SC sc_Q0_copy() {
  globals(); Allocator al, bl; { int o=order(), n=pick(3), m=pick(3); PolyInt p(&al, o, 1), q(&bl, o, 1); fill(p, n, NA, EA); fill(q, m, NB, EB); X;
  int op=pick(5);
  if (op == 0) { PolyInt r(&bl, p); form(r); chk_eq(at(r, x), want(n, NA, EA, x), "value: copy"); r.minus(); r.add("7"); chk_eq(at(p, x), want(n, NA, EA, x), "value: a copy is independent"); }
  else if (op == 1) { q = p; form(q); chk_eq(at(q, x), want(n, NA, EA, x), "value: assignment"); q.minus(); chk_eq(at(p, x), want(n, NA, EA, x), "value: assignment copies"); }
  else if (op == 2) { q.swap(p); chk_eq(at(q, x), want(n, NA, EA, x), "value: exchange"); chk_eq(at(p, x), want(m, NB, EB, x), "value: exchange"); }
  else if (op == 3) { PolyInt r(std::move(p)); form(r); chk_eq(at(r, x), want(n, NA, EA, x), "value: moved value"); }
  else { q = std::move(p); form(q); chk_eq(at(q, x), want(n, NA, EA, x), "value: moved value"); } } done();
}
SC sc_Q0_order() {
  globals(); Allocator al, bl; { int o=order(); PolyInt p(&al, o, 1), q(&bl, o == (Poly::TOP|Poly::deglex) ? (Poly::TOP|Poly::alex) : (Poly::TOP|Poly::deglex), 1);
  fill(p, 2, NA, EA); X;
  chk(!p.comparable(q), "value: different orders are not comparable");
  int op=pick(3);
  if (op == 0) q = p; else if (op == 1) q.swap(p); else q = std::move(p);
  chk_eq(q.order(), o, "value: the order travels with the terms");
  put(q, 0, "C"); form(q); chk_eq(at(q, x), want(2, NA, EA, x)+(x == 0 ? nd("C") : 0), "value: sum after assignment"); } done();
}
SC sc_Q0_ops() {
  globals(); Allocator al, bl; { int o=order(), n=pick(3), m=pick(2); PolyInt p(&al, o, 1), q(&bl, o, 1); fill(p, n, NA, EA); fill(q, m, NB, EB); X;
  long a=want(n, NA, EA, x), b=want(m, NB, EB, x); int op=pick(4);
  if (op == 0) { PolyInt r(std::move(p)+q); form(r); chk_eq(at(r, x), a+b, "value: operator +"); }
  else if (op == 1) { PolyInt r(std::move(p)-q); form(r); chk_eq(at(r, x), a-b, "value: operator -"); }
  else if (op == 2) { PolyInt r(std::move(p)*q); form(r); chk_eq(at(r, x), prod(n, m, x), "value: operator *"); }
  else { PolyInt r(-std::move(p)); form(r); chk_eq(at(r, x), -a, "value: unary -"); }
  chk_eq(at(q, x), b, "value: operand unchanged"); } done();
}
SC sc_Q0_cmp() {
  globals(); Allocator al; { int o=order(); PolyInt p(&al, o, 1), q(&al, o, 1); fill(p, 2, NA, EA); fill(q, 1, NB, EB); long d=nd("e0")-nd("f0");
  if (o & Poly::alex) d = -d;
  chk_eq(p.cmp(q), d > 0 ? 1 : d < 0 ? -1 : 0, "value: polynomials compare by their heads"); } done();
}
/* two variables: x^e y^k */
static void put2(PolyInt& p, long e, long k, const char* c, int pos=-1) {
  Allocator al;
  { Monom x(&al, 0, 2, -1), y(&al, 1, 2, -1), m(&al, x, (int)e), r(&al, y, (int)k), s(&al, m, r); s.setPos(pos);
    PolyInt t(&al, p.order(), s); t.mult(c); p.add(t); }
}
static long at2(const PolyInt& p, long e, long k, int pos=-1) {
  long s=0;
  for (PolyInt::ConstIterator i(p.begin()); i; ++i) if (i.monom()[0] == e && i.monom()[1] == k && i.monom().pos() == pos) s += val(i.coeff());
  return s;
}
static const int ORD[]={Poly::TOP|Poly::lex, Poly::TOP|Poly::deglex, Poly::TOP|Poly::alex, Poly::POT|Poly::lex, Poly::POT|Poly::deglex, Poly::POT|Poly::alex};
/* every term precedes the next in the order of the polynomial (queried through cmp) */
static void form2(const PolyInt& p) {
  Allocator al; { const Monom* prev=nullptr;
  for (PolyInt::ConstIterator i(p.begin()); i; ++i) {
    chk(!i.coeff().isZero(), "form: no term has coefficient zero");
    if (prev) chk(p.Poly::cmp(*prev, i.monom()) > 0, "form: terms strictly descend");
    prev = &i.monom();
  } }
}
SC sc_Q0_prolong() {
  globals(); Allocator al, bl; { PolyInt p(&al, ORD[pick(6)], 2); long a=nd("A0"), b=nd("A1"); assume(a != 0 && b != 0);
  put2(p, 2, 1, "A0"); put2(p, 0, 3, "A1"); int v=pick(2);
  PolyInt q(&bl, v, p); form2(q); chk_eq(q.length(), 2, "value: prolongation");
  chk_eq(at2(q, 2+(v == 0), 1+(v == 1)), a, "value: prolongation"); chk_eq(at2(q, (v == 0), 3+(v == 1)), b, "value: prolongation");
  chk_eq(at2(p, 2, 1), a, "value: operand unchanged"); chk_eq(at2(p, 0, 3), b, "value: operand unchanged"); } done();
}
SC sc_Q0_module() {
  globals(); Allocator al; { PolyInt p(&al, ORD[pick(6)], 2), q(&al, p.order(), 2); long a=nd("A0"), b=nd("A1"), c=nd("B0"), d=nd("B1");
  assume(a != 0 && b != 0 && c != 0 && d != 0);
  put2(p, 1, 0, "A0", 0); put2(p, 1, 0, "A1", 1); put2(q, 1, 0, "B0", 0); put2(q, 0, 2, "B1", 1);
  form2(p); form2(q);
  chk_eq(p.length(), 2, "value: components are different terms"); chk_eq(p.maxPos(), 1, "value: largest component");
  PolyInt r(&al, p); r.add(q); form2(r);
  chk_eq(at2(r, 1, 0, 0), a+c, "value: sum in a module"); chk_eq(at2(r, 1, 0, 1), b, "value: sum in a module"); chk_eq(at2(r, 0, 2, 1), d, "value: sum in a module");
  r.sub(q); r.sub(p); chk(r.isZero(), "value: difference in a module");
  PolyInt s(&al, p.order(), 2); put2(s, 0, 1, "C"); assume(nd("C") != 0); PolyInt t(&al, p); t.mult(s); form2(t);
  chk_eq(at2(t, 1, 1, 0), a*nd("C"), "value: scalar multiple in a module"); chk_eq(at2(t, 1, 1, 1), b*nd("C"), "value: scalar multiple in a module");
  chk_eq(s.maxPos(), -1, "value: largest component"); } done();
}
SC sc_Q0_vars() {
  globals(); Allocator al; { PolyInt p(&al, ORD[pick(3)], 2), q(&al, p.order(), 2); long a=nd("A0"), b=nd("A1"), c=nd("B0"), d=nd("B1");
  assume(a != 0 && b != 0 && c != 0 && d != 0);
  put2(p, 2, 0, "A0"); put2(p, 0, 1, "A1"); put2(q, 0, 1, "B0"); put2(q, 1, 0, "B1");
  form2(p); form2(q); PolyInt r(&al, p); r.mult(q); form2(r);
  chk_eq(at2(r, 2, 1), a*c, "value: product in two variables"); chk_eq(at2(r, 3, 0), a*d, "value: product in two variables");
  chk_eq(at2(r, 0, 2), b*c, "value: product in two variables"); chk_eq(at2(r, 1, 1), b*d, "value: product in two variables");
  chk_eq(r.length(), 4, "value: product in two variables"); } done();
}
SC sc_Q0_norm() {
  globals(); Allocator al; { int n=pick(3); PolyInt p(&al, order(), 1); fill(p, n, NA, EA); long s=0;
  for (PolyInt::ConstIterator i(p.begin()); i; ++i) s += i.coeff().norm();
  chk_eq(p.norm(), s, "value: norm is the sum of the coefficient norms"); } done();
}

/* ---- reduction: p with head e0 and coefficient G*cpA, q with head f0 and coefficient G*cpB */
static void fillR(PolyInt& p, int n, const char* lead, const char* const* names, const char* const* exps, const char* g="G") {
  long prev=0;
  for (int i=0; i < n; i++) {
    long e=nd(exps[i]); assume(e >= 0);
    if (i) { above(p.order(), prev, e); assume(nd(names[i]) != 0); }
    prev = e;
    if (i == 0) put(p, e, g, lead); else put(p, e, names[i]);
  }
}
static void heads() { assume(nd("G") > 0); assume(nd("cpA") != 0); assume(nd("cpB") != 0); }
static long wantR(int n, const char* lead, const char* const* names, const char* const* exps, long x) {
  long s=0;
  for (int i=0; i < n; i++) if (nd(exps[i]) == x) s += i == 0 ? nd("G")*nd(lead) : nd(names[i]);
  return s;
}
static void reduceR(int o, int n, int m) {
  Allocator al, bl; { PolyInt p(&al, o, 1), q(&bl, o, 1); heads(); fillR(p, n, "cpA", NA, EA); fillR(q, m, "cpB", NB, EB);
  long s=nd("e0")-nd("f0"); assume(s >= 0); X;
  p.reduction(q); form(p);
  chk_eq(at(p, x), nd("cpB")*wantR(n, "cpA", NA, EA, x)-nd("cpA")*wantR(m, "cpB", NB, EB, x-s), "value: head reduction");
  chk_eq(at(q, x), wantR(m, "cpB", NB, EB, x), "value: the reductor is unchanged"); } done();
}
SC sc_QR_head1() { globals(); int n=pick(3)+1; reduceR(order(), n, 1); }
SC sc_QR_head2() { globals(); reduceR(order(), pick(2)+1, 2); }
SC sc_QR_head3() { globals(); reduceR(Poly::TOP|Poly::deglex, 3, 2); }
SC sc_QR_head4() { globals(); reduceR(Poly::TOP|Poly::deglex, 1, 3); }
/* redMaybe: reduces the term equal to the head of q, if there is one */
static void maybeR(int o, int n, int m, int at_) {
  Allocator al, bl; { PolyInt p(&al, o, 1), q(&bl, o, 1); heads(); X; long prev=0;
  for (int i=0; i < n; i++) { long e=nd(EA[i]); assume(e >= 0); if (i) above(o, prev, e); prev = e;
    if (i == at_) put(p, e, "G", "cpA"); else { assume(nd(NA[i]) != 0); put(p, e, NA[i]); } }
  if (at_ >= 0) assume(nd("f0") == nd(EA[at_])); else for (int i=0; i < n; i++) assume(nd("f0") != nd(EA[i]));
  fillR(q, m, "cpB", NB, EB);
  p.redMaybe(q); form(p);
  long old=0; for (int i=0; i < n; i++) if (nd(EA[i]) == x) old += i == at_ ? nd("G")*nd("cpA") : nd(NA[i]);
  chk_eq(at(p, x), at_ < 0 ? old : nd("cpB")*old-nd("cpA")*wantR(m, "cpB", NB, EB, x), "value: reduction of a term");
  chk_eq(at(q, x), wantR(m, "cpB", NB, EB, x), "value: the reductor is unchanged"); } done();
}
SC sc_QR_maybe0() { globals(); int n=pick(3)+1; maybeR(order(), n, pick(2)+1, -1); }
SC sc_QR_maybe1() { globals(); int n=pick(3)+1; int k=pick(n); maybeR(order(), n, 1, k); }
SC sc_QR_maybe2() { globals(); int n=pick(2)+1; int k=pick(n); maybeR(order(), n, 2, k); }
SC sc_QR_maybe3() { globals(); maybeR(Poly::TOP|Poly::deglex, 3, 2, pick(3)); }
/* components: every order, head and tail terms of q in different components */
SC sc_QR_module() {
  globals(); Allocator al, bl; { PolyInt p(&al, ORD[pick(6)], 2), q(&bl, p.order(), 2); heads(); assume(nd("A1") != 0 && nd("B1") != 0);
  put2(p, 2, 2, "G", 1); p.mult("cpA"); put2(p, 1, 0, "A1", 0);
  put2(q, 1, 1, "G", 1); q.mult("cpB"); put2(q, 1, 1, "B1", 0);
  /* the head of both is the component-1 term, unless the order prefers low degrees */
  if (p.lm().pos() == 1 && q.lm().pos() == 1) {
    p.reduction(q); form2(p);
    chk_eq(at2(p, 2, 2, 1), 0, "value: head reduction in a module");
    chk_eq(at2(p, 1, 0, 0), nd("cpB")*nd("A1"), "value: head reduction in a module");
    chk_eq(at2(p, 2, 2, 0), -nd("cpA")*nd("B1"), "value: head reduction in a module");
    chk_eq(p.length(), 2, "value: head reduction in a module");
  } } done();
}
SC sc_QR_module2() {
  globals(); Allocator al, bl; { PolyInt p(&al, ORD[pick(6)], 2), q(&bl, p.order(), 2); assume(nd("A0") != 0 && nd("A1") != 0 && nd("B0") != 0 && nd("B1") != 0);
  put2(p, 1, 1, "A0", 1); put2(p, 2, 2, "A1", 0); put2(q, 2, 2, "B0", 1);
  PolyInt r(&al, p); r.redMaybe(q);
  chk_eq(at2(r, 1, 1, 1), nd("A0"), "value: a term of another component is not reduced"); chk_eq(at2(r, 2, 2, 0), nd("A1"), "value: a term of another component is not reduced"); } done();
}

/* ---- content */
SC sc_QP_content() {
  globals(); Allocator al; { int o=order(), n=pick(3)+1; PolyInt p(&al, o, 1); static const char* const C[]={"cpA", "cpB", "cpC"};
  long g=nd("G"); assume(g > 1); long prev=0;
  for (int i=0; i < n; i++) { long e=nd(EA[i]); assume(e >= 0); if (i) above(o, prev, e); prev = e; assume(nd(C[i]) != 0);
    long gc=g*nd(C[i]); assume(gc != 1 && gc != -1); put(p, e, "G", C[i]); }
  chk(!p.isPp(), "value: a polynomial with content is not primitive");
  p.pp(); form(p); X; long s=0; for (int i=0; i < n; i++) if (nd(EA[i]) == x) s += nd(C[i]);
  if (n > 1) { chk_eq(at(p, x), s, "value: primitive part"); }
  else { long u=at(p, x); chk(x == nd("e0") ? u == 1 || u == -1 : u == 0, "value: primitive part of one term"); }
  chk(p.isPp(), "value: the primitive part is primitive"); } done();
}
SC sc_QP_primitive() {
  globals(); Allocator al; { int o=order(), n=pick(3)+1; PolyInt p(&al, o, 1); static const char* const C[]={"cpA", "cpB", "cpC"};
  long g=nd("cpG"); assume(g > 1); long prev=0;
  for (int i=0; i < n; i++) { long e=nd(EA[i]); assume(e >= 0); if (i) above(o, prev, e); prev = e; assume(nd(C[i]) != 0);
    if (n == 1) put(p, e, "-1"); else if (n == 3 && i < 2) { long gc=g*nd(C[i]); assume(gc != 1 && gc != -1); put(p, e, "cpG", C[i]); } else put(p, e, C[i]); }
  chk(p.isPp(), "value: coprime coefficients are primitive");
  PolyInt q(&al, p); q.pp(); form(q); X; chk_eq(at(q, x), at(p, x), "value: a primitive polynomial is its primitive part");
  PolyInt z(&al, o, 1); chk(z.isPp(), "value: zero is primitive"); z.pp(); chk(z.isZero(), "value: zero"); } done();
}

/* ---- normal forms against a client's collection of reductors */
struct Finder {
  WrapPolyInt *w[2]; int n; int asked, hit;
  Finder(): n(0), asked(0), hit(0) {}
  WrapPolyInt* find(const Monom& m) {
    ++asked;
    for (int i=0; i < n; i++) if (m.divisiable(w[i]->lm())) { ++hit; return w[i]; }
    return nullptr;
  }
};
SC sc_QN_head() {
  globals(); Allocator al; { int o=Poly::TOP|Poly::deglex; long a=nd("A0"), b=nd("A1"), c=nd("A2"), d=nd("B1"); assume(a != 0 && b != 0 && c != 0 && d != 0);
  PolyInt q(&al, o, 1); put(q, 1, "1"); put(q, 0, "B1");
  { WrapPolyInt w(q); Finder f; f.w[0] = &w; f.n = 1;
    PolyInt p(&al, o, 1); put(p, 3, "A0"); put(p, 1, "A1"); put(p, 0, "A2"); chk(!p.isNf(f), "value: a reducible tail is noticed");
    int r=p.nf(f); form(p); chk_eq(r, f.hit-1, "value: number of reductions"); chk_eq(at(p, 0), c-b*d-a*d*d*d, "value: normal form");
    chk(p.isZero() || p.degree() == 0, "value: the head is reduced as long as possible"); chk(p.isNf(f), "value: nothing left to reduce");
    chk_eq(at(w.poly(), 1), 1, "value: the reductor is unchanged"); chk_eq(at(w.poly(), 0), d, "value: the reductor is unchanged"); } } done();
}
SC sc_QN_headonly() {
  globals(); Allocator al; { int o=order(); long a=nd("A0"), b=nd("A1"), d=nd("B1"); assume(a != 0 && b != 0 && d != 0);
  bool up=o & Poly::alex;           /* alex: low degrees first */
  PolyInt q(&al, o, 1); put(q, up ? 1 : 4, "1"); put(q, up ? 9 : 0, "B1");
  { WrapPolyInt w(q); Finder f; f.w[0] = &w; f.n = 1;
    PolyInt p(&al, o, 1); put(p, up ? 0 : 3, "A0"); put(p, up ? 5 : 1, "A1");
    chk_eq(p.nf(f), 0, "value: an irreducible head is kept"); chk_eq(at(p, up ? 0 : 3), a, "value: an irreducible head is kept"); chk_eq(at(p, up ? 5 : 1), b, "value: an irreducible head is kept"); } } done();
}
SC sc_QN_tail() {
  globals(); Allocator al; { int o=Poly::TOP|Poly::deglex; long a=nd("A0"), b=nd("A1"), c=nd("A2"), d=nd("B1"); assume(a != 0 && b != 0 && c != 0 && d != 0);
  PolyInt q(&al, o, 1); put(q, 2, "1"); put(q, 0, "B1");
  { WrapPolyInt w(q); Finder f; f.w[0] = &w; f.n = 1; int k=pick(3);
    PolyInt p(&al, o, 1); put(p, 7, "A0"); put(p, 4, "A1"); put(p, k, "A2"); if (pick(2)) { assume(nd("A3") != 0); put(p, 6, "A3"); } else assume(nd("A3") == 0);
    long h=nd("A3");
    int r=p.nfTail(f); form(p); chk_eq(at(p, 7), a, "value: the head is kept");
    chk_eq(at(p, 0), b*d*d-h*d*d*d+(k == 0 ? c : k == 2 ? -c*d : 0), "value: tail normal form"); chk_eq(at(p, 1), k == 1 ? c : 0, "value: tail normal form");
    chk_eq(at(p, 2)+at(p, 3)+at(p, 4)+at(p, 5)+at(p, 6), 0, "value: no reducible tail term is left");
    chk_eq(r, f.hit, "value: number of reductions"); chk(p.isNf(f), "value: nothing left to reduce"); chk_eq(p.nfTail(f), 0, "value: a normal form is not reduced again"); } } done();
}
SC sc_QN_two() {
  globals(); Allocator al; { int o=ORD[pick(2)]; long a=nd("A0"), b=nd("A1"), c=nd("A2"), d=nd("B1"), e=nd("B2"); assume(a != 0 && b != 0 && c != 0 && d != 0 && e != 0);
  PolyInt q(&al, o, 2), s(&al, o, 2); put2(q, 1, 0, "1"); put2(q, 0, 0, "B1"); put2(s, 0, 1, "1"); put2(s, 0, 0, "B2");
  { WrapPolyInt w1(q), w2(s); Finder f; f.w[0] = &w1; f.w[1] = &w2; f.n = 2;
    PolyInt p(&al, o, 2); put2(p, 1, 1, "A0"); put2(p, 0, 1, "A1"); put2(p, 0, 0, "A2");
    p.nf(f); p.nfTail(f); form2(p); chk_eq(at2(p, 0, 0), a*d*e-b*e+c, "value: normal form against two reductors"); chk(p.length() <= 1, "value: normal form against two reductors"); } } done();
}
SC sc_QN_long() {
  globals(); Allocator al; { int o=Poly::TOP|Poly::deglex; long a=nd("A0"), d=nd("B1"); assume(a != 0 && d != 0);
  PolyInt q(&al, o, 1); put(q, 1, "1"); put(q, 0, "B1");
  { WrapPolyInt w(q); Finder f; f.w[0] = &w; f.n = 1; PolyInt p(&al, o, 1);
    if (pick(2)) { put(p, 6, "A0"); chk_eq(p.nf(f), 6, "value: number of reductions"); form(p); chk_eq(at(p, 0), a*d*d*d*d*d*d, "value: normal form"); chk_eq(p.length(), 1, "value: normal form"); }
    else { put(p, 9, "1"); put(p, 6, "A0"); chk_eq(p.nfTail(f), 6, "value: number of reductions"); form(p); chk_eq(at(p, 0), a*d*d*d*d*d*d, "value: tail normal form"); chk_eq(at(p, 9), 1, "value: the head is kept"); chk_eq(p.length(), 2, "value: tail normal form"); } } } done();
}
/* reducible and irreducible tail terms alternate */
SC sc_QN_mixed() {
  globals(); Allocator al; { int o=Poly::TOP|Poly::deglex; long d=nd("B1"); assume(d != 0);
  PolyInt q(&al, o, 2); put2(q, 0, 1, "1"); put2(q, 0, 0, "B1");
  { WrapPolyInt w(q); Finder f; f.w[0] = &w; f.n = 1; PolyInt p(&al, o, 2); long c[7]; static const char *const N[]={"C0", "C1", "C2", "C3", "C4", "C5", "C6"};
    int k=pick(3);
    for (int i=0; i < 7; i++) { c[i] = nd(N[i]); if (i < 4) assume(c[i] != 0); }
    put2(p, 5, 0, N[0]); put2(p, 2, 1, N[1]); put2(p, 3, 0, N[2]); if (k == 0) put2(p, 1, 1, N[3]); else if (k == 1) { put2(p, 0, 1, N[3]); } else { put2(p, 1, 0, N[3]); }
    int r=p.nfTail(f); form2(p);
    chk_eq(at2(p, 5, 0), c[0], "value: the head is kept"); chk_eq(at2(p, 3, 0), c[2], "value: an irreducible term is kept"); chk_eq(at2(p, 2, 0), -c[1]*d, "value: tail normal form");
    chk_eq(at2(p, 1, 0), k == 0 ? -c[3]*d : k == 2 ? c[3] : 0, "value: tail normal form"); chk_eq(at2(p, 0, 0), k == 1 ? -c[3]*d : 0, "value: tail normal form");
    chk_eq(p.length(), 4, "value: tail normal form"); chk_eq(r, k == 2 ? 1 : 2, "value: number of reductions"); chk(p.isNf(f), "value: nothing left to reduce"); } } done();
}
/* a reductor with leading coefficient: the polynomial is scaled as a whole */
SC sc_QN_scale() {
  globals(); Allocator al; { int o=Poly::TOP|Poly::deglex; heads(); long b=nd("A1"), c=nd("A2"), d=nd("B1"); assume(b != 0 && c != 0 && d != 0);
  PolyInt q(&al, o, 1); put(q, 3, "G", "cpB"); put(q, 1, "B1");
  { WrapPolyInt w(q); Finder f; f.w[0] = &w; f.n = 1; PolyInt p(&al, o, 1); bool tail=pick(2);
    if (tail) put(p, 9, "A1"); put(p, 3, "G", "cpA"); put(p, 0, "A2");
    int r=tail ? p.nfTail(f) : p.nf(f); form(p); chk_eq(r, 1, "value: number of reductions");
    chk_eq(at(p, 9), tail ? b*nd("cpB") : 0, "value: scaled normal form"); chk_eq(at(p, 3), 0, "value: scaled normal form");
    chk_eq(at(p, 1), -nd("cpA")*d, "value: scaled normal form"); chk_eq(at(p, 0), c*nd("cpB"), "value: scaled normal form"); } } done();
}
SC sc_QN_zero() {
  globals(); Allocator al; { Finder f; PolyInt z(&al, order(), 1); chk_eq(z.nf(f), 0, "value: zero is its normal form"); chk_eq(z.nfTail(f), 0, "value: zero is its normal form");
  chk(z.isZero(), "value: zero is its normal form"); chk(z.isNf(f), "value: zero is its normal form");
  PolyInt p(&al, order(), 1); long e=nd("e0"); assume(e >= 0); put(p, e, "1"); chk(p.isNf(f), "value: one term has no tail"); chk_eq(p.nfTail(f), 0, "value: one term has no tail"); chk_eq(p.length(), 1, "value: one term has no tail"); } done();
}
/* a reductor is a copy: changing the source does not change it, and collecting it keeps its value */
SC sc_QN_wrap() {
  globals(); Allocator al; { int o=order(); PolyInt p(&al, o, 1); fill(p, 2, NA, EA); X;
  { WrapPolyInt w(p); p.minus(); put(p, 0, "7"); chk_eq(at(w.poly(), x), want(2, NA, EA, x), "value: a reductor is a copy");
    w.reallocate(); chk_eq(at(w.poly(), x), want(2, NA, EA, x), "value: a collected reductor keeps its value"); form(w.poly());
    w.poly().mult("C"); assume(nd("C") != 0); w.reallocate(); chk_eq(at(w.poly(), x), nd("C")*want(2, NA, EA, x), "value: a collected reductor keeps its value"); form(w.poly());
    chk_eq(w.lm()[0], nd("e0"), "value: leading monomial of a reductor"); } } done();
}
