#include "util/allocator.h"
#include "util/list.h"
#include "util/integer.h"
#include "util/hilbertpoly.h"
#include "util/randpermutation.h"
#include "ginv/monom.h"
#include "ginv/poly.h"
#include "ginv/poly_int.h"
#include "ginv/wrap.h"
#include <iostream>
#include "scen.h"
using namespace GInv;
extern "C" {
std::ostream* out_stream();
void text_start();
void text_is(const char* what);          /* the text printed since text_start() is the wanted one */
void want_char(char c); void want_str(const char* s); void want_num(long v); void want_real(double v);
}

static const char* const E[]={"e0", "e1", "e2"};
static const char* const F[]={"f0", "f1", "f2"};
static void fill(Monom& m, int n, const char* const* names) {
  Allocator al;
  { for (int v=0; v < n; v++) { long e=nd(names[v]); assume(e >= 0); Monom x(&al, v, n, -1), y(&al, x, (int)e); m.mult(y); } }
}
static void want(int n, const char* const* names, int pos) {
  want_char('[');
  if (pos >= 0) { want_num(pos); want_char(':'); }
  for (int v=0; v < n; v++) { if (v) want_char(' '); want_num(nd(names[v])); }
  want_char(']');
}
SC sc_O01_monom() {
  globals(); Allocator al;
  { int n=1+pick(3), pos=pick(2) ? -1 : (int)nd("pos"); assume(pos >= -1);
    Monom m(&al, n, pos); fill(m, n, E);
    text_start(); *out_stream() << m;
    want(n, E, pos); text_is("text of a monomial");
    int k=pick(n); chk_eq(m[k], nd(E[k]), "unchanged"); }
  done();
}
SC sc_O01_poly() {
  globals(); Allocator al;
  { int k=pick(5), n=k == 3 ? 1 : 1+pick(2), pos=pick(2) - 1;       /* k terms; 4: the zero difference of equal polynomials */
    static const char* const C[]={"A", "B", "C"};
    static const char* const G[]={"g0", "g1", "g2"};
    static const char* const* const X[]={E, F, G};
    PolyInt p(&al, Poly::TOP|Poly::deglex, n);
    for (int t=0; t < (k == 4 ? 2 : k); t++) {
      Monom m(&al, n, pos); fill(m, n, X[t]);
      assume(nd(C[t]) != 0);
      PolyInt q(&al, p.order(), m); q.mult(C[t]);
      if (t) { if (n == 1) assume(nd(X[t-1][0]) > nd(X[t][0])); else assume(nd("e0") + nd("e1") > nd("f0") + nd("f1")); }
      p.add(q);
    }
    if (k == 4) { PolyInt q(&al, p); p.sub(q); }
    text_start(); *out_stream() << p;
    if (k == 0 || k == 4) want_char('0');
    else for (int t=0; t < k; t++) {
      if (t) want_str(" + ");
      want(n, X[t], pos); want_char('*'); want_num(nd(C[t]));
    }
    text_is("text of a polynomial"); }
  done();
}
SC sc_O01_wrap() {
  globals(); Allocator al;
  { int n=1+pick(3);
    Monom m(&al, n, -1); fill(m, n, E);
    Wrap base(m); int k=pick(n+1); if (k < n) base.setNM(k);
    Wrap* pw=k < n ? new Wrap(k, &base) : new Wrap(m);      /* a prolongation by variable k, or the monomial itself */
    const Wrap& w=*pw;
    bool nm[3];
    for (int v=0; v < n; v++) { nm[v]=pick(2); if (nm[v]) w.setNM(v); }
    text_start(); *out_stream() << w;
    want_char('['); for (int v=0; v < n; v++) { if (v) want_char(' '); want_num(nd(E[v]) + (v == k)); } want_char(']');
    want(n, E, -1);
    want_char('['); for (int v=0; v < n; v++) want_char(nm[v] ? '*' : ' '); want_char(']');
    text_is("text of a marked monomial");
    delete pw; }
  done();
}
/* coefficients of binomial(s+a, b) */
static void binom(long a, int b, double* c, int n) {
  for (int k=0; k <= n; k++) c[k] = 0.0;
  c[0] = 1.0;
  for (int i=0; i < b; i++) {
    double m=(double)(a-i)/(double)(i+1), w=1.0/(double)(i+1);
    for (int k=n; k >= 0; k--) c[k] = c[k]*m + (k > 0 ? c[k-1]*w : 0.0);
  }
}
SC sc_O01_hilbert() {
  globals();
  { int dim=pick(3), b=pick(dim+1); double c[3];
    HilbertPoly p(dim);
    p.binomial(nd("a"), b); binom(nd("a"), b, c, dim);
    if (pick(2)) { p.mult(-1); for (int k=0; k <= dim; k++) c[k] = -c[k]; }
    text_start(); *out_stream() << p;
    bool sep=false;
    for (int k=dim; k >= 0; k--) {
      if (c[k] == 0.0) continue;
      if (!sep) want_real(c[k]);
      else if (c[k] < 0.0) { want_str(" - "); want_real(-c[k]); }
      else { want_str(" + "); want_real(c[k]); }
      if (k) { want_str("s^"); want_num(k); }
      sep = true;
    }
    text_is("text of a Hilbert polynomial"); }
  done();
}
SC sc_O01_permutation() {
  globals();
  { int n=1+pick(4); RandPermutation p(n);
    text_start(); *out_stream() << p;
    want_char('('); for (int k=0; k < n; k++) { if (k) want_char(' '); want_num(k); } want_char(')');
    text_is("text of a permutation"); }
  done();
}
