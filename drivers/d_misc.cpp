#include "util/hilbertpoly.h"
#include "util/randpermutation.h"
#include "util/timer.h"
#include "scen.h"
using namespace GInv;

extern "C" double rational_value(const char* s);
extern "C" void chk_real(double got, double want, const char* what);
extern "C" void rationals_cleared(const char* what);
extern "C" void record(long v);
extern "C" double clock_value(int which, int i);   /* i-th reading of the process clock in ticks: 0 user, 1 system, 2 real */
extern "C" long ticks();                           /* clock ticks per second */

/* H01: coefficients */
static const int DIM=4;
static void poly(const HilbertPoly& p, const double* c, int n, const char* what) {
  chk_eq(p.dim(), n, "dimension");
  int k=pick(n+1);
  chk_real(rational_value(p[k]), c[k], what);
  chk(p.isZero(k) == (c[k] == 0.0), "zero coefficient test");
}
/* coefficients of binomial(s+a, b) */
static void binom(long a, int b, double* c, int n) {
  for (int k=0; k <= n; k++) c[k] = 0.0;
  c[0] = 1.0;
  for (int i=0; i < b; i++) {
    double m=(double)(a-i)/(double)(i+1), w=1.0/(double)(i+1);
    for (int k=n; k >= 0; k--) c[k] = c[k]*m + (k > 0 ? c[k-1]*w : 0.0);
  }
}
static void zero(double* c) { for (int k=0; k <= DIM; k++) c[k] = 0.0; }
SC sc_H01_binomial() {
  globals();
  { long a=nd("a"); int b=pick(DIM+1); double c[DIM+1];
    HilbertPoly p(DIM);
    zero(c); poly(p, c, DIM, "coefficient of a new polynomial");
    p.binomial(a, b);
    binom(a, b, c, DIM);
    chk_eq(p.dim(), DIM, "dimension");
    int k=pick(DIM+1); chk_real(rational_value(p[k]), c[k], "coefficient of a binomial");
  }
  done();
}
SC sc_H01_again() {
  globals();
  { long a=nd("a"), a2=nd("a2"); int b=pick(3), b2=pick(3); double c[DIM+1];
    HilbertPoly p(2);
    p.binomial(a, b); p.binomial(a2, b2);
    binom(a2, b2, c, 2);
    int k=pick(3); chk_real(rational_value(p[k]), c[k], "a binomial replaces the old contents");
  }
  done();
}
SC sc_H01_sum() {
  globals();
  { long a=nd("a"), b=nd("b"); int p1=pick(3), p2=pick(3); double c[3], d[3];
    HilbertPoly p(2), q(2);
    p.binomial(a, p1); q.binomial(b, p2);
    binom(a, p1, c, 2); binom(b, p2, d, 2);
    p.add(q);
    int k=pick(3); { chk_real(rational_value(p[k]), c[k]+d[k], "coefficient of a sum"); chk_real(rational_value(q[k]), d[k], "operand unchanged"); }
    p.sub(q); p.sub(q);
    { chk_real(rational_value(p[k]), c[k]-d[k], "coefficient of a difference"); chk_real(rational_value(q[k]), d[k], "operand unchanged"); }
  }
  done();
}
SC sc_H01_scale() {
  globals();
  { long a=nd("a"); int m=nd("m"), p1=pick(3); double c[3];
    HilbertPoly p; p.setDim(2);
    p.binomial(a, p1); binom(a, p1, c, 2);
    p.mult(m);
    int k=pick(3); chk_real(rational_value(p[k]), c[k]*m, "coefficient of a multiple");
  }
  done();
}
SC sc_H01_zero() {
  globals();
  { long a=nd("a"); HilbertPoly p(1); double c[2];
    p.binomial(a, 1); c[0] = a; c[1] = 1.0;
    poly(p, c, 1, "coefficient");
  }
  done();
}
/* H02: rationals and buffers */
SC sc_H02_life() {
  globals();
  { int d=pick(3);
    HilbertPoly e; HilbertPoly *p=new HilbertPoly(d); HilbertPoly q(d);
    q.binomial(nd("a"), pick(d+1));
    p->add(q); p->sub(q); p->mult(3);
    delete p;
    chk_real(rational_value(q[d]), rational_value(q[d]), "value readable");
    HilbertPoly r; r.setDim(d);
  }
  rationals_cleared("every rational is cleared");
  no_leaks("all storage is released");
  done();
}
/* U01: timer */
SC sc_U01_timer() {
  globals();
  { Timer t; double h=(double)ticks();
    chk_real(t.userTime(), 0.0, "new timer"); chk_real(t.sysTime(), 0.0, "new timer"); chk_real(t.realTime(), 0.0, "new timer");
    t.start();
    chk_real(t.userTime(), 0.0, "started timer");
    t.stop();
    double u=(clock_value(0, 1)-clock_value(0, 0))/h, s=(clock_value(1, 1)-clock_value(1, 0))/h, r=(clock_value(2, 1)-clock_value(2, 0))/h;
    chk_real(t.userTime(), u, "user time of a lap"); chk_real(t.sysTime(), s, "system time of a lap"); chk_real(t.realTime(), r, "real time of a lap");
    t.cont();
    chk_real(t.userTime(), u, "resuming keeps the time"); chk_real(t.sysTime(), s, "resuming keeps the time"); chk_real(t.realTime(), r, "resuming keeps the time");
    t.stop();
    u += (clock_value(0, 3)-clock_value(0, 2))/h; s += (clock_value(1, 3)-clock_value(1, 2))/h; r += (clock_value(2, 3)-clock_value(2, 2))/h;
    chk_real(t.userTime(), u, "time between laps does not count"); chk_real(t.sysTime(), s, "time between laps does not count"); chk_real(t.realTime(), r, "time between laps does not count");
    t.stop();
    u += (clock_value(0, 4)-clock_value(0, 3))/h; s += (clock_value(1, 4)-clock_value(1, 3))/h; r += (clock_value(2, 4)-clock_value(2, 3))/h;
    chk_real(t.userTime(), u, "a second stop adds the time since the first"); chk_real(t.sysTime(), s, "a second stop adds the time since the first"); chk_real(t.realTime(), r, "a second stop adds the time since the first");
    t.start();
    chk_real(t.userTime(), 0.0, "restart"); chk_real(t.sysTime(), 0.0, "restart"); chk_real(t.realTime(), 0.0, "restart");
    t.stop();
    chk_real(t.userTime(), (clock_value(0, 6)-clock_value(0, 5))/h, "user time after a restart");
    chk_real(t.sysTime(), (clock_value(1, 6)-clock_value(1, 5))/h, "system time after a restart");
    chk_real(t.realTime(), (clock_value(2, 6)-clock_value(2, 5))/h, "real time after a restart");
  }
  done();
}
/* R01: permutations */
struct Gen { typedef unsigned result_type; static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return 0xffffffffu; } unsigned operator()(); };
static void perm(const RandPermutation& p, int n) {
  chk_eq(p.size(), n, "size");
  for (int v=0; v < n; v++) {
    int k=0;
    for (int i=0; i < n; i++) k += p[i] == v;
    chk_eq(k, 1, "every index occurs exactly once");
  }
}
SC sc_R01_perm() {
  { int n=1+pick(4); RandPermutation p(n); Gen g;
    perm(p, n);
    for (int i=0; i < n; i++) chk_eq(p[i], i, "starts with the identity");
    p.next(g); perm(p, n);
    if (n < 4) { p.next(g); perm(p, n); }
  }
  no_leaks("storage is released");
  done();
}
static void rank(const RandPermutation& p, int n) { long r=0; for (int i=0; i < n; i++) r = r*n + p[i]; record(r); }
SC sc_R01_uniform2() { { RandPermutation p(2); Gen g; p.next(g); rank(p, 2); } done(); }
SC sc_R01_uniform3() { { RandPermutation p(3); Gen g; p.next(g); rank(p, 3); } done(); }
SC sc_R01_uniform4() { { RandPermutation p(4); Gen g; p.next(g); rank(p, 4); } done(); }
