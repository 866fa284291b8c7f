#include "util/allocator.h"
#include "util/randpermutation.h"
#include "ginv/monom.h"
#include "scen.h"
using namespace GInv;
extern "C" void record(long v);
struct Gen { typedef unsigned result_type; static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return 0xffffffffu; } unsigned operator()(); };

/* R02: random monomials */
static void sound(const Monom& m, int n, int d1, int d2) {
  chk_eq(m.size(), n, "number of variables");
  chk(d1 <= m.degree() && m.degree() <= d2, "the degree is in the requested range");
  int s=0;
  for (int v=0; v < n; v++) { chk(m[v] >= 0, "no exponent is negative"); s += m[v]; }
  chk_eq(s, m.degree(), "the degree is the sum of the exponents");
}
SC sc_R02_range() {
  globals(); Allocator al;
  { int n=1+pick(3), d1=1+pick(2), d2=d1+pick(2);
    Monom::rand_init(n, d1, d2);
    Monom m(&al, n, 3);
    Monom::rand_next(m); sound(m, n, d1, d2); chk_eq(m.pos(), 3, "the component is kept");
    if (n < 3 && d2 < 3) { Monom::rand_next(m); sound(m, n, d1, d2); } }
  done();
}
SC sc_R02_make() {
  globals(); Allocator al;
  { int n=1+pick(2), d=1+pick(2);
    Monom::rand_init(n, d, d);
    Monom* m=Monom::rand_next(&al); sound(*m, n, d, d); chk_eq(m->pos(), -1, "no component");
    delete m; }
  done();
}
SC sc_R02_again() {
  globals(); Allocator al;
  { Monom::rand_init(2, 1, 1); Monom::rand_init(3, 2, 2);
    Monom m(&al, 3, -1); Monom::rand_next(m); sound(m, 3, 2, 2); }
  no_leaks("a second initialisation releases the first");
  done();
}
SC sc_R02_again_degrees() {
  globals(); Allocator al;
  { Monom::rand_init(2, 1, 1); { Monom m(&al, 2, -1); Monom::rand_next(m); sound(m, 2, 1, 1); }
    Monom::rand_init(2, 2, 3); { Monom m(&al, 2, -1); Monom::rand_next(m); sound(m, 2, 2, 3); }
    Monom::rand_init(1, 1, 2); { Monom m(&al, 1, -1); Monom::rand_next(m); sound(m, 1, 1, 2); }
    Monom::rand_init(1, 1, 1); { Monom m(&al, 1, -1); Monom::rand_next(m); sound(m, 1, 1, 1); } }
  no_leaks("every initialisation releases the one before");
  done();
}
static void code(const Monom& m) { long r=0; for (int v=0; v < m.size(); v++) r = r*10 + m[v]; record(r); }
SC sc_R02_reach_2_1_2() { globals(); Allocator al; { Monom::rand_init(2, 1, 2); Monom m(&al, 2, -1); Monom::rand_next(m); code(m); } done(); }
SC sc_R02_reach_3_1_2() { globals(); Allocator al; { Monom::rand_init(3, 1, 2); Monom m(&al, 3, -1); Monom::rand_next(m); code(m); } done(); }
SC sc_R02_reach_2_2_3() { globals(); Allocator al; { Monom::rand_init(2, 2, 3); Monom m(&al, 2, -1); Monom::rand_next(m); code(m); } done(); }
SC sc_R02_permuted() {
  globals(); Allocator al;
  { int n=1+pick(4); RandPermutation p(n); Gen g; p.next(g);
    static const char* const E[]={"e0", "e1", "e2", "e3"};
    Monom a(&al, n, 1), b(&al, n, 2);
    long s=0;
    for (int v=0; v < n; v++) { long e=nd(E[v]); assume(e >= 0); s += e; Monom x(&al, v, n, -1); Monom y(&al, x, (int)e); a.mult(y); }
    b.permutation(a, p);
    chk_eq(b.size(), n, "number of variables"); chk_eq(b.degree(), s, "the degree is kept"); chk_eq(b.pos(), 2, "the component is kept");
    for (int v=0; v < n; v++) { chk_eq(b[v], nd(E[p[v]]), "exponents rearranged by the permutation"); chk_eq(a[v], nd(E[v]), "the argument is unchanged"); } }
  done();
}
