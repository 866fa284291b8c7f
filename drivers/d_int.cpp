#include "util/integer.h"
#include <utility>
#include "scen.h"
using namespace GInv;

/* value of a number, read back through its printed form */
extern "C" long text_value(const char* s, int base);
extern "C" long text_gcd(long a, long b);
extern "C" bool text_divides(long d, long x);
static void is(const Integer& x, long v, const char* what) { chk_eq(text_value(x.get_str(10), 10), v, what); }

/* I01: results.  A and B are arbitrary integers of any length */
SC sc_I01_construct() {
  globals();
  Allocator al;
  { long a=nd("A");
    Integer z(&al); is(z, 0, "new number");
    Integer x(&al, "A"); is(x, a, "number read from text");
    Integer y(&al, x); is(y, a, "copy"); is(x, a, "operand unchanged");
    Integer w(&al, "0"); is(w, 0, "zero read from text");
    Integer m(&al, "-17"); is(m, -17, "number read from text");
    x.set_neg(); is(x, -a, "negation"); is(y, a, "copy is independent");
    x.set_neg(); is(x, a, "double negation");
  }
  done();
}
SC sc_I01_assign() {
  globals();
  Allocator al;
  { long a=nd("A"), b=nd("B");
    Integer x(&al, "A"), y(&al, "B");
    x = y; is(x, b, "assignment"); is(y, b, "operand unchanged");
    y.set_neg(); is(x, b, "assignment copies");
    Integer z(&al); z = x; is(z, b, "assignment to zero");
    Integer n(&al); z = n; is(z, 0, "assignment of zero");
    Integer v(&al, "A"); v = v; is(v, a, "self-assignment");
    v.set_si(-5); is(v, -5, "small value"); v.set_ui(7); is(v, 7, "small value");
    n.set_si(9); is(n, 9, "small value"); n.set_si(0); is(n, 0, "small value");
  }
  done();
}
SC sc_I01_move() {
  globals();
  Allocator al, bl;
  { long a=nd("A"), b=nd("B");
    Integer x(&al, "A"), y(&bl, "B");
    x.swap(y); is(x, b, "exchange"); is(y, a, "exchange");
    Integer z(std::move(x)); is(z, b, "moved value");
    Integer w(&al, "C"); w = std::move(z); is(w, b, "moved value");
    w.set_si(3); is(w, 3, "value after a move");
    y = std::move(w); is(y, 3, "moved value");
  }
  done();
}
SC sc_I01_add() { globals(); Allocator al; { long a=nd("A"), b=nd("B"); Integer x(&al, "A"), y(&al, "B"), z(&al, "C");
  z.add(x, y); is(z, a+b, "sum"); x.add(y); is(x, a+b, "sum in place"); is(y, b, "operand unchanged"); y.add(y); is(y, 2*b, "doubling"); } done(); }
SC sc_I01_sub() { globals(); Allocator al; { long a=nd("A"), b=nd("B"); Integer x(&al, "A"), y(&al, "B"), z(&al, "C");
  z.sub(x, y); is(z, a-b, "difference"); x.sub(y); is(x, a-b, "difference in place"); is(y, b, "operand unchanged"); y.sub(y); is(y, 0, "difference with itself"); } done(); }
SC sc_I01_mult() { globals(); Allocator al; { long a=nd("A"), b=nd("B"); Integer x(&al, "A"), y(&al, "B"), z(&al, "C");
  z.mult(x, y); is(z, a*b, "product"); x.mult(y); is(x, a*b, "product in place"); is(y, b, "operand unchanged"); y.mult(y); is(y, b*b, "square"); } done(); }
SC sc_I01_div() { globals(); Allocator al; { long a=nd("A"), b=nd("B"); assume(b != 0); Integer x(&al, "A"), y(&al, "B"), z(&al, "C"), p(&al);
  p.mult(x, y); chk(p.divisible(y), "a multiple is divisible"); z.div(p, y); is(z, a, "exact quotient"); p.div(y); is(p, a, "exact quotient in place"); is(y, b, "operand unchanged"); } done(); }
SC sc_I01_gcd() { globals(); Allocator al; { long a=nd("A"), b=nd("B"); assume(a != 0 && b != 0); Integer x(&al, "A"), y(&al, "B"), z(&al, "C");
  z.gcd(x, y); long g=text_gcd(a, b); is(z, g, "greatest common divisor"); x.gcd(y); is(x, g, "greatest common divisor in place"); is(y, b, "operand unchanged"); } done(); }

/* I02: predicates */
SC sc_I02_predicates() {
  globals();
  Allocator al;
  { long a=nd("A"), b=nd("B");
    Integer x(&al, "A"), y(&al, "B");
    chk(x.isZero() == (a == 0), "zero test");
    chk(x.isOne() == (a == 1), "one test");
    chk(x.isAbsOne() == (a == 1 || a == -1), "unit test");
    chk_eq(x.sgn(), a > 0 ? 1 : a < 0 ? -1 : 0, "sign");
    chk((x.norm() == 0) == (a == 0), "norm of zero");
    chk(x.norm() >= 0, "norm is not negative");
    x.set_neg();
    chk_eq(x.sgn(), a > 0 ? -1 : a < 0 ? 1 : 0, "sign after negation");
    chk(x.isOne() == (a == -1), "one test after negation");
  }
  done();
}
SC sc_I02_divisible() {
  globals();
  Allocator al;
  { long a=nd("A"), b=nd("B");
    Integer x(&al, "A"), y(&al, "B"), z(&al);
    if (b != 0) { z.mult(x, y); chk(z.divisible(y), "a multiple is divisible"); chk(z.divisible(y) == text_divides(b, a*b), "divisibility"); }
    chk(x.divisible(y) == text_divides(b, a), "divisibility");
    chk(y.divisible(x) == text_divides(a, b), "divisibility");
  }
  done();
}
SC sc_I02_norm() {
  globals();
  Allocator al;
  { Integer x(&al, "A"), y(&al, "B"), z(&al);
    if (!x.isZero() && !y.isZero()) {
      z.mult(x, y);
      chk(z.norm() <= x.norm()+y.norm(), "norm of a product");
      x.set_neg(); Integer w(&al, x); chk_eq(w.norm(), x.norm(), "norm of a copy");
    }
  }
  done();
}
/* I03: whose storage */
SC sc_I03_moves() {
  globals();
  { Allocator al, bl;
    { long a=nd("A"), b=nd("B");
      Integer *x=new(&al) Integer(&al, "A"), *y=new(&bl) Integer(&bl, "B");
      int how=pick(4);
      if (how == 0) x->swap(*y);
      else if (how == 1) *x = std::move(*y);
      else if (how == 2) { Integer t(std::move(*x)); t.swap(*y); is(t, b, "exchanged value"); }
      else { *x = *y; y->set_si(1); }
      al.destroy(x); bl.destroy(y);
    }
  }
  no_leaks("limbs of temporaries are released");
  done();
}
SC sc_I03_results() {
  globals();
  { Allocator al, bl;
    { Integer x(&al, "A"), y(&bl, "B");
      int op=pick(4);
      if (op == 0) x.add(y); else if (op == 1) x.sub(y); else if (op == 2) x.mult(y);
      else if (!x.isZero() && !y.isZero()) x.gcd(y);
      Integer z(&bl, x); z.set_neg(); Integer w(&al); w = z;
    }
  }
  no_leaks("limbs of temporaries are released");
  done();
}
SC sc_I03_own() {
  globals();
  { Integer *p; Allocator *al=new Allocator, bl;
    long b=nd("B");
    { Integer y(&bl, "B"); p = new(&bl) Integer(&bl); *p = y; }
    { Integer y(al, "B"), z(&bl, "A"); z = y; p->add(z, y); }
    delete al;
    is(*p, 2*b, "a number does not share limbs with its operands");
    bl.destroy(p);
  }
  no_leaks("limbs of temporaries are released");
  done();
}
/* I04: the text buffer */
SC sc_I04_text() {
  globals();
  Allocator al;
  { long a=nd("A"), b=nd("B"); int base=pick(3); base = base == 0 ? 2 : base == 1 ? 10 : 62;
    Integer x(&al, "A"), y(&al, "B"), z(&al);
    chk_eq(text_value(x.get_str(base), base), a, "printed value");
    chk_eq(text_value(y.get_str(base), base), b, "printed value");
    chk_eq(text_value(x.get_str(10), 10), a, "printed value");
    chk_eq(text_value(z.get_str(base), base), 0, "printed zero");
  }
  no_leaks("buffers are released or kept");
  done();
}
