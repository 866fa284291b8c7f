#include "util/list.h"
#include "util/stack.h"
#include <utility>
#include "scen.h"
using namespace GInv;
typedef List<long> L;

static const int N=3;
static void vals(long* v) { v[0] = nd("x0"); v[1] = nd("x1"); v[2] = nd("x2"); v[3] = nd("x3"); v[4] = nd("x4"); }
static void fill(L& l, const long* v, int n) {
  for (int i=n-1; i >= 0; i--) l.push(v[i]);
}
static void same(const L& l, const long* v, int n) {
  chk_eq((long)l.length(), n, "reported length");
  chk((bool)l == (n > 0), "emptiness test");
  L::ConstIterator i(l.begin());
  for (int k=0; k < n; k++) {
    chk((bool)i, "sequence ends early");
    chk_eq(i.data(), v[k], "stored value");
    ++i;
  }
  chk(!(bool)i, "sequence does not end");
  if (n > 0) chk_eq(l.head(), v[0], "head value");
}

SC sc_L01_insert() {
  Allocator al;
  { L l(&al); long v[5]; vals(v); int n=pick(N+1), p=pick(n+1);
    fill(l, v+1, n);
    L::Iterator i(l.begin());
    for (int k=0; k < p; k++) { chk((bool)i, "iterator ends early"); chk_eq(i.data(), v[1+k], "iterated value"); ++i; }
    i.insert(v[0]);
    chk((bool)i, "iterator stands on the inserted value");
    chk_eq(i.data(), v[0], "iterator stands on the inserted value");
    long w[5]; int m=0;
    for (int k=0; k < p; k++) w[m++] = v[1+k];
    w[m++] = v[0];
    for (int k=p; k < n; k++) w[m++] = v[1+k];
    same(l, w, n+1);
    l.clear();
    same(l, w, 0);
    l.push(v[4]);
    same(l, v+4, 1);
  }
  done();
}
SC sc_L01_remove() {
  Allocator al;
  { L l(&al); long v[5]; vals(v); int n=1+pick(N), p=pick(n);
    fill(l, v, n);
    L::Iterator i(l.begin());
    for (int k=0; k < p; k++) ++i;
    i.del();
    chk((bool)i == (p < n-1), "iterator after removal");
    if (p < n-1) chk_eq(i.data(), v[p+1], "iterator stands on the following value");
    long w[5]; int m=0;
    for (int k=0; k < n; k++) if (k != p) w[m++] = v[k];
    same(l, w, n-1);
    i.insert(v[4]);
    w[m=0] = 0;
    for (int k=0; k < p; k++) w[m++] = v[k];
    w[m++] = v[4];
    for (int k=p+1; k < n; k++) w[m++] = v[k];
    same(l, w, n);
  }
  done();
}
SC sc_L01_transfer() {       /* a node is unlinked and linked again, in the same list or another of its arena */
  Allocator al;
  { L l(&al), l2(&al); long v[5]; vals(v); int n=1+pick(N), p=pick(n), other=pick(2);
    fill(l, v, n);
    l2.push(v[4]);
    L::Iterator i(l.begin());
    for (int k=0; k < p; k++) ++i;
    L::ConstIterator c(i.get());
    chk((bool)c, "unlinked node");
    chk_eq(c.data(), v[p], "unlinked node");
    { L::ConstIterator d(c); ++d; chk(!(bool)d, "an unlinked node has no successor"); }
    long w[5]; int m=0;
    for (int k=0; k < n; k++) if (k != p) w[m++] = v[k];
    same(l, w, n-1);
    if (other) {
      int q=pick(2);
      L::Iterator j(l2.begin());
      if (q) ++j;
      j.insert(c);
      long u[2]; u[q] = v[p]; u[1-q] = v[4];
      same(l2, u, 2);
      same(l, w, n-1);
    }
    else {
      int q=pick(n);
      L::Iterator j(l.begin());
      for (int k=0; k < q; k++) ++j;
      j.insert(c);
      long u[5]; int s=0;
      for (int k=0; k < q; k++) u[s++] = w[k];
      u[s++] = v[p];
      for (int k=q; k < m; k++) u[s++] = w[k];
      same(l, u, n);
      same(l2, v+4, 1);
    }
  }
  done();
}
SC sc_L01_ends() {
  Allocator al;
  { L l(&al); long v[5]; vals(v); int n=pick(N+1);
    same(l, v, 0);
    fill(l, v+1, n);
    same(l, v+1, n);
    l.push(v[0]);
    same(l, v, n+1);
    for (int k=0; k <= n; k++) {
      chk_eq(l.pop(), v[k], "popped value");
      same(l, v+k+1, n-k);
    }
    l.push(v[0]);
    same(l, v, 1);
    L::Iterator a(l.begin()), b(a), c;
    c = a;
    chk(a == b && !(a != b) && c == a, "equal iterators");
    ++b;
    chk(a != b && !(a == b), "different iterators");
    chk((bool)a && !(bool)b, "iterator end test");
    L::ConstIterator ca(a), cb(ca), cc;
    cc = ca;
    chk(ca == cb && !(ca != cb) && cc == ca, "equal iterators");
    ++cb;
    chk(ca != cb && !(ca == cb), "different iterators");
    chk((bool)ca && !(bool)cb, "iterator end test");
    a.data() = v[3];
    same(l, v+3, 1);
  }
  done();
}
SC sc_L01_write() {          /* data() is a reference into the list */
  Allocator al;
  { L l(&al); long v[5]; vals(v); int n=1+pick(N), p=pick(n);
    fill(l, v, n);
    L::Iterator i(l.begin());
    for (int k=0; k < p; k++) ++i;
    i.data() = v[4];
    v[p] = v[4];
    same(l, v, n);
  }
  done();
}

SC sc_L02_copy() {
  Allocator al, al2;
  { L l(&al); long v[5]; vals(v); int n=pick(N+1);
    fill(l, v, n);
    { L c(&al2, l);
      same(c, v, n);
      same(l, v, n);
      if (pick(2)) { l.clear(); same(c, v, n); same(l, v, 0); }
      else {
        c.push(v[4]);
        same(l, v, n);
        c.clear();
        same(l, v, n);
      }
    }
  }
  done();
}
SC sc_L02_assign() {
  Allocator al, al2;
  { L l(&al), c(pick(2) ? &al2: &al); long v[5]; vals(v); int n=pick(N+1), m=pick(3);
    fill(l, v, n);
    fill(c, v+3, m);
    c = (const L&)l;
    same(c, v, n);
    same(l, v, n);
    c.push(v[4]);
    same(l, v, n);
    l.clear();
    chk_eq((long)c.length(), n+1, "length of the copy");
    c.pop();
    same(c, v, n);
  }
  done();
}
SC sc_L02_move() {
  Allocator al;
  { L l(&al); long v[5]; vals(v); int n=pick(N+1);
    fill(l, v, n);
    { L c(std::move(l));
      same(c, v, n);
      same(l, v, 0);
      if (pick(2)) { l.push(v[4]); same(l, v+4, 1); }
      c.push(v[3]);
      chk_eq((long)c.length(), n+1, "length after the move");
      c.pop();
      same(c, v, n);
    }
  }
  done();
}
SC sc_L02_swap() {
  Allocator al, al2;
  { L l(&al), c(&al2); long v[5]; vals(v); int n=pick(N), m=pick(3);
    fill(l, v, n);
    fill(c, v+2, m);
    l.swap(c);
    same(l, v+2, m);
    same(c, v, n);
    l.push(v[4]);
    c.push(v[4]);
    chk_eq((long)l.length(), m+1, "length after the exchange");
    chk_eq((long)c.length(), n+1, "length after the exchange");
    if (pick(2)) l.clear();
  }
  done();
}

typedef Stack<long> S;
static void ssame(const S& s, const long* v, int n) {
  chk_eq((long)s.deep(), n, "depth");
  chk((bool)s == (n > 0), "emptiness test");
  chk((long)s.size() >= n, "capacity below depth");
  for (int i=0; i < n; i++) chk_eq(s[i], v[i], "stored value");
  if (n > 0) chk_eq(s.top(), v[n-1], "top value");
}
SC sc_L03_stack() {
  Allocator al;
  { long v[5]; vals(v); int cap=1+pick(3);
    S s(cap, &al);
    chk_eq((long)s.size(), cap, "initial capacity");
    ssame(s, v, 0);
    int n=pick(6);
    for (int i=0; i < n; i++) { s.push(v[i]); ssame(s, v, i+1); }
    int m=pick(n+1);
    for (int i=0; i < m; i++) s.pop();
    ssame(s, v, n-m);
    if (n-m < 5) { s.push(v[4]); v[n-m] = v[4]; ssame(s, v, n-m+1); }
    s.reset();
    ssame(s, v, 0);
    s.push(v[0]);
    ssame(s, v, 1);
  }
  done();
}
SC sc_L03_copy() {
  Allocator al, al2;
  { long v[5]; vals(v); int cap=1+pick(2), n=pick(4);
    S s(cap, &al);
    for (int i=0; i < n; i++) s.push(v[i]);
    { S c(s, &al2);
      ssame(c, v, n); ssame(s, v, n);
      c.push(v[4]); ssame(s, v, n);
      if (n) { s.pop(); chk_eq((long)c.deep(), n+1, "depth of the copy"); }
      c.pop(); ssame(c, v, n);
    }
  }
  done();
}
SC sc_L03_assign() {
  Allocator al, al2;
  { long v[5]; vals(v); int cap=1+pick(2), n=pick(4), m=pick(3);
    S s(cap, &al), c(1+pick(3), &al2);
    for (int i=0; i < n; i++) s.push(v[i]);
    for (int i=0; i < m; i++) c.push(v[4-i]);
    c = s;
    ssame(c, v, n); ssame(s, v, n);
    c.push(v[4]); ssame(s, v, n);
    c.pop(); ssame(c, v, n);
  }
  done();
}
SC sc_L03_swap() {
  Allocator al, al2;
  { long v[5]; vals(v); int n=pick(3), m=pick(3);
    S s(1+pick(2), &al), c(2, &al2);
    long cs=(long)s.size();
    for (int i=0; i < n; i++) s.push(v[i]);
    for (int i=0; i < m; i++) c.push(v[4-i]);
    s.swap(c);
    long w[3]; for (int i=0; i < m; i++) w[i] = v[4-i];
    ssame(s, w, m); ssame(c, v, n);
    s.push(v[0]); w[m] = v[0]; ssame(s, w, m+1); ssame(c, v, n);
    (void)cs;
  }
  done();
}
