#include "util/allocator.h"
#include "util/list.h"
#include <utility>
#include "scen.h"
using namespace GInv;

static size_t num(const char* nm) { size_t n=nd(nm); assume((long)n > 0); return n; }
static long LIM=0;
/* reached when the library ends the process */
SC sc_on_exit() {
  chk(LIM > 0 && (long)Allocator::maxMemory() > LIM, "the process ends only when the memory limit is exceeded");
  path_end();
}

/* A01: blocks */
static void block(char* p, size_t n) {
  chk_block(p, n, "a block lies inside memory of the arena and is large enough");
  chk_aligned(p, 16, "a block is aligned");
}
SC sc_A01_blocks() {
  globals();
  { Allocator al; size_t n[4]; char *p[4];
    n[0] = num("n0"); n[1] = num("n1"); n[2] = num("n2");
    for (int i=0; i < 3; i++) {
      p[i] = new(&al) char[n[i]];
      block(p[i], n[i]);
      for (int j=0; j < i; j++) chk_disjoint(p[j], n[j], p[i], n[i], "two live blocks do not overlap");
    }
    for (int j=0; j < 3; j++) chk_block(p[j], n[j], "a block stays valid while later blocks are taken");
    for (int j=2; j >= 0; j--) al.dealloc(p[j], n[j]);
  }
  no_leaks("the arena returns its memory");
  done();
}
SC sc_A01_reuse() {
  globals();
  { Allocator al; size_t a=num("n0"), b=num("n1"), c=num("n2");
    char *p=new(&al) char[a], *q=new(&al) char[b];
    al.dealloc(p, a);
    chk_block(q, b, "a block stays valid when another one is returned");
    char *r=new(&al) char[c];
    block(r, c);
    chk_disjoint(q, b, r, c, "a new block does not overlap a live one");
    al.dealloc(q, b); al.dealloc(r, c);
  }
  no_leaks("the arena returns its memory");
  done();
}
SC sc_A01_two() {
  globals();
  { Allocator x, y; size_t a=num("n0"), b=num("n1"), c=num("n2"), d=num("n3");
    char *p=new(&x) char[a], *q=new(&y) char[b];
    chk_disjoint(p, a, q, b, "blocks of two arenas do not overlap");
    x.swap(y);
    chk_block(p, a, "a block stays valid when arenas are exchanged");
    chk_block(q, b, "a block stays valid when arenas are exchanged");
    char *r=new(&x) char[c], *s=new(&y) char[d];
    block(r, c); block(s, d);
    chk_disjoint(p, a, r, c, "blocks do not overlap after an exchange");
    chk_disjoint(q, b, r, c, "blocks do not overlap after an exchange");
    chk_disjoint(p, a, s, d, "blocks do not overlap after an exchange");
    chk_disjoint(q, b, s, d, "blocks do not overlap after an exchange");
    chk_disjoint(r, c, s, d, "blocks do not overlap after an exchange");
    y.dealloc(p, a); x.dealloc(q, b); x.dealloc(r, c); y.dealloc(s, d);
  }
  no_leaks("the arenas return their memory");
  done();
}
SC sc_A01_life() {
  globals();
  char *p; size_t a=num("n0");
  { Allocator x; Allocator *y=new Allocator();
    p = new(y) char[a];
    x.swap(*y);
    y->swap(x); x.swap(*y);
    delete y;
    chk_block(p, a, "a block lives as long as the arena that holds it after an exchange");
    x.dealloc(p, a);
  }
  chk_dead(p, "memory of an arena is returned with the arena");
  no_leaks("the arena returns its memory");
  done();
}

/* A02: accounting */
SC sc_A02_used() {
  globals();
  { Allocator al; size_t a=num("n0"), b=num("n1"), c=num("n2");
    chk_eq(al.size(), 0, "a new arena is empty"); chk_eq(al.alloc(), 0, "a new arena holds no memory");
    char *p=new(&al) char[a]; size_t s1=al.size();
    chk(s1 >= a && s1 <= a+16, "usage grows by the size of the block");
    char *q=new(&al) char[b]; size_t s2=al.size();
    chk(s2-s1 >= b && s2-s1 <= b+16, "usage grows by the size of the block");
    chk(al.alloc() >= al.size(), "an arena holds at least what is used");
    al.dealloc(p, a);
    chk_eq(al.size(), s2-s1, "returning a block restores the usage");
    char *r=new(&al) char[c]; size_t s3=al.size();
    chk(s3-(s2-s1) >= c && s3-(s2-s1) <= c+16, "usage grows by the size of the block");
    chk(al.alloc() >= al.size(), "an arena holds at least what is used");
    al.dealloc(r, c);
    chk_eq(al.size(), s2-s1, "returning a block restores the usage");
    al.dealloc(q, b);
    chk_eq(al.size(), 0, "an arena with no live block is empty");
  }
  done();
}
struct Obj { long* where; long a, b; Obj(long* w): where(w), a(1), b(2) { ++*w; } ~Obj() { --*where; } };
SC sc_A02_typed() {
  globals();
  { Allocator al; long cnt=0; long n=nd("n0"); assume(n > 0 );
    Obj* o=new(&al) Obj(&cnt); size_t s=al.size();
    chk(s >= sizeof(Obj), "usage covers the object");
    long* v=new(&al) long[n];
    chk(al.size()-s >= sizeof(long)*n, "usage covers the array");
    al.dealloc(v, n);
    chk_eq(al.size(), s, "returning an array restores the usage");
    chk_eq(cnt, 1, "object constructed once");
    al.destroy(o);
    chk_eq(cnt, 0, "object destroyed once");
    chk_eq(al.size(), 0, "returning an object restores the usage");
    o = new(&al) Obj(&cnt);
    al.dealloc(o);
    chk_eq(cnt, 1, "releasing storage does not run a destructor");
    chk_eq(al.size(), 0, "releasing storage restores the usage");
  }
  done();
}
SC sc_A02_global() {
  globals();
  size_t base=Allocator::currMemory();
  { Allocator x; size_t a=num("n0"), b=num("n1"), c=num("n2");
    char *p=new(&x) char[a];
    chk_eq(Allocator::currMemory()-base, x.alloc(), "global usage is the sum over the arenas");
    { Allocator y;
      char *q=new(&y) char[b];
      chk_eq(Allocator::currMemory()-base, x.alloc()+y.alloc(), "global usage is the sum over the arenas");
      chk(Allocator::maxMemory() >= Allocator::currMemory(), "the maximum is at least the current usage");
      size_t ax=x.alloc(), ay=y.alloc(), sx=x.size(), sy=y.size();
      x.swap(y);
      chk(x.alloc() == ay && y.alloc() == ax && x.size() == sy && y.size() == sx, "an exchange exchanges the accounts");
      chk_eq(Allocator::currMemory()-base, x.alloc()+y.alloc(), "an exchange keeps the global usage");
      x.swap(y);
      y.dealloc(q, b);
    }
    size_t m=Allocator::maxMemory();
    chk_eq(Allocator::currMemory()-base, x.alloc(), "a destroyed arena gives back its share");
    char *r=new(&x) char[c];
    chk(Allocator::maxMemory() >= m && Allocator::maxMemory() >= Allocator::currMemory(), "the maximum never decreases");
    chk(Allocator::maxMemory() == m || Allocator::maxMemory() == Allocator::currMemory(), "the maximum is a usage that occurred");
    x.dealloc(p, a); x.dealloc(r, c);
  }
  chk_eq(Allocator::currMemory(), base, "global usage returns to its old value");
  done();
}
SC sc_A02_limit() {
  globals();
  LIM = nd("limit"); assume(LIM >= 0);
  Allocator::setLimitMemory(LIM);
  { Allocator x; size_t a=num("n0"), b=num("n1");
    char *p=new(&x) char[a];
    chk(LIM == 0 || (long)Allocator::maxMemory() <= LIM, "no memory beyond the limit is handed out");
    char *q=new(&x) char[b];
    chk(LIM == 0 || (long)Allocator::maxMemory() <= LIM, "no memory beyond the limit is handed out");
    x.dealloc(p, a); x.dealloc(q, b);
  }
  done();
}

/* A03: objects with an arena of their own */
typedef GC<List<long> > G;
static void fill(List<long>& l, const long* v, int n) { for (int i=n-1; i >= 0; i--) l.push(v[i]); }
static void same(const List<long>& l, const long* v, int n) {
  chk_eq((long)l.length(), n, "length");
  List<long>::ConstIterator i(l.begin());
  for (int k=0; k < n; k++) { chk((bool)i, "sequence ends early"); chk_eq(i.data(), v[k], "value"); ++i; }
}
SC sc_A03_copy() {
  globals();
  size_t base=Allocator::currMemory();
  { long v[4]; v[0] = nd("x0"); v[1] = nd("x1"); v[2] = nd("x2"); v[3] = nd("x3");
    int n=pick(3), how=pick(2);
    G* a=new G(); fill(*a, v, n);
    { Allocator al; List<long> plain(&al); fill(plain, v, n);
      G* b=how ? new G(*a) : new G((const List<long>&)plain);
      same(*b, v, n);
      b->push(v[3]);
      same(*a, v, n); same(plain, v, n);
      chk_eq(b->head(), v[3], "the copy is independent");
      b->pop();
      delete a; plain.clear();
      same(*b, v, n);
      delete b;
    }
  }
  chk_eq(Allocator::currMemory(), base, "every arena is returned");
  no_leaks("every arena is returned");
  done();
}
SC sc_A03_assign() {
  globals();
  size_t base=Allocator::currMemory();
  { long v[4]; v[0] = nd("x0"); v[1] = nd("x1"); v[2] = nd("x2"); v[3] = nd("x3");
    int n=pick(3), m=pick(3);
    G b; fill(b, v+1, m);
    { G a; fill(a, v, n); b = a; same(b, v, n); if (n) a.pop(); same(b, v, n); }
    same(b, v, n);
    b.push(v[3]); chk_eq(b.head(), v[3], "value");
  }
  chk_eq(Allocator::currMemory(), base, "every arena is returned");
  no_leaks("every arena is returned");
  done();
}
SC sc_A03_swap() {
  globals();
  size_t base=Allocator::currMemory();
  { long v[4]; v[0] = nd("x0"); v[1] = nd("x1"); v[2] = nd("x2"); v[3] = nd("x3");
    int n=pick(3), m=pick(3);
    G* a=new G(); G b; fill(*a, v, n); fill(b, v+1, m);
    size_t sa=a->size(), sb=b.size(), la=a->alloc(), lb=b.alloc();
    a->swap(b);
    chk(a->size() == sb && b.size() == sa && a->alloc() == lb && b.alloc() == la, "the accounts move with the contents");
    same(*a, v+1, m); same(b, v, n);
    delete a;
    same(b, v, n);
    b.push(v[3]); b.pop();
    same(b, v, n);
  }
  chk_eq(Allocator::currMemory(), base, "every arena is returned");
  no_leaks("every arena is returned");
  done();
}
SC sc_A03_collect() {
  globals();
  size_t base=Allocator::currMemory();
  { long v[4]; v[0] = nd("x0"); v[1] = nd("x1"); v[2] = nd("x2"); v[3] = nd("x3");
    int n=pick(4);
    G a; fill(a, v, n);
    size_t s=a.size(), l=a.alloc();
    a.reallocate();
    same(a, v, n);
    chk(a.size() <= s, "collecting does not enlarge the contents");
    chk(a.alloc() <= l, "collecting does not enlarge the arena");
    a.push(v[3]); chk_eq(a.head(), v[3], "value"); a.pop(); same(a, v, n);
  }
  chk_eq(Allocator::currMemory(), base, "every arena is returned");
  no_leaks("every arena is returned");
  done();
}
SC sc_A03_collect_after_growth() {
  globals();
  size_t base=Allocator::currMemory();
  { long v[4]; v[0] = nd("x0"); v[1] = nd("x1"); v[2] = nd("x2"); v[3] = nd("x3");
    int n=pick(4);
    G a; fill(a, v, n);
    size_t k=num("n0"); Allocator* al=a.allocator(); char* g=new(al) char[k]; al->dealloc(g, k);
    size_t l=a.alloc(); bool full=a.isGC();
    a.reallocate();
    same(a, v, n);
    chk(a.alloc() <= l || l <= 4096+32, "collecting does not enlarge a fragmented arena");
    chk(!full || a.alloc() <= 4096+32, "collecting drops the unused memory");
  }
  chk_eq(Allocator::currMemory(), base, "every arena is returned");
  no_leaks("every arena is returned");
  done();
}
