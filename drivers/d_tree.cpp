#include "util/config.h"
#include "util/rbtree.h"
#include <utility>
#include <new>
#include "scen.h"
using namespace GInv;
#define W extern "C" __attribute__((noinline))
static int kcmp(const long a, const long b) { return a < b ? -1: a > b ? 1: 0; }
typedef RBTree<long, kcmp> T;
typedef T::ConstIterator CI;

W void t_ctor(T* t, Allocator* a) { ::new((void*)t) T(a); }
W void t_ctor_copy(T* t, const T* a, Allocator* al) { ::new((void*)t) T(*a, al); }
W void t_dtor(T* t) { t->~T(); }
W void t_insert(T* t, long k) { t->insert(k); }
W void t_remove(T* t, long k) { t->remove(k); }
W void t_remove_it(T* t, CI* i) { t->remove(*i); }
W void t_clear(T* t) { t->clear(); }
W void t_assign(T* t, const T* a) { *t = *a; }
W void t_swap(T* t, T* a) { t->swap(*a); }
W bool t_bool(const T* t) { return *t; }
W int  t_length(const T* t) { return t->length(); }
W long t_maxkey(const T* t) { return t->maximumKey(); }
W long t_minkey(const T* t) { return t->minimumKey(); }
W void t_root(const T* t, CI* r) { *r = t->root(); }
W void t_max(const T* t, CI* r) { *r = t->maximum(); }
W void t_min(const T* t, CI* r) { *r = t->minimum(); }
W void t_find(const T* t, long k, CI* r) { *r = t->find(k); }
W void t_findPrev(const T* t, long k, CI* r) { *r = t->findPrev(k); }
W void t_findNext(const T* t, long k, CI* r) { *r = t->findNext(k); }
W void t_inc(CI* i) { ++*i; }
W void t_dec(CI* i) { --*i; }
W bool t_has(const CI* i) { return *i; }
W long t_key(const CI* i) { return i->key(); }
W int  t_color(const CI* i) { return (int)i->color(); }
W void t_left(const CI* i, CI* r) { *r = i->left(); }
W void t_right(const CI* i, CI* r) { *r = i->right(); }
W int  t_red() { return (int)T::Red; }
W int  t_black() { return (int)T::Black; }
W bool t_valid(const T* t) { return t->assertValid(); }
W unsigned long t_size() { return sizeof(T); }
W unsigned long t_cisize() { return sizeof(CI); }

/* ---- client programs over small trees ---- */
static void keys(long* v) {
  v[0] = nd("x0"); v[1] = nd("x1"); v[2] = nd("x2"); v[3] = nd("x3"); v[4] = nd("x4");
  for (int i=0; i < 4; i++) assume(v[i] < v[i+1]);
}
static void same(const T& t, const long* v, int n) {
  chk_eq(t.length(), n, "reported length");
  chk((bool)t == (n > 0), "emptiness test");
  CI i(t.minimum());
  for (int k=0; k < n; k++) {
    chk((bool)i, "sequence ends early");
    chk_eq(i.key(), v[k], "stored key");
    ++i;
  }
  chk(!(bool)i, "sequence does not end");
  CI j(t.maximum());
  for (int k=n-1; k >= 0; k--) {
    chk((bool)j, "backward sequence ends early");
    chk_eq(j.key(), v[k], "stored key, backwards");
    --j;
  }
  chk(!(bool)j, "backward sequence does not end");
}
static void fill(T& t, const long* v, int n) {   /* every insertion order */
  bool used[5] = {false, false, false, false, false};
  for (int i=0; i < n; i++) {
    int p=pick(n-i);
    for (int k=0; k < n; k++) if (!used[k] && p-- == 0) { used[k] = true; t.insert(v[k]); break; }
  }
}
SC sc_T03_copy() {
  Allocator al, al2;
  { long v[5]; keys(v); int n=pick(5);
    T t(&al);
    fill(t, v, n);
    same(t, v, n);
    { T c(t, &al2);
      same(c, v, n);
      same(t, v, n);
      c.insert(v[4]);
      same(t, v, n);
      if (n) { t.remove(v[0]); chk_eq(c.length(), n+1, "length of the copy"); chk_eq(c.minimumKey(), v[0], "copy is independent"); }
    }
  }
  done();
}
SC sc_T03_assign() {
  Allocator al, al2;
  { long v[5]; keys(v); int n=1+pick(3), m=pick(3);
    T t(&al), c(&al2);
    fill(t, v, n);
    fill(c, v+2, m);
    c = t;
    same(c, v, n);
    same(t, v, n);
    c.clear();
    same(c, v, 0);
    same(t, v, n);
    c.insert(v[4]);
    same(c, v+4, 1);
    t.remove(v[n-1]);
    same(t, v, n-1);
  }
  done();
}
SC sc_T03_swap() {
  Allocator al, al2;
  { long v[5]; keys(v); int n=pick(3), m=pick(3);
    T t(&al), c(&al2);
    fill(t, v, n);
    fill(c, v+2, m);
    t.swap(c);
    same(c, v, n);
    same(t, v+2, m);
    if (n) { c.remove(v[0]); same(c, v+1, n-1); }
    t.clear();
    same(t, v, 0);
  }
  done();
}
SC sc_T03_use() {
  Allocator al;
  { long v[5]; keys(v); int n=1+pick(3);
    T t(&al);
    same(t, v, 0);
    fill(t, v, n);
    same(t, v, n);
    chk_eq(t.maximumKey(), v[n-1], "maximum key");
    chk_eq(t.minimumKey(), v[0], "minimum key");
    int p=pick(n);
    CI i(t.find(v[p]));
    chk((bool)i, "a stored key is found");
    chk_eq(i.key(), v[p], "a stored key is found");
    chk(!(bool)t.find(v[4]), "an absent key is not found");
    if (pick(2)) t.remove(i); else t.remove(v[p]);
    chk(!(bool)t.find(v[p]), "a removed key is not found");
    long w[5]; int m=0;
    for (int k=0; k < n; k++) if (k != p) w[m++] = v[k];
    same(t, w, m);
  }
  done();
}
