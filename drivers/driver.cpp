/* Driver translation unit: one thin wrapper per public operation under
   analysis, so that every inline/template member is instantiated and the
   analysis is anchored on the public interface rather than on private names.
   It is only ever compiled to IR and analysed; nothing here is executed. */
#include "util/allocator.h"
#include "util/list.h"
#include "util/stack.h"
#include "util/rbtree.h"
#include "util/integer.h"
#include "ginv/monom.h"
#include "ginv/poly.h"
#include <utility>
#include <new>
using namespace GInv;
#define W extern "C" __attribute__((used,noinline))

/* ---- Monom */
W int  monom_size(const Monom* a) { return a->size(); }
W int  monom_pos(const Monom* a) { return a->pos(); }
W int  monom_degree(const Monom* a) { return a->degree(); }
W int  monom_at(const Monom* a, int i) { return (*a)[i]; }
W bool monom_bool(const Monom* a) { return (bool)*a; }
W bool monom_isZero(const Monom* a) { return a->isZero(); }
W void monom_setPos(Monom* a, int p) { a->setPos(p); }
W void monom_ctor(Monom* r, Allocator* al, int n, int pos) { ::new((void*)r) Monom(al, n, pos); }
W void monom_ctor_var(Monom* r, Allocator* al, int v, int n, int pos) { ::new((void*)r) Monom(al, v, n, pos); }
W void monom_ctor_copy(Monom* r, Allocator* al, const Monom* a) { ::new((void*)r) Monom(al, *a); }
W void monom_ctor_prolong(Monom* r, Allocator* al, int v, const Monom* a) { ::new((void*)r) Monom(al, v, *a); }
W void monom_ctor_mul(Monom* r, Allocator* al, const Monom* a, const Monom* b) { ::new((void*)r) Monom(al, *a, *b); }
W void monom_ctor_pow(Monom* r, Allocator* al, const Monom* a, int n) { ::new((void*)r) Monom(al, *a, n); }
W void monom_ctor_move(Monom* r, Monom* a) { ::new((void*)r) Monom(std::move(*a)); }
W void monom_dtor(Monom* a) { a->~Monom(); }
W void monom_assign(Monom* r, const Monom* a) { *r = *a; }
W void monom_massign(Monom* r, Monom* a) { *r = std::move(*a); }
W void monom_swap(Monom* r, Monom* a) { r->swap(*a); }
W void monom_mult(Monom* r, const Monom* a) { r->mult(*a); }
W void monom_multv(Monom* r, int v, const Monom* a) { r->mult(v, *a); }
W void monom_div(Monom* r, const Monom* a) { r->div(*a); }
W void monom_times(Monom* r, Monom* a, const Monom* b) { ::new((void*)r) Monom(std::move(*a) * *b); }
W void monom_permutation(Monom* r, const Monom* a, RandPermutation* p) { r->permutation(*a, *p); }
W bool monom_eq(const Monom* a, const Monom* b) { return *a == *b; }
W bool monom_ne(const Monom* a, const Monom* b) { return *a != *b; }
W bool monom_divisible(const Monom* a, const Monom* b) { return a->divisiable(*b); }
W int  monom_gcd(const Monom* a, const Monom* b) { return a->gcd(*b); }
W int  monom_lcm(const Monom* a, const Monom* b) { return a->lcm(*b); }
W int  monom_lex(const Monom* a, const Monom* b) { return a->lex(*b); }
W int  monom_deglex(const Monom* a, const Monom* b) { return a->deglex(*b); }
W int  monom_alex(const Monom* a, const Monom* b) { return a->alex(*b); }
W int  monom_lex3(const Monom* a, const Monom* b, const Monom* c) { return a->lex(*b, *c); }
W int  monom_deglex3(const Monom* a, const Monom* b, const Monom* c) { return a->deglex(*b, *c); }
W int  monom_alex3(const Monom* a, const Monom* b, const Monom* c) { return a->alex(*b, *c); }

/* ---- Poly: the term order carried by a polynomial */
W void poly_ctor(Poly* r, int order, int size) { ::new((void*)r) Poly(order, size); }
W void poly_ctor_copy(Poly* r, const Poly* a) { ::new((void*)r) Poly(*a); }
W void poly_ctor_move(Poly* r, Poly* a) { ::new((void*)r) Poly(std::move(*a)); }
W void poly_assign(Poly* r, const Poly* a) { *r = *a; }
W void poly_massign(Poly* r, Poly* a) { *r = std::move(*a); }
W void poly_swap(Poly* r, Poly* a) { r->swap(*a); }
W int  poly_order(const Poly* a) { return a->order(); }
W int  poly_size(const Poly* a) { return a->size(); }
W int  poly_cmp(const Poly* p, const Monom* a, const Monom* b) { return p->cmp(*a, *b); }
W bool poly_comparable(const Poly* a, const Poly* b) { return a->comparable(*b); }
