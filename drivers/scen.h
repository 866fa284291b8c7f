/* Client programs analysed abstractly: nd() is an arbitrary value, pick(n) an arbitrary choice. */
#ifndef GINV_SCEN_H
#define GINV_SCEN_H
extern "C" {
long nd(const char* name);                       /* arbitrary integer; one value per name */
long nd_fresh(const char* name);                 /* arbitrary integer, new at every call */
int  pick(int n);                                /* arbitrary choice among 0..n-1 */
void assume(bool c);
void chk(bool c, const char* what);              /* must hold */
void chk_eq(long got, long want, const char* what);
void chk_ptr(const void* got, const void* want, const char* what);
void run_ctor(int i);                            /* i-th dynamic initialiser of the library */
void path_end();                                 /* nothing more to check on this path */
void chk_block(const void* p, long n, const char* what);        /* p[0..n) is live memory */
void chk_aligned(const void* p, long a, const char* what);
void chk_disjoint(const void* p, long n, const void* q, long m, const char* what);
void chk_dead(const void* p, const char* what);  /* the memory has been returned */
void no_leaks(const char* what);                 /* every heap block not held by a global has been returned */
void done();                                     /* end of the scenario reached */
}
/* dynamic initialisation of the globals of the library */
static inline void globals() { for (int i=0; i < 40; i++) run_ctor(i); }
#define SC extern "C" void
#endif
