/* Interface between the harnesses and the symbolic executor.  Under VP_SYM the
 * functions are intrinsics of /verif/engine; otherwise lib/vp_native.cc reads
 * concrete inputs from the file named by VP_INPUT and checks assertions in
 * double arithmetic (counterexample replay, witness runs). */
#ifndef VP_H
#define VP_H
#include <stddef.h>
extern "C" {
double vp_real(const char* name, double lo, double hi);
long vp_int(const char* name, long lo, long hi);
long vp_choice(const char* name, long lo, long hi);   /* forks per value */
long vp_param(const char* name, long dflt);           /* bound from config */
void vp_assume(bool c);
bool vp_split(bool c);                                /* case split */
void vp_assert(bool c, const char* id);
void vp_eq(double a, double b, const char* id);
void vp_eq_scale(double a, double b, double scale, const char* id);
void vp_le(double a, double b, const char* id);
bool vp_isnum(double a);
void vp_cover(const char* id);
void vp_reach(const char* id);                        /* must not be reached */
void vp_domain(long on);
void vp_observe(const char* id, double v);
void vp_trace(const char* id, double v);
void vp_done(void);
int vp_locks_held(void);
/* runs fn(arg) while another thread holds the lock (bit 0: for writing, bit 1: it should wait): 1 if it
 * waits for the lock, 2 if it completes; 0 under VP_SYM: call fn directly */
int vp_hold(void* lock, long write, void (*fn)(void*), void* arg);
void vp_unhold(void* lock);
bool vp_free(void* lock);                             /* nobody holds it */
double vp_uf(const char* name, double x, double y, double lo, double hi);
void h_main(void);
}
#endif
