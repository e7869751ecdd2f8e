/* Harness support shared by the CBMC run and the native replay. */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

/* symbolic values: every one goes through vp_log so that a counterexample
 * can be read back from the trace and replayed natively */
long      vp_nd_long(void);
int       vp_nd_int(void);
unsigned char vp_nd_u8(void);
bool      vp_nd_bool(void);
double    vp_nd_double(void);
float     vp_nd_float(void);
static inline int  vp_range(int lo, int hi);
static inline long vp_lrange(long lo, long hi);

#ifdef VP_CBMC
void __CPROVER_assume(_Bool);
void __CPROVER_assert(_Bool, const char *);
#define VP_ASSUME(x)      __CPROVER_assume(x)
#define VP_ASSERT(x, msg) __CPROVER_assert((x), msg)
#else
void vp_native_assume(int ok, const char *what, int line);
void vp_native_assert(int ok, const char *msg, const char *file, int line);
#define VP_ASSUME(x)      vp_native_assume(!!(x), #x, __LINE__)
#define VP_ASSERT(x, msg) vp_native_assert(!!(x), msg, __FILE__, __LINE__)
#endif

static inline int vp_range(int lo, int hi) { int v = vp_nd_int(); VP_ASSUME(v >= lo && v <= hi); return v; }
static inline long vp_lrange(long lo, long hi) { long v = vp_nd_long(); VP_ASSUME(v >= lo && v <= hi); return v; }

/* reachability witness: the driver compiles a twin with VP_WITNESS where this
 * must be violated; otherwise the harness is vacuous */
#ifdef VP_WITNESS
#define VP_REACHED(msg) VP_ASSERT(0, "WITNESS " msg)
#else
#define VP_REACHED(msg) ((void)0)
#endif
#endif
