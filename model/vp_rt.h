/* Runtime shared by every harness: nondet logging, libc stand-ins, debug stubs.
 * Included once, by the harness translation unit. */
#ifndef VP_RT_H
#define VP_RT_H
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdio.h>
#include "vp.h"

#ifdef VP_CBMC
long nondet_long(void); int nondet_int(void); unsigned char nondet_uchar(void);
_Bool nondet_bool(void); double nondet_double(void); float nondet_float(void);
long vp_log_long; int vp_log_int; unsigned char vp_log_u8; _Bool vp_log_bool; double vp_log_double; float vp_log_float;
long vp_nd_long(void) { long v = nondet_long(); vp_log_long = v; return v; }
int vp_nd_int(void) { int v = nondet_int(); vp_log_int = v; return v; }
unsigned char vp_nd_u8(void) { unsigned char v = nondet_uchar(); vp_log_u8 = v; return v; }
bool vp_nd_bool(void) { _Bool v = nondet_bool(); vp_log_bool = v; return v; }
double vp_nd_double(void) { double v = nondet_double(); vp_log_double = v; return v; }
float vp_nd_float(void) { float v = nondet_float(); vp_log_float = v; return v; }
#endif

/* ---- abort channel ---- */
int  vp_abort_expected;          /* harness: an error abort is a legal outcome here */
void vp_on_abort(void);          /* harness hook, run when the library aborts legally */
static void vp_abort(const char *why)
{
  (void) why;
  VP_ASSERT(vp_abort_expected, "the library aborted the job on a legal call");
  vp_on_abort();
#ifdef VP_CBMC
  __CPROVER_assume(0);
#else
  printf("REPLAY aborted legally (%s)\n", why); exit(0);
#endif
}
void vp_exit(int c) { (void) c; vp_abort("exit"); }

#ifndef VP_OWN_DEBUG
/* logging stand-ins for debug.c: formatting is not the subject */
unsigned DEBUG_CATS_ENABLED = 0;
int vp_warnings;
void ARMCII_Assert_fail(const char *expr, const char *msg, const char *file, int line, const char *func)
{ (void) expr; (void) msg; (void) file; (void) line; (void) func; vp_abort(expr); }
void ARMCII_Dbg_print_impl(const char *func, const char *format, ...) { (void) func; (void) format; }
void ARMCII_Warning(const char *fmt, ...) { (void) fmt; vp_warnings++; }
#endif

/* ---- allocator: live-object counting; never fails (allocation failure is out of scope) ---- */
long vp_live_malloc;
#ifndef VP_OWN_MALLOC
void *vp_malloc(size_t n) { void *p = malloc(n); VP_ASSUME(p != NULL); vp_live_malloc++; return p; }
void *vp_calloc(size_t a, size_t b) { void *p = calloc(a, b); VP_ASSUME(p != NULL); vp_live_malloc++; return p; }
void vp_free(void *p) { if (p) vp_live_malloc--; free(p); }
void *vp_realloc(void *p, size_t n) { if (!p) vp_live_malloc++; void *q = realloc(p, n); VP_ASSUME(q != NULL); return q; }
#endif

/* ---- memory and string functions as plain loops (unwinding is checked) ---- */
void *vp_memcpy(void *d, const void *s, size_t n)
{ unsigned char *dd = d; const unsigned char *ss = s; for (size_t i = 0; i < n; i++) dd[i] = ss[i]; return d; }
#ifndef VP_MEMMOVE_MAX
#define VP_MEMMOVE_MAX 64
#endif
void *vp_memmove(void *d, const void *s, size_t n)
{
  unsigned char tmp[VP_MEMMOVE_MAX];
  unsigned char *dd = d; const unsigned char *ss = s;
  VP_ASSERT(n <= VP_MEMMOVE_MAX, "memmove longer than any transfer the harness issues");
  for (size_t i = 0; i < n; i++) tmp[i] = ss[i];
  for (size_t i = 0; i < n; i++) dd[i] = tmp[i];
  return d;
}
void *vp_memset(void *d, int c, size_t n) { unsigned char *dd = d; for (size_t i = 0; i < n; i++) dd[i] = (unsigned char) c; return d; }
size_t vp_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int vp_strcmp(const char *a, const char *b)
{ size_t i = 0; while (a[i] && a[i] == b[i]) i++; return (int) (unsigned char) a[i] - (int) (unsigned char) b[i]; }
int vp_strncmp(const char *a, const char *b, size_t n)
{ size_t i = 0; while (i < n && a[i] && a[i] == b[i]) i++; return i == n ? 0 : (int) (unsigned char) a[i] - (int) (unsigned char) b[i]; }
char *vp_strncpy(char *d, const char *s, size_t n)
{ size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *vp_strstr(const char *h, const char *n)
{
  if (!n[0]) return (char *) h;
  for (size_t i = 0; h[i]; i++) {
    size_t j = 0; while (n[j] && h[i + j] == n[j]) j++;
    if (!n[j]) return (char *) h + i;
  }
  return NULL;
}
/* as glibc: saturates to long, base 10 */
long vp_strtol(const char *s, char **end, int base)
{
  size_t i = 0; int neg = 0; unsigned long v = 0; int sat = 0, any = 0;
  VP_ASSERT(base == 10, "model limit: strtol base");
  while (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r')) i++;
  if (s[i] == '-' || s[i] == '+') { neg = s[i] == '-'; i++; }
  while (s[i] >= '0' && s[i] <= '9') {
    unsigned d = (unsigned) (s[i] - '0');
    if (v > 922337203685477580UL || (v == 922337203685477580UL && d > 7)) sat = 1; else v = v * 10 + d;
    i++; any = 1;
  }
  if (end) *end = (char *) s + (any ? i : 0);
  if (sat) return neg ? (-0x7fffffffffffffffL - 1) : 0x7fffffffffffffffL;
  return neg ? -(long) v : (long) v;
}
long vp_atol(const char *s) { return vp_strtol(s, NULL, 10); }
#ifndef VP_OWN_PRINTF
int vp_printf(const char *f, ...) { (void) f; return 0; }
#endif
/* threads are recorded; a harness may run what they would run */
#include <pthread.h>
#include <time.h>
int vp_threads; void *(*vp_thread_fn)(void *); void *vp_thread_arg;
#ifndef VP_OWN_THREAD
void vp_thread_joined(void) { }
int vp_nanosleep(const struct timespec *t, struct timespec *r) { (void) t; (void) r; return 0; }
int vp_usleep(unsigned u) { (void) u; return 0; }
#else
void vp_thread_joined(void);
#endif
int vp_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg)
{ (void) a; VP_ASSERT(vp_threads == 0, "one progress thread"); vp_threads++; vp_thread_fn = f; vp_thread_arg = arg; *t = 0; return 0; }
int vp_pthread_join(pthread_t t, void **r) { (void) t; (void) r; VP_ASSERT(vp_threads == 1, "join of the running thread"); vp_threads--; vp_thread_joined(); return 0; }
void vp_pthread_exit(void *r) { (void) r; }
static int vp_fmt_num(char *d, size_t cap, size_t *k, long v)
{
  char t[24]; int n = 0; unsigned long u = v < 0 ? 0UL - (unsigned long) v : (unsigned long) v;
  do { t[n++] = (char) ('0' + u % 10); u /= 10; } while (u);
  if (v < 0) t[n++] = '-';
  while (n > 0) { n--; if (*k + 1 < cap) d[*k] = t[n]; (*k)++; }
  return 0;
}
static int vp_vfmt(char *d, size_t cap, const char *f, va_list ap)
{
  size_t k = 0;
  for (size_t i = 0; f[i]; i++) {
    if (f[i] != '%') { if (k + 1 < cap) d[k] = f[i]; k++; continue; }
    i++;
    if (f[i] == 'l') { i++; vp_fmt_num(d, cap, &k, va_arg(ap, long)); }
    else if (f[i] == 'd') vp_fmt_num(d, cap, &k, (long) va_arg(ap, int));
    else if (f[i] == 's') { const char *s = va_arg(ap, const char *); for (size_t j = 0; s[j]; j++) { if (k + 1 < cap) d[k] = s[j]; k++; } }
    else VP_ASSERT(0, "model limit: unsupported conversion in snprintf");
  }
  if (cap) d[k < cap ? k : cap - 1] = 0;
  return (int) k;
}
#if defined(VP_OWN_SNPRINTF)
/* the one integer printed is kept as a number; the text is a placeholder */
long vp_printed;
int vp_snprintf(char *d, size_t cap, const char *f, ...)
{
  va_list ap; va_start(ap, f);
  for (size_t i = 0; f[i]; i++) if (f[i] == '%') { if (f[i + 1] == 'l') vp_printed = va_arg(ap, long); else vp_printed = va_arg(ap, int); break; }
  va_end(ap); if (cap > 1) { d[0] = '#'; d[1] = 0; } return 1;
}
int vp_sprintf(char *d, const char *f, ...) { (void) f; d[0] = 0; return 0; }
#elif defined(VP_NO_SNPRINTF)
int vp_snprintf(char *d, size_t cap, const char *f, ...) { (void) f; if (cap) d[0] = 0; return 0; }
int vp_sprintf(char *d, const char *f, ...) { (void) f; d[0] = 0; return 0; }
#else
int vp_snprintf(char *d, size_t cap, const char *f, ...) { va_list ap; va_start(ap, f); int n = vp_vfmt(d, cap, f, ap); va_end(ap); return n; }
int vp_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int n = vp_vfmt(d, (size_t) 1 << 30, f, ap); va_end(ap); return n; }
#endif
#endif
