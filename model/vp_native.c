/* Native replay runtime: nondeterministic values come from the file named by
 * VP_VALUES (one integer or 0x-prefixed bit pattern per line, in call order). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
static FILE *f;
static int eof_seen;
static uint64_t next(void)
{
  char line[128];
  if (!f) { const char *p = getenv("VP_VALUES"); f = p ? fopen(p, "r") : NULL; if (!f) { fprintf(stderr, "no VP_VALUES\n"); exit(3); } }
  if (!fgets(line, sizeof line, f)) { eof_seen = 1; return 0; }
  char *sp = strchr(line, ' ');
  return strtoull(sp ? sp + 1 : line, NULL, 0);
}
long vp_nd_long(void) { return (long) next(); }
int vp_nd_int(void) { return (int) next(); }
unsigned char vp_nd_u8(void) { return (unsigned char) next(); }
bool vp_nd_bool(void) { return next() & 1; }
double vp_nd_double(void) { uint64_t u = next(); double d; memcpy(&d, &u, 8); return d; }
float vp_nd_float(void) { uint32_t u = (uint32_t) next(); float d; memcpy(&d, &u, 4); return d; }
void vp_native_assume(int ok, const char *what, int line)
{ if (!ok) { printf("REPLAY assumption-failed line %d: %s (values exhausted=%d)\n", line, what, eof_seen); fflush(stdout); exit(4); } }
void vp_native_assert(int ok, const char *msg, const char *file, int line)
{ if (!ok) { printf("REPLAY VIOLATED %s:%d: %s\n", file, line, msg); fflush(stdout); exit(7); } }
int main(void) { extern void harness(void); setvbuf(stdout, NULL, _IONBF, 0); harness(); printf("REPLAY completed without violation\n"); return 0; }
