/* Collective allocation and free (C11): two allocations on the world group and/or the group {2,0},
 * frees (by pointer or NULL) in either order, finalize for the rest.
 *   VP_G0 / VP_G1  1: the allocation is on the group      VP_FREES  0 none, 1 first, 2 second, 3 both, 4 both in reverse
 *   VP_SYM bit w: process w's sizes are symbolic, the others ask for VP_SZMAX (the largest)
 *   VP_Z0 VP_Z1 bit w: process w asks for no bytes      VP_SZMAX largest size                                  VP_GRAN configured granularity */
#define VP_NPROC 3
#define VP_ARENA 64
#define VP_OWN_INFO
#define VP_OWN_CONTRIB
#define VP_OWN_SNPRINTF
#define VP_OWN_MAX
#define VP_NZ(k, w) vp_nz(k, w)
static _Bool vp_nz(int k, int w);
#include "vp_armci.h"
#ifndef VP_Z0
#define VP_Z0 0
#endif
#ifndef VP_Z1
#define VP_Z1 0
#endif
#ifndef VP_G0
#define VP_G0 0
#endif
#ifndef VP_G1
#define VP_G1 0
#endif
#ifndef VP_SZMAX
#define VP_SZMAX (1L << 40)
#endif
#ifndef VP_SYM
#define VP_SYM 0
#endif
#ifndef VP_SZ0
#define VP_SZ0 24
#endif
#ifndef VP_GRAN
#define VP_GRAN 1048576
#endif
static long gran; static int ngran;
void vp_hook_info(const char *k, const char *v)
{ (void) v; if (vp_strcmp(k, "mpi_accumulate_granularity") == 0) { gran = vp_printed; ngran++; } }
static int freeing = -1;          /* allocation being freed: what the others pass */
void vp_hook_contrib(int w, const void *mine, void *out, int n)
{
  if (freeing < 0) { for (int i = 0; i < n; i++) ((unsigned char *) out)[i] = ((const unsigned char *) mine)[i]; return; }
  if (n == 4) *(int *) out = vp_nz(freeing, w) ? w : -1;
  else { VP_ASSERT(vp_nz(freeing, w), "only a process with memory provides the address"); *(void **) out = vp_plan_base(freeing, w); }
}
static const int zero[2] = { VP_Z0, VP_Z1 };   /* who asks for no bytes */
static const bool ong[2] = { VP_G0, VP_G1 };
static ARMCI_Group g;
static void *ptr[2][VP_NPROC];
static bool in(int k, int w) { return !ong[k] || w != 1; }
static bool vp_nz(int k, int w) { return k >= 0 && k < 2 && in(k, w) && !(zero[k] >> w & 1); }
static bool any(int k) { return vp_nz(k, 0) || vp_nz(k, 1) || vp_nz(k, 2); }
long vp_hook_max(long m)   /* the largest size is known: some process asks for exactly that much */
{
  if (freeing >= 0 || vp_cur < 0) return m;
  long mx = any(vp_cur) ? vp_cur == 0 ? VP_SZ0 : VP_SZMAX : 0;
  VP_ASSERT(m == mx, "the largest size"); return mx;
}
static void do_alloc(int k)
{
  for (int w = 0; w < VP_NPROC; w++) {
    vp_plan[k].off[w] = 8 * (w + 1) + 32 * k; long mx = k == 0 ? VP_SZ0 : VP_SZMAX;
    vp_plan[k].size[w] = vp_nz(k, w) ? VP_SYM >> w & 1 ? vp_lrange(1, mx) : mx : 0; 
    ptr[k][w] = &gran;
  }
  gran = -1; ngran = 0; int win0 = vp_live_win; long lm = vp_live_malloc;
  if (ong[k]) vp_alloc_group(k, ptr[k], &g); else vp_alloc_world(k, ptr[k]);
  bool any_k = any(k);
  for (int i = 0; i < (ong[k] ? 2 : 3); i++) {
    int w = ong[k] ? (i == 0 ? 2 : 0) : i;
    VP_ASSERT(ptr[k][i] == vp_plan_base(k, w), "every member's slice address is returned in group rank order, NULL for no bytes");
  }
  if (ong[k]) VP_ASSERT(ptr[k][2] == &gran, "no more addresses are returned than the group has members");
  VP_ASSERT(vp_live_win == win0 + any_k, "one window per allocation, none for an empty one");
  if (any_k) VP_ASSERT(ngran == 1 && gran == (vp_plan[k].size[VP_ME] <= 128 ? 1 : VP_GRAN), "accumulate granularity hint");
  if (!any_k) VP_ASSERT(vp_live_malloc == lm, "an empty allocation keeps nothing");
}
static void do_free(int k)
{
  void *mine = vp_plan_base(k, VP_ME); int win0 = vp_live_win, am0 = vp_live_allocmem; (void) am0;
  bool any_k = any(k);
  freeing = k;
  if (ong[k]) VP_RC(ARMCI_Free_group(mine, &g), "Free_group"); else VP_RC(PARMCI_Free(mine), "Free");
  freeing = -1;
  VP_ASSERT(vp_live_win == win0 - any_k, "the window is released once");
}
void harness(void)
{
  vp_start();
  int list[2] = { 2, 0 };
  long m0 = vp_live_malloc;
  if (VP_G0 || VP_G1) ARMCI_Group_create(2, list, &g);
  long m1 = vp_live_malloc; int g1 = vp_live_group, a1 = vp_live_allocmem, w1 = vp_live_win; (void) m0;
  do_alloc(0);
  do_alloc(1);
#if VP_FREES == 1
  do_free(0);
#elif VP_FREES == 2
  do_free(1);
#elif VP_FREES == 3
  do_free(0); do_free(1);
#elif VP_FREES == 4
  do_free(1); do_free(0);
#endif
#if VP_FREES >= 3
  VP_ASSERT(vp_live_malloc == m1 && vp_live_group == g1 && vp_live_allocmem == a1 && vp_live_win == w1 && vp_live_info == 0, "freed allocations leave nothing behind");
#endif
#if VP_G0 || VP_G1
#if VP_FREES >= 3
  ARMCI_Group_free(&g);
#endif
#endif
  /* the rest is freed by finalize; there every process holds the allocation */
  VP_RC(PARMCI_Finalize(), "Finalize");
  VP_ASSERT(vp_live_win == 0, "finalize releases every remaining window");
  VP_ASSERT(vp_live_allocmem == 0, "finalize releases all memory");
  VP_ASSERT(vp_live_op == 0, "finalize releases its operators");
#if !(VP_G0 || VP_G1) || VP_FREES >= 3
  VP_ASSERT(vp_live_comm == 0 && vp_live_group == 0 && vp_live_malloc == 0 && vp_live_info == 0 && vp_live_type == 0 && vp_live_req == 0, "nothing is left after finalize");
#endif
  VP_REACHED("freed");
}
