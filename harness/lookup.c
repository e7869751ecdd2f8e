/* Address lookup (C10).  VP_SCRIPT: allocations A(k) on the world, G(k) on the group {2,0}, frees F(k) by pointer;
 * after it an arbitrary address on process VP_P must resolve to the live allocation that contains it, or to none.
 * VP_SYMPLAN: slice addresses and sizes of process VP_P symbolic (scripts without frees). */
#define VP_NPROC 3
#define VP_ARENA 64
#define VP_MAXPLAN 4
#define VP_OWN_CONTRIB
#define VP_NO_SNPRINTF
#include "vp_armci.h"
#include <gmr.h>
#ifndef VP_P
#define VP_P 0
#endif
static ARMCI_Group g;
static bool live[4], ong[4];
static void *bp[VP_NPROC];
static int freeing = -1;
void vp_hook_contrib(int w, const void *mine, void *out, int n)
{
  if (freeing < 0) { for (int i = 0; i < n; i++) ((unsigned char *) out)[i] = ((const unsigned char *) mine)[i]; return; }
  if (n == 4) *(int *) out = vp_plan[freeing].size[w] > 0 ? w : -1; else *(void **) out = vp_plan_base(freeing, w);
}
/* slices by process: adjacent, nested in another process's range, empty, far apart; allocation 2 takes the place of allocation 0 */
static const long OFF[4][3] = { { 8, 16, 0 }, { 20, 8, 40 }, { 8, 24, 1 }, { 30, 32, 50 } };
static const long SZ[4][3] = { { 12, 8, 16 }, { 4, 8, 0 }, { 9, 0, 30 }, { 6, 2, 14 } };
static void plan(int k, bool grp)
{
  for (int w = 0; w < 3; w++) {
    vp_plan[k].off[w] = OFF[k][w]; vp_plan[k].size[w] = grp && w == 1 ? 0 : SZ[k][w]; vp_plan[k].freed_me = false;
#ifdef VP_SYMPLAN
    if (w == VP_P && !(grp && w == 1)) { vp_plan[k].off[w] = vp_range(0, VP_ARENA - 1); vp_plan[k].size[w] = vp_range(1, VP_ARENA); VP_ASSUME(vp_plan[k].off[w] + vp_plan[k].size[w] <= VP_ARENA);
      for (int j = 0; j < k; j++) if (live[j]) VP_ASSUME((vp_plan[j].off[w] + vp_plan[j].size[w] <= vp_plan[k].off[w]) | (vp_plan[k].off[w] + vp_plan[k].size[w] <= vp_plan[j].off[w])); }
#endif
  }
  live[k] = true; ong[k] = grp;
}
#define A(k) plan(k, false); vp_alloc_world(k, bp);
#define G(k) plan(k, true); vp_alloc_group(k, bp, &g);
#define F(k) freeing = k; if (ong[k]) { VP_RC(ARMCI_Free_group(vp_plan_base(k, VP_ME), &g), "Free_group"); } else { VP_RC(PARMCI_Free(vp_plan_base(k, VP_ME)), "Free"); } freeing = -1; live[k] = false;
void harness(void)
{
  int list[2] = { 2, 0 };
  vp_start(); ARMCI_Group_create(2, list, &g);
  VP_SCRIPT
  int o = vp_range(0, VP_ARENA - 1); int want = -1;
  for (int k = 0; k < 4; k++) if (live[k]) want = (o >= vp_plan[k].off[VP_P]) & (o < vp_plan[k].off[VP_P] + vp_plan[k].size[VP_P]) ? k : want;
  gmr_t *m = gmr_lookup(vp_arena + o, VP_P);
  VP_ASSERT((m != NULL) == (want >= 0), "an address is found exactly when a live allocation contains it");
  if (m != NULL) {
    bool match = false;
    for (int k = 0; k < 4; k++) if (live[k]) match = match | ((want == k) & (m->slices[VP_P].base == (void *) (vp_arena + vp_plan[k].off[VP_P])) & (m->slices[VP_P].size == vp_plan[k].size[VP_P])
      & (vp_win[m->window].off[m->group.size == 2 ? VP_P == 0 : VP_P] == vp_plan[k].off[VP_P]) & ((m->group.size == 2) == ong[k]));
    VP_ASSERT(match, "the allocation found is the live one that contains the address, with its window");
    VP_REACHED("found");
  } else VP_REACHED("not found");
  VP_ASSERT(gmr_lookup(NULL, VP_P) == NULL, "NULL is in no allocation");
}
