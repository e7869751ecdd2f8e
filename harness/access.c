/* Direct access to local slices with separate window copies (C25).
 * vp_mem of this process is what its loads and stores see; pub is what others read and write.  MPI_Win_sync merges
 * the two copies of the window's slice.  VP_MODE 0 Access_begin/end, 1 ARMCI_Barrier, 2 armci_msg_barrier, 3 armci_msg_group_barrier. */
#define VP_NPROC 3
#define VP_ARENA 32
#define VP_SYNC_HOOK
#define VP_OWN_ONABORT
#define VP_NO_SNPRINTF
#include "vp_armci.h"
#include <armci_internals.h>
#include <gmr.h>
#ifndef VP_ME0
#define VP_ME0 0
#endif
static unsigned char pub[VP_ARENA], base[VP_ARENA];
static bool separate, legal = true;
static int nbar; static bool published, arrived;
static int st_at = -1, up_at = -1; static unsigned char st_v, up_v;
static ARMCI_Group g;
static void merge(int w)
{
  int me = vp_comm_rank_of(MPI_COMM_WORLD, VP_ME), r = -1;
  for (int i = 0; i < vp_win[w].n; i++) if (vp_win[w].w[i] == me) r = i;
  if (r < 0) return;
  for (int i = 0; i < VP_ARENA; i++) if (i >= vp_win[w].off[r] && i < vp_win[w].off[r] + vp_win[w].size[r]) {
    if (VP_M(VP_ME, i) != base[i]) pub[i] = VP_M(VP_ME, i); else VP_M(VP_ME, i) = pub[i];
    base[i] = pub[i];
  }
}
static void unify(void) { if (!separate) for (int k = 1; k <= VP_MAXWIN; k++) if (vp_win[k].used) merge(k); }
void vp_hook_sync(int w) { merge(w); }
static bool inall(int k, int o) { return o >= vp_plan[k].off[VP_ME] && o < vp_plan[k].off[VP_ME] + vp_plan[k].size[VP_ME]; }
/* the others enter a barrier after completing their updates of this process, and read its memory after leaving the last one */
static bool watching;
void vp_hook_barrier(MPI_Comm c)
{
  (void) c; if (!watching) return;
  unify();
  published = st_at < 0 || pub[st_at] == st_v;
  if (!arrived && up_at >= 0) { pub[up_at] = up_v; arrived = true; unify(); }
  nbar++;
}
void vp_on_abort(void) { VP_ASSERT(!legal, "direct access to the caller's own slice is legal"); VP_REACHED("rejected"); }

void harness(void)
{
  void *b0[VP_NPROC], *b1[VP_NPROC];
  vp_unified = VP_MODEL == 0 ? MPI_WIN_UNIFIED : VP_MODEL == 1 ? MPI_WIN_SEPARATE : 0; separate = VP_MODEL != 0;
  vp_fill_mem();
  vp_start();
  static const long OFF[2][3] = { { 2, 12, 20 }, { 14, 4, 0 } }, SZ[2][3] = { { 8, 6, 10 }, { 10, 0, 12 } };
  for (int k = 0; k < 2; k++) for (int w = 0; w < 3; w++) { vp_plan[k].off[w] = OFF[k][w]; vp_plan[k].size[w] = SZ[k][w]; }
  vp_alloc_world(0, b0);
#ifdef VP_GRP
  int list[2] = { 2, 0 }; ARMCI_Group_create(2, list, &g); vp_alloc_group(1, b1, &g);
#else
  g = ARMCI_GROUP_WORLD; vp_alloc_world(1, b1);
#endif
  for (int i = 0; i < VP_ARENA; i++) pub[i] = base[i] = VP_M(VP_ME, i);
  /* a store by this process and an update by another one, to different bytes of its slices */
  int sa = vp_range(0, VP_ARENA - 1), ua = vp_range(0, VP_ARENA - 1);
  VP_ASSUME(sa != ua && (inall(0, sa) || inall(1, sa)) && (inall(0, ua) || inall(1, ua)));
  st_v = vp_nd_u8(); up_v = vp_nd_u8(); VP_ASSUME(st_v != base[sa] && up_v != base[ua]);
#if VP_MODE == 0
  int at = vp_range(0, VP_ARENA - 1), end = vp_range(0, VP_ARENA - 1);
  int k = inall(0, at) ? 0 : inall(1, at) ? 1 : -1;
  legal = k >= 0; vp_abort_expected = 1;
  if (k >= 0) VP_ASSUME(inall(k, ua) && inall(k, sa) && inall(k, end));
  pub[ua] = up_v; unify();                /* a remote update completes */
  PARMCI_Access_begin(vp_arena + at);
  VP_ASSERT(k >= 0, "direct access outside the caller's slices is refused");
  legal = false;
  if (k >= 0) {
    legal = true;
    VP_ASSERT(VP_M(VP_ME, ua) == up_v, "inside direct access local loads see completed remote updates");
    VP_M(VP_ME, sa) = st_v; unify();
    PARMCI_Access_end(vp_arena + end);
    VP_ASSERT(pub[sa] == st_v, "after direct access local stores are visible to others");
    VP_ASSERT(pub[ua] == up_v, "remote updates stay");
    VP_REACHED("end");
    legal = false;
    PARMCI_Access_end((void *) b0[VP_ME]);  /* any own address is fine */
    legal = vp_nd_bool();
  }
#else
  VP_M(VP_ME, sa) = st_v; st_at = sa; up_at = ua; watching = true;
#if VP_MODE == 1
  PARMCI_Barrier();
#elif VP_MODE == 2
  armci_msg_barrier();
#else
  parmci_msg_group_barrier(&g);
#endif
  watching = false; unify();
  VP_ASSERT(nbar >= 1, "a barrier synchronizes the processes");
  VP_ASSERT(VP_M(VP_ME, ua) == up_v, "after a barrier local loads see the others' completed updates");
  VP_ASSERT(published, "local stores are visible before any process leaves the barrier");
  VP_REACHED("end");
#endif
}
