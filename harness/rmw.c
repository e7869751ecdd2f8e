/* Read-modify-write (C08, C12): one atomic update of the target word.
 *   VP_RMW ARMCI_FETCH_AND_ADD(_LONG) / ARMCI_SWAP(_LONG)   VP_T0 target
 *   VP_SRC 0 local variable in this process's arena, 1 separate object   P_RANGE any offset   VP_D fixed offset
 * Other processes update the word too: before the operation first touches the target, between its accesses
 * (if it makes several) and afterwards; a lost update shows in the final value. */
#ifndef VP_NPROC
#define VP_NPROC 3
#endif
#define VP_ARENA 40
#define VP_TG_HOOK
#include "vp_armci.h"
#define OFF1 16
#define SZ1 16
#define LONGOP (VP_RMW == ARMCI_FETCH_AND_ADD_LONG || VP_RMW == ARMCI_SWAP_LONG)
#define SWAPOP (VP_RMW == ARMCI_SWAP || VP_RMW == ARMCI_SWAP_LONG)
#define W (LONGOP ? 8 : 4)
#ifndef VP_SRC
#define VP_SRC 1
#endif
static bool on; static int word; static unsigned long before, after_, last; static int writes;
static unsigned long ldw(const unsigned char *p, int n) { unsigned long v = 0; for (int q = n - 1; q >= 0; q--) v = v << 8 | p[q]; return v; }
/* another process updates the word */
static void interfere(void)
{
  last = 0;
  for (int q = 0; q < W; q++) { unsigned char b = vp_nd_u8(); VP_M(VP_T0, word + q) = b; last |= (unsigned long) b << 8 * q; }
}
void vp_tg_hook(vp_op_t *o, int after)
{
  if (!on) return;
  bool wr = o->kind != VP_GET && o->op != MPI_NO_OP;
  if (after && wr) after_ = ldw(&VP_M(VP_T0, word), W);
  interfere();
  if (!after && wr) { writes++; before = last; }
}
static unsigned char priv[20];
void harness(void)
{
  void *p0[VP_NPROC], *p1[VP_NPROC];
  vp_start();
  for (int p = 0; p < VP_NPROC; p++) {
    vp_plan[0].off[p] = 0;  vp_plan[0].size[p] = p == 1 ? 0 : 16;
    vp_plan[1].off[p] = OFF1; vp_plan[1].size[p] = SZ1;
  }
  vp_alloc_world(0, p0);
#if defined(VP_GRP)
  ARMCI_Group g; int list[2] = { 2, 0 }; vp_plan[1].size[1] = 0;
  ARMCI_Group_create(2, list, &g); vp_alloc_group(1, p1, &g);
  char *base = p1[VP_T0 == 2 ? 0 : 1];
#else
  vp_alloc_world(1, p1);
  char *base = p1[VP_T0];
#endif
  vp_fill_mem();
  unsigned char *l; int so = -1;
#if VP_SRC
  for (int i = 0; i < 20; i++) priv[i] = vp_nd_u8();
  l = priv + 4 + (LONGOP ? 4 : 0);
#else
  so = VP_SO; l = vp_arena + so;
#endif
  unsigned long lv = ldw(l, W);
  int extra = vp_nd_int();
#ifdef P_RANGE
  int d = vp_range(-8, SZ1 + 6);
  bool legal = (d >= 0 && d + W <= SZ1) || (VP_T0 != 1 && d + W <= 0);
  if (!legal) vp_abort_expected = 1;
  VP_ASSUME(d % 4 == 0);
#else
#ifdef VP_D
  int d = VP_D;
#else
  int d = vp_range(0, SZ1 - W);
#endif
  VP_ASSUME(d % W == 0);
#endif
  word = OFF1 + d;
#if !VP_SRC
  if (VP_T0 == VP_ME) VP_ASSUME(so + W <= word || word + W <= so);
#endif
  unsigned char guard[8];
  if (VP_SRC) for (int i = 0; i < 4; i++) { guard[i] = l[i - 4]; guard[4 + i] = l[W + i]; }
  on = true;
  VP_RC(PARMCI_Rmw(VP_RMW, l, base + d, extra, VP_T0), "Rmw");
#ifdef P_RANGE
  VP_ASSERT(legal, "an access outside the allocation is rejected");
#endif
  unsigned long got = ldw(l, W), mask = LONGOP ? ~0ul : 0xfffffffful;
  /* complete on return: what is still pending may take effect later, so let it */
  PARMCI_Fence(VP_T0);
  on = false;
  VP_ASSERT(ldw(l, W) == got, "the returned value is final when the call returns");
  unsigned long fin = ldw(&VP_M(VP_T0, word), W);
  unsigned long add = LONGOP ? (unsigned long) (long) extra : (unsigned) extra;
  VP_ASSERT(writes == 1, "the word is updated once");
  VP_ASSERT(((got - before) & mask) == 0, "the value returned is the one the word held just before the update");
  VP_ASSERT(((after_ - (SWAPOP ? lv : before + add)) & mask) == 0, "the word is updated as specified in one step");
  VP_ASSERT(fin == last, "later updates by others are not lost");
  /* nothing else changed */
  for (int q = 0; q < W; q++) { VP_R(VP_T0, word + q) = VP_M(VP_T0, word + q); if (so >= 0) VP_R(VP_ME, so + q) = VP_M(VP_ME, so + q); }
  vp_check_mem();
  if (VP_SRC) for (int i = 0; i < 4; i++) VP_ASSERT(guard[i] == l[i - 4] && guard[4 + i] == l[W + i], "bytes around the local variable are untouched");
  VP_REACHED("rmw completed");
}
