/* Strided put / get / int accumulate, blocking and nonblocking (C02, C05, C12, C23).
 *   VP_OP  PUTS GETS ACCS NBPUTS NBGETS NBACCS PUTSFLAG
 *   VP_LV  stride levels 0..3, VP_C0..VP_C3 counts
 *   VP_T0  target       VP_SRC 0: local side inside this process's arena at VP_LOFF (VP_LOHI: range), 1: separate object
 *   VP_SMAX largest stride tried at level 0 (elements of VP_U bytes)
 *   P_LOCAL: origin is overwritten after completion / get results present before fence
 *   P_RANGE: target section may leave the slice */
#ifndef VP_NPROC
#define VP_NPROC 2
#endif
#ifndef VP_ARENA
#define VP_ARENA 32
#endif
#ifndef VP_D0OFF
#define VP_D0OFF 14
#define VP_D0SZ 16
#endif
#define VP_XOR
#include "vp_armci.h"
#ifndef VP_NOTREADY
#define VP_NOTREADY 1
#endif
enum { PUTS = 1, GETS, ACCS, NBPUTS, NBGETS, NBACCS, PUTSFLAG };
#ifndef VP_C1
#define VP_C1 1
#endif
#ifndef VP_C2
#define VP_C2 1
#endif
#ifndef VP_C3
#define VP_C3 1
#endif
#ifndef VP_SRC
#define VP_SRC 1
#endif
#ifndef VP_LSZ
#define VP_LSZ VP_D0SZ
#endif
#ifndef VP_COMPL
#define VP_COMPL 1
#endif
#ifndef VP_LOFF
#define VP_LOFF 0
#endif
#ifndef VP_LOHI
#define VP_LOHI VP_LOFF
#endif
#ifndef VP_DOFF
#define VP_DOFF 0
#endif
#ifndef VP_DOHI
#define VP_DOHI VP_DOFF
#endif
#ifndef VP_SCALE
#define VP_SCALE 1
#endif
#define ISGET (VP_OP == GETS || VP_OP == NBGETS)
#define ISACC (VP_OP == ACCS || VP_OP == NBACCS)
#define ISNB  (VP_OP >= NBPUTS && VP_OP <= NBACCS)
#define U (ISACC ? 4 : 1)
static unsigned char priv[VP_LSZ], priv_ref[VP_LSZ];

/* strides of one side: nested, non-overlapping, whole section inside span bytes */
static void strides(int *st, const int *cnt, long span)
{
  long need = cnt[0];
  for (int i = 0; i < 3; i++) st[i] = 0;
  for (int i = 0; i < VP_LV; i++) {
    st[i] = vp_range((int) need, (int) span) ;
    VP_ASSUME(st[i] % U == 0 && (i == 0 || st[i] >= st[i - 1]));   /* monotone, as the library documents */
#ifdef VP_DIV
    if (i > 0) VP_ASSUME(st[i] % st[i - 1] == 0);
#endif
    need = (long) st[i] * (cnt[i + 1] - 1) + need;
  }
  VP_ASSUME(need <= span);
}
static long live(void) { return vp_live_type * 1L + vp_live_group + vp_live_comm + vp_live_info + vp_live_allocmem + vp_live_malloc; }

void harness(void)
{
  void *p0[VP_NPROC], *p1[VP_NPROC];
  vp_start();
  for (int p = 0; p < VP_NPROC; p++) {
    vp_plan[0].off[p] = 4;  vp_plan[0].size[p] = p == 1 ? 0 : 8;
    vp_plan[1].off[p] = VP_D0OFF; vp_plan[1].size[p] = VP_D0SZ;
  }
  vp_alloc_world(0, p0);
  vp_alloc_world(1, p1);
  vp_fill_mem();
  int cnt[4] = { VP_C0, VP_C1, VP_C2, VP_C3 };
  int lst[3], rst[3];
  int d = VP_DOFF == VP_DOHI ? VP_DOFF : vp_range(VP_DOFF, VP_DOHI), so;
  unsigned char *l;
  VP_ASSUME(d % U == 0);
#ifdef P_RANGE
  strides(rst, cnt, VP_RSPAN);
  long ext = cnt[0];
  for (int i = 0; i < VP_LV; i++) ext += (long) rst[i] * (cnt[i + 1] - 1);
  bool legal = d + ext <= VP_D0SZ;
  if (!legal) vp_abort_expected = 1;
#else
  strides(rst, cnt, VP_D0SZ - d);
#endif
#if VP_SRC
  for (int i = 0; i < VP_LSZ; i++) priv[i] = priv_ref[i] = vp_nd_u8();
  so = VP_LOFF == VP_LOHI ? VP_LOFF : vp_range(VP_LOFF, VP_LOHI); l = priv + so;
  strides(lst, cnt, VP_LSZ - so);
#define L(i) priv_ref[so + (i)]
#define LL(i) priv[so + (i)]
#else
  so = VP_LOFF == VP_LOHI ? VP_LOFF : vp_range(VP_LOFF, VP_LOHI); l = vp_arena + so;
#ifndef VP_LSPAN
#define VP_LSPAN (VP_ARENA - so)
#endif
  strides(lst, cnt, VP_LSPAN);
#define L(i) VP_R(VP_ME, so + (i))
#define LL(i) vp_arena[so + (i)]
#endif
  VP_ASSUME(so % U == 0);
#define R(i) VP_R(VP_T0, VP_D0OFF + d + (i))
  int scale = VP_SCALE;
  long live0 = live();
  unsigned char *r = (unsigned char *) p1[VP_T0] + d;
  armci_hdl_t h, *hp = NULL; ARMCI_INIT_HANDLE(&h);
  if (VP_COMPL <= 2) hp = &h;
  int flagv = 0;
  switch (VP_OP) {
    case PUTS: VP_RC(PARMCI_PutS(l, lst, r, rst, cnt, VP_LV, VP_T0), "PutS"); break;
    case GETS: VP_RC(PARMCI_GetS(r, rst, l, lst, cnt, VP_LV, VP_T0), "GetS"); break;
    case ACCS: VP_RC(PARMCI_AccS(ARMCI_ACC_INT, &scale, l, lst, r, rst, cnt, VP_LV, VP_T0), "AccS"); break;
    case NBPUTS: VP_RC(PARMCI_NbPutS(l, lst, r, rst, cnt, VP_LV, VP_T0, hp), "NbPutS"); break;
    case NBGETS: VP_RC(PARMCI_NbGetS(r, rst, l, lst, cnt, VP_LV, VP_T0, hp), "NbGetS"); break;
    case NBACCS: VP_RC(PARMCI_NbAccS(ARMCI_ACC_INT, &scale, l, lst, r, rst, cnt, VP_LV, VP_T0, hp), "NbAccS"); break;
    case PUTSFLAG: flagv = vp_nd_int(); VP_RC(PARMCI_PutS_flag(l, lst, r, rst, cnt, VP_LV, (int *) p0[VP_T0], flagv, VP_T0), "PutS_flag"); break;
  }
#ifdef P_RANGE
  VP_ASSERT(legal, "an access outside the allocation is rejected");
#endif
  if (ISNB) {
    if (VP_COMPL == 1) VP_RC(PARMCI_Wait(&h), "Wait");
    else if (VP_COMPL == 2) {
      vp_notready = VP_NOTREADY;
      for (int i = 0; i < VP_NOTREADY; i++) VP_ASSERT(PARMCI_Test(&h) != 0, "Test does not report completion before MPI does");
      VP_ASSERT(PARMCI_Test(&h) == 0, "Test reports completion");
    }
    else if (VP_COMPL == 3) VP_RC(PARMCI_WaitProc(VP_T0), "WaitProc");
    else if (VP_COMPL == 4) VP_RC(PARMCI_WaitAll(), "WaitAll");
  }
  /* the bytes the description names */
  for (int k = 0; k < VP_C3; k++) for (int j = 0; j < VP_C2; j++) for (int i = 0; i < VP_C1; i++) {
    int lo = i * lst[0] + j * lst[1] + k * lst[2], ro = i * rst[0] + j * rst[1] + k * rst[2];
    for (int b = 0; b < VP_C0; b++) if (!ISACC) { if (ISGET) L(lo + b) = R(ro + b); else R(ro + b) = L(lo + b); }
    if (ISACC) for (int b = 0; b < VP_C0; b += 4) {
      unsigned x = 0, y = 0;
      for (int q = 3; q >= 0; q--) { x = x << 8 | R(ro + b + q); y = y << 8 | L(lo + b + q); }
      x = VP_ADD(x, y * (unsigned) scale);
      for (int q = 0; q < 4; q++) { R(ro + b + q) = (unsigned char) x; x >>= 8; }
    }
  }
  if (VP_OP == PUTSFLAG) for (int q = 0; q < 4; q++) VP_R(VP_T0, 4 + q) = (unsigned char) ((unsigned) flagv >> 8 * q);
#ifdef P_LEAK
  VP_ASSERT(live() == live0, "a completed operation leaves no datatype, group, info, or buffer behind");
  VP_ASSERT(vp_live_req == 0, "a completed operation leaves no request behind");
#endif
#ifdef P_LOCAL
  if (ISGET) {
#if VP_SRC
    int j = vp_range(0, VP_LSZ - 1);
    VP_ASSERT(priv[j] == priv_ref[j], "get result is present when the call or wait returns");
#else
    int j = vp_range(0, VP_ARENA - 1);
    VP_ASSERT(vp_arena[j] == VP_R(VP_ME, j), "get result is present when the call or wait returns");
#endif
  } else for (int k = 0; k < VP_C3; k++) for (int j = 0; j < VP_C2; j++) for (int i = 0; i < VP_C1; i++) for (int b = 0; b < VP_C0; b++) {
    int lo = i * lst[0] + j * lst[1] + k * lst[2] + b; unsigned char x = vp_nd_u8(); LL(lo) = x; L(lo) = x;
  }
#endif
  PARMCI_Fence(VP_T0);
  vp_check_mem();
#if VP_SRC
  int j = vp_range(0, VP_LSZ - 1);
  VP_ASSERT(priv[j] == priv_ref[j], "the local buffer is exactly as specified");
#endif
  VP_REACHED("operation completed");
}
