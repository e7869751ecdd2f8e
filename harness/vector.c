/* Vector put / get / int accumulate (C03, C05, C12, C16, C23).
 *   VP_OP  PUTV GETV ACCV NBPUTV NBGETV NBACCV     VP_T0 target
 *   VP_K descriptors of VP_S segments of VP_B bytes (descriptor 1 may differ: VP_S1, VP_B1)
 *   VP_SRC 0: local side in this process's arena [VP_LLO, VP_LHI], 1: separate object
 *   VP_DSTOVL 1: destination segments may overlap (C16: result as if issued one by one, in order)
 *             2: same for puts without end-to-end flush, which MPI does not order at the target
 *   VP_TWOALLOC 1: remote segments in either of two allocations
 *   P_RANGE: remote segments anywhere from 6 bytes before to past the end of the slice; reject iff outside */
#ifndef VP_NPROC
#define VP_NPROC 2
#endif
#ifndef VP_ARENA
#define VP_ARENA 32
#endif
#ifndef VP_D0OFF
#define VP_D0OFF 14
#define VP_D0SZ 16
#endif
#define VP_XOR
#include "vp_armci.h"
#ifndef VP_NOTREADY
#define VP_NOTREADY 1
#endif
enum { PUTV = 1, GETV, ACCV, NBPUTV, NBGETV, NBACCV };
#ifndef VP_K
#define VP_K 1
#endif
#ifndef VP_S1
#define VP_S1 VP_S
#define VP_B1 VP_B
#endif
#ifndef VP_SRC
#define VP_SRC 1
#endif
#ifndef VP_LSZ
#define VP_LSZ VP_D0SZ
#endif
#ifndef VP_LLO
#define VP_LLO 0
#define VP_LHI VP_ARENA
#endif
#ifndef VP_COMPL
#define VP_COMPL 1
#endif
#ifndef VP_SCALE
#define VP_SCALE 1
#endif
#define ISGET (VP_OP == GETV || VP_OP == NBGETV)
#define ISACC (VP_OP == ACCV || VP_OP == NBACCV)
#define ISNB  (VP_OP >= NBPUTV)
#define U (ISACC ? 4 : 1)
#define SMAX (VP_S > VP_S1 ? VP_S : VP_S1)
static unsigned char priv[VP_LSZ], priv_ref[VP_LSZ];
#if VP_SRC
#define L(i) priv_ref[i]
#define LL(i) priv[i]
#else
#define L(i) VP_R(VP_ME, i)
#define LL(i) vp_arena[i]
#endif
static long live(void) { return vp_live_type * 1L + vp_live_group + vp_live_comm + vp_live_info + vp_live_allocmem + vp_live_malloc; }

void harness(void)
{
  void *p0[VP_NPROC], *p1[VP_NPROC];
  vp_start();
  for (int p = 0; p < VP_NPROC; p++) {
    vp_plan[0].off[p] = 4;  vp_plan[0].size[p] = 8;
    vp_plan[1].off[p] = VP_D0OFF; vp_plan[1].size[p] = VP_D0SZ;
  }
  vp_alloc_world(0, p0);
  vp_alloc_world(1, p1);
  vp_fill_mem();
#if VP_SRC
  for (int i = 0; i < VP_LSZ; i++) priv[i] = priv_ref[i] = vp_nd_u8();
#endif
  armci_giov_t iov[2];
  void *la[2][SMAX], *ra[2][SMAX];
  int lo[2][SMAX], ro[2][SMAX];
  int ns[2] = { VP_S, VP_S1 }, nb[2] = { VP_B, VP_B1 };
  bool legal = true;
  for (int k = 0; k < VP_K; k++) for (int s = 0; s < ns[k]; s++) {
#ifdef VP_CRO
    if (!ISGET)
#endif
    lo[k][s] = vp_range(VP_SRC ? 0 : VP_LLO, (VP_SRC ? VP_LSZ : VP_LHI) - nb[k]);
#ifdef VP_CRO   /* concrete remote (get: local) offsets */
    { static const int cro[] = { VP_CRO }; if (ISGET) { lo[k][s] = cro[s]; ro[k][s] = vp_range(VP_D0OFF, VP_D0OFF + VP_D0SZ - nb[k]); } else ro[k][s] = VP_D0OFF + cro[s]; }
    ra[k][s] = vp_arena + ro[k][s];
#elif defined(P_RANGE)
    ro[k][s] = vp_range(VP_D0OFF - 6, VP_ARENA - 1);
    if (ro[k][s] < VP_D0OFF || ro[k][s] + nb[k] > VP_D0OFF + VP_D0SZ) legal = false;
    ra[k][s] = vp_arena + ro[k][s];
#elif defined(VP_TWOALLOC)
    ro[k][s] = vp_range(4, VP_D0OFF + VP_D0SZ - nb[k]);
    VP_ASSUME(ro[k][s] >= VP_D0OFF || ro[k][s] + nb[k] <= 12);
    ra[k][s] = vp_arena + ro[k][s];
#else
    ro[k][s] = vp_range(VP_D0OFF, VP_D0OFF + VP_D0SZ - nb[k]);
    ra[k][s] = (char *) p1[VP_T0] + (ro[k][s] - VP_D0OFF);
#endif
    VP_ASSUME(ro[k][s] % U == 0 && lo[k][s] % U == 0);
#if VP_SRC
    la[k][s] = priv + lo[k][s];
#else
    la[k][s] = vp_arena + lo[k][s];
#endif
#ifndef VP_DSTOVL
    /* destination segments do not overlap */
    for (int j = 0; j <= k; j++) for (int q = 0; q < (j == k ? s : ns[j]); q++) {
      int a = ISGET ? lo[k][s] : ro[k][s], b = ISGET ? lo[j][q] : ro[j][q];
      VP_ASSUME(a + nb[k] <= b || b + nb[j] <= a);
    }
#endif
  }
#ifdef P_RANGE
  if (!legal) vp_abort_expected = 1;
#endif
  for (int k = 0; k < VP_K; k++) {
    iov[k].src_ptr_array = ISGET ? ra[k] : la[k]; iov[k].dst_ptr_array = ISGET ? la[k] : ra[k];
    iov[k].ptr_array_len = ns[k]; iov[k].bytes = nb[k];
  }
  int scale = VP_SCALE;
  long live0 = live();
  armci_hdl_t h, *hp = NULL; ARMCI_INIT_HANDLE(&h);
  if (VP_COMPL <= 2) hp = &h;
  switch (VP_OP) {
    case PUTV: VP_RC(PARMCI_PutV(iov, VP_K, VP_T0), "PutV"); break;
    case GETV: VP_RC(PARMCI_GetV(iov, VP_K, VP_T0), "GetV"); break;
    case ACCV: VP_RC(PARMCI_AccV(ARMCI_ACC_INT, &scale, iov, VP_K, VP_T0), "AccV"); break;
    case NBPUTV: VP_RC(PARMCI_NbPutV(iov, VP_K, VP_T0, hp), "NbPutV"); break;
    case NBGETV: VP_RC(PARMCI_NbGetV(iov, VP_K, VP_T0, hp), "NbGetV"); break;
    case NBACCV: VP_RC(PARMCI_NbAccV(ARMCI_ACC_INT, &scale, iov, VP_K, VP_T0, hp), "NbAccV"); break;
  }
#ifdef P_RANGE
  VP_ASSERT(legal, "an access outside the allocation is rejected");
#endif
  if (ISNB) {
    if (VP_COMPL == 1) VP_RC(PARMCI_Wait(&h), "Wait");
    else if (VP_COMPL == 2) {
      vp_notready = VP_NOTREADY;
      for (int i = 0; i < VP_NOTREADY; i++) VP_ASSERT(PARMCI_Test(&h) != 0, "Test does not report completion before MPI does");
      VP_ASSERT(PARMCI_Test(&h) == 0, "Test reports completion");
    }
    else if (VP_COMPL == 3) VP_RC(PARMCI_WaitProc(VP_T0), "WaitProc");
    else if (VP_COMPL == 4) VP_RC(PARMCI_WaitAll(), "WaitAll");
  }
  for (int k = 0; k < VP_K; k++) for (int s = 0; s < ns[k]; s++) {
    if (!ISACC) for (int b = 0; b < nb[k]; b++) {
      if (ISGET) L(lo[k][s] + b) = VP_R(VP_T0, ro[k][s] + b); else VP_R(VP_T0, ro[k][s] + b) = L(lo[k][s] + b);
    } else for (int b = 0; b + 3 < nb[k]; b += 4) {
      unsigned x = 0, y = 0;
      for (int q = 3; q >= 0; q--) { x = x << 8 | VP_R(VP_T0, ro[k][s] + b + q); y = y << 8 | L(lo[k][s] + b + q); }
      x = VP_ADD(x, y * (unsigned) scale);
      for (int q = 0; q < 4; q++) { VP_R(VP_T0, ro[k][s] + b + q) = (unsigned char) x; x >>= 8; }
    }
  }
#ifdef P_LEAK
  VP_ASSERT(live() == live0, "a completed operation leaves no datatype, group, info, or buffer behind");
  VP_ASSERT(vp_live_req == 0, "a completed operation leaves no request behind");
#endif
#ifdef P_LOCAL
  if (ISGET) {
#if VP_SRC
    int j = vp_range(0, VP_LSZ - 1);
    VP_ASSERT(priv[j] == priv_ref[j], "get result is present when the call or wait returns");
#else
    int j = vp_range(0, VP_ARENA - 1);
    VP_ASSERT(vp_arena[j] == VP_R(VP_ME, j), "get result is present when the call or wait returns");
#endif
  } else for (int k = 0; k < VP_K; k++) for (int s = 0; s < ns[k]; s++) for (int b = 0; b < nb[k]; b++) {
    unsigned char x = vp_nd_u8(); LL(lo[k][s] + b) = x; L(lo[k][s] + b) = x;
  }
#endif
  PARMCI_Fence(VP_T0);
#if defined(VP_DSTOVL) && VP_DSTOVL == 2
  /* overlapping puts are not ordered by a local flush: every byte comes from one of the segments that cover it */
  int m = vp_range(0, VP_MEMSZ - 1);
  bool covered = false, one = false;
  for (int k = 0; k < VP_K; k++) for (int s = 0; s < ns[k]; s++) {
    int o = m - VP_T0 * VP_ARENA - ro[k][s];
    if (o >= 0 && o < nb[k]) { covered = true; if (vp_mem[m] == priv_ref[lo[k][s] + o]) one = true; }
  }
  VP_ASSERT(covered ? one : vp_mem[m] == vp_ref[m], "every covered byte comes from one of the segments, every other byte is unchanged");
#else
  vp_check_mem();
#endif
#if VP_SRC
  int j = vp_range(0, VP_LSZ - 1);
  VP_ASSERT(priv[j] == priv_ref[j], "the local buffer is exactly as specified");
#endif
  VP_REACHED("operation completed");
}
