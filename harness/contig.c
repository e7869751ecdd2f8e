/* Contiguous put / get / int accumulate, blocking and nonblocking (C01, C05, C06, C12, C23).
 *   VP_OP      PUT GET ACC NBPUT NBGET NBACC
 *   VP_T0      target world rank        VP_N   length (or VP_NMAX: symbolic 0..VP_NMAX)
 *   VP_SRC     0 local buffer anywhere in this process's arena, 1 separate object
 *   VP_GRP     1: allocation on the group {2,0} (listed in that order)
 *   VP_COMPL   how a nonblocking operation is completed
 *   P_MEM P_LOCAL P_LEAK P_RANGE   which assertions are made */
#ifndef VP_ARENA
#define VP_ARENA 40
#endif
#ifndef VP_NPROC
#define VP_NPROC 3
#endif
#define VP_XOR
#include "vp_armci.h"
#ifndef VP_NOTREADY
#define VP_NOTREADY 1
#endif
enum { PUT = 1, GET, ACC, NBPUT, NBGET, NBACC };
#ifndef VP_SRC
#define VP_SRC 0
#endif
#ifndef VP_COMPL
#define VP_COMPL 1
#endif
#ifndef VP_NMAX
#define VP_NMAX VP_N
#endif
#ifndef VP_D0OFF
#define VP_D0OFF 16
#define VP_D0SZ 12
#endif
#define ISPUT (VP_OP == PUT || VP_OP == NBPUT)
#define ISGET (VP_OP == GET || VP_OP == NBGET)
#define ISACC (VP_OP == ACC || VP_OP == NBACC)
#define ISNB  (VP_OP >= NBPUT)
static unsigned char priv[VP_NMAX + 5], priv_ref[VP_NMAX + 5];

static int issue(void *l, void *r, int n, int *scale, armci_hdl_t *h)
{
  (void) h; (void) scale;
  switch (VP_OP) {
    case PUT: return PARMCI_Put(l, r, n, VP_T0);
    case GET: return PARMCI_Get(r, l, n, VP_T0);
    case ACC: return PARMCI_Acc(ARMCI_ACC_INT, scale, l, r, n, VP_T0);
    case NBPUT: return PARMCI_NbPut(l, r, n, VP_T0, h);
    case NBGET: return PARMCI_NbGet(r, l, n, VP_T0, h);
    default: return PARMCI_NbAcc(ARMCI_ACC_INT, scale, l, r, n, VP_T0, h);
  }
}
static long live(void) { return vp_live_type * 1L + vp_live_group + vp_live_comm + vp_live_info + vp_live_allocmem + vp_live_malloc; }

void harness(void)
{
  void *p0[VP_NPROC], *p1[VP_NPROC];
  vp_start();
  for (int p = 0; p < VP_NPROC; p++) {
    vp_plan[0].off[p] = 4;  vp_plan[0].size[p] = p == 1 ? 0 : 8;
    vp_plan[1].off[p] = VP_D0OFF; vp_plan[1].size[p] = VP_D0SZ;
  }
  vp_alloc_world(0, p0);
  void *base;
#if defined(VP_GRP) && VP_GRP
  ARMCI_Group g; int list[2] = { 2, 0 };
  ARMCI_Group_create(2, list, &g);
  vp_alloc_group(1, p1, &g);
  base = p1[VP_T0 == 2 ? 0 : 1];
#else
  vp_alloc_world(1, p1);
  base = p1[VP_T0];
#endif
  vp_fill_mem();
#ifdef VP_N
  int n = VP_N;
#else
  int n = vp_range(0, VP_NMAX);
#endif
  int d = vp_range(0, VP_D0SZ - 1);
#ifdef P_RANGE
  /* any range: legal exactly when inside the slice */
  if (d + n > VP_D0SZ) vp_abort_expected = 1;
  bool legal = d + n <= VP_D0SZ;
#else
  VP_ASSUME(d + n <= VP_D0SZ);
#endif
  int so;
  unsigned char *l;
#if VP_SRC
  for (int i = 0; i < (int) sizeof priv; i++) priv[i] = priv_ref[i] = vp_nd_u8();
  so = vp_range(0, 5); l = priv + so;
#define L(i) priv_ref[so + (i)]
#else
#ifndef VP_SOLO
#define VP_SOLO 0
#define VP_SOHI (VP_ARENA - VP_NMAX)
#endif
  so = VP_SOLO == VP_SOHI ? VP_SOLO : vp_range(VP_SOLO, VP_SOHI); l = vp_arena + so;
  if (VP_T0 == VP_ME) VP_ASSUME(n == 0 || so + n <= VP_D0OFF + d || VP_D0OFF + d + n <= so);
#define L(i) VP_R(VP_ME, so + (i))
#endif
#define R(i) VP_R(VP_T0, VP_D0OFF + d + (i))
  int scale = 1;
#if (VP_OP == ACC || VP_OP == NBACC) && defined(VP_SCALE)
  scale = VP_SCALE;
#endif
  if (ISACC) VP_ASSUME(d % 4 == 0 && so % 4 == 0);
  long live0 = live();
  armci_hdl_t h, *hp = NULL; ARMCI_INIT_HANDLE(&h);
  if (VP_COMPL <= 2) hp = &h;
  VP_RC(issue(l, (char *) base + d, n, &scale, hp), "operation");
#ifdef P_RANGE
  VP_ASSERT(legal, "an access outside the allocation is rejected");
#endif
  if (ISNB) {
    if (VP_COMPL == 1) VP_RC(PARMCI_Wait(&h), "Wait");
    else if (VP_COMPL == 2) {
      vp_notready = VP_NOTREADY;
      for (int i = 0; i < VP_NOTREADY; i++) VP_ASSERT(PARMCI_Test(&h) != 0, "Test does not report completion before MPI does");
      VP_ASSERT(PARMCI_Test(&h) == 0, "Test reports completion");
    }
    else if (VP_COMPL == 3) VP_RC(PARMCI_WaitProc(VP_T0), "WaitProc");
    else if (VP_COMPL == 4) VP_RC(PARMCI_WaitAll(), "WaitAll");
  }
  /* reference */
  if (ISPUT) for (int i = 0; i < n; i++) R(i) = L(i);
  else if (ISGET) for (int i = 0; i < n; i++) L(i) = R(i);
  else for (int i = 0; i + 3 < n; i += 4) {
    unsigned a = 0, b = 0;
    for (int q = 3; q >= 0; q--) { a = a << 8 | R(i + q); b = b << 8 | L(i + q); }
    a = VP_ADD(a, b * (unsigned) scale);
    for (int q = 0; q < 4; q++) { R(i + q) = (unsigned char) a; a >>= 8; }
  }
#ifdef P_LEAK
  VP_ASSERT(live() == live0, "a completed operation leaves no datatype, group, info, or buffer behind");
  VP_ASSERT(vp_live_req == 0, "a completed operation leaves no request behind");
#endif
#ifdef P_LOCAL
  /* the call / wait has returned: get results are present, the source may be overwritten */
  if (ISGET) {
#if VP_SRC
    int j = vp_range(0, (int) sizeof priv - 1);
    VP_ASSERT(priv[j] == priv_ref[j], "get result is present when the call or wait returns");
#else
    int j = vp_range(0, VP_ARENA - 1);
    VP_ASSERT(vp_arena[j] == VP_R(VP_ME, j), "get result is present when the call or wait returns");
#endif
  } else for (int i = 0; i < n; i++) { unsigned char x = vp_nd_u8(); l[i] = x; L(i) = x; }
#endif
  PARMCI_Fence(VP_T0);
#if defined(P_MEM) || defined(P_LOCAL)
  vp_check_mem();
#if VP_SRC
  int j = vp_range(0, (int) sizeof priv - 1);
  VP_ASSERT(priv[j] == priv_ref[j], "the local buffer is exactly as specified");
#endif
#endif
  VP_REACHED("operation completed");
}
