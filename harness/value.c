/* Value puts and gets (C24).
 *   VP_OP  1 PutValue  2 NbPutValue  3 GetValue      VP_TY  0 int  1 long  2 float  3 double
 *   VP_T0  target      VP_HOW  0 initialized handle, waited for  1 null handle, WaitAll  2 handle, WaitProc */
#define VP_ARENA 28
#define VP_NPROC 3
#include "vp_armci.h"
#ifndef VP_HOW
#define VP_HOW 0
#endif
#if VP_TY == 0
typedef int T;
#define F(x) x##Int
#elif VP_TY == 1
typedef long T;
#define F(x) x##Long
#elif VP_TY == 2
typedef float T;
#define F(x) x##Float
#else
typedef double T;
#define F(x) x##Double
#endif
typedef union { T v; unsigned char b[sizeof(T)]; } U;
#define OFF1 10
#define SZ1 16
#define CALL2(f, a, b) f(a, b)
/* overwrite the part of the stack the call used */
static void scribble(void) { volatile unsigned char s[64]; for (int i = 0; i < 64; i++) s[i] = 0xA5; }

void harness(void)
{
  void *p0[VP_NPROC], *p1[VP_NPROC], *base;
  vp_start();
  for (int p = 0; p < VP_NPROC; p++) {
    vp_plan[0].off[p] = 0; vp_plan[0].size[p] = p == 1 ? 0 : 8;
    vp_plan[1].off[p] = OFF1; vp_plan[1].size[p] = SZ1;
  }
  vp_alloc_world(0, p0);
#ifdef VP_GRP
  ARMCI_Group g; int list[2] = { 2, 0 };
  ARMCI_Group_create(2, list, &g);
  vp_alloc_group(1, p1, &g);
  base = p1[VP_T0 == 2 ? 0 : 1];
#else
  vp_alloc_world(1, p1);
  base = p1[VP_T0];
#endif
  vp_fill_mem();
  int d = vp_range(0, SZ1 - (int) sizeof(T));
  void *r = (char *) base + d;
  U x; for (unsigned i = 0; i < sizeof(T); i++) x.b[i] = vp_nd_u8();
  armci_hdl_t h, *hp = VP_HOW == 1 ? NULL : &h; ARMCI_INIT_HANDLE(&h); (void) hp;
#if VP_OP == 1
  VP_RC(F(PARMCI_PutValue)(x.v, r, VP_T0), "PutValue");
#elif VP_OP == 2
  VP_RC(F(PARMCI_NbPutValue)(x.v, r, VP_T0, hp), "NbPutValue");
#else
  U y; y.v = F(PARMCI_GetValue)(r, VP_T0);
  int j = vp_range(0, (int) sizeof(T) - 1);
  VP_ASSERT(y.b[j] == VP_R(VP_T0, OFF1 + d + j), "a value get returns the target's value");
#endif
  scribble();
#if VP_OP == 2
  if (VP_HOW == 0) VP_RC(PARMCI_Wait(&h), "Wait");
  else if (VP_HOW == 1) VP_RC(PARMCI_WaitAll(), "WaitAll");
  else VP_RC(PARMCI_WaitProc(VP_T0), "WaitProc");
#endif
  PARMCI_Fence(VP_T0);
  if (VP_OP != 3) for (unsigned i = 0; i < sizeof(T); i++) VP_R(VP_T0, OFF1 + d + i) = x.b[i];
  vp_check_mem();
  VP_REACHED("value operation completed");
}
