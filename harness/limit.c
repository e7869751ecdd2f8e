/* Outstanding request-based operations on Open MPI 5 (C28).  VP_N operations, each on either window and of either of two
 * kinds (VP_K0, VP_K1), only counted; then three with data.  VP_HMODE 0 waited for at once, 1 collected in an aggregate handle, 2 left on two handles in turn,
 * 3 symbolic window only, 4 symbolic choice of using the handle */
#define VP_ARENA 24
#define VP_NPROC 2
#define VP_LIMIT
#define VP_XOR
#include "vp_armci.h"
#ifndef VP_HMODE
#define VP_HMODE 0
#endif
static int out[VP_MAXWIN + 1], nreq;
static unsigned issued[4][VP_MAXWIN + 1], wanted[4][3];
void vp_hook_request(int kind, int w)
{
  out[w]++; nreq++;
  int tot = 0; for (int i = 1; i <= VP_MAXWIN; i++) tot += out[i];
  VP_ASSERT(tot <= 128, "at most 128 request-based operations are outstanding since the windows were completed");
  issued[kind][w]++;
}
void vp_hook_flushed(int w) { out[w] = 0; }
static void *base[2][VP_NPROC];
static unsigned char buf[8], ref[8], gbuf[8], gref[8];
static int scale = 1;
static void op(int kind, int a, int o, armci_hdl_t *h)
{
  void *r = (char *) base[a][1] + o;
  if (kind == 0) VP_RC(PARMCI_NbPut(buf, r, 4, 1, h), "NbPut");
  else if (kind == 1) VP_RC(PARMCI_NbGet(r, gbuf, 4, 1, h), "NbGet");
  else VP_RC(PARMCI_NbAcc(ARMCI_ACC_INT, &scale, buf, r, 4, 1, h), "NbAcc");
  if (h) wanted[kind][a]++;
}
#define PICK(k, a, o, h) do { bool k_ = (k), a_ = (a); \
  if (k_) { if (a_) op(VP_K1, 1, o, h); else op(VP_K1, 0, o, h); } else { if (a_) op(VP_K0, 1, o, h); else op(VP_K0, 0, o, h); } } while (0)
static int total(int a) { int t = 0; for (int k = 0; k < 3; k++) t += (int) wanted[k][a]; return t; }
void harness(void)
{
  vp_start();
  for (int k = 0; k < 2; k++) for (int p = 0; p < VP_NPROC; p++) { vp_plan[k].off[p] = 12 * k; vp_plan[k].size[p] = 10; }
  vp_alloc_world(0, base[0]); vp_alloc_world(1, base[1]);
  vp_fill_mem();
  armci_hdl_t h[2];
  for (int i = 0; i < 2; i++) ARMCI_INIT_HANDLE(&h[i]);
  if (VP_HMODE == 1) ARMCI_SET_AGGREGATE_HANDLE(&h[0]);
  vp_light = true;
  for (int i = 0; i < VP_N; i++) {
    if (VP_HMODE == 3) { bool w_ = i < VP_N - 40 ? i / 3 % 2 : vp_nd_bool(); if (w_) op(i % 2 ? VP_K1 : VP_K0, 1, 0, &h[0]); else op(i % 2 ? VP_K1 : VP_K0, 0, 0, &h[0]); VP_RC(PARMCI_Wait(&h[0]), "Wait"); }
    else if (VP_HMODE == 4) { int k_ = i % 2 ? VP_K1 : VP_K0; bool q_ = i < VP_N - 24 || vp_nd_bool(); if (q_) { op(k_, i / 3 % 2, 0, &h[0]); VP_RC(PARMCI_Wait(&h[0]), "Wait"); } else op(k_, i / 3 % 2, 0, NULL); }
    else if (VP_HMODE == 0) { PICK(vp_nd_bool(), vp_nd_bool(), 0, &h[0]); VP_RC(PARMCI_Wait(&h[0]), "Wait"); }
    else if (VP_HMODE == 1) { op(i % 3 == 2 ? VP_K1 : VP_K0, i % 2, 0, &h[0]); if (i % 6 == 5) VP_RC(PARMCI_Wait(&h[0]), "Wait"); }
    else { if (i >= 2) VP_RC(PARMCI_Wait(&h[i % 2]), "Wait"); op(i % 3 == 1 ? VP_K1 : VP_K0, i / 5 % 2, 0, &h[i % 2]); }
  }
  for (int i = 0; i < 2; i++) VP_RC(PARMCI_Wait(&h[i]), "Wait");
  ARMCI_UNSET_AGGREGATE_HANDLE(&h[0]);
  vp_light = false;
  /* operations that carry data, around the point where the limit may be reached */
  armci_hdl_t d[3]; for (int i = 0; i < 3; i++) ARMCI_INIT_HANDLE(&d[i]);
  for (int i = 0; i < 8; i++) { buf[i] = ref[i] = vp_nd_u8(); gbuf[i] = gref[i] = vp_nd_u8(); }
  op(0, 0, 0, &d[0]); op(1, 1, 0, &d[1]); op(2, 1, 4, &d[2]);
  for (int i = 0; i < 4; i++) { VP_R(1, i) = ref[i]; gref[i] = VP_R(1, 12 + i); VP_R(1, 16 + i) ^= ref[i]; }
  for (int i = 2; i >= 0; i--) VP_RC(PARMCI_Wait(&d[i]), "Wait");
  int j = vp_range(0, 7); VP_ASSERT(gbuf[j] == gref[j], "a get's result is present after the wait");
  PARMCI_AllFence();
  vp_check_mem();
  int tot = 0, iss = 0;
  for (int a = 0; a < 2; a++) tot += total(a);
  for (int k = 0; k < 4; k++) for (int w = 1; w <= VP_MAXWIN; w++) iss += (int) issued[k][w];
  VP_ASSERT(tot == iss, "every operation is issued exactly once");
  VP_REACHED("operations");
}
