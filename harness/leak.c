/* A whole life of the library (C23): groups, allocations, mutexes and every kind of operation; after each call nothing it
 * obtained from MPI or the heap remains, after the matching free nothing of the object, after finalize nothing at all.
 *   VP_PART 0 single-element and contiguous operations  1 strided and vector operations  2 groups and mutexes
 *   VP_SHARED 1: local buffers lie in the caller's own slice */
#define VP_NPROC 3
#define VP_ARENA 40
#define VP_MAXOPS 10
#define VP_RECORD
#include "vp_armci.h"
#ifndef VP_SHARED
#define VP_SHARED 0
#endif
void vp_hook_rma(int kind, int world, long at, long len) { (void) kind; (void) world; (void) at; (void) len; }
static long live(void) { return vp_live_type * 1L + vp_live_group + vp_live_comm + vp_live_info + vp_live_win + vp_live_allocmem + vp_live_malloc + vp_live_op; }
static void *p0[VP_NPROC], *p1[VP_NPROC];
static unsigned char priv[16];
static int vint = 1; static long vlong = 1; static double vd = 2;
#define CLEAN(call, what) do { long l0_ = live(); vp_nops = 0; call; \
  VP_ASSERT(live() == l0_, what " leaves no datatype, group, communicator, info, window, operator or buffer behind"); \
  VP_ASSERT(vp_live_req == 0, what " leaves no request behind"); } while (0)
#define NB(call, what) CLEAN(({ call; (void) PARMCI_Wait(&h); }), what)
void harness(void)
{
  vp_start();
  for (int p = 0; p < VP_NPROC; p++) { vp_plan[0].off[p] = 0; vp_plan[0].size[p] = p == 1 ? 0 : 8; vp_plan[1].off[p] = 8; vp_plan[1].size[p] = 32; }
  long begin = live();
  vp_alloc_world(0, p0);
  ARMCI_Group g, ch; int list[2] = { 2, 0 }, one[1] = { 1 };
  long g0 = live(), gs;
  CLEAN(({ ARMCI_Group_create(2, list, &g); gs = live(); vp_live_malloc += 0; ARMCI_Group_free(&g); }), "creating and freeing a group");
  VP_ASSERT(gs >= g0, "a group holds something");
  ARMCI_Group_create(2, list, &g);
  vp_alloc_group(1, p1, &g);
  int n = vp_range(0, 8); (void) n;
  unsigned char *r = (unsigned char *) p1[0], *l = VP_SHARED ? (unsigned char *) vp_arena + 24 : priv;   /* target: process 2 */
  armci_hdl_t h; ARMCI_INIT_HANDLE(&h);
  int st[1] = { 4 }, cnt[2] = { 2, 2 }, z[2] = { 0, 2 };
  void *sa[2] = { l, l + 4 }, *da[2] = { r, r + 4 };
  armci_giov_t put = { sa, da, 2, 2 }, get = { da, sa, 2, 2 }, none = { sa, da, 2, 0 };
  armci_giov_t accv = { sa, da, 4, 2 };
#if VP_PART == 0
  CLEAN(PARMCI_Put(l, r, n, 2), "Put"); CLEAN(PARMCI_Get(r, l, n, 2), "Get");
  CLEAN(PARMCI_Acc(ARMCI_ACC_INT, &vint, l, r, 8, 2), "Acc"); vint = 3;
  NB(PARMCI_NbPut(l, r, n, 2, &h), "NbPut"); NB(PARMCI_NbGet(r, l, n, 2, &h), "NbGet"); NB(PARMCI_NbAcc(ARMCI_ACC_INT, &vint, l, r, 8, 2, &h), "NbAcc");
  CLEAN(PARMCI_Put(l, r, 0, 2), "an empty Put"); CLEAN(PARMCI_Put(l, vp_arena + 8, 3, 0), "a Put to itself");
  CLEAN(PARMCI_Put_flag(l, r, 3, (int *) (r + 4), 1, 2), "Put_flag"); CLEAN(PARMCI_PutS_flag(l, st, r, st, cnt, 1, (int *) (r + 8), 1, 2), "PutS_flag");
  CLEAN(PARMCI_PutValueInt(1, r, 2), "PutValueInt"); CLEAN((void) PARMCI_GetValueDouble(r, 2), "GetValueDouble"); CLEAN(PARMCI_NbPutValueLong(1, r, 2, &h), "NbPutValueLong");
  CLEAN(PARMCI_Rmw(ARMCI_FETCH_AND_ADD, l, r, 1, 2), "fetch-and-add"); CLEAN(PARMCI_Rmw(ARMCI_SWAP_LONG, l, r, 1, 2), "swap");
  ARMCI_SET_AGGREGATE_HANDLE(&h);
  CLEAN(({ PARMCI_NbPut(l, r, 2, 2, &h); PARMCI_NbGet(r, l + 4, 2, 2, &h); PARMCI_NbPut(l, r + 4, 2, 2, &h); PARMCI_Wait(&h); }), "an aggregate handle, waited for");
  CLEAN(({ PARMCI_NbPut(l, r, 2, 2, &h); PARMCI_NbPut(l, r + 4, 2, 2, &h); PARMCI_Test(&h); }), "an aggregate handle, tested");
#elif VP_PART == 1
  CLEAN(PARMCI_PutS(l, st, r, st, cnt, 1, 2), "PutS"); CLEAN(PARMCI_GetS(r, st, l, st, cnt, 1, 2), "GetS");
  cnt[0] = 4; st[0] = 8; CLEAN(PARMCI_AccS(ARMCI_ACC_INT, &vint, l, st, r, st, cnt, 1, 2), "AccS"); vint = 3; CLEAN(PARMCI_AccS(ARMCI_ACC_INT, &vint, l, st, r, st, cnt, 1, 2), "scaled AccS"); cnt[0] = 2; st[0] = 4;
  NB(PARMCI_NbPutS(l, st, r, st, cnt, 1, 2, &h), "NbPutS"); NB(PARMCI_NbGetS(r, st, l, st, cnt, 1, 2, &h), "NbGetS");
  CLEAN(PARMCI_PutS(l, st, r, st, z, 1, 2), "an empty PutS"); CLEAN(PARMCI_PutS(l, st, r, st, cnt, 0, 2), "a contiguous PutS");
  CLEAN(PARMCI_PutV(&put, 1, 2), "PutV"); CLEAN(PARMCI_GetV(&get, 1, 2), "GetV"); CLEAN(PARMCI_PutV(&none, 1, 2), "an empty PutV");
#elif VP_PART == 3
  CLEAN(PARMCI_AccV(ARMCI_ACC_INT, &vint, &accv, 1, 2), "AccV"); vint = 3; CLEAN(PARMCI_AccV(ARMCI_ACC_INT, &vint, &accv, 1, 2), "scaled AccV");
  NB(PARMCI_NbPutV(&put, 1, 2, &h), "NbPutV"); NB(PARMCI_NbGetV(&get, 1, 2, &h), "NbGetV"); NB(PARMCI_NbAccV(ARMCI_ACC_INT, &vint, &accv, 1, 2, &h), "NbAccV");
  void *ov[2] = { r, r + 1 }; armci_giov_t lap = { sa, ov, 2, 2 };
  CLEAN(PARMCI_PutV(&lap, 1, 2), "a PutV to overlapping places");
  cnt[0] = 4; st[0] = 8; NB(PARMCI_NbAccS(ARMCI_ACC_INT, &vint, l, st, r, st, cnt, 1, 2, &h), "NbAccS");
#else
  CLEAN(({ int m1[1] = { 0 }; ARMCI_Group_create_child(1, one, &ch, &g); ARMCI_Group_free(&ch); (void) m1; }), "a child group");
  CLEAN(({ void *q = PARMCI_Malloc_local(8); PARMCI_Free_local(q); }), "local memory");
  CLEAN(({ ARMCI_Group w; ARMCI_Group_get_world(&w); ARMCI_Group_set_default(&g); ARMCI_Group_set_default(&w); }), "the default group");
  CLEAN(({ PARMCI_Barrier(); PARMCI_AllFence(); armci_msg_barrier(); }), "barriers and fences");
#endif
  vp_nops = 0; (void) vlong; (void) vd; (void) none; (void) accv; (void) put; (void) get; (void) ch; (void) one;
  VP_RC(ARMCI_Free_group(vp_arena + 8, &g), "Free_group"); ARMCI_Group_free(&g);
  VP_RC(PARMCI_Free(vp_arena), "Free");
  VP_ASSERT(live() == begin, "freed allocations and groups leave nothing behind");
  VP_RC(PARMCI_Finalize(), "Finalize");
  VP_ASSERT(live() == 0 && vp_live_req == 0, "nothing remains after finalize");
  VP_REACHED("whole life");
}
