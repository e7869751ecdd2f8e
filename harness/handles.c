/* Nonblocking handles (C07, C23): a script of nonblocking operations on handles 0..2 (or -1: implicit) and completion calls.
 *   PUT(h,a,t,o,n) GET(h,a,t,o,n) ACC(h,a,t,o) PUTS(h,a,t,o,n) GETS ACCS2 PUTV GETV     issue
 *   W(h) wait   TN(h) test before MPI is done   T(h) test afterwards   IDLE(h) test with nothing outstanding
 *   WP(t) WaitProc   WA WaitAll   INIT(h)   SETAGG(h) UNSETAGG(h)
 * Once an operation is reported complete its source is overwritten with arbitrary bytes and a get's result is compared. */
#ifndef VP_NPROC
#define VP_NPROC 3
#endif
#define VP_ARENA 32
#ifndef VP_MAXOPS
#define VP_MAXOPS 6
#endif
#define VP_XOR
#include "vp_armci.h"
#define OFF0 4
#define OFF1 16
#define SZ 12
#define NSRC 6
static unsigned char priv[NSRC][8], ref[NSRC][8];
static struct { int kind, h, t, n; bool done; } ops[NSRC];
static int nops;
static void *base[2][VP_NPROC];
static const long off[2] = { OFF0, OFF1 };
static armci_hdl_t hd[3];
enum { KPUT, KGET, KACC, KPUTS, KGETS, KPUTV, KGETV, KACCS };
static void op(int kind, int h, int a, int t, int o, int n)
{
  int k = nops++;
  void *r = (char *) base[a][t] + o;
  unsigned char *s = priv[k];
  armci_hdl_t *hp = h < 0 ? NULL : &hd[h];
  int one = 1, half = n / 2, cnt[2] = { n / 2, 2 };
  void *lp[2] = { s, s + half }, *rp[2] = { r, (char *) r + half };
  armci_giov_t v; v.ptr_array_len = 2; v.bytes = half;
  for (int i = 0; i < 8; i++) s[i] = ref[k][i] = vp_nd_u8();
  switch (kind) {
    case KPUT: VP_RC(PARMCI_NbPut(s, r, n, t, hp), "NbPut"); break;
    case KGET: VP_RC(PARMCI_NbGet(r, s, n, t, hp), "NbGet"); break;
    case KACC: VP_RC(PARMCI_NbAcc(ARMCI_ACC_INT, &one, s, r, n, t, hp), "NbAcc"); break;
    case KPUTS: VP_RC(PARMCI_NbPutS(s, &half, r, &half, cnt, 1, t, hp), "NbPutS"); break;
    case KGETS: VP_RC(PARMCI_NbGetS(r, &half, s, &half, cnt, 1, t, hp), "NbGetS"); break;
    case KACCS: VP_RC(PARMCI_NbAccS(ARMCI_ACC_INT, &one, s, &half, r, &half, cnt, 1, t, hp), "NbAccS"); break;
    case KPUTV: v.src_ptr_array = lp; v.dst_ptr_array = rp; VP_RC(PARMCI_NbPutV(&v, 1, t, hp), "NbPutV"); break;
    case KGETV: v.src_ptr_array = rp; v.dst_ptr_array = lp; VP_RC(PARMCI_NbGetV(&v, 1, t, hp), "NbGetV"); break;
  }
  long d = off[a] + o;
  for (int i = 0; i < n; i++)
    if (kind == KGET || kind == KGETS || kind == KGETV) ref[k][i] = VP_R(t, d + i);
    else if (kind == KACC || kind == KACCS) VP_R(t, d + i) ^= ref[k][i];
    else VP_R(t, d + i) = ref[k][i];
  ops[k].kind = kind; ops[k].h = h; ops[k].t = t; ops[k].n = n; ops[k].done = false;
}
static void finished(int k)
{
  if (ops[k].done) return;
  ops[k].done = true;
  if (ops[k].kind == KGET || ops[k].kind == KGETS || ops[k].kind == KGETV) {
    int i = vp_range(0, 7);
    VP_ASSERT(priv[k][i] == ref[k][i], "a get's result is present once it is reported complete");
  } else for (int i = 0; i < ops[k].n; i++) priv[k][i] = ref[k][i] = vp_nd_u8();
}
static void done_h(int h) { for (int k = 0; k < nops; k++) if (ops[k].h == h) finished(k); }
static void done_t(int t) { for (int k = 0; k < nops; k++) if (ops[k].t == t) finished(k); }
static void test_ready(int h) { VP_ASSERT(PARMCI_Test(&hd[h]) == 0, "Test reports completion once MPI does"); done_h(h); }
static void test_notready(int h) { vp_notready = 1; VP_ASSERT(PARMCI_Test(&hd[h]) != 0, "Test does not report completion before MPI does"); vp_notready = 0; }
static void wait_(int h) { VP_RC(PARMCI_Wait(&hd[h]), "Wait"); done_h(h); }
#define PUT(h, a, t, o, n) op(KPUT, h, a, t, o, n);
#define GET(h, a, t, o, n) op(KGET, h, a, t, o, n);
#define ACC(h, a, t, o) op(KACC, h, a, t, o, 4);
#define PUTS(h, a, t, o, n) op(KPUTS, h, a, t, o, n);
#define GETS(h, a, t, o, n) op(KGETS, h, a, t, o, n);
#define ACCS2(h, a, t, o) op(KACCS, h, a, t, o, 8);
#define PUTV(h, a, t, o, n) op(KPUTV, h, a, t, o, n);
#define GETV(h, a, t, o, n) op(KGETV, h, a, t, o, n);
#define W(h) wait_(h);
#define T(h) test_ready(h);
#define TN(h) test_notready(h);
#define IDLE(h) VP_ASSERT(PARMCI_Test(&hd[h]) == 0, "a handle with nothing outstanding tests complete");
#define WP(t) VP_RC(PARMCI_WaitProc(t), "WaitProc"); done_t(t);
#define WA VP_RC(PARMCI_WaitAll(), "WaitAll"); for (int k = 0; k < nops; k++) finished(k);
#define SETAGG(h) ARMCI_SET_AGGREGATE_HANDLE(&hd[h]);
#define UNSETAGG(h) ARMCI_UNSET_AGGREGATE_HANDLE(&hd[h]);
#define INIT(h) ARMCI_INIT_HANDLE(&hd[h]);
void harness(void)
{
  void *p[VP_NPROC];
  vp_start();
  for (int q = 0; q < VP_NPROC; q++) {
    vp_plan[0].off[q] = OFF0; vp_plan[0].size[q] = SZ;
    vp_plan[1].off[q] = OFF1; vp_plan[1].size[q] = SZ;
  }
#ifdef VP_GRP
  ARMCI_Group g; int list[2] = { 2, 0 };
  ARMCI_Group_create(2, list, &g);
  vp_plan[0].size[1] = 0;
  vp_alloc_group(0, p, &g); base[0][2] = p[0]; base[0][0] = p[1];
#else
  vp_alloc_world(0, p); for (int q = 0; q < VP_NPROC; q++) base[0][q] = p[q];
#endif
  vp_alloc_world(1, p); for (int q = 0; q < VP_NPROC; q++) base[1][q] = p[q];
  vp_fill_mem();
  for (int i = 0; i < 3; i++) ARMCI_INIT_HANDLE(&hd[i]);
  long m0 = vp_live_malloc, a0 = vp_live_allocmem, t0 = vp_live_type;
  VP_SCRIPT
  VP_ASSERT(vp_live_req == 0, "no request is left when every operation has been waited for");
  VP_ASSERT(vp_live_malloc == m0 && vp_live_allocmem == a0 && vp_live_type == t0, "no buffer or datatype is left when every operation has been waited for");
  for (int k = 0; k < nops; k++) VP_ASSERT(ops[k].done, "harness: every operation completed");
  PARMCI_AllFence();
  vp_check_mem();
  VP_REACHED("script finished");
}
