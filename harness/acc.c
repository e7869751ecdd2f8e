/* Accumulate arithmetic (C04).
 *   VP_API  ACC NBACC ACCS NBACCS ACCV NBACCV     VP_TY element type      VP_SC0 / VP_SC1 scale (absent: symbolic)
 *   VP_SRC  0: the source lies in this process's own slice (shared), 1: separate object    VP_T0 target
 * The model hands every accumulate that reaches a target to vp_acc_hook, which demands: operator MPI_SUM,
 * the one element type of VP_TY, and as contribution to each element exactly scale * source, once. */
#define VP_NPROC 2
#define VP_ARENA 80
#define VP_MAXB 40
#define VP_ACC_HOOK
#include "vp_armci.h"
enum { ACC = 1, NBACC, ACCS, NBACCS, ACCV, NBACCV };
#ifndef VP_SRC
#define VP_SRC 1
#endif
#ifndef VP_T0
#define VP_T0 1
#endif
#if VP_TY == 0
typedef int elt_t; typedef unsigned wide_t;
#define BASE MPI_INT
#define NC 1
#define NDS() vp_nd_int()
#elif VP_TY == 1
typedef long elt_t; typedef unsigned long wide_t;
#define BASE MPI_LONG
#define NC 1
#define NDS() vp_nd_long()
#elif VP_TY == 2 || VP_TY == 4
typedef float elt_t; typedef float wide_t;
#define BASE MPI_FLOAT
#define NC (VP_TY == 4 ? 2 : 1)
#define NDS() vp_nd_float()
#else
typedef double elt_t; typedef double wide_t;
#define BASE MPI_DOUBLE
#define NC (VP_TY == 5 ? 2 : 1)
#define NDS() vp_nd_double()
#endif
static const int armci_ty[6] = { ARMCI_ACC_INT, ARMCI_ACC_LNG, ARMCI_ACC_FLT, ARMCI_ACC_DBL, ARMCI_ACC_CPL, ARMCI_ACC_DCP };
#define ES ((int) sizeof(elt_t))
#define NE 2                       /* elements transferred (2*NC numbers) */
#define LEN (NE * NC * ES)
#define OFF1 8
#define SZ1 72
static elt_t scale[2];
static elt_t src[NE * NC], expct[NE * NC];
static int times[NE * NC];
static bool same(elt_t a, elt_t b) { return a == b || (a != a && b != b); }
static long toff[NE * NC];         /* target offset of each number */
void vp_acc_hook(vp_op_t *o)
{
  VP_ASSERT(o->op == MPI_SUM || o->op == MPI_NO_OP, "accumulates add");
  VP_ASSERT(o->elt == BASE, "accumulates use the MPI type of the element type");
  VP_ASSERT(o->world == VP_T0, "at the target process");
  VP_ASSERT(o->n % ES == 0, "whole elements");
  for (int i = 0; i < o->n; i += ES) {
    elt_t v; for (int q = 0; q < ES; q++) ((unsigned char *) &v)[q] = o->dat[i + q];
    bool hit = false;
    for (int k = 0; k < NE * NC; k++) if (o->toff[i] == toff[k]) {
      hit = true; times[k]++;
      VP_ASSERT(same(v, expct[k]), "each element receives scale times its source element");
    }
    VP_ASSERT(hit, "only the named elements are updated");
  }
}
#if VP_SRC
static unsigned char priv[LEN + 40];
#define SRC priv
#else
#define SRC (vp_arena + OFF1)
#endif
void harness(void)
{
  void *p1[VP_NPROC];
  vp_start();
  for (int p = 0; p < VP_NPROC; p++) { vp_plan[0].off[p] = OFF1; vp_plan[0].size[p] = SZ1; }
  vp_alloc_world(0, p1);
#if defined(VP_NEAR)   /* close to the identity, and exactly it */
  scale[0] = (elt_t) 1 + (elt_t) vp_range(-2, 1) * (sizeof(elt_t) == 4 ? (elt_t) 5.9604644775390625e-08 : (elt_t) 1.1102230246251565e-16);
#elif defined(VP_SC0)
  scale[0] = (elt_t) (VP_SC0);
#else
  scale[0] = NDS();
#endif
#if NC == 2
#if defined(VP_NEAR)
  scale[1] = (elt_t) vp_range(-2, 1) * (sizeof(elt_t) == 4 ? (elt_t) 1.1641532182693481e-10 : (elt_t) 8.6736173798840355e-19);
#elif defined(VP_SC1)
  scale[1] = (elt_t) (VP_SC1);
#else
  scale[1] = NDS();
#endif
#endif
  for (int k = 0; k < NE * NC; k++) {
#ifdef VP_SRCV
    static const double val[4] = { VP_SRCV }; src[k] = (elt_t) val[k];
#elif defined(VP_SMALL)
    src[k] = (elt_t) vp_range(-VP_SMALL, VP_SMALL - 1);
#else
    src[k] = NDS();
#endif
  }
  for (int k = 0; k < NE * NC; k++) {
#if NC == 1
    expct[k] = (elt_t) ((wide_t) src[k] * (wide_t) scale[0]);
#else
    if (scale[0] == 1 && scale[1] == 0) expct[k] = src[k];
    else if (k % 2 == 0) expct[k] = src[k] * scale[0] - src[k + 1] * scale[1];
    else expct[k] = src[k] * scale[0] + src[k - 1] * scale[1];
#endif
  }
  bool sp = VP_API == ACCS || VP_API == NBACCS, vec = VP_API == ACCV || VP_API == NBACCV;
  int gap = sp || vec ? NC * ES : 0;        /* one element between the two, at the source and twice that at the target */
  unsigned char *s = SRC; char *d = (char *) p1[VP_T0] + 0;
  for (int k = 0; k < NE * NC; k++) {
    int so = k * ES + (k / NC) * gap, to = k * ES + (k / NC) * 2 * gap;
    for (int q = 0; q < ES; q++) s[so + q] = ((unsigned char *) &src[k])[q];
    toff[k] = OFF1 + to;
  }
  armci_hdl_t h; ARMCI_INIT_HANDLE(&h);
  int st = NC * ES + gap, dt = NC * ES + 2 * gap, cnt[2] = { NC * ES, NE };
  void *sv[2] = { s, s + st }, *dv[2] = { d, d + dt };
  armci_giov_t v; v.src_ptr_array = sv; v.dst_ptr_array = dv; v.ptr_array_len = 2; v.bytes = NC * ES;
  int ty = armci_ty[VP_TY];
  switch (VP_API) {
    case ACC: VP_RC(PARMCI_Acc(ty, scale, s, d, LEN, VP_T0), "Acc"); break;
    case NBACC: VP_RC(PARMCI_NbAcc(ty, scale, s, d, LEN, VP_T0, &h), "NbAcc"); break;
    case ACCS: VP_RC(PARMCI_AccS(ty, scale, s, &st, d, &dt, cnt, 1, VP_T0), "AccS"); break;
    case NBACCS: VP_RC(PARMCI_NbAccS(ty, scale, s, &st, d, &dt, cnt, 1, VP_T0, &h), "NbAccS"); break;
    case ACCV: VP_RC(PARMCI_AccV(ty, scale, &v, 1, VP_T0), "AccV"); break;
    case NBACCV: VP_RC(PARMCI_NbAccV(ty, scale, &v, 1, VP_T0, &h), "NbAccV"); break;
  }
  /* the source is never modified */
  for (int k = 0; k < NE * NC; k++) {
    elt_t x; int so = k * ES + (k / NC) * gap;
    for (int q = 0; q < ES; q++) ((unsigned char *) &x)[q] = s[so + q];
    VP_ASSERT(same(x, src[k]), "the source buffer is not modified");
  }
  if (VP_API == NBACC || VP_API == NBACCS || VP_API == NBACCV) VP_RC(PARMCI_Wait(&h), "Wait");
  PARMCI_Fence(VP_T0);
  for (int k = 0; k < NE * NC; k++) VP_ASSERT(times[k] == 1, "each element is updated once");
  VP_REACHED("accumulated");
}
