/* Remote completion (C06): operations over a world allocation and one on the group {2,0}, then a fence.
 *   VP_SCRIPT  operations, from the macros below: kind(allocation, target, offset, length)
 *   VP_DONE    FENCE(t) ALLFENCE BARRIER      VP_FLAG 1 Put_flag 2 PutS_flag (to VP_FT, flag in allocation VP_FA) */
#ifndef VP_NPROC
#define VP_NPROC 3
#endif
#define VP_ARENA 24
#ifndef VP_MAXOPS
#define VP_MAXOPS 6
#endif
#ifdef VP_FLAG
#define VP_TG_HOOK
#endif
#define VP_XOR
#include "vp_armci.h"
#define OFF0 4
#define OFF1 14
#ifndef VP_FT
#define VP_FT 1
#endif
static unsigned char priv[4][8], ref[4][8];
static int nsrc;
static void *base[2][VP_NPROC];    /* by world rank */
static long off[2] = { OFF0, OFF1 };
static armci_hdl_t hdl;

#ifdef VP_FLAG
#ifndef VP_FN
#define VP_FN 4
#endif
#define FLAGOFF (OFF1 + 4)
static bool flag_issued; static int flag_seen;
void vp_tg_hook(vp_op_t *o, int after)
{
  if (after || !flag_issued || o->world != VP_FT || o->kind == VP_GET) return;
  bool f = false;
  for (int i = 0; i < o->n; i++) if (o->toff[i] == FLAGOFF) f = true;
  if (!f) return;
  flag_seen++;
  for (int i = 0; i < VP_FN; i++)
    VP_ASSERT(VP_M(VP_FT, VP_FA + i) == VP_R(VP_FT, VP_FA + i), "the flag becomes visible only after its data");
}
#endif

static void op(int kind, int a, int t, int o, int n)
{
  void *dst = (char *) base[a][t] + o;
  unsigned char *s = priv[nsrc], *r = ref[nsrc]; nsrc++;
  int one = 1, st = n / 2, cnt[2] = { n / 2, 2 };
  armci_giov_t v; void *sp[2] = { s, s + n / 2 }, *dp[2] = { dst, (char *) dst + n / 2 };
  for (int i = 0; i < 8; i++) s[i] = r[i] = vp_nd_u8();
  switch (kind) {
    case 0: VP_RC(PARMCI_Put(s, dst, n, t), "Put"); break;
    case 1: VP_RC(PARMCI_NbPut(s, dst, n, t, NULL), "NbPut"); break;
    case 2: ARMCI_INIT_HANDLE(&hdl); VP_RC(PARMCI_NbPut(s, dst, n, t, &hdl), "NbPut"); VP_RC(PARMCI_Wait(&hdl), "Wait"); break;
    case 3: VP_RC(PARMCI_Acc(ARMCI_ACC_INT, &one, s, dst, n, t), "Acc"); break;
    case 4: VP_RC(PARMCI_PutS(s, &st, dst, &st, cnt, 1, t), "PutS"); break;
    case 5: v.src_ptr_array = sp; v.dst_ptr_array = dp; v.ptr_array_len = 2; v.bytes = n / 2; VP_RC(PARMCI_PutV(&v, 1, t), "PutV"); break;
    case 6: VP_RC(PARMCI_NbAcc(ARMCI_ACC_INT, &one, s, dst, n, t, NULL), "NbAcc"); break;
    case 7: ARMCI_INIT_HANDLE(&hdl); VP_RC(PARMCI_NbPut(s, dst, n, t, &hdl), "NbPut"); break;   /* not waited for */
    case 8: VP_RC(PARMCI_NbPutS(s, &st, dst, &st, cnt, 1, t, NULL), "NbPutS"); break;
  }
  long d = off[a] + o;
  if (kind == 3 || kind == 6) {
    unsigned x = 0, y = 0;
    for (int q = 3; q >= 0; q--) { x = x << 8 | VP_R(t, d + q); y = y << 8 | r[q]; }
    x = VP_ADD(x, y);
    for (int q = 0; q < 4; q++) { VP_R(t, d + q) = (unsigned char) x; x >>= 8; }
  } else for (int i = 0; i < n; i++) VP_R(t, d + i) = r[i];
}
#define PUT(a, t, o, n) op(0, a, t, o, n);
#define NBPUT(a, t, o, n) op(1, a, t, o, n);
#define NBPUTW(a, t, o, n) op(2, a, t, o, n);
#define ACC(a, t, o) op(3, a, t, o, 4);
#define PUTS(a, t, o, n) op(4, a, t, o, n);
#define PUTV(a, t, o, n) op(5, a, t, o, n);
#define NBACC(a, t, o) op(6, a, t, o, 4);
#define NBPUTH(a, t, o, n) op(7, a, t, o, n);
#define NBPUTS(a, t, o, n) op(8, a, t, o, n);
static int done_t = -1;
#define FENCE(t) PARMCI_Fence(t), done_t = t
#define ALLFENCE PARMCI_AllFence()
#define BARRIER PARMCI_Barrier()

void harness(void)
{
  void *p[VP_NPROC];
  vp_start();
  for (int q = 0; q < VP_NPROC; q++) {
    vp_plan[0].off[q] = OFF0; vp_plan[0].size[q] = 8;
    vp_plan[1].off[q] = OFF1; vp_plan[1].size[q] = 8;
  }
#ifndef VP_NOGRP
  ARMCI_Group g; int list[2] = { 2, 0 };
  ARMCI_Group_create(2, list, &g);
  vp_plan[0].size[1] = 0;
#ifdef VP_LAST
  vp_alloc_world(1, p); for (int q = 0; q < VP_NPROC; q++) base[1][q] = p[q];
#endif
  vp_alloc_group(0, p, &g); base[0][2] = p[0]; base[0][0] = p[1];
#else
  vp_alloc_world(0, p); for (int q = 0; q < VP_NPROC; q++) base[0][q] = p[q];
#endif
#if defined(VP_NOGRP) || !defined(VP_LAST)
  vp_alloc_world(1, p); for (int q = 0; q < VP_NPROC; q++) base[1][q] = p[q];
#endif
  vp_fill_mem();
  VP_SCRIPT
#ifdef VP_FLAG
  {
    unsigned char src[8]; int v = vp_nd_int(), st = VP_FN / 2, cnt[2] = { VP_FN / 2, 2 };
    for (int i = 0; i < VP_FN; i++) { src[i] = vp_nd_u8(); VP_R(VP_FT, VP_FA + i) = src[i]; }
    char *dst = (char *) base[VP_FA >= OFF1][VP_FT] + (VP_FA >= OFF1 ? VP_FA - OFF1 : VP_FA - OFF0);
    int *flag = (int *) ((char *) base[1][VP_FT] + 4);
    for (int q = 0; q < 4; q++) VP_R(VP_FT, FLAGOFF + q) = (unsigned char) ((unsigned) v >> 8 * q);
    flag_issued = true;
    if (VP_FLAG == 1) VP_RC(PARMCI_Put_flag(src, dst, VP_FN, flag, v, VP_FT), "Put_flag");
    else VP_RC(PARMCI_PutS_flag(src, &st, dst, &st, cnt, 1, flag, v, VP_FT), "PutS_flag");
    for (int i = 0; i < VP_FN; i++) src[i] = vp_nd_u8();
    PARMCI_Fence(VP_FT);
    flag_issued = false;
    if (VP_FT != VP_ME) VP_ASSERT(flag_seen == 1, "the flag is set once");
  }
#endif
#ifdef VP_DONE
  VP_DONE;
#endif
  int i = vp_range(done_t >= 0 ? done_t * VP_ARENA : 0, done_t >= 0 ? done_t * VP_ARENA + VP_ARENA - 1 : VP_MEMSZ - 1);
  VP_ASSERT(vp_mem[i] == vp_ref[i], "every operation issued before the fence is visible at its target");
  VP_REACHED("fenced");
}
