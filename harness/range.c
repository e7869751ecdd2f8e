/* Range checks (C12).  Two live allocations; on the target process their slices lie side by side, with sizes up to VP_SZMAX.
 * An arbitrary contiguous / strided / vector / read-modify-write access:
 *   every byte MPI is told to touch lies inside the window (always), a legal access is accepted and covers exactly the
 *   named ranges, any other one aborts.
 *   VP_OP  PUT GET ACC NBPUT NBGET NBACC PUTS GETS ACCS NBPUTS NBGETS NBACCS PUTV GETV ACCV NBPUTV NBGETV NBACCV RMWI RMWL SWAPI SWAPL
 *   VP_N   segments (strided/vector)   VP_TGT target */
#define VP_NPROC 3
#define VP_ARENA 16
#define VP_RECORD
#define VP_OWN_ONABORT
#define VP_NO_SNPRINTF
#define VP_MAXOPS 8
#include "vp_armci.h"
#ifndef VP_TGT
#define VP_TGT 1
#endif
#ifndef VP_N
#define VP_N 2
#endif
#ifndef VP_SZMAX
#define VP_SZMAX (1L << 40)
#endif
#ifndef VP_STMAX
#define VP_STMAX 0x7fffffff
#endif
enum { XPUT, XGET, XACC, XNBPUT, XNBGET, XNBACC, XPUTS, XGETS, XACCS, XNBPUTS, XNBGETS, XNBACCS, XPUTV, XGETV, XACCV, XNBPUTV, XNBGETV, XNBACCV, XRMWI, XRMWL, XSWAPI, XSWAPL };
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define OP CAT(X, VP_OP)
#define ISACC (OP == XACC || OP == XNBACC || OP == XACCS || OP == XNBACCS || OP == XACCV || OP == XNBACCV)
#define ISRMW (OP >= XRMWI)
#define NSEG (OP <= XNBACC || ISRMW ? 1 : VP_N)
static long seg_at[8], seg_len; static bool hit[8]; static bool legal; static long bytes_seen; static bool strange;
void vp_hook_rma(int kind, int world, long at, long len)
{
  (void) kind; strange = strange | (world != VP_TGT);
  bytes_seen += len;
  bool found = false;
  for (int i = 0; i < NSEG; i++) { bool m = (seg_at[i] == at) & (seg_len == len); hit[i] = hit[i] | m; found = found | m; }
  strange = strange | !found;
}
void vp_on_abort(void) { VP_ASSERT(!legal, "an access inside an allocation is accepted"); VP_REACHED("rejected"); }

static int lbuf[64];
void harness(void)
{
  vp_start();
  void *bp[3];
  long s0 = vp_lrange(1, VP_SZMAX), s1 = vp_lrange(1, VP_SZMAX);
#ifdef VP_SZ
  s0 = VP_SZ; s1 = VP_SZ;
#endif
  for (int w = 0; w < 3; w++) { vp_plan[0].off[w] = 0; vp_plan[0].size[w] = w == VP_TGT ? s0 : 4; vp_plan[1].off[w] = w == VP_TGT ? s0 : 8; vp_plan[1].size[w] = w == VP_TGT ? s1 : 4; }
  vp_alloc_world(0, bp); vp_alloc_world(1, bp);
  vp_abort_expected = 1;
  long a = vp_lrange(-(1L << 33), 2 * VP_SZMAX + 64);
  unsigned char *base = vp_arena;
  legal = false;
  int n0, st = 0, rc = 0; armci_hdl_t h; ARMCI_INIT_HANDLE(&h);
#if OP == 0
#endif
  if (OP == XRMWI || OP == XSWAPI) n0 = 4; else if (OP == XRMWL || OP == XSWAPL) n0 = 8;
  else { n0 = vp_range(1, 0x7fffffff); if (ISACC) VP_ASSUME(((n0 & 3) == 0) & ((a & 3) == 0)); }
  seg_len = n0;
  int stride[1], lstride[1], count[2]; void *rp[8], *lp[8];
  if (OP >= XPUTS && OP <= XNBACCS) { st = vp_range(1, VP_STMAX); VP_ASSUME(st >= n0); if (ISACC) VP_ASSUME((st & 3) == 0); }
  for (int i = 0; i < NSEG; i++) {
    seg_at[i] = a + (long) i * st;
    if (OP >= XPUTV && OP <= XNBACCV && i > 0) { seg_at[i] = vp_lrange(-(1L << 33), 2 * VP_SZMAX + 64); if (ISACC) VP_ASSUME((seg_at[i] & 3) == 0); }
    rp[i] = base + seg_at[i]; lp[i] = lbuf + i;
  }
  bool all = true, direct_ok = true; (void) direct_ok;
  for (int i = 0; i < NSEG; i++) {
    bool in0 = (seg_at[i] >= 0) & (seg_at[i] + n0 <= s0), in1 = (seg_at[i] >= s0) & (seg_at[i] + n0 <= s0 + s1);
#ifdef VP_SAMEALLOC      /* one operation names one allocation */
    bool f0 = (seg_at[0] < s0);
    all = all & ((in0 & f0) | (in1 & !f0));
#else
    all = all & (in0 | in1);
#endif
  }
#ifdef VP_SPAN           /* datatype displacements are 32-bit element counts: documented limit of the direct vector method */
  for (int i = 1; i < NSEG; i++) VP_ASSUME((seg_at[i] - seg_at[0] <= 0x7fffffffL) & (seg_at[0] - seg_at[i] <= 0x7fffffffL));
#endif
  legal = all;
  int scale = 1; stride[0] = st; lstride[0] = 0x7fffffff; lstride[0] = n0; count[0] = n0; count[1] = VP_N;
  armci_giov_t iov; iov.bytes = n0; iov.ptr_array_len = VP_N;
  long ri = 0;
  if (OP == XGETV || OP == XNBGETV) { iov.src_ptr_array = rp; iov.dst_ptr_array = lp; } else { iov.src_ptr_array = lp; iov.dst_ptr_array = rp; }
  switch (OP) {
  case XPUT: rc = PARMCI_Put(lbuf, base + a, n0, VP_TGT); break;
  case XGET: rc = PARMCI_Get(base + a, lbuf, n0, VP_TGT); break;
  case XACC: rc = PARMCI_Acc(ARMCI_ACC_INT, &scale, lbuf, base + a, n0, VP_TGT); break;
  case XNBPUT: rc = PARMCI_NbPut(lbuf, base + a, n0, VP_TGT, &h); break;
  case XNBGET: rc = PARMCI_NbGet(base + a, lbuf, n0, VP_TGT, &h); break;
  case XNBACC: rc = PARMCI_NbAcc(ARMCI_ACC_INT, &scale, lbuf, base + a, n0, VP_TGT, &h); break;
  case XPUTS: rc = PARMCI_PutS(lbuf, lstride, base + a, stride, count, 1, VP_TGT); break;
  case XGETS: rc = PARMCI_GetS(base + a, stride, lbuf, lstride, count, 1, VP_TGT); break;
  case XACCS: rc = PARMCI_AccS(ARMCI_ACC_INT, &scale, lbuf, lstride, base + a, stride, count, 1, VP_TGT); break;
  case XNBPUTS: rc = PARMCI_NbPutS(lbuf, lstride, base + a, stride, count, 1, VP_TGT, &h); break;
  case XNBGETS: rc = PARMCI_NbGetS(base + a, stride, lbuf, lstride, count, 1, VP_TGT, &h); break;
  case XNBACCS: rc = PARMCI_NbAccS(ARMCI_ACC_INT, &scale, lbuf, lstride, base + a, stride, count, 1, VP_TGT, &h); break;
  case XPUTV: rc = PARMCI_PutV(&iov, 1, VP_TGT); break;
  case XGETV: rc = PARMCI_GetV(&iov, 1, VP_TGT); break;
  case XACCV: rc = PARMCI_AccV(ARMCI_ACC_INT, &scale, &iov, 1, VP_TGT); break;
  case XNBPUTV: rc = PARMCI_NbPutV(&iov, 1, VP_TGT, &h); break;
  case XNBGETV: rc = PARMCI_NbGetV(&iov, 1, VP_TGT, &h); break;
  case XNBACCV: rc = PARMCI_NbAccV(ARMCI_ACC_INT, &scale, &iov, 1, VP_TGT, &h); break;
  case XRMWI: rc = PARMCI_Rmw(ARMCI_FETCH_AND_ADD, &ri, base + a, 1, VP_TGT); break;
  case XRMWL: rc = PARMCI_Rmw(ARMCI_FETCH_AND_ADD_LONG, &ri, base + a, 1, VP_TGT); break;
  case XSWAPI: rc = PARMCI_Rmw(ARMCI_SWAP, &ri, base + a, 1, VP_TGT); break;
  case XSWAPL: rc = PARMCI_Rmw(ARMCI_SWAP_LONG, &ri, base + a, 1, VP_TGT); break;
  }
  VP_ASSERT(rc == 0, "accepted accesses report success");
  VP_ASSERT(legal, "an access outside the allocation is rejected");
  bool every = true; for (int i = 0; i < NSEG; i++) every = every & hit[i];
  VP_ASSERT(every & !strange & (bytes_seen == (long) NSEG * n0), "exactly the named ranges of the target are accessed");
  VP_REACHED("accepted");
}
