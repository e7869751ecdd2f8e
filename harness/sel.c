/* Select reduction (C18).  The real call is first made for each of the other participants, capturing what it contributes, then for the
 * caller; MPI combines the contributions in any order with the operator the library registered, calling it on any split of the elements.
 * VP_NAME "min"/"max", VP_TY element type, VP_N record bytes, VP_SHR record in the caller's slice, VP_SCOPE, VP_BAD. */
#define VP_NPROC 3
#define VP_ARENA 40
#define VP_COLL_HOOK
#define VP_NO_SNPRINTF
#define VP_OWN_ONABORT
#include "vp_armci.h"
#include <message.h>
#ifdef VP_BAD
void vp_on_abort(void) { VP_REACHED("rejected"); }
#else
void vp_on_abort(void) { }
#endif
#ifndef VP_SCOPE
#define VP_SCOPE 0
#endif
#define MAXREC 64
static union { unsigned char b[MAXREC]; long l; double d; } cap[VP_NPROC], in, io;
static int who, nbytes, called;      /* whose call is being made; bytes contributed */
static int tysize(MPI_Datatype t) { int s; MPI_Type_size(t, &s); return s; }
int vp_hook_allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  called++;
  VP_USE(op >= VP_OP_USER0 && op - VP_OP_USER0 < vp_nuserop, "registered operator"); VP_USE(s != r, "no aliasing of reduction buffers");
  int es = tysize(t), len = n * es; VP_ASSERT(len <= MAXREC, "model limit: record size");
  const unsigned char *mine = s == MPI_IN_PLACE ? r : s;
  for (int i = 0; i < len; i++) cap[who].b[i] = mine[i];
  if (who != VP_ME) { nbytes = len; return 0; }
  bool self = vp_comm[c].n == 1;
  if (!self) VP_USE(len == nbytes, "all participants pass the same count");
  /* any order of two combinations */
  int a = VP_ME, b = 1, d = 2;
#ifdef VP_ORDER
  if (VP_ORDER == 1) { a = 1; b = VP_ME; } else if (VP_ORDER == 2) { a = 2; b = 1; d = VP_ME; }
#endif
  for (int i = 0; i < len; i++) io.b[i] = cap[self ? VP_ME : a].b[i];
  if (!self) for (int k = 0; k < 2; k++) {
    int w = k ? d : b;
    for (int i = 0; i < len; i++) in.b[i] = cap[w].b[i];
    MPI_Datatype tt = t;
    int cut = n > 1 ? VP_CUT : 0, l1 = n - cut;      /* the operator may see the elements in pieces */
    if (cut > 0) vp_userop[op - VP_OP_USER0](in.b, io.b, &cut, &tt);
    vp_userop[op - VP_OP_USER0](in.b + cut * es, io.b + cut * es, &l1, &tt);
  }
  for (int i = 0; i < len; i++) ((unsigned char *) r)[i] = io.b[i];
  return 0;
}
int vp_hook_bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { (void) b; (void) n; (void) t; (void) root; (void) c; VP_ASSERT(0, "no broadcast"); return 0; }
typedef union { unsigned char b[32]; int i; long l; long long ll; float f; double d; } rec;
static rec want[VP_NPROC], buf[VP_NPROC]; static bool contributes[VP_NPROC];
static bool better(const rec *x, const rec *y)        /* x strictly better than y */
{
  bool mn = VP_NAME[1] == 'i';
  switch (VP_TY) {
  case ARMCI_INT: return mn ? x->i < y->i : x->i > y->i;
  case ARMCI_LONG: case ARMCI_LONG_LONG: return mn ? x->l < y->l : x->l > y->l;
  case ARMCI_FLOAT: return mn ? x->f < y->f : x->f > y->f;
  default: return mn ? x->d < y->d : x->d > y->d;
  }
}
void harness(void)
{
  vp_start(); void *bp[3];
  for (int w = 0; w < VP_NPROC; w++) { vp_plan[0].off[w] = 0; vp_plan[0].size[w] = VP_ARENA; }
  vp_alloc_world(0, bp);
  vp_fill_mem();
#ifdef VP_BAD
  vp_abort_expected = 1;
  char name[4]; for (int i = 0; i < 3; i++) name[i] = (char) vp_nd_u8(); name[3] = 0;
  VP_ASSUME(!(name[0] == 'm' && ((name[1] == 'i' && name[2] == 'n') || (name[1] == 'a' && name[2] == 'x'))));
  who = VP_ME; armci_msg_sel_scope(VP_SCOPE, buf[0].b, 16, name, ARMCI_INT, 1); VP_ASSERT(0, "an unknown operator is an error");
#else
  int nc = 0;
  for (int w = 0; w < VP_NPROC; w++) {
    for (int i = 0; i < VP_N; i++) { unsigned char v = vp_nd_u8(); buf[w].b[i] = v; want[w].b[i] = v; }
    for (int i = VP_N; i < 32; i++) { buf[w].b[i] = 0x5a; want[w].b[i] = 0x5a; }
    if (VP_TY == ARMCI_FLOAT) VP_ASSUME(buf[w].f == buf[w].f); if (VP_TY == ARMCI_DOUBLE) VP_ASSUME(buf[w].d == buf[w].d);
    contributes[w] = (VP_MASK >> w) & 1; nc += contributes[w];
  }
  for (int w = 1; w < VP_NPROC; w++) { who = w; armci_msg_sel_scope(VP_SCOPE, buf[w].b, VP_N, VP_NAME, VP_TY, contributes[w]); }
  unsigned char *x = buf[0].b;
#ifdef VP_SHR
  x = vp_arena + 8; for (int i = 0; i < VP_N; i++) x[i] = want[0].b[i];
#endif
  int am = vp_live_allocmem; long ml = vp_live_malloc; int lt = vp_live_type;
  for (int w = 0; w < VP_NPROC; w++) for (int i = 0; i < VP_ARENA; i++) VP_R(w, i) = VP_M(w, i);
  who = VP_ME; armci_msg_sel_scope(VP_SCOPE, x, VP_N, VP_NAME, VP_TY, contributes[0]);
  VP_ASSERT(vp_live_allocmem == am && vp_live_malloc == ml && vp_live_type == lt, "nothing obtained for the reduction is left behind");
  bool win = false;
  for (int w = 0; w < VP_NPROC; w++) {
    bool part = contributes[w] & (VP_SCOPE != SCOPE_NODE || w == VP_ME);
    if (!part) continue;
    bool same = true; for (int i = 0; i < VP_N; i++) same = same & (x[i] == want[w].b[i]);
    bool best = true; for (int v = 0; v < VP_NPROC; v++) { bool pv = contributes[v] & (VP_SCOPE != SCOPE_NODE || v == VP_ME); if (pv) best = best & !better(&want[v], &want[w]); }
    win = win | (same & best);
  }
  VP_ASSERT(win, "the result is one participant's whole record, and no participant's value is better");
#ifdef VP_SHR
  for (int i = 0; i < VP_N; i++) VP_R(VP_ME, 8 + i) = VP_M(VP_ME, 8 + i);
#else
  for (int i = VP_N; i < 32; i++) VP_ASSERT(x[i] == 0x5a, "nothing beyond the record is written");
#endif
  vp_check_mem();
  VP_REACHED("selected");
#endif
}
