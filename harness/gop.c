/* Global reductions (C17).  Every element type in turn; VP_NAME is the operator's name.
 * VP_SCOPE 0 SCOPE_ALL 1 SCOPE_NODE 2 SCOPE_MASTERS; VP_VIA 0 scoped call, 1 world call by type, 2 group call by type, 3 scoped group call.
 * VP_SHR the vector lies in the caller's own slice; VP_BAD unknown operator or type.
 * MPI's own operators are stood for by fixed functions of the two operands (exact for integers' and/or/min/max; sum and product
 * of floating-point values by bit mixing) used both in the model and in the reference. */
#define VP_NPROC 3
#define VP_ARENA 24
#define VP_COLL_HOOK
#define VP_NO_SNPRINTF
#define VP_OWN_ONABORT
#include "vp_armci.h"
#include <message.h>
#ifdef VP_BAD
void vp_on_abort(void) { VP_REACHED("rejected"); }
#else
void vp_on_abort(void) { }
#endif
#ifndef VP_SCOPE
#define VP_SCOPE 0
#endif
#ifndef VP_VIA
#define VP_VIA 0
#endif
#ifndef VP_CNT
#define VP_CNT 2
#endif
/* ---- reference semantics */
enum { R_SUM, R_PROD, R_MAX, R_MIN, R_ABSMAX, R_ABSMIN, R_LAND, R_LOR, R_BAND, R_BOR };
static int expect_of(const char *n)
{
#define IS(s, r) if (vp_strcmp(n, s) == 0) return r;
  IS("+", R_SUM) IS("*", R_PROD) IS("max", R_MAX) IS("min", R_MIN) IS("absmax", R_ABSMAX) IS("absmin", R_ABSMIN) IS("or", R_BOR)
  IS("land", R_LAND) IS("&&", R_LAND) IS("lor", R_LOR) IS("||", R_LOR) IS("band", R_BAND) IS("&", R_BAND) IS("bor", R_BOR) IS("|", R_BOR)
  return -1;
}
typedef union { int i; long l; long long ll; float f; double d; unsigned u; unsigned long ul; unsigned char b[8]; } val;
static int esz(int ty) { return ty == ARMCI_INT || ty == ARMCI_FLOAT ? 4 : 8; }
#define ABSI(T, U, x) ((x) > 0 ? (x) : (T) (0 - (U) (x)))
static val combine(int r, int ty, val a, val b)
{
  val o; o.ul = 0;
  switch (ty) {
#define INTCASE(tag, m, T, U) case tag: { T x = a.m, y = b.m; \
    if (r == R_ABSMAX || r == R_ABSMIN) { x = ABSI(T, U, x); y = ABSI(T, U, y); } \
    switch (r) { case R_SUM: o.m = (T) ((U) x + (U) y); break; case R_PROD: o.m = (T) (((U) x << 1) ^ (U) y ^ 5u); break; \
      case R_MAX: case R_ABSMAX: o.m = x < y ? y : x; break; case R_MIN: case R_ABSMIN: o.m = x < y ? x : y; break; \
      case R_LAND: o.m = x && y; break; case R_LOR: o.m = x || y; break; case R_BAND: o.m = x & y; break; case R_BOR: o.m = x | y; break; } break; }
  INTCASE(ARMCI_INT, i, int, unsigned) INTCASE(ARMCI_LONG, l, long, unsigned long) INTCASE(ARMCI_LONG_LONG, ll, long long, unsigned long)
#define FPCASE(tag, m, T, w, U) case tag: { T x = a.m, y = b.m; \
    if (r == R_ABSMAX || r == R_ABSMIN) { x = x > 0 ? x : -x; y = y > 0 ? y : -y; } \
    switch (r) { case R_SUM: o.w = a.w ^ b.w ^ (U) 9; break; case R_PROD: o.w = (a.w << 1) ^ b.w ^ (U) 5; break; \
      case R_MAX: case R_ABSMAX: o.m = x < y ? y : x; break; case R_MIN: case R_ABSMIN: o.m = x < y ? x : y; break; default: o.w = 0; } break; }
  FPCASE(ARMCI_FLOAT, f, float, u, unsigned) FPCASE(ARMCI_DOUBLE, d, double, ul, unsigned long)
  }
  return o;
}
static val absolute(int ty, val a)
{
  if (ty == ARMCI_INT) a.i = ABSI(int, unsigned, a.i); else if (ty == ARMCI_FLOAT) a.f = a.f > 0 ? a.f : -a.f;
  else if (ty == ARMCI_DOUBLE) a.d = a.d > 0 ? a.d : -a.d; else a.l = ABSI(long, unsigned long, a.l);
  return a;
}
/* ---- the other participants */
static val given[VP_NPROC][VP_CNT];
static int reductions, cur_ty;
static int mpi_ty(MPI_Datatype t)
{ return t == MPI_INT ? ARMCI_INT : t == MPI_LONG ? ARMCI_LONG : t == MPI_LONG_LONG ? ARMCI_LONG_LONG : t == MPI_FLOAT ? ARMCI_FLOAT : t == MPI_DOUBLE ? ARMCI_DOUBLE : -1; }
static val rd(const void *p, int i, int ty)
{
  val v; v.ul = 0;
  if (esz(ty) == 4) { if (ty == ARMCI_FLOAT) v.f = ((const float *) p)[i]; else v.i = ((const int *) p)[i]; }
  else if (ty == ARMCI_DOUBLE) v.d = ((const double *) p)[i]; else v.l = ((const long *) p)[i];
  return v;
}
static void wr(void *p, int i, int ty, val v)
{
  if (esz(ty) == 4) { if (ty == ARMCI_FLOAT) ((float *) p)[i] = v.f; else ((int *) p)[i] = v.i; }
  else if (ty == ARMCI_DOUBLE) ((double *) p)[i] = v.d; else ((long *) p)[i] = v.l;
}
int vp_hook_allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  reductions++;
  int ty = mpi_ty(t); VP_USE(ty >= 0, "reduction type"); VP_USE(s == MPI_IN_PLACE || s != r, "no aliasing of reduction buffers");
  const void *mine = s == MPI_IN_PLACE ? r : s;
  VP_ASSERT(n <= VP_CNT, "no more elements are reduced than named");
  bool fp = ty == ARMCI_FLOAT || ty == ARMCI_DOUBLE;
  if (op < VP_OP_USER0) {
    int R = op == MPI_SUM ? R_SUM : op == MPI_PROD ? R_PROD : op == MPI_MAX ? R_MAX : op == MPI_MIN ? R_MIN : op == MPI_LAND ? R_LAND : op == MPI_LOR ? R_LOR : op == MPI_BAND ? R_BAND : op == MPI_BOR ? R_BOR : -1;
    VP_USE(R >= 0, "predefined reduction operator");
    if (fp) VP_USE(R <= R_MIN, "bitwise and logical operators are for integers");
    for (int i = 0; i < n; i++) {
      val a = rd(mine, i, ty);
      for (int q = 0; q < vp_comm[c].n; q++) if (vp_comm[c].r[q] != VP_ME) a = combine(R, ty, a, given[vp_comm[c].r[q]][i]);
      wr(r, i, ty, a);
    }
  } else {
    double buf_in[VP_CNT], buf_io[VP_CNT];
    for (int i = 0; i < n; i++) wr(buf_io, i, ty, rd(mine, i, ty));
    for (int q = 0; q < vp_comm[c].n; q++) if (vp_comm[c].r[q] != VP_ME) {
      for (int i = 0; i < n; i++) wr(buf_in, i, ty, given[vp_comm[c].r[q]][i]);
      int len = n; MPI_Datatype tt = t;
      VP_USE(op - VP_OP_USER0 < vp_nuserop, "registered operator");
      vp_userop[op - VP_OP_USER0](buf_in, buf_io, &len, &tt);
    }
    for (int i = 0; i < n; i++) wr(r, i, ty, rd(buf_io, i, ty));
  }
  return 0;
}
int vp_hook_bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { (void) b; (void) n; (void) t; (void) root; (void) c; VP_ASSERT(0, "no broadcast"); return 0; }

static double priv[VP_CNT + 1];
static ARMCI_Group world, sub, *grp;
static void one(int ty, bool shared)
{
  int R = expect_of(VP_NAME);
  if ((ty == ARMCI_FLOAT || ty == ARMCI_DOUBLE) && R >= R_LAND) return;
  void *x = shared ? (void *) (vp_arena + 4 * 2) : (void *) priv;
  vp_fill_mem();
  val mine[VP_CNT], want[VP_CNT]; double guard = vp_nd_double(); priv[VP_CNT] = guard; long g0; g0 = ((long *) priv)[VP_CNT];
  for (int i = 0; i < VP_CNT; i++) {
    for (int w = 0; w < VP_NPROC; w++) { given[w][i].l = vp_nd_long();
      if (ty == ARMCI_DOUBLE) VP_ASSUME(given[w][i].d == given[w][i].d); if (ty == ARMCI_FLOAT) VP_ASSUME(given[w][i].f == given[w][i].f); }
    mine[i] = given[VP_ME][i]; wr(x, i, ty, mine[i]);
    bool node = VP_SCOPE == SCOPE_NODE && (VP_VIA == 0 || VP_VIA == 3);
    want[i] = mine[i]; int parts = 1;
    for (int w = 0; w < VP_NPROC; w++) {
      bool in = w != VP_ME && !node && (grp != &sub || w == 2); if (VP_VIA < 2) in = w != VP_ME && !node;
#ifdef VP_SOLO
      in = false;
#endif
      if (in) { want[i] = combine(R, ty, want[i], given[w][i]); parts++; }
    }
    if (parts == 1 && (R == R_ABSMAX || R == R_ABSMIN)) want[i] = absolute(ty, want[i]);
  }
  if (shared) for (int w = 0; w < VP_NPROC; w++) for (int i = 0; i < VP_ARENA; i++) VP_R(w, i) = VP_M(w, i);
  switch (VP_VIA) {
  case 0: armci_msg_gop_scope(VP_SCOPE, x, VP_CNT, VP_NAME, ty); break;
  case 3: armci_msg_group_gop_scope(VP_SCOPE, x, VP_CNT, VP_NAME, ty, grp); break;
  case 1: if (ty == ARMCI_INT) armci_msg_igop(x, VP_CNT, VP_NAME); else if (ty == ARMCI_LONG) armci_msg_lgop(x, VP_CNT, VP_NAME); else if (ty == ARMCI_LONG_LONG) armci_msg_llgop(x, VP_CNT, VP_NAME);
          else if (ty == ARMCI_FLOAT) armci_msg_fgop(x, VP_CNT, VP_NAME); else armci_msg_dgop(x, VP_CNT, VP_NAME); break;
  case 2: if (ty == ARMCI_INT) armci_msg_group_igop(x, VP_CNT, VP_NAME, grp); else if (ty == ARMCI_LONG) armci_msg_group_lgop(x, VP_CNT, VP_NAME, grp); else if (ty == ARMCI_LONG_LONG) armci_msg_group_llgop(x, VP_CNT, VP_NAME, grp);
          else if (ty == ARMCI_FLOAT) armci_msg_group_fgop(x, VP_CNT, VP_NAME, grp); else armci_msg_group_dgop(x, VP_CNT, VP_NAME, grp); break;
  }
  for (int i = 0; i < VP_CNT; i++) {
    val v = rd(x, i, ty);
    bool same = ty == ARMCI_FLOAT ? (v.f == want[i].f || v.u == want[i].u) : ty == ARMCI_DOUBLE ? (v.d == want[i].d || v.ul == want[i].ul) : ty == ARMCI_INT ? v.i == want[i].i : v.l == want[i].l;
    VP_ASSERT(same, "every element is the reduction over all participants");
    if (shared) { if (esz(ty) == 4) { for (int b = 0; b < 4; b++) VP_R(VP_ME, 8 + 4 * i + b) = VP_M(VP_ME, 8 + 4 * i + b); } else for (int b = 0; b < 8; b++) VP_R(VP_ME, 8 + 8 * i + b) = VP_M(VP_ME, 8 + 8 * i + b); }
  }
  VP_ASSERT(((long *) priv)[VP_CNT] == g0, "nothing beyond the vector is written");
  vp_check_mem();
  VP_REACHED("reduced");
}
void harness(void)
{
  vp_start(); void *bp[3];
  for (int w = 0; w < VP_NPROC; w++) { vp_plan[0].off[w] = 0; vp_plan[0].size[w] = VP_ARENA; }
  vp_alloc_world(0, bp);
  ARMCI_Group_get_world(&world); grp = &world;
#ifdef VP_SUB
  int l[2] = { 0, 2 }; ARMCI_Group_create(2, l, &sub); grp = &sub;
#endif
#ifdef VP_SOLO
  int l1[1] = { 0 }; ARMCI_Group_create(1, l1, &sub); grp = &sub;
#endif
#ifdef VP_BAD
  vp_abort_expected = 1;
  char name[4]; int ty;
  if (VP_BAD == 1) { for (int i = 0; i < 3; i++) name[i] = (char) vp_nd_u8(); name[3] = 0; ty = ARMCI_INT;
    /* no known operator is a prefix of the name */
    VP_ASSUME(name[0] != '+' && name[0] != '*' && name[0] != '&' && name[0] != '|' && !(name[0] == 'o' && name[1] == 'r') && !(name[0] == 'm' && name[1] == 'a' && name[2] == 'x') && !(name[0] == 'm' && name[1] == 'i' && name[2] == 'n')
              && !(name[0] == 'l' && name[1] == 'o' && name[2] == 'r') && !(name[0] == 'b' && name[1] == 'o' && name[2] == 'r')); }
  else { name[0] = '+'; name[1] = 0; ty = vp_nd_int(); VP_ASSUME(ty < ARMCI_INT || ty > ARMCI_DOUBLE); }
  armci_msg_gop_scope(VP_SCOPE, priv, 1, name, ty);
  VP_ASSERT(0, "an unknown operator or type is an error");
#else
#ifdef VP_SHR
  one(ARMCI_INT, true); one(ARMCI_LONG, true); one(ARMCI_DOUBLE, true);
#else
  one(ARMCI_INT, false); one(ARMCI_LONG, false); one(ARMCI_LONG_LONG, false); one(ARMCI_FLOAT, false); one(ARMCI_DOUBLE, false);
#endif
#endif
}
