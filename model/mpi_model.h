/* C model of MPI as seen by one process ("me") of a VP_NPROC-process job.
 * Included once by the harness TU, after vp_rt.h.  See DESIGN.md, "The MPI model". */
#ifndef VP_MPI_MODEL_H
#define VP_MPI_MODEL_H
#include <mpi.h>
/* the model's own accesses are not the subject; those it makes through pointers the library gave it are */
#ifdef VP_CBMC
#define VP_CHECKS_OFF _Pragma("CPROVER check push") _Pragma("CPROVER check disable \"pointer\"") _Pragma("CPROVER check disable \"bounds\"") \
  _Pragma("CPROVER check disable \"pointer-primitive\"") _Pragma("CPROVER check disable \"div-by-zero\"")
#define VP_CHECKS_ON _Pragma("CPROVER check pop")
#else
#define VP_CHECKS_OFF
#define VP_CHECKS_ON
#endif
VP_CHECKS_OFF

#ifndef VP_NPROC
#define VP_NPROC 2
#endif
#ifndef VP_ME
#define VP_ME 0
#endif
#ifndef VP_ARENA
#define VP_ARENA 64
#endif
#ifndef VP_MAXCOMM
#define VP_MAXCOMM 8
#endif
#ifndef VP_MAXGROUP
#define VP_MAXGROUP 8
#endif
#ifndef VP_MAXWIN
#define VP_MAXWIN 4
#endif
#ifndef VP_MAXOPS
#define VP_MAXOPS 6
#endif
#ifndef VP_MAXB
#define VP_MAXB 16      /* bytes per RMA operation */
#endif
#ifndef VP_MAXTYPE
#define VP_MAXTYPE 4
#endif
#ifndef VP_MAXBLK
#define VP_MAXBLK 8
#endif
#ifndef VP_MAXINFO
#define VP_MAXINFO 4
#endif

#define VP_USE(x, msg) VP_ASSERT(x, "MPI used correctly: " msg)

/* ------------------------------------------------------------------ memory
 * Every process has VP_ARENA bytes of user memory at the same virtual address;
 * bytes p*VP_ARENA.. of vp_mem are the memory of world rank p. */
#define VP_MEMSZ (VP_NPROC * VP_ARENA)
_Alignas(16) unsigned char vp_mem[VP_MEMSZ];
#define VP_M(p, o) vp_mem[(long) (p) * VP_ARENA + (o)]
#define vp_arena (vp_mem + VP_ME * VP_ARENA)
static long vp_off(const void *p) { return (long) ((const unsigned char *) p - vp_arena); }
#ifdef VP_CBMC
#define VP_SAMEOBJ(p) (__CPROVER_POINTER_OBJECT((const void *) (p)) == __CPROVER_POINTER_OBJECT((const void *) &vp_mem))
#else
#define VP_SAMEOBJ(p) ((const char *) (p) >= (const char *) &vp_mem && (const char *) (p) < (const char *) &vp_mem + sizeof vp_mem)
#endif

/* allocation plan: what every process asks for and gets in collective allocation k */
typedef struct { long off[VP_NPROC]; long size[VP_NPROC]; bool freed_me; } vp_plan_t;
#ifndef VP_MAXPLAN
#define VP_MAXPLAN 3
#endif
vp_plan_t vp_plan[VP_MAXPLAN];
int vp_cur = -1;                  /* allocation in progress, or -1 */
#ifndef VP_NZ                     /* process w asks for some bytes in allocation k */
#define VP_NZ(k, w) (vp_plan[k].size[w] > 0)
#endif
static void *vp_plan_base(int k, int w) { return VP_NZ(k, w) ? (void *) (vp_arena + vp_plan[k].off[w]) : NULL; }

char vp_in_place_obj;
int vp_thread_level = MPI_THREAD_SINGLE;
int vp_unified = MPI_WIN_UNIFIED;  /* 0: attribute missing */
int vp_mpi_up = 1, vp_mpi_down = 0;

int MPI_Initialized(int *f) { *f = vp_mpi_up; return 0; }
int MPI_Finalized(int *f) { *f = vp_mpi_down; return 0; }
int MPI_Query_thread(int *l) { *l = vp_thread_level; return 0; }
int MPI_Abort(MPI_Comm c, int e) { (void) c; (void) e; vp_abort("MPI_Abort"); return 0; }
double vp_clock;
double MPI_Wtime(void) { vp_clock += 2.0; return vp_clock; }
int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return 0; }
#ifndef VP_OWN_LIBVER
int MPI_Get_library_version(char *s, int *l) { s[0] = 'V'; s[1] = 0; *l = 1; return 0; }
#endif

/* ------------------------------------------------------ groups, communicators */
typedef struct { bool used; int n; int r[VP_NPROC]; bool inter; int rn; int rr[VP_NPROC]; } vp_comm_t;
vp_comm_t vp_comm[VP_MAXCOMM];
typedef struct { bool used; int n; int r[VP_NPROC]; } vp_group_t;
vp_group_t vp_group[VP_MAXGROUP];
int vp_live_comm, vp_live_group, vp_live_type, vp_live_info, vp_live_win, vp_live_allocmem, vp_live_req, vp_live_op;

static void vp_mpi_start(void)
{
  vp_comm[MPI_COMM_WORLD].used = true; vp_comm[MPI_COMM_WORLD].n = VP_NPROC;
  for (int i = 0; i < VP_NPROC; i++) vp_comm[MPI_COMM_WORLD].r[i] = i;
  vp_comm[MPI_COMM_SELF].used = true; vp_comm[MPI_COMM_SELF].n = 1; vp_comm[MPI_COMM_SELF].r[0] = VP_ME;
  vp_group[MPI_GROUP_EMPTY].used = true;
}
static int vp_new_comm(void)
{
  for (int i = 3; i < VP_MAXCOMM; i++) if (!vp_comm[i].used) { vp_comm[i].used = true; vp_comm[i].inter = false; vp_comm[i].n = 0; vp_live_comm++; return i; }
  VP_ASSERT(0, "model limit: communicators"); return 0;
}
static int vp_new_group(void)
{
  for (int i = 2; i < VP_MAXGROUP; i++) if (!vp_group[i].used) { vp_group[i].used = true; vp_group[i].n = 0; vp_live_group++; return i; }
  VP_ASSERT(0, "model limit: groups"); return 0;
}
#define VP_COMM_OK(c) VP_USE((c) > 0 && (c) < VP_MAXCOMM && vp_comm[c].used, "valid communicator")
#ifndef VP_OWN_COMM
static int vp_comm_rank_of(int c, int w) { for (int i = 0; i < vp_comm[c].n; i++) if (vp_comm[c].r[i] == w) return i; return -1; }
#endif

#ifdef VP_OWN_COMM
static int vp_comm_rank_of(MPI_Comm c, int w); static int vp_group_rank_of(int g, int w);
#else
int MPI_Comm_rank(MPI_Comm c, int *r) { VP_COMM_OK(c); *r = vp_comm_rank_of(c, VP_ME); return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { VP_COMM_OK(c); *n = vp_comm[c].n; return 0; }
int MPI_Comm_remote_size(MPI_Comm c, int *n) { VP_COMM_OK(c); VP_USE(vp_comm[c].inter, "intercommunicator"); *n = vp_comm[c].rn; return 0; }
int MPI_Comm_test_inter(MPI_Comm c, int *f) { VP_COMM_OK(c); *f = vp_comm[c].inter; return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) { VP_COMM_OK(c); int k = vp_new_comm(); vp_comm[k] = vp_comm[c]; *o = k; return 0; }
int MPI_Comm_free(MPI_Comm *c)
{
  VP_USE(*c > 0 && *c < VP_MAXCOMM && vp_comm[*c].used, "Comm_free of a live communicator");
  VP_USE(*c > MPI_COMM_SELF, "Comm_free of a non-predefined communicator");
  vp_comm[*c].used = false; vp_live_comm--; *c = MPI_COMM_NULL; return 0;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r)
{
  VP_COMM_OK(a); VP_COMM_OK(b);
  if (a == b) { *r = MPI_IDENT; return 0; }
  *r = vp_comm[a].n == vp_comm[b].n ? MPI_CONGRUENT : MPI_UNEQUAL;
  for (int i = 0; i < vp_comm[a].n && *r != MPI_UNEQUAL; i++)
    if (vp_comm[a].r[i] != vp_comm[b].r[i]) *r = vp_comm_rank_of(b, vp_comm[a].r[i]) >= 0 ? MPI_SIMILAR : MPI_UNEQUAL;
  return 0;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group *g)
{
  VP_COMM_OK(c); int k = vp_new_group(); vp_group[k].n = vp_comm[c].n;
  for (int i = 0; i < VP_NPROC; i++) vp_group[k].r[i] = vp_comm[c].r[i];
  *g = k; return 0;
}
#define VP_GROUP_OK(g) VP_USE((g) > 0 && (g) < VP_MAXGROUP && vp_group[g].used, "valid group")
int MPI_Group_free(MPI_Group *g)
{ VP_GROUP_OK(*g); if (*g != MPI_GROUP_EMPTY) { vp_group[*g].used = false; vp_live_group--; } *g = MPI_GROUP_NULL; return 0; }
int MPI_Group_size(MPI_Group g, int *n) { VP_GROUP_OK(g); *n = vp_group[g].n; return 0; }
static int vp_group_rank_of(int g, int w) { for (int i = 0; i < vp_group[g].n; i++) if (vp_group[g].r[i] == w) return i; return MPI_UNDEFINED; }
int MPI_Group_rank(MPI_Group g, int *r) { VP_GROUP_OK(g); *r = vp_group_rank_of(g, VP_ME); return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *ra, MPI_Group b, int *rb)
{
  VP_GROUP_OK(a); VP_GROUP_OK(b);
  for (int i = 0; i < n; i++) {
    if (ra[i] == MPI_PROC_NULL) { rb[i] = MPI_PROC_NULL; continue; }
    VP_USE(ra[i] >= 0 && ra[i] < vp_group[a].n, "translate_ranks input rank in range");
    rb[i] = vp_group_rank_of(b, vp_group[a].r[ra[i]]);
  }
  return 0;
}
int MPI_Group_incl(MPI_Group a, int n, const int *ra, MPI_Group *o)
{
  VP_GROUP_OK(a);
  VP_USE(n >= 0 && n <= vp_group[a].n, "group_incl size");
  int k = vp_new_group(); vp_group[k].n = n;
  for (int i = 0; i < n; i++) {
    VP_USE(ra[i] >= 0 && ra[i] < vp_group[a].n, "group_incl rank in range");
    vp_group[k].r[i] = vp_group[a].r[ra[i]];
    for (int j = 0; j < i; j++) VP_USE(ra[j] != ra[i], "group_incl ranks distinct");
  }
  *o = k; return 0;
}
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *o)
{
  VP_COMM_OK(c); VP_GROUP_OK(g);
  for (int i = 0; i < vp_group[g].n; i++) VP_USE(vp_comm_rank_of(c, vp_group[g].r[i]) >= 0, "comm_create group is a subset");
  if (vp_group_rank_of(g, VP_ME) < 0) { *o = MPI_COMM_NULL; return 0; }
  int k = vp_new_comm(); vp_comm[k].n = vp_group[g].n;
  for (int i = 0; i < VP_NPROC; i++) vp_comm[k].r[i] = vp_group[g].r[i];
  *o = k; return 0;
}
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm *o) { (void) tag; return MPI_Comm_create(c, g, o); }

#endif
/* ------------------------------------------------------------- collectives
 * vp_contrib: what world rank w contributes where this process contributes
 * the n bytes at mine.  Default: inside an allocation, the plan's sizes and
 * base addresses; otherwise the harness hook. */
void vp_hook_contrib(int w, const void *mine, void *out, int n);
#ifdef VP_OWN_MAX
long vp_hook_max(long m);         /* the same value in a form that decides branches */
#endif
typedef struct { void *base; long size; } vp_slice_t;
static void vp_copy_typed(void *d, const void *s, int n)
{
  if (n == (int) sizeof(vp_slice_t)) *(vp_slice_t *) d = *(const vp_slice_t *) s;
  else if (n == 8) *(void **) d = *(void *const *) s;
  else if (n == 4) *(int *) d = *(const int *) s;
  else for (int i = 0; i < n; i++) ((unsigned char *) d)[i] = ((const unsigned char *) s)[i];
}
static bool vp_contrib_long;      /* the contribution is an integer, not bytes */
static void vp_contrib(int w, const void *mine, void *out, int n)
{
  if (vp_cur >= 0 && n == (int) sizeof(vp_slice_t)) {
    vp_slice_t s; s.base = vp_plan_base(vp_cur, w); s.size = vp_plan[vp_cur].size[w];
    VP_ASSERT(((const vp_slice_t *) mine)->base == vp_plan_base(vp_cur, VP_ME) &&
              ((const vp_slice_t *) mine)->size == vp_plan[vp_cur].size[VP_ME], "the slice a process publishes is the one it allocated");
    *(vp_slice_t *) out = s;
  } else if (vp_cur >= 0 && n == (int) sizeof(long)) {
    if (vp_contrib_long) { VP_ASSERT(*(const long *) mine == vp_plan[vp_cur].size[VP_ME], "the size a process contributes is its own"); *(long *) out = vp_plan[vp_cur].size[w]; }
    else *(void **) out = vp_plan_base(vp_cur, w);
  } else vp_hook_contrib(w, mine, out, n);
}
int vp_barriers;
#ifdef VP_SYNC_HOOK
void vp_hook_barrier(MPI_Comm c); void vp_hook_sync(int w);
#else
#define vp_hook_barrier(c) ((void) 0)
#define vp_hook_sync(w) ((void) 0)
#endif
int MPI_Barrier(MPI_Comm c) { VP_COMM_OK(c); vp_barriers++; vp_hook_barrier(c); return 0; }

/* --------------------------------------------------------------- datatypes */
typedef struct { bool used, committed; int elt; int size; long ext; int nblk; long off[VP_MAXBLK]; long len[VP_MAXBLK]; } vp_type_t;
vp_type_t vp_type[VP_MAXTYPE];
static int vp_esize(int t)
{
  switch (t) {
    case MPI_BYTE: case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_INT8_T: case MPI_UINT8_T: case MPI_PACKED: case MPI_C_BOOL: return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_INT16_T: case MPI_UINT16_T: return 2;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4;
    case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: case MPI_C_FLOAT_COMPLEX:
    case MPI_INT64_T: case MPI_UINT64_T: case MPI_AINT: case MPI_OFFSET: case MPI_COUNT: return 8;
    case MPI_C_DOUBLE_COMPLEX: case MPI_LONG_DOUBLE: return 16;
    default: return 0;
  }
}
static bool vp_derived(int t) { return t >= VP_TYPE_USER0 && t < VP_TYPE_USER0 + VP_MAXTYPE; }
#define VP_TYPE_OK(t) VP_USE(vp_derived(t) ? vp_type[(t) - VP_TYPE_USER0].used : vp_esize(t) > 0, "valid datatype")
static vp_type_t vp_get_type(int t)
{
  vp_type_t r;
  if (vp_derived(t)) return vp_type[t - VP_TYPE_USER0];
  r.used = r.committed = true; r.elt = t; r.size = vp_esize(t); r.ext = r.size; r.nblk = 1; r.off[0] = 0; r.len[0] = r.size;
  return r;
}
static bool vp_dense(const vp_type_t *t) { return t->nblk == 1 && t->off[0] == 0 && t->len[0] == t->ext; }
static int vp_new_type(void)
{
  for (int i = 0; i < VP_MAXTYPE; i++) if (!vp_type[i].used) { vp_type[i].used = true; vp_type[i].committed = false; vp_type[i].nblk = 0; vp_type[i].size = 0; vp_live_type++; return i; }
  VP_ASSERT(0, "model limit: datatypes"); return 0;
}
static void vp_blk(vp_type_t *t, long off, long len)
{
  VP_ASSERT(t->nblk < VP_MAXBLK, "model limit: datatype blocks");
  t->off[t->nblk] = off; t->len[t->nblk] = len; t->nblk++; t->size += (int) len;
}
/* append n consecutive copies of o at off */
static void vp_rep(vp_type_t *t, const vp_type_t *o, long off, long n)
{
  if (vp_dense(o)) { vp_blk(t, off, n * o->ext); return; }
  for (long i = 0; i < n; i++) for (int b = 0; b < o->nblk; b++) vp_blk(t, off + i * o->ext + o->off[b], o->len[b]);
}
int MPI_Type_size(MPI_Datatype t, int *s) { VP_TYPE_OK(t); *s = vp_derived(t) ? vp_type[t - VP_TYPE_USER0].size : vp_esize(t); return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { VP_TYPE_OK(t); *lb = 0; *e = vp_derived(t) ? vp_type[t - VP_TYPE_USER0].ext : vp_esize(t); return 0; }
int MPI_Type_get_true_extent(MPI_Datatype ty, MPI_Aint *lb, MPI_Aint *e)
{
  VP_TYPE_OK(ty);
  if (!vp_derived(ty)) { *lb = 0; *e = vp_esize(ty); return 0; }
  const vp_type_t *t = &vp_type[ty - VP_TYPE_USER0];
  long lo = 0, hi = 0;
  for (int b = 0; b < t->nblk; b++) {
    if (b == 0 || t->off[b] < lo) lo = t->off[b];
    if (b == 0 || t->off[b] + t->len[b] > hi) hi = t->off[b] + t->len[b];
  }
  *lb = lo; *e = hi - lo; return 0;
}
int MPI_Type_commit(MPI_Datatype *t) { VP_TYPE_OK(*t); if (vp_derived(*t)) vp_type[*t - VP_TYPE_USER0].committed = true; return 0; }
int MPI_Type_free(MPI_Datatype *t)
{
  VP_USE(vp_derived(*t) && vp_type[*t - VP_TYPE_USER0].used, "Type_free of a live derived datatype");
  vp_type[*t - VP_TYPE_USER0].used = false; vp_live_type--; *t = MPI_DATATYPE_NULL; return 0;
}
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype *n)
{ VP_TYPE_OK(o); vp_type_t s = vp_get_type(o); int k = vp_new_type(); bool c = s.committed; vp_type[k] = s; vp_type[k].committed = c; *n = VP_TYPE_USER0 + k; return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype *nt)
{
  VP_TYPE_OK(o); VP_USE(n >= 0, "type_contiguous count");
  vp_type_t s = vp_get_type(o); int k = vp_new_type(); vp_type[k].elt = s.elt; vp_type[k].ext = n * s.ext;
  vp_rep(&vp_type[k], &s, 0, n); *nt = VP_TYPE_USER0 + k; return 0;
}
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype o, MPI_Datatype *nt)
{
  VP_TYPE_OK(o); VP_USE(n >= 0 && bl >= 0, "hvector counts");
  vp_type_t s = vp_get_type(o); int k = vp_new_type(); vp_type[k].elt = s.elt;
  for (int i = 0; i < n; i++) vp_rep(&vp_type[k], &s, i * st, bl);
  /* extent: ub of last - lb of first, for non-negative strides */
  vp_type[k].ext = n > 0 ? (long) (n - 1) * st + bl * s.ext : 0;
  *nt = VP_TYPE_USER0 + k; return 0;
}
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype o, MPI_Datatype *nt)
{ VP_TYPE_OK(o); vp_type_t s = vp_get_type(o); return MPI_Type_create_hvector(n, bl, (MPI_Aint) st * s.ext, o, nt); }
int MPI_Type_create_hindexed_block(int n, int bl, const MPI_Aint *d, MPI_Datatype o, MPI_Datatype *nt)
{
  VP_TYPE_OK(o); VP_USE(n >= 0 && bl >= 0, "hindexed_block counts");
  vp_type_t s = vp_get_type(o); int k = vp_new_type(); vp_type[k].elt = s.elt; vp_type[k].ext = 0;
  for (int i = 0; i < n; i++) { vp_rep(&vp_type[k], &s, d[i], bl); if (d[i] + bl * s.ext > vp_type[k].ext) vp_type[k].ext = d[i] + bl * s.ext; }
  *nt = VP_TYPE_USER0 + k; return 0;
}
int MPI_Type_create_indexed_block(int n, int bl, const int *d, MPI_Datatype o, MPI_Datatype *nt)
{
  VP_TYPE_OK(o); VP_USE(n >= 0 && bl >= 0, "indexed_block counts");
  vp_type_t s = vp_get_type(o); int k = vp_new_type(); vp_type[k].elt = s.elt; vp_type[k].ext = 0;
  for (int i = 0; i < n; i++) { long x = (long) d[i] * s.ext; vp_rep(&vp_type[k], &s, x, bl); if (x + bl * s.ext > vp_type[k].ext) vp_type[k].ext = x + bl * s.ext; }
  *nt = VP_TYPE_USER0 + k; return 0;
}
int MPI_Type_create_hindexed(int n, const int *bl, const MPI_Aint *d, MPI_Datatype o, MPI_Datatype *nt)
{
  VP_TYPE_OK(o);
  vp_type_t s = vp_get_type(o); int k = vp_new_type(); vp_type[k].elt = s.elt; vp_type[k].ext = 0;
  for (int i = 0; i < n; i++) { vp_rep(&vp_type[k], &s, d[i], bl[i]); if (d[i] + bl[i] * s.ext > vp_type[k].ext) vp_type[k].ext = d[i] + bl[i] * s.ext; }
  *nt = VP_TYPE_USER0 + k; return 0;
}
int MPI_Type_indexed(int n, const int *bl, const int *d, MPI_Datatype o, MPI_Datatype *nt)
{
  VP_TYPE_OK(o);
  vp_type_t s = vp_get_type(o); int k = vp_new_type(); vp_type[k].elt = s.elt; vp_type[k].ext = 0;
  for (int i = 0; i < n; i++) { long x = (long) d[i] * s.ext; vp_rep(&vp_type[k], &s, x, bl[i]); if (x + bl[i] * s.ext > vp_type[k].ext) vp_type[k].ext = x + bl[i] * s.ext; }
  *nt = VP_TYPE_USER0 + k; return 0;
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ext, MPI_Datatype *nt)
{ VP_TYPE_OK(o); VP_USE(lb == 0, "model limit: resized lower bound"); MPI_Type_dup(o, nt); vp_type[*nt - VP_TYPE_USER0].ext = ext; return 0; }
int MPI_Type_create_subarray(int nd, const int *sz, const int *sub, const int *st, int order, MPI_Datatype o, MPI_Datatype *nt)
{
  VP_TYPE_OK(o); VP_USE(nd >= 1 && nd <= 8, "subarray dimensions"); VP_USE(order == MPI_ORDER_C, "model limit: C order only");
  vp_type_t s = vp_get_type(o); int k = vp_new_type(); vp_type[k].elt = s.elt;
  long stride[8]; long total = s.ext; long nblocks = 1;
  for (int i = nd - 1; i >= 0; i--) {
    VP_USE(sz[i] >= 1 && sub[i] >= 1 && sub[i] <= sz[i] && st[i] >= 0 && st[i] <= sz[i] - sub[i], "subarray sizes, subsizes and starts are consistent");
    stride[i] = total; total *= sz[i]; if (i < nd - 1) nblocks *= sub[i];
  }
  vp_type[k].ext = total;
  int idx[8]; for (int i = 0; i < nd; i++) idx[i] = 0;
  for (long b = 0; b < nblocks; b++) {
    long off = (long) st[nd - 1] * stride[nd - 1];
    for (int i = 0; i < nd - 1; i++) off += (long) (st[i] + idx[i]) * stride[i];
    vp_rep(&vp_type[k], &s, off, sub[nd - 1]);
    for (int i = nd - 2; i >= 0; i--) { if (++idx[i] < sub[i]) break; idx[i] = 0; }
  }
  *nt = VP_TYPE_USER0 + k; return 0;
}
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint) p; return 0; }
MPI_Aint MPI_Aint_add(MPI_Aint a, MPI_Aint b) { return a + b; }
MPI_Aint MPI_Aint_diff(MPI_Aint a, MPI_Aint b) { return a - b; }

/* -------------------------------------------------------------- info, memory */
#ifdef VP_OWN_INFO
void vp_hook_info(const char *key, const char *val);
#endif
bool vp_info_used[VP_MAXINFO];
int MPI_Info_create(MPI_Info *o)
{
  for (int i = 2; i < VP_MAXINFO; i++) if (!vp_info_used[i]) { vp_info_used[i] = true; vp_live_info++; *o = i; return 0; }
  VP_ASSERT(0, "model limit: infos"); return 0;
}
#define VP_INFO_OK(i) VP_USE((i) == MPI_INFO_NULL || ((i) > 1 && (i) < VP_MAXINFO && vp_info_used[i]), "valid info")
int MPI_Info_set(MPI_Info i, const char *k, const char *v)
{
  VP_USE(i > 1 && i < VP_MAXINFO && vp_info_used[i], "Info_set on a live info"); (void) k; (void) v;
#ifdef VP_OWN_INFO
  vp_hook_info(k, v);
#endif
  return 0;
}
int MPI_Info_free(MPI_Info *i) { VP_USE(*i > 1 && *i < VP_MAXINFO && vp_info_used[*i], "Info_free of a live info"); vp_info_used[*i] = false; vp_live_info--; *i = MPI_INFO_NULL; return 0; }

bool vp_plan_taken;    /* this allocation's local memory has been handed out */
int MPI_Alloc_mem(MPI_Aint n, MPI_Info info, void *out)
{
  VP_INFO_OK(info); VP_USE(n >= 0, "Alloc_mem size");
  vp_live_allocmem++;
  if (vp_cur >= 0 && !vp_plan_taken && n == vp_plan[vp_cur].size[VP_ME]) {
    vp_plan_taken = true; *(void **) out = (void *) (vp_arena + vp_plan[vp_cur].off[VP_ME]);
  } else { void *p = malloc((size_t) n); VP_ASSUME(p != NULL); *(void **) out = p; }
  return 0;
}
int MPI_Free_mem(void *p)
{
  vp_live_allocmem--;
  if (VP_SAMEOBJ(p)) {
    bool found = false;
    for (int k = 0; k < VP_MAXPLAN; k++)
      if (VP_NZ(k, VP_ME) && !vp_plan[k].freed_me && vp_off(p) == vp_plan[k].off[VP_ME]) { vp_plan[k].freed_me = true; found = true; break; }
    VP_USE(found, "Free_mem of memory obtained from Alloc_mem");
  } else free(p);
  return 0;
}

/* --------------------------------------------------------------------- RMA */
typedef struct { bool used; int n; int w[VP_NPROC]; long off[VP_NPROC]; long size[VP_NPROC]; int du;
                 int lockall; int lock[VP_NPROC]; bool owns_mem; int syncs; } vp_win_t;
vp_win_t vp_win[VP_MAXWIN + 1];   /* handle = index, 0 is MPI_WIN_NULL */

enum { VP_FREE = 0, VP_PUT, VP_GET, VP_ACC, VP_GACC };
typedef struct {
  unsigned char kind; int win; int trank; int world; int op; int elt; int n; int req;
  const unsigned char *src; long soff[VP_MAXB]; unsigned char dat[VP_MAXB];
  unsigned char *res; long roff[VP_MAXB]; unsigned char old[VP_MAXB];
  long toff[VP_MAXB];
  bool rd, tg, wr;                  /* origin read, target accessed, result written */
} vp_op_t;
vp_op_t vp_ops[VP_MAXOPS];
int vp_nops;
bool vp_eager_only;                 /* harness: every op takes effect at issue */

#define VP_WIN_OK(w) VP_USE((w) > 0 && (w) <= VP_MAXWIN && vp_win[w].used, "valid window")
#ifdef VP_WIN_HOOK
void vp_hook_win(int w, void *base, long size);
#endif
static int vp_win_new(MPI_Comm c, void *base, long size, int du, bool owns)
{
  VP_COMM_OK(c);
  for (int i = 1; i <= VP_MAXWIN; i++) if (!vp_win[i].used) {
    vp_win_t *w = &vp_win[i];
    w->used = true; vp_live_win++; w->n = vp_comm[c].n; w->du = du; w->lockall = 0; w->owns_mem = owns; w->syncs = 0;
    for (int j = 0; j < VP_NPROC; j++) {
      w->lock[j] = 0;
      if (j < w->n) {
        int p = vp_comm[c].r[j]; w->w[j] = p;
        if (vp_cur >= 0) { w->off[j] = vp_plan[vp_cur].off[p]; w->size[j] = vp_plan[vp_cur].size[p]; }
        else { w->off[j] = 0; w->size[j] = size; }
      }
    }
    if (vp_cur >= 0) {
      VP_ASSERT(size == vp_plan[vp_cur].size[VP_ME], "the window exposes exactly the requested local bytes");
      if (VP_NZ(vp_cur, VP_ME)) VP_ASSERT(base == vp_plan_base(vp_cur, VP_ME), "the window exposes the allocated local slice");
    }
#ifdef VP_WIN_HOOK
    vp_hook_win(i, base, size);
#endif
    return i;
  }
  VP_ASSERT(0, "model limit: windows"); return 0;
}
int MPI_Win_create(void *base, MPI_Aint size, int du, MPI_Info info, MPI_Comm c, MPI_Win *o)
{ VP_INFO_OK(info); VP_USE(du > 0, "displacement unit"); *o = vp_win_new(c, base, size, du, false); return 0; }
int MPI_Win_allocate(MPI_Aint size, int du, MPI_Info info, MPI_Comm c, void *out, MPI_Win *o)
{
  VP_INFO_OK(info); VP_USE(size >= 0 && du > 0, "Win_allocate arguments");
  void *b;
  if (vp_cur >= 0) { vp_plan_taken = true; b = (void *) (vp_arena + vp_plan[vp_cur].off[VP_ME]); }
  else { b = malloc((size_t) size); VP_ASSUME(b != NULL); }
  *(void **) out = b;
  *o = vp_win_new(c, b, size, du, true); return 0;
}
int vp_attr_val;
int MPI_Win_get_attr(MPI_Win w, int key, void *val, int *flag)
{
  VP_WIN_OK(w); VP_USE(key == MPI_WIN_MODEL, "model limit: window attribute");
  *flag = vp_unified != 0; vp_attr_val = vp_unified; if (*flag) *(int **) val = &vp_attr_val; return 0;
}

#ifdef VP_CBMC
#define VP_LIVE(p) __CPROVER_w_ok(p, 1)
#else
#define VP_LIVE(p) 1     /* AddressSanitizer decides */
#endif
/* read / write of one byte of the target */
#define VP_T(op, i) VP_M((op)->world, (op)->toff[i])
static void vp_do_read(vp_op_t *o)
{
  if (o->rd) return; o->rd = true;
  if (o->src && o->n > 0) VP_ASSERT(VP_LIVE(o->src + o->soff[0]) && VP_LIVE(o->src + o->soff[o->n - 1]), "MPI reads the origin buffer while it exists");
  if (o->src) for (int i = 0; i < o->n; i++) o->dat[i] = o->src[o->soff[i]];
}
static void vp_combine(vp_op_t *o)
{
  int es = vp_esize(o->elt);
  if (o->op == MPI_NO_OP) return;
  if (o->op == MPI_REPLACE) { for (int i = 0; i < o->n; i++) VP_T(o, i) = o->dat[i]; return; }
  VP_USE(o->op == MPI_SUM, "model limit: RMA reduction other than SUM/REPLACE/NO_OP");
#ifdef VP_XOR
  /* where the data goes is in question, not the sum: exclusive or stands for it (harness reference likewise) */
  VP_USE(o->elt == MPI_INT, "element type as requested");
  for (int i = 0; i < o->n; i++) VP_T(o, i) ^= o->dat[i];
  return;
#endif
  for (int i = 0; i < o->n; i += es) {
    switch (o->elt) {
#define VP_SUMCASE(T, tag) case tag: { T a, b; for (int q = 0; q < (int) sizeof(T); q++) { ((unsigned char *) &a)[q] = VP_T(o, i + q); ((unsigned char *) &b)[q] = o->dat[i + q]; } \
      a = (T) (a + b); for (int q = 0; q < (int) sizeof(T); q++) VP_T(o, i + q) = ((unsigned char *) &a)[q]; break; }
    VP_SUMCASE(unsigned, MPI_INT)
    VP_SUMCASE(unsigned long, MPI_LONG)
    case MPI_LONG_LONG:
    VP_SUMCASE(unsigned long, MPI_INT64_T)
#ifndef VP_NO_FP
    VP_SUMCASE(float, MPI_FLOAT)
    VP_SUMCASE(double, MPI_DOUBLE)
#endif
    default: VP_ASSERT(0, "model limit: element type of an RMA sum");
    }
  }
}
#ifdef VP_ACC_HOOK
void vp_acc_hook(vp_op_t *o);
#endif
#ifdef VP_TG_HOOK
void vp_tg_hook(vp_op_t *o, int after);   /* just before / after the operation takes effect at the target */
#else
#define vp_tg_hook(o, a) ((void) 0)
#endif
static void vp_do_target(vp_op_t *o)
{
  if (o->tg) return; vp_do_read(o); o->tg = true;
  vp_tg_hook(o, 0);
  if (o->kind == VP_PUT) { for (int i = 0; i < o->n; i++) VP_T(o, i) = o->dat[i]; }
  else if (o->kind == VP_GET) { for (int i = 0; i < o->n; i++) o->old[i] = VP_T(o, i); }
  else {
    if (o->kind == VP_GACC) for (int i = 0; i < o->n; i++) o->old[i] = VP_T(o, i);
#ifdef VP_ACC_HOOK
    vp_acc_hook(o);
#else
    vp_combine(o);
#endif
  }
  vp_tg_hook(o, 1);
}
static void vp_do_result(vp_op_t *o)
{
  if (o->wr) return; vp_do_target(o); o->wr = true;
  if (o->res && o->n > 0) VP_ASSERT(VP_LIVE(o->res + o->roff[0]) && VP_LIVE(o->res + o->roff[o->n - 1]), "MPI writes the result buffer while it exists");
  if (o->res) for (int i = 0; i < o->n; i++) o->res[o->roff[i]] = o->old[i];
}
static void vp_complete_local(vp_op_t *o)
{
  if (o->kind == VP_GET || o->kind == VP_GACC) vp_do_result(o);
  else vp_do_read(o);
}
static void vp_complete_all(vp_op_t *o) { vp_do_result(o); }

/* expand count x type into byte offsets; returns byte count */
static int vp_expand(long *off, int count, MPI_Datatype ty, int *elt)
{
  VP_TYPE_OK(ty); VP_USE(count >= 0, "non-negative count");
  int k = 0;
  if (!vp_derived(ty)) {
    int n = count * vp_esize(ty); *elt = ty;
    VP_ASSERT(n <= VP_MAXB, "model limit: bytes per RMA operation");
    for (int i = 0; i < n; i++) off[i] = i;
    return n;
  }
  const vp_type_t *t = &vp_type[ty - VP_TYPE_USER0];
  VP_USE(t->committed, "datatype committed before use");
  *elt = t->elt;
  for (int c = 0; c < count; c++)
    for (int b = 0; b < t->nblk; b++)
      for (long j = 0; j < t->len[b]; j++) {
        VP_ASSERT(k < VP_MAXB, "model limit: bytes per RMA operation");
        off[k++] = c * t->ext + t->off[b] + j;
      }
  return k;
}
#ifdef VP_RECORD
/* only where an operation reads or writes is recorded, block by block; no data moves */
void vp_hook_rma(int kind, int world, long at, long len);
static void vp_record(int kind, int w, int trank, long disp, int tc, MPI_Datatype tt)
{
  vp_type_t t = vp_get_type(tt);
  int reps = tc; long unit = t.ext;
  if (!vp_derived(tt)) { t.len[0] = (long) tc * t.size; reps = 1; }
  for (int c = 0; c < reps; c++) for (int b = 0; b < t.nblk; b++) {
    long at = disp * vp_win[w].du + c * unit + t.off[b];
    VP_USE((at >= 0) & (t.len[b] >= 0) & (at + t.len[b] <= vp_win[w].size[trank]), "RMA access stays inside the target's exposed memory");
    vp_hook_rma(kind, vp_win[w].w[trank], vp_win[w].off[trank] + at, t.len[b]);
  }
}
#endif
#ifdef VP_LIMIT
#define VP_LIGHT_REQ 1000
static bool vp_light;
void vp_hook_request(int kind, int w);
void vp_hook_flushed(int w);
#else
#define vp_hook_flushed(w) ((void) 0)
#endif
static void vp_issue(int kind, const void *src, int sc, MPI_Datatype st, void *res, int rc, MPI_Datatype rt,
                     int trank, MPI_Aint disp, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w, MPI_Request *req)
{
  VP_WIN_OK(w);
  VP_USE(trank >= 0 && trank < vp_win[w].n, "RMA target rank within the window's group");
  VP_USE(vp_win[w].lockall || vp_win[w].lock[trank], "RMA operation inside an access epoch");
#ifdef VP_LIMIT
  if (req) vp_hook_request(kind, w);
  if (vp_light) { if (req) { *req = VP_LIGHT_REQ; vp_live_req++; } return; }   /* only counted */
#endif
  VP_ASSERT(vp_nops < VP_MAXOPS, "model limit: number of RMA operations");
  vp_op_t *o = &vp_ops[vp_nops++];
  o->kind = (unsigned char) kind; o->win = w; o->trank = trank; o->world = vp_win[w].w[trank]; o->op = op; o->req = 0;
  o->src = src; o->res = res; o->rd = o->tg = o->wr = false;
#ifdef VP_RECORD
  (void) sc; (void) st; (void) rc; (void) rt;
  o->n = 0; o->src = NULL; o->res = NULL; vp_record(kind, w, trank, disp, tc, tt);
  if (req) { o->req = vp_nops; *req = vp_nops; vp_live_req++; }
  return;
#endif
  int se = 0, re = 0, te = 0;
  o->n = vp_expand(o->toff, tc, tt, &te); o->elt = te;
  for (int i = 0; i < o->n; i++) {
    long x = (long) disp * vp_win[w].du + o->toff[i];
    VP_USE(x >= 0 && x < vp_win[w].size[trank], "RMA access stays inside the target's exposed memory");
    o->toff[i] = vp_win[w].off[trank] + x;
  }
  if (kind == VP_PUT || kind == VP_ACC || (kind == VP_GACC && op != MPI_NO_OP)) {
    int n = vp_expand(o->soff, sc, st, &se);
    VP_USE(n == o->n, "origin and target transfer the same number of bytes");
    if (kind != VP_PUT) VP_USE(se == te, "origin and target accumulate the same element type");
  } else o->src = NULL;
  if (kind == VP_GET || kind == VP_GACC) {
    int n = vp_expand(o->roff, rc, rt, &re);
    VP_USE(n == o->n, "result and target transfer the same number of bytes");
  } else o->res = NULL;
  if (req) { o->req = vp_nops; *req = vp_nops; vp_live_req++; }
  if (vp_eager_only || vp_nd_bool()) { vp_do_result(o); return; }   /* takes effect at issue ... */
  /* ... or stays pending until a completion call */
}
int MPI_Put(const void *s, int sc, MPI_Datatype st, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w)
{ vp_issue(VP_PUT, s, sc, st, NULL, 0, MPI_BYTE, r, d, tc, tt, MPI_REPLACE, w, NULL); return 0; }
int MPI_Get(void *s, int sc, MPI_Datatype st, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w)
{ vp_issue(VP_GET, NULL, 0, MPI_BYTE, s, sc, st, r, d, tc, tt, MPI_NO_OP, w, NULL); return 0; }
int MPI_Accumulate(const void *s, int sc, MPI_Datatype st, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w)
{ vp_issue(VP_ACC, s, sc, st, NULL, 0, MPI_BYTE, r, d, tc, tt, op, w, NULL); return 0; }
int MPI_Get_accumulate(const void *s, int sc, MPI_Datatype st, void *b, int bc, MPI_Datatype bt, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w)
{ vp_issue(VP_GACC, s, sc, st, b, bc, bt, r, d, tc, tt, op, w, NULL); return 0; }
int MPI_Fetch_and_op(const void *s, void *b, MPI_Datatype t, int r, MPI_Aint d, MPI_Op op, MPI_Win w)
{ vp_issue(VP_GACC, s, 1, t, b, 1, t, r, d, 1, t, op, w, NULL); return 0; }
int MPI_Rput(const void *s, int sc, MPI_Datatype st, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w, MPI_Request *q)
{ VP_USE(vp_win[w].lockall || vp_win[w].lock[r], "request op in passive epoch"); vp_issue(VP_PUT, s, sc, st, NULL, 0, MPI_BYTE, r, d, tc, tt, MPI_REPLACE, w, q); return 0; }
int MPI_Rget(void *s, int sc, MPI_Datatype st, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w, MPI_Request *q)
{ vp_issue(VP_GET, NULL, 0, MPI_BYTE, s, sc, st, r, d, tc, tt, MPI_NO_OP, w, q); return 0; }
int MPI_Raccumulate(const void *s, int sc, MPI_Datatype st, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w, MPI_Request *q)
{ vp_issue(VP_ACC, s, sc, st, NULL, 0, MPI_BYTE, r, d, tc, tt, op, w, q); return 0; }
int MPI_Rget_accumulate(const void *s, int sc, MPI_Datatype st, void *b, int bc, MPI_Datatype bt, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w, MPI_Request *q)
{ vp_issue(VP_GACC, s, sc, st, b, bc, bt, r, d, tc, tt, op, w, q); return 0; }

static bool vp_epoch(int w, int r) { return vp_win[w].lockall || vp_win[w].lock[r]; }
static void vp_flush(int w, int trank, bool local)   /* trank -1: all */
{
  if (trank < 0) vp_hook_flushed(w);
  for (int i = 0; i < vp_nops; i++) {
    vp_op_t *o = &vp_ops[i];
    if (o->win != w || (trank >= 0 && o->trank != trank)) continue;
    if (local) vp_complete_local(o); else vp_complete_all(o);
  }
}
int MPI_Win_flush(int r, MPI_Win w) { VP_WIN_OK(w); VP_USE(r >= 0 && r < vp_win[w].n && vp_epoch(w, r), "flush rank and epoch"); vp_flush(w, r, false); return 0; }
int MPI_Win_flush_local(int r, MPI_Win w) { VP_WIN_OK(w); VP_USE(r >= 0 && r < vp_win[w].n && vp_epoch(w, r), "flush_local rank and epoch"); vp_flush(w, r, true); return 0; }
int MPI_Win_flush_all(MPI_Win w) { VP_WIN_OK(w); VP_USE(vp_win[w].lockall, "flush_all epoch"); vp_flush(w, -1, false); return 0; }
int MPI_Win_flush_local_all(MPI_Win w) { VP_WIN_OK(w); VP_USE(vp_win[w].lockall, "flush_local_all epoch"); vp_flush(w, -1, true); return 0; }
int vp_win_syncs;
int MPI_Win_sync(MPI_Win w) { VP_WIN_OK(w); vp_win[w].syncs++; vp_win_syncs++; vp_hook_sync(w); return 0; }
int MPI_Win_lock_all(int a, MPI_Win w) { (void) a; VP_WIN_OK(w); VP_USE(!vp_win[w].lockall, "lock_all not nested"); vp_win[w].lockall = 1; return 0; }
int MPI_Win_unlock_all(MPI_Win w) { VP_WIN_OK(w); VP_USE(vp_win[w].lockall, "unlock_all matches lock_all"); vp_flush(w, -1, false); vp_win[w].lockall = 0; return 0; }
#ifndef VP_OWN_LOCK
int MPI_Win_lock(int type, int r, int a, MPI_Win w)
{ (void) a; VP_WIN_OK(w); VP_USE(r >= 0 && r < vp_win[w].n && !vp_epoch(w, r), "lock rank and epoch"); vp_win[w].lock[r] = type; return 0; }
int MPI_Win_unlock(int r, MPI_Win w)
{ VP_WIN_OK(w); VP_USE(r >= 0 && r < vp_win[w].n && vp_win[w].lock[r], "unlock matches lock"); vp_flush(w, r, false); vp_win[w].lock[r] = 0; return 0; }
#endif
int MPI_Win_free(MPI_Win *w)
{
  VP_WIN_OK(*w); VP_USE(!vp_win[*w].lockall, "Win_free outside any epoch");
  for (int i = 0; i < vp_win[*w].n; i++) VP_USE(!vp_win[*w].lock[i], "Win_free outside any epoch");
  vp_win[*w].used = false; vp_live_win--; *w = MPI_WIN_NULL; return 0;
}

/* requests: request i+1 belongs to vp_ops[i] */
static void vp_req_done(MPI_Request *q)
{
  if (*q == MPI_REQUEST_NULL) return;
#ifdef VP_LIMIT
  if (*q == VP_LIGHT_REQ) { vp_live_req--; *q = MPI_REQUEST_NULL; return; }
#endif
  VP_USE(*q > 0 && *q <= vp_nops && vp_ops[*q - 1].req == *q, "valid request");
  vp_complete_local(&vp_ops[*q - 1]);
  vp_ops[*q - 1].req = 0; vp_live_req--; *q = MPI_REQUEST_NULL;
}
int vp_notready;      /* harness: how many MPI_Test calls still report an unfinished operation */
static bool vp_ready(void) { if (vp_notready > 0) { vp_notready--; return false; } return true; }
#ifndef VP_OWN_REQ
int MPI_Wait(MPI_Request *q, MPI_Status *s) { (void) s; vp_req_done(q); return 0; }
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *s) { (void) s; for (int i = 0; i < n; i++) vp_req_done(&q[i]); return 0; }
int MPI_Test(MPI_Request *q, int *flag, MPI_Status *s)
{ (void) s; if (*q == MPI_REQUEST_NULL || vp_ready()) { vp_req_done(q); *flag = 1; } else *flag = 0; return 0; }
int MPI_Testall(int n, MPI_Request *q, int *flag, MPI_Status *s)
{
  (void) s; bool any = false;
  for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL) any = true;
  if (!any || vp_ready()) { for (int i = 0; i < n; i++) vp_req_done(&q[i]); *flag = 1; } else *flag = 0;
  return 0;
}
#endif
int vp_iprobes;
#ifdef VP_IPROBE_HOOK
void vp_hook_iprobe(void);
#else
#define vp_hook_iprobe() ((void) 0)
#endif
int MPI_Iprobe(int s, int t, MPI_Comm c, int *flag, MPI_Status *st) { (void) s; (void) t; (void) st; VP_COMM_OK(c); vp_iprobes++; vp_hook_iprobe(); *flag = 0; return 0; }
#ifndef VP_OWN_OPS
int vp_nuserop;
MPI_User_function *vp_userop[8];
int MPI_Op_create(MPI_User_function *f, int commute, MPI_Op *o) { (void) commute; if (vp_live_op == 0) vp_nuserop = 0; VP_ASSERT(vp_nuserop < 8, "model limit: user operators"); vp_userop[vp_nuserop] = f; vp_live_op++; *o = VP_OP_USER0 + vp_nuserop++; return 0; }
int MPI_Op_free(MPI_Op *o) { VP_USE(*o >= VP_OP_USER0, "Op_free of a user operator"); vp_live_op--; *o = MPI_OP_NULL; return 0; }
#endif

#ifdef VP_COLL_HOOK
int vp_hook_allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c);
int vp_hook_bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c);
#endif
#ifndef VP_OWN_COLL
int MPI_Allgather(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c)
{
  VP_COMM_OK(c); int me = vp_comm_rank_of(c, VP_ME); int nb = rc * vp_esize(rt);
  VP_USE(s == MPI_IN_PLACE || sc * vp_esize(st) == nb, "allgather counts match");
  const void *mine = s == MPI_IN_PLACE ? (const void *) ((char *) r + (long) me * nb) : s;
  if (s != MPI_IN_PLACE) vp_copy_typed((char *) r + (long) me * nb, s, nb);
  for (int i = 0; i < vp_comm[c].n; i++) if (i != me) vp_contrib(vp_comm[c].r[i], mine, (char *) r + (long) i * nb, nb);
  return 0;
}
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  VP_COMM_OK(c);
#ifdef VP_COLL_HOOK
  if (vp_cur < 0) return vp_hook_allreduce(s, r, n, t, op, c);
#endif
  VP_USE(n == 1, "model limit: allreduce count");
  const void *mine = s == MPI_IN_PLACE ? r : s;
  if (t == MPI_LONG || t == MPI_LONG_LONG || t == MPI_AINT) {
    long acc = *(const long *) mine, m0 = acc;
    for (int i = 0; i < vp_comm[c].n; i++) if (vp_comm[c].r[i] != VP_ME) {
      long x; vp_contrib_long = true; vp_contrib(vp_comm[c].r[i], &m0, &x, 8); vp_contrib_long = false;
      if (op == MPI_MAX) { if (x > acc) acc = x; } else if (op == MPI_MIN) { if (x < acc) acc = x; } else if (op == MPI_SUM) acc += x; else VP_ASSERT(0, "model limit: allreduce op");
    }
#ifdef VP_OWN_MAX
    if (op == MPI_MAX) acc = vp_hook_max(acc);
#endif
    *(long *) r = acc;
  } else if (t == MPI_INT) {
    int acc = *(const int *) mine, m0 = acc;
    for (int i = 0; i < vp_comm[c].n; i++) if (vp_comm[c].r[i] != VP_ME) {
      int x; vp_contrib(vp_comm[c].r[i], &m0, &x, 4);
      if (op == MPI_MAX) { if (x > acc) acc = x; } else if (op == MPI_MIN) { if (x < acc) acc = x; } else if (op == MPI_SUM) acc += x; else VP_ASSERT(0, "model limit: allreduce op");
    }
    *(int *) r = acc;
  } else VP_ASSERT(0, "model limit: allreduce type");
  return 0;
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
  VP_COMM_OK(c); VP_USE(root >= 0 && root < vp_comm[c].n, "bcast root");
#ifdef VP_COLL_HOOK
  if (vp_cur < 0) return vp_hook_bcast(b, n, t, root, c);
#endif
  if (vp_comm[c].r[root] != VP_ME) vp_contrib(vp_comm[c].r[root], b, b, n * vp_esize(t));
  return 0;
}
#endif

/* everything the library holds from MPI and the allocator is back */
static void vp_init_env(void) { vp_mpi_start(); }
#endif
