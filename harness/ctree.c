/* Overlap tree (C15).
 * VP_SEQ n: n insertions of symbolic ranges into an empty tree, then a lookup and destruction.
 * otherwise: one insertion (VP_STEP 0), lookup (1) or destruction (2) on an arbitrary valid tree of height at most VP_HT:
 * every shape (or the one whose occupied slots are the bits of VP_SHAPE), every set of disjoint ranges -- so with the base case histories of any length whose tree stays within that height. */
#define VP_OWN_MALLOC
#include "vp_rt.h"
#include "mpi_model.h"
#include <armci.h>
#include <armci_internals.h>
#include <conflict_tree.h>
void vp_on_abort(void) { }
char *vp_getenv(const char *n) { (void) n; return NULL; }
void vp_hook_contrib(int w, const void *m, void *o, int n) { (void) w; (void) m; (void) o; (void) n; }
#ifndef SPAN
#define SPAN (1L << 20)
#endif
static unsigned char room[SPAN];
/* node allocator: a pool, so that every explored path has concrete nodes */
#define POOL 20
static struct ctree_node_s pool[POOL]; static bool live[POOL]; static int used;
void *vp_malloc(size_t n)
{ VP_ASSERT(n >= sizeof(struct ctree_node_s), "a node's worth of memory"); VP_ASSERT(used < POOL, "model limit: nodes"); live[used] = true; vp_live_malloc++; return &pool[used++]; }
void vp_free(void *p)
{
  if (p == NULL) return;
  int i = (int) ((struct ctree_node_s *) p - pool);
  VP_ASSERT(i >= 0 && i < used && live[i], "only live nodes are released"); live[i] = false; vp_live_malloc--;
}
static bool hits(long l, long h, long l2, long h2) { return (l <= h2) & (l2 <= h); }
static long L(const void *p) { return (const unsigned char *) p - room; }

/* whole-tree audit: order, parents, heights, balance; returns the number of nodes */
#define MAXD 6
static long audit_prev; static int audit_n;
static int audit(ctree_t t, ctree_t parent, int d)
{
  if (t == NULL) return 0;
  VP_ASSERT(d < MAXD, "no path is longer than a balanced tree allows");
  if (d >= MAXD) return 0;
  VP_ASSERT(t->parent == parent, "every node knows its parent");
  int hl = audit(t->left, t, d + 1);
  VP_ASSERT((L(t->lo) > audit_prev) & (L(t->lo) <= L(t->hi)), "ranges stay ordered and disjoint");
  audit_prev = L(t->hi); audit_n++;
  int hr = audit(t->right, t, d + 1);
  int h = (hl > hr ? hl : hr) + 1;
  VP_ASSERT(t->height == h, "recorded height is the height");
  VP_ASSERT(hl - hr <= 1 && hr - hl <= 1, "the tree is balanced");
  return h;
}
static void audit_all(ctree_t root, int n)
{ audit_prev = -1; audit_n = 0; audit(root, NULL, 0); VP_ASSERT(audit_n == n, "the tree holds exactly the accepted ranges"); }

#ifdef VP_SEQ
void harness(void)
{
  ctree_t root = CTREE_EMPTY; long lo[VP_SEQ], hi[VP_SEQ]; bool ok[VP_SEQ]; int n = 0;
  for (int i = 0; i < VP_SEQ; i++) {
    lo[i] = vp_lrange(0, SPAN - 1); hi[i] = vp_lrange(0, SPAN - 1); VP_ASSUME(lo[i] <= hi[i]);
    ok[i] = true;
    for (int j = 0; j < i; j++) ok[i] = ok[i] & !(ok[j] & hits(lo[i], hi[i], lo[j], hi[j]));
    int rc = ctree_insert(&root, room + lo[i], room + hi[i]);
    VP_ASSERT((rc == 0) == ok[i], "an insertion is refused exactly when the range overlaps an accepted one");
    n += ok[i];
  }
  audit_all(root, n);
  VP_ASSERT(vp_live_malloc == n, "one node per accepted range");
  ctree_destroy(&root);
  VP_ASSERT(root == CTREE_EMPTY && vp_live_malloc == 0, "destroying the tree frees every node");
  VP_REACHED("sequence");
}
#else
#define NN ((1 << VP_HT) - 1)
static ctree_t nd[NN + 1]; static bool here[2 * NN + 3]; static int ht[2 * NN + 3];
static long prev_hi = -1;
static void order(int i)         /* symbolic disjoint ranges, in order */
{
  if (i > NN) return;
  order(2 * i);
  if (here[i]) {
    long lo = vp_lrange(0, SPAN - 1), hi = vp_lrange(0, SPAN - 1);
    VP_ASSUME(lo > prev_hi && hi >= lo); prev_hi = hi;
    nd[i]->lo = room + lo; nd[i]->hi = room + hi;
  }
  order(2 * i + 1);
}
void harness(void)
{
  int n = 0;
  for (int i = 1; i <= NN; i++) {
    #ifdef VP_SHAPE
    here[i] = (VP_SHAPE >> i) & 1;
#else
    here[i] = vp_nd_bool() && (i == 1 || here[i / 2]);
#endif
    nd[i] = vp_malloc(sizeof(struct ctree_node_s)); n += here[i];
  }
  for (int i = NN; i >= 1; i--) {
    int l = ht[2 * i], r = ht[2 * i + 1];
    ht[i] = here[i] ? (l > r ? l : r) + 1 : 0;
    if (here[i]) VP_ASSUME(l - r <= 1 && r - l <= 1);
    nd[i]->height = ht[i]; nd[i]->parent = i == 1 ? NULL : nd[i / 2];
    nd[i]->left = 2 * i <= NN && here[2 * i] ? nd[2 * i] : NULL;
    nd[i]->right = 2 * i <= NN && here[2 * i + 1] ? nd[2 * i + 1] : NULL;
  }
  order(1);
  for (int i = 1; i <= NN; i++) if (!here[i]) vp_free(nd[i]);
  ctree_t root = here[1] ? nd[1] : CTREE_EMPTY;
  long lo = vp_lrange(0, SPAN - 1), hi = vp_lrange(0, SPAN - 1); VP_ASSUME(lo <= hi);
  bool clash = false;
  for (int i = 1; i <= NN; i++) if (here[i]) clash = clash | hits(lo, hi, L(nd[i]->lo), L(nd[i]->hi));
#if VP_STEP == 0
  long wl[NN + 1], wh[NN + 1]; for (int i = 1; i <= NN; i++) if (here[i]) { wl[i] = L(nd[i]->lo); wh[i] = L(nd[i]->hi); }
  int rc = ctree_insert(&root, room + lo, room + hi);
  VP_ASSERT((rc == 0) == !clash, "an insertion is refused exactly when the range overlaps an accepted one");
  VP_ASSERT(vp_live_malloc == n + (rc == 0), "a refused insertion keeps nothing");
  audit_all(root, n + (rc == 0));
  for (int i = 1; i <= NN; i++) if (here[i]) VP_ASSERT((L(nd[i]->lo) == wl[i]) & (L(nd[i]->hi) == wh[i]), "accepted ranges stay as they are");
  if (rc == 0) { VP_REACHED("inserted"); } else { VP_REACHED("refused"); }
#elif VP_STEP == 1
  ctree_t f = ctree_locate(root, room + lo, room + hi);
  VP_ASSERT((f != NULL) == clash, "a lookup finds a range exactly when one overlaps");
  if (f != NULL) { VP_ASSERT(hits(lo, hi, L(f->lo), L(f->hi)), "the range found overlaps the query"); VP_REACHED("found"); } else { VP_REACHED("none"); }
  audit_all(root, n);
#else
  (void) clash;
  ctree_destroy(&root);
  VP_ASSERT(root == CTREE_EMPTY && vp_live_malloc == 0, "destroying the tree frees every node");
  VP_REACHED("destroyed");
#endif
}
#endif
