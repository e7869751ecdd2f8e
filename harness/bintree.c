/* Binary tree (C20): the real call is made for two arbitrary processes of a job of arbitrary size; the answers must fit together:
 * p's parent reports p as a child, p's children report p as parent, every non-root has a parent nearer to the root.
 * With the distance to the root strictly falling along parents, these local facts make one tree that contains every process once. */
#define VP_NPROC 2
#define VP_ARENA 8
#define VP_OWN_COMM
#define VP_NO_SNPRINTF
#include "vp_armci.h"
#include <armci_internals.h>
#include <message.h>
static int np, me;
static int vp_comm_rank_of(MPI_Comm c, int w) { (void) c; return w; }
static int vp_group_rank_of(int g, int w) { (void) g; return w; }
int MPI_Comm_rank(MPI_Comm c, int *r) { VP_USE(c == ARMCI_GROUP_WORLD.comm, "the world of this library"); *r = me; return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { VP_USE(c == ARMCI_GROUP_WORLD.comm, "the world of this library"); *n = np; return 0; }
static int root, up, left, right;
static void ask(int p)
{
  me = p; ARMCI_GROUP_WORLD.rank = p; ARMCI_GROUP_WORLD.size = np;
  root = vp_nd_int(); up = vp_nd_int(); left = vp_nd_int(); right = vp_nd_int();   /* whatever the caller's variables held */
  armci_msg_bintree(VP_SCOPE, &root, &up, &left, &right);
}
#define RANK(x) ((x) >= 0 && (x) < np)
void harness(void)
{
  np = vp_range(1, VP_NPMAX); ARMCI_GROUP_WORLD.comm = 7;
  int p = vp_range(0, VP_NPMAX - 1); VP_ASSUME(p < np);
  ask(p);
  int r = root, u = up, l = left, q = right;
  if (VP_SCOPE == SCOPE_NODE) { VP_ASSERT(r == p && u == -1 && l == -1 && q == -1, "a process alone in its scope is the root and has no neighbours"); VP_REACHED("node"); return; }
  VP_ASSERT(RANK(r), "the root is a process"); VP_ASSERT(u == -1 || RANK(u), "the parent is a process or none");
  VP_ASSERT(l == -1 || RANK(l), "the left child is a process or none"); VP_ASSERT(q == -1 || RANK(q), "the right child is a process or none");
  VP_ASSERT((u == -1) == (p == r), "exactly the root has no parent");
  VP_ASSERT(l != p && q != p && (l == -1 || l != q), "two different children");
  if (u >= 0) { ask(u); VP_ASSERT(root == r, "every process reports the same root"); VP_ASSERT(left == p || right == p, "the parent of a process has it as a child");
    VP_REACHED("up");
    /* climbing reaches the root */
    int c = u; bool there = false; for (int i = 0; i < VP_DEPTH; i++) { if (c == r) { there = true; break; } ask(c); c = up; if (c < 0) break; }
    VP_ASSERT(there, "the root is reached by following parents"); }
  if (l >= 0) { ask(l); VP_ASSERT(root == r && up == p, "the left child has the process as its parent"); VP_REACHED("left"); }
  if (q >= 0) { ask(q); VP_ASSERT(root == r && up == p, "the right child has the process as its parent"); VP_REACHED("right"); }
}
