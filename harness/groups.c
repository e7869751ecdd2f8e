/* Processor groups (C13, C14).
 * VP_MODE 0  collective creation from any list of VP_GN distinct ranks (noncollective algorithm not in use), seen by an arbitrary process
 * VP_MODE 2  split and duplicate with arbitrary colours and keys
 * VP_CACHE   rank translation cache */
#ifndef VP_NPROC
#define VP_NPROC 4
#endif
static int vp_me;
#define VP_ME vp_me
#define VP_ARENA 8
#define VP_MAXCOMM 16
#define VP_NO_SNPRINTF
#include "vp_armci.h"
#include <armci_internals.h>
#ifndef VP_CACHE
#define VP_CACHE 1
#endif
#ifndef VP_MODE
#define VP_MODE 0
#endif
#ifndef VP_GN
#define VP_GN 3
#endif
#define P VP_NPROC

int MPI_Intercomm_create(MPI_Comm c, int leader, MPI_Comm peer, int remote, int tag, MPI_Comm *o)
{ (void) c; (void) leader; (void) peer; (void) remote; (void) tag; (void) o; VP_ASSERT(0, "the collective algorithm is in use"); return 0; }
int MPI_Intercomm_merge(MPI_Comm c, int high, MPI_Comm *o) { (void) c; (void) high; (void) o; VP_ASSERT(0, "the collective algorithm is in use"); return 0; }
static int colour[P], key[P];
int MPI_Comm_split(MPI_Comm c, int col, int ky, MPI_Comm *o)
{
  VP_COMM_OK(c); VP_ASSERT(col == colour[vp_me] && ky == key[vp_me], "colour and key are passed on");
  VP_USE(col >= 0 || col == MPI_UNDEFINED, "colour is non-negative or undefined");
  if (col == MPI_UNDEFINED) { *o = MPI_COMM_NULL; return 0; }
  int k = vp_new_comm(); int n = 0;
  /* by key, ties by rank in the parent */
  bool took[P]; for (int i = 0; i < P; i++) took[i] = false;
  for (int s = 0; s < P; s++) {
    int best = -1;
    for (int i = 0; i < vp_comm[c].n; i++) if (!took[i] && colour[vp_comm[c].r[i]] == col && (best < 0 || key[vp_comm[c].r[i]] < key[vp_comm[c].r[best]])) best = i;
    if (best >= 0) { took[best] = true; vp_comm[k].r[n] = vp_comm[c].r[best]; n++; }
  }
  vp_comm[k].n = n; *o = k; return 0;
}

static ARMCI_Group g, g2, got;
static int base_comm, base_group; static long base_malloc;
/* the group g has exactly the members m[0..n-1] in this order, and every query agrees */
static void check_group(ARMCI_Group *g, int n, const int *m)
{
  int pos = -1, r = 7, s = 7;
  for (int i = 0; i < n; i++) if (m[i] == vp_me) pos = i;
  int rc = ARMCI_Group_rank(g, &r); ARMCI_Group_size(g, &s);
  if (pos < 0) {
    VP_ASSERT(rc != 0 && r < 0, "a process outside the group learns that it is"); VP_ASSERT(s == 0, "the group of a non-member is empty");
    VP_ASSERT(g->comm == MPI_COMM_NULL, "a non-member has no communicator");
    VP_REACHED("non-member"); return;
  }
  VP_ASSERT(rc == 0 && r == pos, "group ranks follow the list"); VP_ASSERT(s == n, "the group has the listed size");
  VP_ASSERT(g->comm > 0 && g->comm < VP_MAXCOMM && vp_comm[g->comm].used && vp_comm[g->comm].n == n, "the group's communicator spans the group");
  int i = vp_range(0, n - 1);
  VP_ASSERT(vp_comm[g->comm].r[i] == m[i], "the group's communicator lists its members in the same order");
  VP_ASSERT(ARMCI_Absolute_id(g, i) == m[i], "a group rank translates to the listed process");
  VP_ASSERT(ARMCII_Translate_absolute_to_group(g, m[i]) == i, "translation back gives the group rank");
  int w = vp_range(0, P - 1); bool in = false; for (int j = 0; j < n; j++) in = in || m[j] == w;
  if (!in) VP_ASSERT(ARMCII_Translate_absolute_to_group(g, w) == -1, "a process outside the group is reported as such");
  VP_REACHED("member");
}
static void settle(void)
{
  VP_ASSERT(vp_live_comm == base_comm, "no communicator is left behind"); VP_ASSERT(vp_live_group == base_group, "no MPI group is left behind");
  VP_ASSERT(vp_live_malloc == base_malloc, "no translation table is left behind");
}
static void mark(void) { base_comm = vp_live_comm; base_group = vp_live_group; base_malloc = vp_live_malloc; }

void harness(void)
{
  vp_me = vp_range(0, P - 1);
#ifdef VP_WHO
  vp_me = VP_WHO;
#endif
  vp_start();
#if VP_MODE == 0
  int list[P], l2[P], m2[P];
  for (int i = 0; i < VP_GN; i++) { list[i] = vp_range(0, P - 1); for (int j = 0; j < i; j++) VP_ASSUME(list[i] != list[j]); }
  int keep[P]; for (int i = 0; i < VP_GN; i++) keep[i] = list[i];
  mark();
  ARMCI_Group_create(VP_GN, list, &g);
  for (int i = 0; i < VP_GN; i++) VP_ASSERT(list[i] == keep[i], "the list is not modified");
  check_group(&g, VP_GN, keep);
  ARMCI_Group_get_world(&got); int s; ARMCI_Group_size(&got, &s); VP_ASSERT(s == P, "the world group is unaffected");
  int all[P]; for (int i = 0; i < P; i++) all[i] = i;
  check_group(&got, P, all);
  if (g.comm != MPI_COMM_NULL) {
    /* a child of the child: ranks in the list are ranks of the parent */
    ARMCI_Group_set_default(&g); ARMCI_Group_get_default(&got); VP_ASSERT(got.comm == g.comm && got.size == VP_GN, "the default group is the one set");
    for (int i = 0; i < VP_GN - 1; i++) { l2[i] = vp_range(0, VP_GN - 1); for (int j = 0; j < i; j++) VP_ASSUME(l2[i] != l2[j]); m2[i] = keep[l2[i]]; }
    ARMCI_Group_create(VP_GN - 1, l2, &g2);
    check_group(&g2, VP_GN - 1, m2);
    ARMCI_Group_free(&g2);
    ARMCI_Group_get_world(&got); ARMCI_Group_set_default(&got);
    VP_REACHED("child");
  }
  ARMCI_Group_free(&g);
  settle();
#else
  for (int w = 0; w < P; w++) { colour[w] = vp_range(0, 2); if (colour[w] == 2) colour[w] = MPI_UNDEFINED; key[w] = vp_range(0, 3); }
  ARMCI_Group_get_world(&got); mark();
  VP_ASSERT(ARMCIX_Group_split(&got, colour[vp_me], key[vp_me], &g) == 0, "split reports success");
  int m[P], n = 0; bool took[P]; for (int i = 0; i < P; i++) took[i] = false;
  for (int k = 0; k < 4; k++) for (int w = 0; w < P; w++) if (key[w] == k && colour[w] == colour[vp_me] && colour[w] != MPI_UNDEFINED) { m[n] = w; n++; }
  if (n > 0) check_group(&g, n, m); else { VP_ASSERT(g.comm == MPI_COMM_NULL, "an undefined colour joins no group"); VP_REACHED("undefined"); }
  if (n > 0) {
    VP_ASSERT(ARMCIX_Group_dup(&g, &g2) == 0, "dup reports success"); VP_ASSERT(g2.comm != g.comm, "a duplicate has its own communicator");
    check_group(&g2, n, m); ARMCI_Group_free(&g2);
  }
  ARMCI_Group_free(&g); settle();
#endif
}
