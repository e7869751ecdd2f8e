/* Noncollective group creation (C14): the real algorithm is run for every process of the job, and the calls in which processes pair up
 * are matched with one another as MPI would match them, round by round, until everybody is done or nobody can proceed.
 * A communicator handle is its own contents (members packed three bits each), so there are no tables to look up.
 * VP_GN length of the list of ranks (any distinct ranks, any order).   VP_LIB_COMMLONG must be defined. */
#define VP_OWN_COMM
#ifndef VP_NPROC
#define VP_NPROC 5
#endif
#define VP_ARENA 8
#define VP_NO_SNPRINTF
static int vp_me;
#define VP_ME vp_me
#include "vp_armci.h"
#include <armci_internals.h>
#define P VP_NPROC
#ifndef VP_GN
#define VP_GN 3
#endif
/* contents: bits 0..20 members, 21..24 size, 25 user communicator, 26 intercommunicator, 27 copy of the world, 30..50 remote members, 51..54 remote size */
#define USR (1L << 25)
#define INTER (1L << 26)
#define WDUP (1L << 27)
#define MEMS(c) ((c) & 0x1fffffL)
#define SIZ(c) ((int) (((c) >> 21) & 15))
#define RMEMS(c) (((c) >> 30) & 0x1fffffL)
#define RSIZ(c) ((int) (((c) >> 51) & 15))
#define MEM(c, i) ((int) (((c) >> (3 * (i))) & 7))
static long ident(void) { long m = 0; for (int i = 0; i < P; i++) m |= (long) i << (3 * i); return m; }
static long cont(MPI_Comm c)
{
  if (c == MPI_COMM_WORLD) return ident() | ((long) P << 21);
  if (c == MPI_COMM_SELF) return (long) vp_me | (1L << 21);
  VP_USE((c & USR) != 0, "valid communicator");
  return c;
}
static int vp_comm_rank_of(MPI_Comm c, int w) { long k = cont(c); int r = -1; for (int i = 0; i < P; i++) if (i < SIZ(k) && MEM(k, i) == w) r = i; return r; }
static int vp_group_rank_of(int g, int w) { (void) g; (void) w; return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = vp_comm_rank_of(c, vp_me); return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { *n = SIZ(cont(c)); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) { vp_live_comm++; *o = cont(c) | USR | (c == MPI_COMM_WORLD ? WDUP : 0); return 0; }
int MPI_Comm_free(MPI_Comm *c) { VP_USE((*c & USR) != 0, "Comm_free of a live communicator"); vp_live_comm--; *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { (void) c; *g = 0; VP_ASSERT(0, "not used by this algorithm"); return 0; }
int MPI_Group_free(MPI_Group *g) { (void) g; return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *ra, MPI_Group b, int *rb) { (void) a; (void) n; (void) ra; (void) b; (void) rb; return 0; }
int MPI_Group_incl(MPI_Group a, int n, const int *ra, MPI_Group *o) { (void) a; (void) n; (void) ra; (void) o; VP_ASSERT(0, "the noncollective algorithm is in use"); return 0; }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *o) { (void) c; (void) g; (void) o; VP_ASSERT(0, "the noncollective algorithm is in use"); return 0; }
int MPI_Comm_split(MPI_Comm c, int a, int b, MPI_Comm *o) { (void) c; (void) a; (void) b; (void) o; VP_ASSERT(0, "the noncollective algorithm is in use"); return 0; }

/* what has been matched so far: per process the remote group of its calls, and what the call was */
#ifndef LEVELS
#define LEVELS 3
#endif
static long got[P][LEVELS], local[P][LEVELS]; static int side[P][LEVELS]; static int ndone[P];
static struct { bool on; long c; int leader; int remote; int tag; } req[P];
static int calls; static bool stuck;
int MPI_Intercomm_create(MPI_Comm c, int leader, MPI_Comm peer, int remote, int tag, MPI_Comm *o)
{
  long k = cont(c), pk = cont(peer);
  VP_USE(leader >= 0 && leader < SIZ(k), "local leader rank");
  VP_USE(remote >= 0 && remote < SIZ(pk), "remote leader rank");
  long rem = 0;
  if (!stuck & (calls < ndone[vp_me])) {
    VP_ASSERT((MEMS(k) | ((long) SIZ(k) << 21)) == local[vp_me][calls], "a process repeats its steps");
    rem = got[vp_me][calls];
  } else if (!stuck) {
    req[vp_me].on = true; req[vp_me].c = MEMS(k) | ((long) SIZ(k) << 21); req[vp_me].leader = MEM(k, leader); req[vp_me].remote = MEM(pk, remote); req[vp_me].tag = tag;
    stuck = true;
  }
  calls++; vp_live_comm++;
  *o = MEMS(k) | ((long) SIZ(k) << 21) | USR | INTER | (rem << 30);
  return 0;
}
int MPI_Intercomm_merge(MPI_Comm c, int high, MPI_Comm *o)
{
  VP_USE((c & USR) != 0 && (c & INTER) != 0, "merge of an intercommunicator");
  if (!stuck) for (int i = 0; i < LEVELS; i++) if (i == calls - 1) side[vp_me][i] = high ? 1 : 0;
  long a = high ? RMEMS(c) : MEMS(c), b = high ? MEMS(c) : RMEMS(c); int na = high ? RSIZ(c) : SIZ(c);
  vp_live_comm++;
  *o = ((a | (b << (3 * na))) & 0x1fffffL) | ((long) (SIZ(c) + RSIZ(c)) << 21) | USR;
  return 0;
}
static ARMCI_Group g;
static void world_of(int me)
{
  vp_me = me; vp_live_comm = 0;
  ARMCII_GLOBAL_STATE.noncollective_groups = 1; ARMCII_GLOBAL_STATE.cache_rank_translation = 0;
  MPI_Comm_dup(MPI_COMM_WORLD, &ARMCI_GROUP_WORLD.comm);
  MPI_Comm_dup(MPI_COMM_WORLD, &ARMCI_GROUP_WORLD.noncoll_pgroup_comm);
  ARMCI_GROUP_WORLD.size = P; ARMCI_GROUP_WORLD.rank = me;
  ARMCI_GROUP_DEFAULT = ARMCI_GROUP_WORLD;
  calls = 0; stuck = false; req[me].on = false;
}
void harness(void)
{
  static int list[P]; int alist[P];
  vp_abort_expected = 0;
  for (int i = 0; i < VP_GN; i++) { alist[i] = vp_range(0, P - 1); for (int j = 0; j < i; j++) VP_ASSUME(alist[i] != alist[j]); }
  for (int round = 0; round <= VP_ROUNDS; round++) {
    for (int p = 0; p < P; p++) {
      world_of(p);
      for (int i = 0; i < VP_GN; i++) list[i] = alist[i];
      int base = vp_live_comm;
      ARMCI_Group_create(VP_GN, list, &g);
      for (int i = 0; i < VP_GN; i++) VP_ASSERT(list[i] == alist[i], "the list is not modified");
      if (round == VP_ROUNDS) {
        VP_ASSERT(!stuck, "group creation finishes on every process");
        if (stuck) continue;
        int pos = -1, r = 7, s = 7; for (int i = 0; i < VP_GN; i++) if (alist[i] == p) pos = i;
        int rc = ARMCI_Group_rank(&g, &r); ARMCI_Group_size(&g, &s);
        if (pos < 0) {
          VP_ASSERT(rc != 0 && r < 0 && s == 0 && g.comm == MPI_COMM_NULL, "a process outside the list gets the empty group"); VP_REACHED("outsider");
        } else {
          VP_ASSERT(rc == 0 && r == pos, "group ranks follow the list"); VP_ASSERT(s == VP_GN, "the group has the listed size");
          for (int i = 0; i < VP_GN; i++) VP_ASSERT(MEM(g.comm, i) == alist[i], "the group's communicator lists its members in order");
          VP_REACHED("member");
        }
        ARMCI_Group_free(&g); VP_ASSERT(vp_live_comm == base, "no communicator is left behind");
      }
    }
    if (round == VP_ROUNDS) break;
    /* match what is pending: a group led by p names o as remote leader, a group led by o names p, and all members of both make the call */
    bool ready[P], progress = false, waiting = false;
    for (int p = 0; p < P; p++) { ready[p] = req[p].on; waiting = waiting | req[p].on; }
    for (int p = 0; p < P; p++) for (int o = 0; o < P; o++) if (o != p) {
      bool ok = ready[p] & ready[o] & (req[p].leader == p) & (req[p].remote == o) & (req[o].leader == o) & (req[o].remote == p) & (req[p].tag == req[o].tag);
      if (!ok) continue;
      for (int q = 0; q < P; q++) {
        bool in = false, ino = false;
        for (int i = 0; i < P; i++) { in = in | ((i < SIZ(req[p].c)) & (MEM(req[p].c, i) == q)); ino = ino | ((i < SIZ(req[o].c)) & (MEM(req[o].c, i) == q)); }
        VP_ASSERT(!(in & ino), "the two halves of a merge are disjoint");
        ok = ok & (!in | (ready[q] & (req[q].c == req[p].c) & (req[q].leader == p))) & (!ino | (ready[q] & (req[q].c == req[o].c) & (req[q].leader == o)));
      }
      if (!ok) continue;
      progress = true;
      for (int q = 0; q < P; q++) {
        bool in = false;
        for (int i = 0; i < P; i++) in = in | ((i < SIZ(req[p].c)) & (MEM(req[p].c, i) == q));
        if (in) { VP_ASSERT(ndone[q] < LEVELS, "the number of merge steps is bounded"); for (int d = 0; d < LEVELS; d++) if (d == ndone[q]) { got[q][d] = req[o].c; local[q][d] = req[p].c; } ndone[q]++; }
      }
    }
    VP_ASSERT(progress | !waiting, "some pending merge can be entered by both halves (no deadlock)");
  }
  /* all members of one half chose one side, the other half the other */
  for (int p = 0; p < P; p++) for (int q = 0; q < P; q++) for (int c = 0; c < LEVELS; c++) for (int d = 0; d < LEVELS; d++)
    if ((c < ndone[p]) & (d < ndone[q])) {
      if (got[p][c] == local[q][d] && local[p][c] == got[q][d]) VP_ASSERT(side[p][c] != side[q][d], "the two halves of a merge choose different sides");
      if (got[p][c] == got[q][d] && local[p][c] == local[q][d]) VP_ASSERT(side[p][c] == side[q][d], "the members of one half choose the same side");
    }
}
