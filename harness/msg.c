/* Two-sided messages and broadcasts (C19), binary tree (C20).
 * VP_MODE SND RCV RCVANY BCAST BRDCST BCASTSC GBCAST TREE;  VP_SHR buffer in the caller's slice;  VP_SCOPE */
#ifndef VP_NPROC
#define VP_NPROC 3
#endif
#define VP_ARENA 24
#define VP_COLL_HOOK
#define VP_NO_SNPRINTF
#include "vp_armci.h"
#include <armci_internals.h>
#include <message.h>
enum { SND, RCV, RCVANY, BCAST, BRDCST, BCASTSC, GBCAST };
#ifndef VP_SCOPE
#define VP_SCOPE 0
#endif
#define CAP 8                    /* buffer size */
#define AT 8                     /* offset of the buffer in the slice */
static unsigned char priv[CAP + 8], before[CAP + 8], payload[CAP], *x;
static int len, peer, tag, events, from;
static bool is_root;
int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tg, MPI_Comm c)
{
  VP_COMM_OK(c); events++;
  int sz; MPI_Type_size(t, &sz);
  VP_ASSERT(n * sz == len, "the whole message is sent"); VP_ASSERT(tg == tag, "under the named tag");
  VP_ASSERT(c != MPI_COMM_WORLD, "not on a communicator of the user's"); VP_USE(dst >= 0 && dst < vp_comm[c].n, "destination rank"); VP_ASSERT(vp_comm[c].r[dst] == peer, "to the named process");
  for (int i = 0; i < CAP; i++) if (i < len) VP_ASSERT(((const unsigned char *) b)[i] == payload[i], "the sender's bytes are sent");
  return 0;
}
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int dst, int tg, MPI_Comm c) { return MPI_Send(b, n, t, dst, tg, c); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tg, MPI_Comm c, MPI_Status *s)
{
  VP_COMM_OK(c); events++;
  int sz; MPI_Type_size(t, &sz);
  VP_ASSERT(n * sz == CAP, "the whole buffer is offered"); VP_ASSERT(tg == tag, "under the named tag");
  if (VP_MODE == RCVANY) VP_ASSERT(src == MPI_ANY_SOURCE, "from any process"); else { VP_USE(src >= 0 && src < vp_comm[c].n, "source rank"); VP_ASSERT(vp_comm[c].r[src] == peer, "from the named process"); }
  for (int i = 0; i < CAP; i++) if (i < len) ((unsigned char *) b)[i] = payload[i];
  if (s) { s->MPI_SOURCE = vp_comm_rank_of(c, from); s->MPI_TAG = tg; s->vp_bytes = len; }
  return 0;
}
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { int sz; MPI_Type_size(t, &sz); *n = s->vp_bytes / sz; return 0; }
int MPI_Get_elements(const MPI_Status *s, MPI_Datatype t, int *n) { return MPI_Get_count(s, t, n); }
int vp_hook_bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
  events++; int sz; MPI_Type_size(t, &sz);
  VP_ASSERT(n * sz == len, "the whole message is broadcast"); VP_ASSERT(vp_comm[c].r[root] == peer, "from the named root");
  for (int i = 0; i < CAP; i++) if (i < len) { if (peer == VP_ME) VP_ASSERT(((unsigned char *) b)[i] == payload[i], "the root's bytes are broadcast"); else ((unsigned char *) b)[i] = payload[i]; }
  return 0;
}
int vp_hook_allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { (void) s; (void) r; (void) n; (void) t; (void) op; (void) c; VP_ASSERT(0, "no reduction"); return 0; }
void harness(void)
{
  vp_start(); void *bp[3];
  for (int w = 0; w < VP_NPROC; w++) { vp_plan[0].off[w] = 0; vp_plan[0].size[w] = VP_ARENA; }
  vp_alloc_world(0, bp);
  ARMCI_Group g, *gp = &g; ARMCI_Group_get_world(&g);
#ifdef VP_SUB
  ARMCI_Group sub; int l[2] = { 2, 0 }; ARMCI_Group_create(2, l, &sub); gp = &sub;
#endif
  vp_fill_mem();
  x = priv;
#ifdef VP_SHR
  x = vp_arena + AT;
#endif
  len = vp_range(0, CAP); tag = vp_range(0, 32767); from = vp_range(0, VP_NPROC - 1); peer = vp_range(0, VP_NPROC - 1);
#ifdef VP_LEN
  len = VP_LEN;
#endif
#ifdef VP_PEER
  peer = VP_PEER;
#endif
#ifdef VP_SUB
  VP_ASSUME(peer != 1);
#endif
  for (int i = 0; i < CAP; i++) payload[i] = vp_nd_u8();
  bool out = VP_MODE == SND || (VP_MODE >= BCAST && peer == VP_ME);
  for (int i = 0; i < CAP + 8; i++) { unsigned char v = vp_nd_u8(); before[i] = v; x[i] = v; }
  if (out) for (int i = 0; i < CAP; i++) { if (i < len) { x[i] = payload[i]; before[i] = payload[i]; } }
  for (int w = 0; w < VP_NPROC; w++) for (int i = 0; i < VP_ARENA; i++) VP_R(w, i) = VP_M(w, i);
  int am = vp_live_allocmem; long ml = vp_live_malloc;
  int got = -5, rc = 0; bool quiet = vp_nd_bool(); int *gotp = quiet ? NULL : &got;
  switch (VP_MODE) {
  case SND: armci_msg_snd(tag, x, len, peer); break;
  case RCV: armci_msg_rcv(tag, x, CAP, gotp, peer); break;
  case RCVANY: rc = armci_msg_rcvany(tag, x, CAP, gotp); VP_ASSERT(rc == from, "the sender is reported"); break;
  case BCAST: armci_msg_bcast(x, len, peer); break;
  case BRDCST: armci_msg_brdcst(x, len, peer); break;
  case BCASTSC: armci_msg_bcast_scope(VP_SCOPE, x, len, peer); break;
  case GBCAST: armci_msg_group_bcast_scope(VP_SCOPE, x, len, peer, gp); break;
  }
  bool node = VP_MODE >= BCASTSC && VP_SCOPE == SCOPE_NODE;
  if ((VP_MODE == RCV || VP_MODE == RCVANY) && !quiet) VP_ASSERT(got == len, "the length of the message is reported");
  VP_ASSERT(events == (node ? 0 : 1), "one message is exchanged");
  VP_ASSERT(vp_live_allocmem == am && vp_live_malloc == ml, "no temporary buffer is left behind");
  if (!node && VP_MODE != SND) for (int i = 0; i < CAP; i++) if (i < len) before[i] = payload[i];
  for (int i = 0; i < CAP + 8; i++) VP_ASSERT(x[i] == before[i], "the buffer holds the message, and nothing beyond it has changed");
  if (x != priv) for (int i = 0; i < CAP + 8; i++) VP_R(VP_ME, AT + i) = VP_M(VP_ME, AT + i);
  vp_check_mem();
  VP_REACHED("delivered");
}
