/* Mutexes (C09): one process runs the real Lock / Unlock against every behaviour of the others that keeps the protocol's invariant.
 *
 * State of one mutex: a byte per process at the host (1 = holds or waits) and the owner of the right to enter
 * (nobody, a holder, a process already notified, or a holder that cleared its byte and is about to notify the next waiter).
 * Invariant: nobody owns it exactly when all bytes are 0 (an owner about to notify has a waiter).
 * Every step of this process is checked to keep that invariant and to match it (entering only as the owner, passing the
 * right on exactly when a waiter exists, to the next one in circular order); the others' steps are arbitrary
 * invariant-preserving changes at every point where they can act.
 *   VP_HOST world rank of the host   VP_MX mutex index   VP_CNT mutexes of each process   VP_GRP handles on the group {2,0}
 *   VP_TRY use Trylock               VP_ERR 1..5 misuse is an error                       VP_LIFE create/destroy only */
#ifndef VP_NPROC
#define VP_NPROC 3
#endif
#define VP_ARENA 16
#define VP_OWN_LOCK
#define VP_OWN_CONTRIB
#define VP_WIN_HOOK
#define VP_NO_SNPRINTF
#include "vp_armci.h"
#ifndef VP_HOST
#define VP_HOST 1
#endif
#ifndef VP_MX
#define VP_MX 1
#endif
#ifndef VP_CNT
#define VP_CNT { 2, 2, 2, 2 }
#endif
#ifndef VP_GRP
#define VP_GRP 0
#endif
static const int cnt[4] = VP_CNT;
static int nwin, win[4]; static unsigned char *wbase[4]; static bool zeroed = true; static bool creating;
void vp_hook_contrib(int w, const void *mine, void *out, int n)
{
  if (creating && n == 4) { VP_ASSERT(*(const int *) mine == cnt[VP_ME], "the own count is contributed"); *(int *) out = cnt[w]; }
  else for (int i = 0; i < n; i++) ((unsigned char *) out)[i] = ((const unsigned char *) mine)[i];
}
#define NG (VP_GRP ? 2 : VP_NPROC)
static int grank(int w) { return VP_GRP ? (w == 2 ? 0 : w == 0 ? 1 : -1) : w; }
static int wrank(int r) { return VP_GRP ? (r == 0 ? 2 : 0) : r; }
#define ME grank(VP_ME)
#define HOSTR grank(VP_HOST)
void vp_hook_win(int w, void *base, long size)
{
  VP_ASSERT(nwin < 4, "model limit: windows");
  int i = nwin++; win[i] = w; wbase[i] = base;
  VP_ASSERT(size == (i < cnt[VP_ME] ? NG : 0), "each mutex a process hosts exposes one byte per process, none otherwise");
  for (int j = 0; j < size; j++) if (wbase[i][j] != 0) zeroed = false;
  for (int r = 0; r < NG; r++) { vp_win[w].off[r] = NG * i; vp_win[w].size[r] = i < cnt[wrank(r)] ? NG : 0; }
}
/* ---- the protocol state of the mutex in question */
#define B(r) VP_M(VP_HOST, NG * VP_MX + (r))
static int owner;                 /* group rank, -1 nobody */
static bool waiting, inside;      /* this process */
static int epoch; static unsigned char snap[4]; static int next, sent, tagged, tag_recv, tag_send, epochs;
static unsigned char other_ref[VP_NPROC * VP_ARENA];
static void others_act(void)
{
  /* arbitrary new bytes for the others; this process's byte and rights stay */
  int any = B(ME);
  for (int r = 0; r < NG; r++) if (r != ME) { B(r) = vp_nd_bool(); any |= B(r); }
  if (inside) return;                                   /* we own it: the others can only queue */
  int o = vp_range(-1, NG - 1);
  VP_ASSUME((o == -1) == !any);
  if (!waiting) VP_ASSUME(o != ME);
  owner = o;                                            /* while we wait it may already have been passed to us */
}
static void begin_epoch(int type, int r, int w)
{
  VP_WIN_OK(w); VP_USE(r >= 0 && r < vp_win[w].n && !vp_epoch(w, r), "lock rank and epoch");
  VP_ASSERT(type == MPI_LOCK_EXCLUSIVE, "the bytes are exchanged atomically");
  VP_ASSERT(w == win[VP_MX] && r == HOSTR, "the named mutex on the named host is used");
  vp_win[w].lock[r] = type;
  others_act();
  for (int q = 0; q < NG; q++) snap[q] = B(q);
  for (int i = 0; i < VP_MEMSZ; i++) other_ref[i] = vp_mem[i];
}
int MPI_Win_lock(int type, int r, int a, MPI_Win w) { (void) a; begin_epoch(type, r, w); return 0; }
int MPI_Win_unlock(int r, MPI_Win w)
{
  VP_WIN_OK(w); VP_USE(r >= 0 && r < vp_win[w].n && vp_win[w].lock[r], "unlock matches lock"); vp_flush(w, r, false); vp_win[w].lock[r] = 0;
  epochs++;
  int i = vp_range(0, VP_MEMSZ - 1);
  if (i != VP_HOST * VP_ARENA + NG * VP_MX + ME) VP_ASSERT(vp_mem[i] == other_ref[i], "only the caller's own byte changes");
  bool others = false; for (int q = 0; q < NG; q++) if (q != ME && snap[q]) others = true;
  if (epoch == 1) {               /* Lock */
    VP_ASSERT(B(ME) == 1, "a locking process registers itself");
    if (others) waiting = true; else { owner = ME; inside = true; }
  } else {                        /* Unlock */
    VP_ASSERT(B(ME) == 0, "an unlocking process withdraws itself");
    next = -1;
    for (int k = NG - 1; k >= 1; k--) if (snap[(ME + k) % NG]) next = (ME + k) % NG;
    inside = false; if (next < 0) owner = -1;
  }
  return 0;
}
static int grp_comm = -1;
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *s)
{
  (void) b; (void) t; (void) s; (void) n; VP_COMM_OK(c);
  VP_ASSERT(waiting, "a process waits for a notification only when the mutex is taken (otherwise it would sleep forever)");
  int from = vp_range(0, NG - 1); VP_ASSUME(from != ME);
  VP_ASSERT(src == MPI_ANY_SOURCE || src == from, "the notification may come from any process");
  grp_comm = c; tag_recv = tag; tagged = 1;
  others_act(); VP_ASSUME(owner == ME); waiting = false; inside = true;
  return 0;
}
static int do_send(int n, int dst, int tag, MPI_Comm c)
{
  VP_COMM_OK(c); VP_ASSERT(n == 0, "notifications are empty messages");
  VP_ASSERT(epoch == 2 && epochs == 2, "a notification is sent only after the byte is cleared");
  VP_ASSERT(next >= 0, "nobody is notified when nobody waits");
  VP_ASSERT(dst == next, "the next waiter in circular rank order is notified");
  VP_ASSERT(sent == 0, "one waiter is notified once");
  if (tagged) VP_ASSERT(tag == tag_recv && c == grp_comm, "notification and wait use the same tag and communicator");
  tag_send = tag; sent++; owner = next; return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { (void) b; (void) t; return do_send(n, dst, tag, c); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { (void) b; (void) t; return do_send(n, dst, tag, c); }

void harness(void)
{
  vp_start();
  ARMCI_Group g; armcix_mutex_hdl_t h = NULL; (void) h;
#if VP_GRP
  int list[2] = { 2, 0 }; ARMCI_Group_create(2, list, &g);
#else
  (void) g;
#endif
  long m0 = vp_live_malloc; int a0 = vp_live_allocmem, w0 = vp_live_win, c0 = vp_live_comm, i0 = vp_live_info;
#if VP_ERR == 2
  vp_abort_expected = 1; VP_REACHED("misuse"); PARMCI_Destroy_mutexes(); VP_ASSERT(0, "destroying mutexes that do not exist is an error");
#elif VP_ERR == 3
  vp_abort_expected = 1; VP_REACHED("misuse"); PARMCI_Lock(0, 1); VP_ASSERT(0, "locking without mutexes is an error");
#elif VP_ERR == 4
  vp_abort_expected = 1; VP_REACHED("misuse"); PARMCI_Unlock(0, 1); VP_ASSERT(0, "unlocking without mutexes is an error");
#endif
  creating = true;
#if VP_GRP
  h = ARMCIX_Create_mutexes_hdl(cnt[VP_ME], &g); VP_ASSERT(h != NULL, "handle");
#else
  VP_RC(PARMCI_Create_mutexes(cnt[VP_ME]), "Create_mutexes");
#endif
  creating = false;
  int mx = 0; for (int r = 0; r < NG; r++) if (cnt[wrank(r)] > mx) mx = cnt[wrank(r)];
  VP_ASSERT(nwin == mx, "as many mutexes as the largest count, on every process");
  VP_ASSERT(zeroed, "mutexes start free");
  VP_ASSERT(vp_live_info == i0, "no info object is left");
#if VP_ERR == 1
  vp_abort_expected = 1; VP_REACHED("misuse"); PARMCI_Create_mutexes(1); VP_ASSERT(0, "creating mutexes twice is an error");
#elif VP_ERR == 5
  vp_abort_expected = 1; VP_REACHED("misuse"); int bad = vp_nd_int(); VP_ASSUME(bad < 0 || bad >= mx); PARMCI_Lock(bad, 1); VP_ASSERT(0, "an unknown mutex is an error");
#elif VP_ERR == 6
  vp_abort_expected = 1; VP_REACHED("misuse"); int bad = vp_nd_int(); VP_ASSUME(bad < 0 || bad >= mx); PARMCI_Unlock(bad, 1); VP_ASSERT(0, "an unknown mutex is an error");
#endif
#ifndef VP_LIFE
  for (int round = 0; round < 2; round++) {
    epoch = 1; epochs = 0; sent = 0; next = -1; waiting = false; inside = false; B(ME) = 0;
    long m1 = vp_live_malloc;
    others_act();
#if VP_GRP
#ifdef VP_TRY
    VP_ASSERT(ARMCIX_Trylock_hdl(h, VP_MX, VP_HOST) == 0, "Trylock reports that it has the mutex");
#else
    ARMCIX_Lock_hdl(h, VP_MX, VP_HOST);
#endif
#else
    PARMCI_Lock(VP_MX, VP_HOST);
#endif
    VP_ASSERT(epochs == 1, "one exchange");
    VP_ASSERT(inside && owner == ME, "Lock returns only to the one process that may enter");
    VP_ASSERT(vp_live_malloc == m1, "Lock keeps no memory");
    epoch = 2;
#if VP_GRP
    ARMCIX_Unlock_hdl(h, VP_MX, VP_HOST);
#else
    PARMCI_Unlock(VP_MX, VP_HOST);
#endif
    VP_ASSERT(epochs == 2 && !inside, "Unlock gives the mutex up");
    VP_ASSERT(sent == (next >= 0), "a waiter is notified exactly when there is one: no wakeup is lost");
    VP_ASSERT(vp_live_malloc == m1, "Unlock keeps no memory");
    vp_nops = 0;
    if (tagged) { VP_REACHED("waited"); } else if (sent) { VP_REACHED("handed on"); }
#ifdef VP_ONCE
    break;
#endif
  }
#endif
#if VP_GRP
  VP_RC(ARMCIX_Destroy_mutexes_hdl(h), "Destroy");
#else
  VP_RC(PARMCI_Destroy_mutexes(), "Destroy_mutexes");
#endif
  VP_ASSERT(vp_live_malloc == m0 && vp_live_allocmem == a0 && vp_live_win == w0 && vp_live_comm == c0, "destroying the mutexes returns every resource");
#if defined(VP_LIFE) && !VP_GRP
  nwin = 0; creating = true; VP_RC(PARMCI_Create_mutexes(cnt[VP_ME]), "Create_mutexes again"); creating = false;
  VP_ASSERT(nwin == mx, "mutexes can be created again");
#endif
  VP_REACHED("end");
}
