/* Initialization: settings (C21), init/finalize counting (C22), library version (C27).
 * VP_MODE 0 settings: rows VP_LO..VP_HI of the table get symbolic values of VP_LEN characters
 *         1 any sequence of VP_STEPS init and finalize calls      2 rejected initializations
 *         3 library version: prefix VP_PRE, then symbolic         4 progress thread */
#define VP_NPROC 2
#define VP_ARENA 16
#define VP_OWN_GETENV
#define VP_OWN_INFO
#define VP_OWN_LIBVER
#define VP_OWN_PRINTF
#define VP_OWN_THREAD
#define VP_OWN_ONABORT
#define VP_IPROBE_HOOK
#include "vp_armci.h"
#include <armci_internals.h>
#ifndef VP_LEN
#define VP_LEN 4
#endif
#ifndef VP_LO
#define VP_LO 0
#define VP_HI (-1)
#endif
#ifndef VP_PRE
#define VP_PRE ""
#endif
#if defined(VP_MPICH)
#define ATOMICS 1
#define CHUNK 256
#define STRIDED ARMCII_STRIDED_DIRECT
#elif VP_OMPI >= 5
#define ATOMICS 1
#define CHUNK 1
#define STRIDED ARMCII_STRIDED_DIRECT
#else
#define ATOMICS 0
#define CHUNK 0
#define STRIDED ARMCII_STRIDED_IOV
#endif
#ifdef VP_PTHREADS
#define PAUSE INT
#else
#define PAUSE NONE
#endif
enum { NONE, BOOL, INT, NONNEG, LONG, STR, SHR, STRD, IOV };
#define G ARMCII_GLOBAL_STATE
#define ROWS \
  X(0, BOOL, "ARMCI_DEBUG_ALLOC", G.debug_alloc, 0) \
  X(1, BOOL, "ARMCI_NONCOLLECTIVE_GROUPS", G.noncollective_groups, 0) \
  X(2, BOOL, "ARMCI_CACHE_RANK_TRANSLATION", G.cache_rank_translation, 1) \
  X(3, BOOL, "ARMCI_IOV_CHECKS", G.iov_checks, 0) \
  X(4, BOOL, "ARMCI_USE_WIN_ALLOCATE", G.use_win_allocate, 1) \
  X(5, BOOL, "ARMCI_MSG_BARRIER_SYNCS", G.msg_barrier_syncs, 0) \
  X(6, BOOL, "ARMCI_EXPLICIT_NB_PROGRESS", G.explicit_nb_progress, 1) \
  X(7, BOOL, "ARMCI_USE_ALLOC_SHM", G.use_alloc_shm, 1) \
  X(8, BOOL, "ARMCI_DISABLE_SHM_ACC", G.disable_shm_accumulate, 0) \
  X(9, BOOL, "ARMCI_USE_SAME_OP", G.use_same_op, 0) \
  X(10, BOOL, "ARMCI_RMA_ATOMICITY", G.rma_atomicity, 0) \
  X(11, BOOL, "ARMCI_NO_FLUSH_LOCAL", G.end_to_end_flush, 0) \
  X(12, BOOL, "ARMCI_RMA_NOCHECK", G.rma_nocheck, 1) \
  X(13, BOOL, "ARMCI_USE_REQUEST_ATOMICS", G.use_request_atomics, ATOMICS) \
  X(14, BOOL, "ARMCI_FLUSH_REQUEST_ATOMICS", G.flush_request_atomics, 0) \
  X(15, INT, "ARMCI_VERBOSE", G.verbose, 0) \
  X(16, NONNEG, "ARMCI_IOV_BATCHED_LIMIT", G.iov_batched_limit, 0) \
  X(17, NONNEG, "ARMCI_IOV_DTYPE_CHUNK", G.iov_dtype_chunk, CHUNK) \
  X(18, NONNEG, "ARMCI_ACCUMULATE_GRANULARITY", G.accumulate_granularity, 1048576) \
  X(19, PAUSE, "ARMCI_PROGRESS_USLEEP", G.progress_usleep, 0) \
  X(20, LONG, "ARMCI_SHM_LIMIT", (long) G.memory_limit, 0) \
  X(21, SHR, "ARMCI_SHR_BUF_METHOD", (int) G.shr_buf_method, ARMCII_SHR_BUF_NOGUARD) \
  X(22, STRD, "ARMCI_STRIDED_METHOD", (int) G.strided_method, STRIDED) \
  X(23, IOV, "ARMCI_IOV_METHOD", (int) G.iov_method, ARMCII_IOV_BATCHED) \
  X(24, STR, "ARMCI_RMA_ORDERING", 0, 0)
#define NROW 25
#define NPRE ((int) sizeof(VP_PRE) - 1)
#if VP_HI >= VP_LO && VP_MODE == 0
static char text[VP_HI - VP_LO + 1][VP_LEN + sizeof(VP_PRE)];
static bool isset[VP_HI - VP_LO + 1];
#else
static char text[1][VP_LEN + 1]; static bool isset[1];
#endif
static const char *ptext; static const char *pulse; static int up_fail;
char *vp_getenv(const char *name)
{
#if VP_MODE == 0
#define X(i, k, n, f, d) if (i >= VP_LO && i <= VP_HI && vp_strcmp(name, n) == 0) return isset[i - VP_LO] ? text[i - VP_LO] : NULL;
  ROWS
#undef X
#elif VP_MODE == 3
  if (vp_strcmp(name, "ARMCI_VERBOSE") == 0) return (char *) "1";
#elif VP_MODE == 4
  if (vp_strcmp(name, "ARMCI_PROGRESS_THREAD") == 0) return (char *) ptext;
  if (vp_strcmp(name, "ARMCI_PROGRESS_USLEEP") == 0) return (char *) pulse;
#endif
  return NULL;
}
static long clampl(long v, long lo, long hi) { return v < lo ? lo : v > hi ? hi : v; }
/* the number at the start of s, limited to +-2^63 */
static long number(const char *s)
{
  int i = 0; bool neg = false, sat = false; unsigned long v = 0;
  for (; i < VP_LEN + NPRE && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13)); i++) { }
  if (s[i] == '+') i++; else if (s[i] == '-') { neg = true; i++; }
  for (; i < VP_LEN + NPRE && s[i] >= '0' && s[i] <= '9'; i++) {
    unsigned d = (unsigned) (s[i] - '0');
    if (v > 922337203685477580UL || (v == 922337203685477580UL && d > 7)) sat = true; else v = v * 10 + d;
  }
  return sat ? (neg ? -0x7fffffffffffffffL - 1 : 0x7fffffffffffffffL) : neg ? -(long) v : (long) v;
}
static int bad;
static long expect(int kind, bool set, const char *s, long def)
{
  if (!set) return def;
  switch (kind) {
    case BOOL: return s[0] == 'T' || s[0] == 't' || s[0] == 'Y' || s[0] == 'y' || s[0] == '1';
    case INT: return clampl(number(s), -2147483647L - 1, 2147483647L);
    case NONNEG: { long v = clampl(number(s), -2147483647L - 1, 2147483647L); if (v < 0) { bad++; return def == 1048576 ? def : 0; } return v; }
    case LONG: return number(s);
    case SHR: if (!vp_strcmp(s, "COPY")) return ARMCII_SHR_BUF_COPY; if (!vp_strcmp(s, "NOGUARD")) return ARMCII_SHR_BUF_NOGUARD; bad++; return def;
    case STRD: if (!vp_strcmp(s, "IOV")) return ARMCII_STRIDED_IOV; if (!vp_strcmp(s, "DIRECT")) return ARMCII_STRIDED_DIRECT; bad++; return def;
    case IOV:
#ifdef VP_MPICH
      if (!vp_strcmp(s, "AUTO")) return ARMCII_IOV_AUTO; if (!vp_strcmp(s, "CONSRV")) return ARMCII_IOV_CONSRV;
      if (!vp_strcmp(s, "BATCHED")) return ARMCII_IOV_BATCHED; if (!vp_strcmp(s, "DIRECT")) return ARMCII_IOV_DIRECT;
#else
      if (!vp_strcmp(s, "AUTO") || !vp_strcmp(s, "CONSRV") || !vp_strcmp(s, "BATCHED") || !vp_strcmp(s, "DIRECT")) return ARMCII_IOV_BATCHED;
#endif
      bad++; return def;
    default: return def;
  }
}
/* window hints that carry settings */
static int seen_shm, seen_same, seen_noshm, seen_ord; static char ord[32];
static bool shm_true;
void vp_hook_info(const char *k, const char *v)
{
  if (!vp_strcmp(k, "alloc_shm")) { seen_shm++; shm_true = !vp_strcmp(v, "true"); }
  if (!vp_strcmp(k, "accumulate_ops")) { VP_ASSERT(!vp_strcmp(v, "same_op"), "the hint's value"); seen_same++; }
  if (!vp_strcmp(k, "disable_shm_accumulate")) { VP_ASSERT(!vp_strcmp(v, "true"), "the hint's value"); seen_noshm++; }
  if (!vp_strcmp(k, "accumulate_ordering")) { seen_ord++; for (int i = 0; i < 31; i++) { ord[i] = v[i]; if (!v[i]) break; } }
}
static int sel_of(int row) { return row - VP_LO; }
static void settings(void)
{
#if VP_MODE == 0
  for (int r = 0; r <= VP_HI - VP_LO; r++) {
    isset[r] = vp_nd_bool();
    for (int i = 0; i < NPRE; i++) text[r][i] = VP_PRE[i];
    for (int i = 0; i < VP_LEN; i++) text[r][NPRE + i] = (char) vp_nd_u8();
    text[r][NPRE + VP_LEN] = 0;
#ifdef VP_SIGNS
    VP_ASSUME(text[r][0] == '-' || text[r][0] == '+' || text[r][0] == ' ' || (text[r][0] >= '0' && text[r][0] <= '9'));
#endif
  }
  vp_start();
  int warned = vp_warnings;
#define X(i, k, n, f, d) { bool s_ = i >= VP_LO && i <= VP_HI && isset[(i >= VP_LO && i <= VP_HI) ? i - VP_LO : 0]; \
    long e_ = expect(k, s_, text[(i >= VP_LO && i <= VP_HI) ? i - VP_LO : 0], d); \
    if (k != STR && k != NONE) VP_ASSERT((f) == e_, n " takes the documented value"); }
  ROWS
#undef X
  VP_ASSERT(bad == 0 || warned >= bad, "a value that is ignored is reported");
  VP_ASSERT(G.progress_thread == 0, "no progress thread unless asked for");
  VP_ASSERT(vp_threads == 0, "no progress thread unless asked for");
#if VP_LO <= 24 && VP_HI >= 24
  { const char *t = isset[24 - VP_LO] ? text[24 - VP_LO] : "rar,raw,war,waw"; const int cap = (int) sizeof G.rma_ordering; bool end = false;
    for (int i = 0; i < 19; i++) if (!end) { VP_ASSERT(G.rma_ordering[i] == t[i], "the ordering is stored as given"); if (!t[i]) end = true; }
    VP_ASSERT(cap >= 20 && (end || G.rma_ordering[cap - 1] == 0), "the ordering is terminated");
    if (!end && t[19]) VP_ASSERT(warned > 0, "a value that is cut is reported"); }
#endif
  /* the settings reach the windows */
  void *p[VP_NPROC];
  for (int w = 0; w < VP_NPROC; w++) { vp_plan[0].off[w] = 0; vp_plan[0].size[w] = 8; }
#ifdef VP_WINDOW
  vp_alloc_world(0, p);
  VP_ASSERT(seen_shm >= 1 && shm_true == (G.use_alloc_shm != 0), "shared memory is asked for as set");
  VP_ASSERT((seen_same > 0) == (G.use_same_op != 0), "same operations are promised as set");
  VP_ASSERT((seen_noshm > 0) == (G.disable_shm_accumulate != 0), "shared-memory accumulates are disabled as set");
  VP_ASSERT((seen_ord > 0) == (G.rma_ordering[0] != 0), "an ordering is given unless it is empty");
  if (seen_ord) for (int i = 0; i < 19; i++) { VP_ASSERT(ord[i] == G.rma_ordering[i], "the ordering is passed as set"); if (!ord[i]) break; }
  if (G.debug_alloc) for (int i = 0; i < 8; i++) VP_ASSERT(VP_M(0, i) == 0, "memory is cleared when asked for");
  VP_RC(PARMCI_Free(p[VP_ME]), "Free");
#else
  (void) p;
#endif
  (void) sel_of; (void) up_fail;
#endif
}
static int lvl, want; static bool legal = true;
void vp_on_abort(void) { VP_ASSERT(!legal, "only an impossible initialization is an error"); VP_REACHED("error"); }

static char version[VP_LEN + 64]; static char line[80]; static int lines;
#ifdef VP_OWN_LIBVER
int MPI_Get_library_version(char *s, int *l)
{
#if VP_MODE == 3
  int i = 0; for (; version[i]; i++) s[i] = version[i];
  s[i] = 0; *l = i;
#else
  s[0] = 'V'; s[1] = 0; *l = 1;
#endif
  return 0;
}
#endif
int vp_printf(const char *f, ...)
{
#if VP_MODE == 3
  if (vp_strstr(f, "MPI version ") || vp_strstr(f, "MPICH version ")) {
    va_list ap; va_start(ap, f); vp_vfmt(line, sizeof line, f, ap); va_end(ap); lines++;
  }
#endif
  (void) f; return 0;
}
static int polls; static long slept; static int naps;
void vp_hook_iprobe(void) { polls++; if (VP_MODE == 4 && vp_threads && polls >= 3) *(volatile int *) vp_thread_arg = 0; }
int vp_nanosleep(const struct timespec *t, struct timespec *r)
{ (void) r; VP_ASSERT(t->tv_nsec >= 0 && t->tv_nsec < 1000000000L && t->tv_sec >= 0, "a valid pause"); slept = t->tv_sec * 1000000L + t->tv_nsec / 1000; naps++; return 0; }
int vp_usleep(unsigned u) { slept = u; naps++; return 0; }
void vp_thread_joined(void) { VP_ASSERT(*(volatile int *) vp_thread_arg == 0, "the progress thread is told to stop before it is waited for"); }

static void clean(bool up)
{
  VP_ASSERT((PARMCI_Initialized() != 0) == up, "Initialized tells the state");
  VP_ASSERT(vp_live_comm == (up ? 1 : 0), "one communicator while initialized, none afterwards");
  VP_ASSERT(vp_live_op == (up ? 4 : 0), "reduction operators exist while initialized only");
  VP_ASSERT(vp_live_group == (up ? vp_live_group : 0) && vp_live_info == 0 && vp_live_type == 0, "no MPI object is left");
  if (!up) VP_ASSERT(vp_live_malloc == 0 && vp_live_win == 0 && vp_live_allocmem == 0, "no memory or window is left");
}
static int do_init(int how)
{
  switch (how) {
    case 0: return PARMCI_Init();
    case 1: { int c = 0; char **v = NULL; return PARMCI_Init_args(&c, &v); }
    case 2: return PARMCI_Init_mpi_comm(MPI_COMM_WORLD);
    case 3: return PARMCI_Init_thread(MPI_THREAD_SINGLE);
    default: return PARMCI_Init_thread_comm(MPI_THREAD_SINGLE, MPI_COMM_WORLD);
  }
}

static int pick(int lo, int hi) { return lo == hi ? lo : vp_range(lo, hi); }
void harness(void)
{
#if VP_MODE == 0
  vp_fill_mem(); settings();
  VP_REACHED("end"); if (bad) VP_REACHED("ignored value");
#elif VP_MODE == 1
  vp_init_env();
  int count = 0;
  for (int i = 0; i < VP_STEPS; i++) {
    bool in = vp_nd_bool(); int ops0 = vp_live_comm;
    if (in) {
      VP_RC(do_init((VP_HOW + i) % 5), "Init");
      count++;
      if (count == 1) VP_ASSERT(ops0 == 0, "first initialization");
      VP_ASSERT(ARMCI_GROUP_WORLD.size == VP_NPROC && ARMCI_GROUP_WORLD.rank == VP_ME, "the world group is the communicator's");
    } else {
      VP_RC(PARMCI_Finalize(), "Finalize");
      if (count > 0) count--;
    }
    clean(count > 0);
  }
  VP_REACHED("end"); if (count == 0) VP_REACHED("down"); if (count > 1) VP_REACHED("nested");
#elif VP_MODE == 5
  /* allocations live until the matching finalize */
  vp_init_env();
  VP_RC(do_init(VP_HOW), "Init"); VP_RC(do_init(VP_HOW), "Init");
  for (int w = 0; w < VP_NPROC; w++) { vp_plan[0].off[w] = 0; vp_plan[0].size[w] = 8; }
  void *p[VP_NPROC]; vp_alloc_world(0, p);
  VP_RC(PARMCI_Finalize(), "Finalize");
  VP_ASSERT(vp_live_win == 1 && vp_live_comm >= 1 && PARMCI_Initialized(), "an inner finalize leaves everything usable");
  int x = 5; VP_RC(PARMCI_Put(&x, p[1], 4, 1), "Put"); PARMCI_Fence(1);
  VP_ASSERT(VP_M(1, 0) == 5, "transfers still work");
  VP_RC(PARMCI_Finalize(), "Finalize"); clean(false);
  VP_RC(PARMCI_Finalize(), "Finalize"); clean(false);
  VP_RC(do_init(VP_HOW), "Init"); clean(true);
  vp_alloc_world(0, p); VP_RC(PARMCI_Free(p[VP_ME]), "Free");
  VP_RC(PARMCI_Finalize(), "Finalize"); clean(false);
  VP_REACHED("end");
#elif VP_MODE == 2
  vp_init_env();
  vp_mpi_up = vp_nd_bool(); vp_mpi_down = vp_nd_bool(); lvl = vp_range(0, 3); want = vp_range(0, 3); vp_thread_level = lvl;
  VP_ASSUME(vp_mpi_up || !vp_mpi_down);
  legal = vp_mpi_up && !vp_mpi_down && lvl >= want; vp_abort_expected = 1;
  int rc = VP_HOW ? PARMCI_Init_thread_comm(want, MPI_COMM_WORLD) : PARMCI_Init_thread(want);
  VP_ASSERT(legal || rc != 0, "initialization fails when MPI is not running or offers less thread support");
  if (legal) { VP_ASSERT(rc == 0, "Init reports success"); clean(true); VP_RC(PARMCI_Finalize(), "Finalize"); clean(false); VP_REACHED("up"); }
#elif VP_MODE == 3
  vp_init_env();
  for (int i = 0; i < NPRE; i++) version[i] = VP_PRE[i];
#ifdef VP_MAJ   /* a documented format with symbolic numbers: prefix, major, '.', minor, tail */
  int maj = pick(VP_MAJ), min = pick(VP_MIN), k = NPRE;
  if (maj >= 1000) version[k++] = (char) ('0' + maj / 1000);
  if (maj >= 1000) version[k++] = (char) ('0' + maj / 100 % 10);
  if (maj >= 10) version[k++] = (char) ('0' + maj / 10 % 10);
  version[k++] = (char) ('0' + maj % 10); version[k++] = '.';
  if (min >= 10) version[k++] = (char) ('0' + min / 10);
  version[k++] = (char) ('0' + min % 10);
  int k1 = k;
  /* what follows: a patch level and other text */
  const char tail[] = VP_TAIL;
  for (int i = 0; i < (int) sizeof tail - 1; i++) { char c = tail[i]; if (c == '#') c = (char) ('0' + vp_range(0, 9)); version[k++] = c; }
  version[k] = 0;
#else
  for (int i = 0; i < VP_LEN; i++) version[NPRE + i] = (char) vp_nd_u8();
  version[NPRE + VP_LEN] = 0;
#endif
  vp_start();
#ifdef VP_MAJ
  VP_ASSERT(lines == 1, "the version is printed");
  int a = 0; while (line[a] && line[a] != '=') a++;
  VP_ASSERT(line[a] == '=' && line[a + 1] == ' ', "the version is printed"); a += 2;
  for (int i = NPRE; i < k1; i++) VP_ASSERT(line[a + i - NPRE] == version[i], "the printed major and minor version are those reported");
  VP_ASSERT(line[a + k1 - NPRE] < '0' || line[a + k1 - NPRE] > '9', "the printed major and minor version are those reported");
#endif
  VP_RC(PARMCI_Finalize(), "Finalize");
  VP_REACHED("end");
#elif VP_MODE == 4
  /* progress thread: runs while initialized if MPI supports threads, polls, pauses as set, ends */
  static char a[2], b[VP_LEN + 1];
  vp_init_env();
  a[0] = (char) vp_nd_u8(); a[1] = 0; ptext = vp_nd_bool() ? a : NULL;
#ifdef VP_USLEEP
  const char u[] = VP_USLEEP; for (int i = 0; i < VP_LEN; i++) b[i] = i < (int) sizeof u ? u[i] : 0;
#else
  for (int i = 0; i < VP_LEN; i++) b[i] = (char) vp_nd_u8();
#endif
  b[VP_LEN] = 0; pulse = b;
  vp_thread_level = vp_range(0, 3);
  long us = pulse ? clampl(number(b), -2147483647L - 1, 2147483647L) : 0;
  bool on = ptext && (a[0] == 'T' || a[0] == 't' || a[0] == 'Y' || a[0] == 'y' || a[0] == '1');
  if (us < 0) us = us < -2147483647L ? 2147483647L : -us;
  VP_RC(PARMCI_Init_thread(vp_nd_bool() ? MPI_THREAD_SINGLE : vp_thread_level), "Init");
  VP_ASSERT((vp_threads == 1) == (on && vp_thread_level == MPI_THREAD_MULTIPLE), "the progress thread runs exactly when asked for and possible");
  if (on && vp_thread_level != MPI_THREAD_MULTIPLE) VP_ASSERT(vp_warnings > 0, "a setting that is ignored is reported");
  if (vp_threads) {
    vp_thread_fn(vp_thread_arg);
    VP_ASSERT(polls == 3, "the thread polls until told to stop");
    VP_ASSERT(us == 0 ? slept == 0 : (slept == us && naps == 3), "the thread pauses for the given time");
    VP_REACHED("thread");
  }
  VP_RC(PARMCI_Finalize(), "Finalize"); VP_ASSERT(vp_threads == 0, "the progress thread ends");
  clean(false);
  VP_REACHED("end");
#endif
}
