/* Public names without weak symbols (C26): every ARMCI_X calls PARMCI_X once, with the same arguments, and returns its result.
 * Only the wrappers are under test; the implementations are replaced by stubs that record their arguments.
 * One list of the public interface (from armci.h): R(ret, name), then the argument types. */
#include "vp_armci.h"
#undef harness
static int called; static int ncalls;
static unsigned long rec[10]; static double recd;
static unsigned long ret_l; static double ret_d;
int PARMCI_Init(void) { ncalls++; called = 1; return (int) ret_l;}
int PARMCI_Init_args(int * a0, char *** a1) { ncalls++; called = 2; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; return (int) ret_l;}
int PARMCI_Init_thread(int a0) { ncalls++; called = 3; rec[0] = (unsigned long) a0; return (int) ret_l;}
int PARMCI_Init_thread_comm(int a0, MPI_Comm a1) { ncalls++; called = 4; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; return (int) ret_l;}
int PARMCI_Init_mpi_comm(MPI_Comm a0) { ncalls++; called = 5; rec[0] = (unsigned long) a0; return (int) ret_l;}
int PARMCI_Initialized(void) { ncalls++; called = 6; return (int) ret_l;}
int PARMCI_Finalize(void) { ncalls++; called = 7; return (int) ret_l;}
int PARMCI_Malloc(void ** a0, armci_size_t a1) { ncalls++; called = 8; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; return (int) ret_l;}
int PARMCI_Free(void * a0) { ncalls++; called = 9; rec[0] = (unsigned long) a0; return (int) ret_l;}
void * PARMCI_Malloc_local(armci_size_t a0) { ncalls++; called = 10; rec[0] = (unsigned long) a0; return (void *) ret_l;}
int PARMCI_Free_local(void * a0) { ncalls++; called = 11; rec[0] = (unsigned long) a0; return (int) ret_l;}
void PARMCI_Barrier(void) { ncalls++; called = 12; }
void PARMCI_Fence(int a0) { ncalls++; called = 13; rec[0] = (unsigned long) a0; }
void PARMCI_AllFence(void) { ncalls++; called = 14; }
void PARMCI_Access_begin(void * a0) { ncalls++; called = 15; rec[0] = (unsigned long) a0; }
void PARMCI_Access_end(void * a0) { ncalls++; called = 16; rec[0] = (unsigned long) a0; }
int PARMCI_Get(void * a0, void * a1, int a2, int a3) { ncalls++; called = 17; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; return (int) ret_l;}
int PARMCI_Put(void * a0, void * a1, int a2, int a3) { ncalls++; called = 18; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; return (int) ret_l;}
int PARMCI_Acc(int a0, void * a1, void * a2, void * a3, int a4, int a5) { ncalls++; called = 19; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; rec[4] = (unsigned long) a4; rec[5] = (unsigned long) a5; return (int) ret_l;}
int PARMCI_PutS(void * a0, int * a1, void * a2, int * a3, int * a4, int a5, int a6) { ncalls++; called = 20; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; rec[4] = (unsigned long) a4; rec[5] = (unsigned long) a5; rec[6] = (unsigned long) a6; return (int) ret_l;}
int PARMCI_GetS(void * a0, int * a1, void * a2, int * a3, int * a4, int a5, int a6) { ncalls++; called = 21; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; rec[4] = (unsigned long) a4; rec[5] = (unsigned long) a5; rec[6] = (unsigned long) a6; return (int) ret_l;}
int PARMCI_AccS(int a0, void * a1, void * a2, int * a3, void * a4, int * a5, int * a6, int a7, int a8) { ncalls++; called = 22; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; rec[4] = (unsigned long) a4; rec[5] = (unsigned long) a5; rec[6] = (unsigned long) a6; rec[7] = (unsigned long) a7; rec[8] = (unsigned long) a8; return (int) ret_l;}
int PARMCI_Put_flag(void * a0, void* a1, int a2, int * a3, int a4, int a5) { ncalls++; called = 23; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; rec[4] = (unsigned long) a4; rec[5] = (unsigned long) a5; return (int) ret_l;}
int PARMCI_PutS_flag(void * a0, int * a1, void * a2, int * a3, int * a4, int a5, int * a6, int a7, int a8) { ncalls++; called = 24; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; rec[4] = (unsigned long) a4; rec[5] = (unsigned long) a5; rec[6] = (unsigned long) a6; rec[7] = (unsigned long) a7; rec[8] = (unsigned long) a8; return (int) ret_l;}
int PARMCI_PutV(armci_giov_t * a0, int a1, int a2) { ncalls++; called = 25; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; return (int) ret_l;}
int PARMCI_GetV(armci_giov_t * a0, int a1, int a2) { ncalls++; called = 26; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; return (int) ret_l;}
int PARMCI_AccV(int a0, void * a1, armci_giov_t * a2, int a3, int a4) { ncalls++; called = 27; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; rec[4] = (unsigned long) a4; return (int) ret_l;}
int PARMCI_Wait(armci_hdl_t* a0) { ncalls++; called = 28; rec[0] = (unsigned long) a0; return (int) ret_l;}
int PARMCI_Test(armci_hdl_t* a0) { ncalls++; called = 29; rec[0] = (unsigned long) a0; return (int) ret_l;}
int PARMCI_WaitProc(int a0) { ncalls++; called = 30; rec[0] = (unsigned long) a0; return (int) ret_l;}
int PARMCI_WaitAll(void) { ncalls++; called = 31; return (int) ret_l;}
int PARMCI_NbPut(void * a0, void * a1, int a2, int a3, armci_hdl_t * a4) { ncalls++; called = 32; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; rec[4] = (unsigned long) a4; return (int) ret_l;}
int PARMCI_NbGet(void * a0, void * a1, int a2, int a3, armci_hdl_t * a4) { ncalls++; called = 33; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; rec[4] = (unsigned long) a4; return (int) ret_l;}
int PARMCI_NbAcc(int a0, void * a1, void * a2, void * a3, int a4, int a5, armci_hdl_t * a6) { ncalls++; called = 34; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; rec[4] = (unsigned long) a4; rec[5] = (unsigned long) a5; rec[6] = (unsigned long) a6; return (int) ret_l;}
int PARMCI_NbPutS(void * a0, int * a1, void * a2, int * a3, int * a4, int a5, int a6, armci_hdl_t * a7) { ncalls++; called = 35; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; rec[4] = (unsigned long) a4; rec[5] = (unsigned long) a5; rec[6] = (unsigned long) a6; rec[7] = (unsigned long) a7; return (int) ret_l;}
int PARMCI_NbGetS(void * a0, int * a1, void * a2, int * a3, int * a4, int a5, int a6, armci_hdl_t * a7) { ncalls++; called = 36; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; rec[4] = (unsigned long) a4; rec[5] = (unsigned long) a5; rec[6] = (unsigned long) a6; rec[7] = (unsigned long) a7; return (int) ret_l;}
int PARMCI_NbAccS(int a0, void * a1, void * a2, int * a3, void * a4, int * a5, int * a6, int a7, int a8, armci_hdl_t * a9) { ncalls++; called = 37; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; rec[4] = (unsigned long) a4; rec[5] = (unsigned long) a5; rec[6] = (unsigned long) a6; rec[7] = (unsigned long) a7; rec[8] = (unsigned long) a8; rec[9] = (unsigned long) a9; return (int) ret_l;}
int PARMCI_NbPutV(armci_giov_t * a0, int a1, int a2, armci_hdl_t* a3) { ncalls++; called = 38; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; return (int) ret_l;}
int PARMCI_NbGetV(armci_giov_t * a0, int a1, int a2, armci_hdl_t* a3) { ncalls++; called = 39; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; return (int) ret_l;}
int PARMCI_NbAccV(int a0, void * a1, armci_giov_t * a2, int a3, int a4, armci_hdl_t* a5) { ncalls++; called = 40; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; rec[4] = (unsigned long) a4; rec[5] = (unsigned long) a5; return (int) ret_l;}
int PARMCI_PutValueInt(int a0, void * a1, int a2) { ncalls++; called = 41; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; return (int) ret_l;}
int PARMCI_PutValueLong(long a0, void * a1, int a2) { ncalls++; called = 42; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; return (int) ret_l;}
int PARMCI_PutValueFloat(float a0, void * a1, int a2) { ncalls++; called = 43; recd = a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; return (int) ret_l;}
int PARMCI_PutValueDouble(double a0, void * a1, int a2) { ncalls++; called = 44; recd = a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; return (int) ret_l;}
int PARMCI_NbPutValueInt(int a0, void * a1, int a2, armci_hdl_t * a3) { ncalls++; called = 45; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; return (int) ret_l;}
int PARMCI_NbPutValueLong(long a0, void * a1, int a2, armci_hdl_t * a3) { ncalls++; called = 46; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; return (int) ret_l;}
int PARMCI_NbPutValueFloat(float a0, void * a1, int a2, armci_hdl_t * a3) { ncalls++; called = 47; recd = a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; return (int) ret_l;}
int PARMCI_NbPutValueDouble(double a0, void * a1, int a2, armci_hdl_t * a3) { ncalls++; called = 48; recd = a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; return (int) ret_l;}
int PARMCI_GetValueInt(void * a0, int a1) { ncalls++; called = 49; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; return (int) ret_l;}
long PARMCI_GetValueLong(void * a0, int a1) { ncalls++; called = 50; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; return (long) ret_l;}
float PARMCI_GetValueFloat(void * a0, int a1) { ncalls++; called = 51; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; return (float) ret_d;}
double PARMCI_GetValueDouble(void * a0, int a1) { ncalls++; called = 52; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; return (double) ret_d;}
int PARMCI_Create_mutexes(int a0) { ncalls++; called = 53; rec[0] = (unsigned long) a0; return (int) ret_l;}
int PARMCI_Destroy_mutexes(void) { ncalls++; called = 54; return (int) ret_l;}
void PARMCI_Lock(int a0, int a1) { ncalls++; called = 55; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; }
void PARMCI_Unlock(int a0, int a1) { ncalls++; called = 56; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; }
int PARMCI_Rmw(int a0, void * a1, void * a2, int a3, int a4) { ncalls++; called = 57; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; rec[4] = (unsigned long) a4; return (int) ret_l;}
void parmci_msg_barrier(void) { ncalls++; called = 58; }
void parmci_msg_group_barrier(ARMCI_Group * a0) { ncalls++; called = 59; rec[0] = (unsigned long) a0; }
int PARMCI_Malloc_memdev(void ** a0, armci_size_t a1, const char* a2) { ncalls++; called = 60; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; return (int) ret_l;}
int PARMCI_Malloc_group_memdev(void ** a0, armci_size_t a1, ARMCI_Group * a2, const char * a3) { ncalls++; called = 61; rec[0] = (unsigned long) a0; rec[1] = (unsigned long) a1; rec[2] = (unsigned long) a2; rec[3] = (unsigned long) a3; return (int) ret_l;}
int PARMCI_Free_memdev(void * a0) { ncalls++; called = 62; rec[0] = (unsigned long) a0; return (int) ret_l;}

static unsigned long nd(void) { unsigned long v = 0; for (int i = 0; i < 8; i++) v = v << 8 | vp_nd_u8(); return v; }
void harness(void)
{
  unsigned long a[10]; double d = (double) (int) nd();
  for (int i = 0; i < 10; i++) { a[i] = nd(); rec[i] = ~a[i]; }
  ret_l = nd(); ret_d = (double) (int) nd();
  int f = vp_range(1, 62);
  int n = 0; unsigned long r = 0, want = 0, as = 0; double rd = 0, wantd = 0;
  switch (f) {
    case 1: r = (unsigned long) ARMCI_Init(); want = (unsigned long) (int) ret_l; break;
    case 2: r = (unsigned long) ARMCI_Init_args((int *) a[0], (char ***) a[1]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (int *) a[0], "argument 1 of ARMCI_Init_args is passed on"); VP_ASSERT(rec[1] == (unsigned long) (char ***) a[1], "argument 2 of ARMCI_Init_args is passed on"); break;
    case 3: r = (unsigned long) ARMCI_Init_thread((int) a[0]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (int) a[0], "argument 1 of ARMCI_Init_thread is passed on"); break;
    case 4: r = (unsigned long) ARMCI_Init_thread_comm((int) a[0], (MPI_Comm) a[1]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (int) a[0], "argument 1 of ARMCI_Init_thread_comm is passed on"); VP_ASSERT(rec[1] == (unsigned long) (MPI_Comm) a[1], "argument 2 of ARMCI_Init_thread_comm is passed on"); break;
    case 5: r = (unsigned long) ARMCI_Init_mpi_comm((MPI_Comm) a[0]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (MPI_Comm) a[0], "argument 1 of ARMCI_Init_mpi_comm is passed on"); break;
    case 6: r = (unsigned long) ARMCI_Initialized(); want = (unsigned long) (int) ret_l; break;
    case 7: r = (unsigned long) ARMCI_Finalize(); want = (unsigned long) (int) ret_l; break;
    case 8: r = (unsigned long) ARMCI_Malloc((void **) a[0], (armci_size_t) a[1]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (void **) a[0], "argument 1 of ARMCI_Malloc is passed on"); VP_ASSERT(rec[1] == (unsigned long) (armci_size_t) a[1], "argument 2 of ARMCI_Malloc is passed on"); break;
    case 9: r = (unsigned long) ARMCI_Free((void *) a[0]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_Free is passed on"); break;
    case 10: r = (unsigned long) ARMCI_Malloc_local((armci_size_t) a[0]); want = (unsigned long) (void *) ret_l; VP_ASSERT(rec[0] == (unsigned long) (armci_size_t) a[0], "argument 1 of ARMCI_Malloc_local is passed on"); break;
    case 11: r = (unsigned long) ARMCI_Free_local((void *) a[0]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_Free_local is passed on"); break;
    case 12: ARMCI_Barrier(); break;
    case 13: ARMCI_Fence((int) a[0]); VP_ASSERT(rec[0] == (unsigned long) (int) a[0], "argument 1 of ARMCI_Fence is passed on"); break;
    case 14: ARMCI_AllFence(); break;
    case 15: ARMCI_Access_begin((void *) a[0]); VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_Access_begin is passed on"); break;
    case 16: ARMCI_Access_end((void *) a[0]); VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_Access_end is passed on"); break;
    case 17: r = (unsigned long) ARMCI_Get((void *) a[0], (void *) a[1], (int) a[2], (int) a[3]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_Get is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_Get is passed on"); VP_ASSERT(rec[2] == (unsigned long) (int) a[2], "argument 3 of ARMCI_Get is passed on"); VP_ASSERT(rec[3] == (unsigned long) (int) a[3], "argument 4 of ARMCI_Get is passed on"); break;
    case 18: r = (unsigned long) ARMCI_Put((void *) a[0], (void *) a[1], (int) a[2], (int) a[3]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_Put is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_Put is passed on"); VP_ASSERT(rec[2] == (unsigned long) (int) a[2], "argument 3 of ARMCI_Put is passed on"); VP_ASSERT(rec[3] == (unsigned long) (int) a[3], "argument 4 of ARMCI_Put is passed on"); break;
    case 19: r = (unsigned long) ARMCI_Acc((int) a[0], (void *) a[1], (void *) a[2], (void *) a[3], (int) a[4], (int) a[5]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (int) a[0], "argument 1 of ARMCI_Acc is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_Acc is passed on"); VP_ASSERT(rec[2] == (unsigned long) (void *) a[2], "argument 3 of ARMCI_Acc is passed on"); VP_ASSERT(rec[3] == (unsigned long) (void *) a[3], "argument 4 of ARMCI_Acc is passed on"); VP_ASSERT(rec[4] == (unsigned long) (int) a[4], "argument 5 of ARMCI_Acc is passed on"); VP_ASSERT(rec[5] == (unsigned long) (int) a[5], "argument 6 of ARMCI_Acc is passed on"); break;
    case 20: r = (unsigned long) ARMCI_PutS((void *) a[0], (int *) a[1], (void *) a[2], (int *) a[3], (int *) a[4], (int) a[5], (int) a[6]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_PutS is passed on"); VP_ASSERT(rec[1] == (unsigned long) (int *) a[1], "argument 2 of ARMCI_PutS is passed on"); VP_ASSERT(rec[2] == (unsigned long) (void *) a[2], "argument 3 of ARMCI_PutS is passed on"); VP_ASSERT(rec[3] == (unsigned long) (int *) a[3], "argument 4 of ARMCI_PutS is passed on"); VP_ASSERT(rec[4] == (unsigned long) (int *) a[4], "argument 5 of ARMCI_PutS is passed on"); VP_ASSERT(rec[5] == (unsigned long) (int) a[5], "argument 6 of ARMCI_PutS is passed on"); VP_ASSERT(rec[6] == (unsigned long) (int) a[6], "argument 7 of ARMCI_PutS is passed on"); break;
    case 21: r = (unsigned long) ARMCI_GetS((void *) a[0], (int *) a[1], (void *) a[2], (int *) a[3], (int *) a[4], (int) a[5], (int) a[6]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_GetS is passed on"); VP_ASSERT(rec[1] == (unsigned long) (int *) a[1], "argument 2 of ARMCI_GetS is passed on"); VP_ASSERT(rec[2] == (unsigned long) (void *) a[2], "argument 3 of ARMCI_GetS is passed on"); VP_ASSERT(rec[3] == (unsigned long) (int *) a[3], "argument 4 of ARMCI_GetS is passed on"); VP_ASSERT(rec[4] == (unsigned long) (int *) a[4], "argument 5 of ARMCI_GetS is passed on"); VP_ASSERT(rec[5] == (unsigned long) (int) a[5], "argument 6 of ARMCI_GetS is passed on"); VP_ASSERT(rec[6] == (unsigned long) (int) a[6], "argument 7 of ARMCI_GetS is passed on"); break;
    case 22: r = (unsigned long) ARMCI_AccS((int) a[0], (void *) a[1], (void *) a[2], (int *) a[3], (void *) a[4], (int *) a[5], (int *) a[6], (int) a[7], (int) a[8]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (int) a[0], "argument 1 of ARMCI_AccS is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_AccS is passed on"); VP_ASSERT(rec[2] == (unsigned long) (void *) a[2], "argument 3 of ARMCI_AccS is passed on"); VP_ASSERT(rec[3] == (unsigned long) (int *) a[3], "argument 4 of ARMCI_AccS is passed on"); VP_ASSERT(rec[4] == (unsigned long) (void *) a[4], "argument 5 of ARMCI_AccS is passed on"); VP_ASSERT(rec[5] == (unsigned long) (int *) a[5], "argument 6 of ARMCI_AccS is passed on"); VP_ASSERT(rec[6] == (unsigned long) (int *) a[6], "argument 7 of ARMCI_AccS is passed on"); VP_ASSERT(rec[7] == (unsigned long) (int) a[7], "argument 8 of ARMCI_AccS is passed on"); VP_ASSERT(rec[8] == (unsigned long) (int) a[8], "argument 9 of ARMCI_AccS is passed on"); break;
    case 23: r = (unsigned long) ARMCI_Put_flag((void *) a[0], (void*) a[1], (int) a[2], (int *) a[3], (int) a[4], (int) a[5]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_Put_flag is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void*) a[1], "argument 2 of ARMCI_Put_flag is passed on"); VP_ASSERT(rec[2] == (unsigned long) (int) a[2], "argument 3 of ARMCI_Put_flag is passed on"); VP_ASSERT(rec[3] == (unsigned long) (int *) a[3], "argument 4 of ARMCI_Put_flag is passed on"); VP_ASSERT(rec[4] == (unsigned long) (int) a[4], "argument 5 of ARMCI_Put_flag is passed on"); VP_ASSERT(rec[5] == (unsigned long) (int) a[5], "argument 6 of ARMCI_Put_flag is passed on"); break;
    case 24: r = (unsigned long) ARMCI_PutS_flag((void *) a[0], (int *) a[1], (void *) a[2], (int *) a[3], (int *) a[4], (int) a[5], (int *) a[6], (int) a[7], (int) a[8]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_PutS_flag is passed on"); VP_ASSERT(rec[1] == (unsigned long) (int *) a[1], "argument 2 of ARMCI_PutS_flag is passed on"); VP_ASSERT(rec[2] == (unsigned long) (void *) a[2], "argument 3 of ARMCI_PutS_flag is passed on"); VP_ASSERT(rec[3] == (unsigned long) (int *) a[3], "argument 4 of ARMCI_PutS_flag is passed on"); VP_ASSERT(rec[4] == (unsigned long) (int *) a[4], "argument 5 of ARMCI_PutS_flag is passed on"); VP_ASSERT(rec[5] == (unsigned long) (int) a[5], "argument 6 of ARMCI_PutS_flag is passed on"); VP_ASSERT(rec[6] == (unsigned long) (int *) a[6], "argument 7 of ARMCI_PutS_flag is passed on"); VP_ASSERT(rec[7] == (unsigned long) (int) a[7], "argument 8 of ARMCI_PutS_flag is passed on"); VP_ASSERT(rec[8] == (unsigned long) (int) a[8], "argument 9 of ARMCI_PutS_flag is passed on"); break;
    case 25: r = (unsigned long) ARMCI_PutV((armci_giov_t *) a[0], (int) a[1], (int) a[2]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (armci_giov_t *) a[0], "argument 1 of ARMCI_PutV is passed on"); VP_ASSERT(rec[1] == (unsigned long) (int) a[1], "argument 2 of ARMCI_PutV is passed on"); VP_ASSERT(rec[2] == (unsigned long) (int) a[2], "argument 3 of ARMCI_PutV is passed on"); break;
    case 26: r = (unsigned long) ARMCI_GetV((armci_giov_t *) a[0], (int) a[1], (int) a[2]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (armci_giov_t *) a[0], "argument 1 of ARMCI_GetV is passed on"); VP_ASSERT(rec[1] == (unsigned long) (int) a[1], "argument 2 of ARMCI_GetV is passed on"); VP_ASSERT(rec[2] == (unsigned long) (int) a[2], "argument 3 of ARMCI_GetV is passed on"); break;
    case 27: r = (unsigned long) ARMCI_AccV((int) a[0], (void *) a[1], (armci_giov_t *) a[2], (int) a[3], (int) a[4]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (int) a[0], "argument 1 of ARMCI_AccV is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_AccV is passed on"); VP_ASSERT(rec[2] == (unsigned long) (armci_giov_t *) a[2], "argument 3 of ARMCI_AccV is passed on"); VP_ASSERT(rec[3] == (unsigned long) (int) a[3], "argument 4 of ARMCI_AccV is passed on"); VP_ASSERT(rec[4] == (unsigned long) (int) a[4], "argument 5 of ARMCI_AccV is passed on"); break;
    case 28: r = (unsigned long) ARMCI_Wait((armci_hdl_t*) a[0]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (armci_hdl_t*) a[0], "argument 1 of ARMCI_Wait is passed on"); break;
    case 29: r = (unsigned long) ARMCI_Test((armci_hdl_t*) a[0]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (armci_hdl_t*) a[0], "argument 1 of ARMCI_Test is passed on"); break;
    case 30: r = (unsigned long) ARMCI_WaitProc((int) a[0]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (int) a[0], "argument 1 of ARMCI_WaitProc is passed on"); break;
    case 31: r = (unsigned long) ARMCI_WaitAll(); want = (unsigned long) (int) ret_l; break;
    case 32: r = (unsigned long) ARMCI_NbPut((void *) a[0], (void *) a[1], (int) a[2], (int) a[3], (armci_hdl_t *) a[4]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_NbPut is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_NbPut is passed on"); VP_ASSERT(rec[2] == (unsigned long) (int) a[2], "argument 3 of ARMCI_NbPut is passed on"); VP_ASSERT(rec[3] == (unsigned long) (int) a[3], "argument 4 of ARMCI_NbPut is passed on"); VP_ASSERT(rec[4] == (unsigned long) (armci_hdl_t *) a[4], "argument 5 of ARMCI_NbPut is passed on"); break;
    case 33: r = (unsigned long) ARMCI_NbGet((void *) a[0], (void *) a[1], (int) a[2], (int) a[3], (armci_hdl_t *) a[4]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_NbGet is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_NbGet is passed on"); VP_ASSERT(rec[2] == (unsigned long) (int) a[2], "argument 3 of ARMCI_NbGet is passed on"); VP_ASSERT(rec[3] == (unsigned long) (int) a[3], "argument 4 of ARMCI_NbGet is passed on"); VP_ASSERT(rec[4] == (unsigned long) (armci_hdl_t *) a[4], "argument 5 of ARMCI_NbGet is passed on"); break;
    case 34: r = (unsigned long) ARMCI_NbAcc((int) a[0], (void *) a[1], (void *) a[2], (void *) a[3], (int) a[4], (int) a[5], (armci_hdl_t *) a[6]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (int) a[0], "argument 1 of ARMCI_NbAcc is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_NbAcc is passed on"); VP_ASSERT(rec[2] == (unsigned long) (void *) a[2], "argument 3 of ARMCI_NbAcc is passed on"); VP_ASSERT(rec[3] == (unsigned long) (void *) a[3], "argument 4 of ARMCI_NbAcc is passed on"); VP_ASSERT(rec[4] == (unsigned long) (int) a[4], "argument 5 of ARMCI_NbAcc is passed on"); VP_ASSERT(rec[5] == (unsigned long) (int) a[5], "argument 6 of ARMCI_NbAcc is passed on"); VP_ASSERT(rec[6] == (unsigned long) (armci_hdl_t *) a[6], "argument 7 of ARMCI_NbAcc is passed on"); break;
    case 35: r = (unsigned long) ARMCI_NbPutS((void *) a[0], (int *) a[1], (void *) a[2], (int *) a[3], (int *) a[4], (int) a[5], (int) a[6], (armci_hdl_t *) a[7]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_NbPutS is passed on"); VP_ASSERT(rec[1] == (unsigned long) (int *) a[1], "argument 2 of ARMCI_NbPutS is passed on"); VP_ASSERT(rec[2] == (unsigned long) (void *) a[2], "argument 3 of ARMCI_NbPutS is passed on"); VP_ASSERT(rec[3] == (unsigned long) (int *) a[3], "argument 4 of ARMCI_NbPutS is passed on"); VP_ASSERT(rec[4] == (unsigned long) (int *) a[4], "argument 5 of ARMCI_NbPutS is passed on"); VP_ASSERT(rec[5] == (unsigned long) (int) a[5], "argument 6 of ARMCI_NbPutS is passed on"); VP_ASSERT(rec[6] == (unsigned long) (int) a[6], "argument 7 of ARMCI_NbPutS is passed on"); VP_ASSERT(rec[7] == (unsigned long) (armci_hdl_t *) a[7], "argument 8 of ARMCI_NbPutS is passed on"); break;
    case 36: r = (unsigned long) ARMCI_NbGetS((void *) a[0], (int *) a[1], (void *) a[2], (int *) a[3], (int *) a[4], (int) a[5], (int) a[6], (armci_hdl_t *) a[7]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_NbGetS is passed on"); VP_ASSERT(rec[1] == (unsigned long) (int *) a[1], "argument 2 of ARMCI_NbGetS is passed on"); VP_ASSERT(rec[2] == (unsigned long) (void *) a[2], "argument 3 of ARMCI_NbGetS is passed on"); VP_ASSERT(rec[3] == (unsigned long) (int *) a[3], "argument 4 of ARMCI_NbGetS is passed on"); VP_ASSERT(rec[4] == (unsigned long) (int *) a[4], "argument 5 of ARMCI_NbGetS is passed on"); VP_ASSERT(rec[5] == (unsigned long) (int) a[5], "argument 6 of ARMCI_NbGetS is passed on"); VP_ASSERT(rec[6] == (unsigned long) (int) a[6], "argument 7 of ARMCI_NbGetS is passed on"); VP_ASSERT(rec[7] == (unsigned long) (armci_hdl_t *) a[7], "argument 8 of ARMCI_NbGetS is passed on"); break;
    case 37: r = (unsigned long) ARMCI_NbAccS((int) a[0], (void *) a[1], (void *) a[2], (int *) a[3], (void *) a[4], (int *) a[5], (int *) a[6], (int) a[7], (int) a[8], (armci_hdl_t *) a[9]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (int) a[0], "argument 1 of ARMCI_NbAccS is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_NbAccS is passed on"); VP_ASSERT(rec[2] == (unsigned long) (void *) a[2], "argument 3 of ARMCI_NbAccS is passed on"); VP_ASSERT(rec[3] == (unsigned long) (int *) a[3], "argument 4 of ARMCI_NbAccS is passed on"); VP_ASSERT(rec[4] == (unsigned long) (void *) a[4], "argument 5 of ARMCI_NbAccS is passed on"); VP_ASSERT(rec[5] == (unsigned long) (int *) a[5], "argument 6 of ARMCI_NbAccS is passed on"); VP_ASSERT(rec[6] == (unsigned long) (int *) a[6], "argument 7 of ARMCI_NbAccS is passed on"); VP_ASSERT(rec[7] == (unsigned long) (int) a[7], "argument 8 of ARMCI_NbAccS is passed on"); VP_ASSERT(rec[8] == (unsigned long) (int) a[8], "argument 9 of ARMCI_NbAccS is passed on"); VP_ASSERT(rec[9] == (unsigned long) (armci_hdl_t *) a[9], "argument 10 of ARMCI_NbAccS is passed on"); break;
    case 38: r = (unsigned long) ARMCI_NbPutV((armci_giov_t *) a[0], (int) a[1], (int) a[2], (armci_hdl_t*) a[3]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (armci_giov_t *) a[0], "argument 1 of ARMCI_NbPutV is passed on"); VP_ASSERT(rec[1] == (unsigned long) (int) a[1], "argument 2 of ARMCI_NbPutV is passed on"); VP_ASSERT(rec[2] == (unsigned long) (int) a[2], "argument 3 of ARMCI_NbPutV is passed on"); VP_ASSERT(rec[3] == (unsigned long) (armci_hdl_t*) a[3], "argument 4 of ARMCI_NbPutV is passed on"); break;
    case 39: r = (unsigned long) ARMCI_NbGetV((armci_giov_t *) a[0], (int) a[1], (int) a[2], (armci_hdl_t*) a[3]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (armci_giov_t *) a[0], "argument 1 of ARMCI_NbGetV is passed on"); VP_ASSERT(rec[1] == (unsigned long) (int) a[1], "argument 2 of ARMCI_NbGetV is passed on"); VP_ASSERT(rec[2] == (unsigned long) (int) a[2], "argument 3 of ARMCI_NbGetV is passed on"); VP_ASSERT(rec[3] == (unsigned long) (armci_hdl_t*) a[3], "argument 4 of ARMCI_NbGetV is passed on"); break;
    case 40: r = (unsigned long) ARMCI_NbAccV((int) a[0], (void *) a[1], (armci_giov_t *) a[2], (int) a[3], (int) a[4], (armci_hdl_t*) a[5]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (int) a[0], "argument 1 of ARMCI_NbAccV is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_NbAccV is passed on"); VP_ASSERT(rec[2] == (unsigned long) (armci_giov_t *) a[2], "argument 3 of ARMCI_NbAccV is passed on"); VP_ASSERT(rec[3] == (unsigned long) (int) a[3], "argument 4 of ARMCI_NbAccV is passed on"); VP_ASSERT(rec[4] == (unsigned long) (int) a[4], "argument 5 of ARMCI_NbAccV is passed on"); VP_ASSERT(rec[5] == (unsigned long) (armci_hdl_t*) a[5], "argument 6 of ARMCI_NbAccV is passed on"); break;
    case 41: r = (unsigned long) ARMCI_PutValueInt((int) a[0], (void *) a[1], (int) a[2]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (int) a[0], "argument 1 of ARMCI_PutValueInt is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_PutValueInt is passed on"); VP_ASSERT(rec[2] == (unsigned long) (int) a[2], "argument 3 of ARMCI_PutValueInt is passed on"); break;
    case 42: r = (unsigned long) ARMCI_PutValueLong((long) a[0], (void *) a[1], (int) a[2]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (long) a[0], "argument 1 of ARMCI_PutValueLong is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_PutValueLong is passed on"); VP_ASSERT(rec[2] == (unsigned long) (int) a[2], "argument 3 of ARMCI_PutValueLong is passed on"); break;
    case 43: r = (unsigned long) ARMCI_PutValueFloat((float) d, (void *) a[1], (int) a[2]); want = (unsigned long) (int) ret_l; VP_ASSERT(recd == (float) d, "the value is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_PutValueFloat is passed on"); VP_ASSERT(rec[2] == (unsigned long) (int) a[2], "argument 3 of ARMCI_PutValueFloat is passed on"); break;
    case 44: r = (unsigned long) ARMCI_PutValueDouble(d, (void *) a[1], (int) a[2]); want = (unsigned long) (int) ret_l; VP_ASSERT(recd == (double) d, "the value is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_PutValueDouble is passed on"); VP_ASSERT(rec[2] == (unsigned long) (int) a[2], "argument 3 of ARMCI_PutValueDouble is passed on"); break;
    case 45: r = (unsigned long) ARMCI_NbPutValueInt((int) a[0], (void *) a[1], (int) a[2], (armci_hdl_t *) a[3]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (int) a[0], "argument 1 of ARMCI_NbPutValueInt is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_NbPutValueInt is passed on"); VP_ASSERT(rec[2] == (unsigned long) (int) a[2], "argument 3 of ARMCI_NbPutValueInt is passed on"); VP_ASSERT(rec[3] == (unsigned long) (armci_hdl_t *) a[3], "argument 4 of ARMCI_NbPutValueInt is passed on"); break;
    case 46: r = (unsigned long) ARMCI_NbPutValueLong((long) a[0], (void *) a[1], (int) a[2], (armci_hdl_t *) a[3]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (long) a[0], "argument 1 of ARMCI_NbPutValueLong is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_NbPutValueLong is passed on"); VP_ASSERT(rec[2] == (unsigned long) (int) a[2], "argument 3 of ARMCI_NbPutValueLong is passed on"); VP_ASSERT(rec[3] == (unsigned long) (armci_hdl_t *) a[3], "argument 4 of ARMCI_NbPutValueLong is passed on"); break;
    case 47: r = (unsigned long) ARMCI_NbPutValueFloat((float) d, (void *) a[1], (int) a[2], (armci_hdl_t *) a[3]); want = (unsigned long) (int) ret_l; VP_ASSERT(recd == (float) d, "the value is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_NbPutValueFloat is passed on"); VP_ASSERT(rec[2] == (unsigned long) (int) a[2], "argument 3 of ARMCI_NbPutValueFloat is passed on"); VP_ASSERT(rec[3] == (unsigned long) (armci_hdl_t *) a[3], "argument 4 of ARMCI_NbPutValueFloat is passed on"); break;
    case 48: r = (unsigned long) ARMCI_NbPutValueDouble(d, (void *) a[1], (int) a[2], (armci_hdl_t *) a[3]); want = (unsigned long) (int) ret_l; VP_ASSERT(recd == (double) d, "the value is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_NbPutValueDouble is passed on"); VP_ASSERT(rec[2] == (unsigned long) (int) a[2], "argument 3 of ARMCI_NbPutValueDouble is passed on"); VP_ASSERT(rec[3] == (unsigned long) (armci_hdl_t *) a[3], "argument 4 of ARMCI_NbPutValueDouble is passed on"); break;
    case 49: r = (unsigned long) ARMCI_GetValueInt((void *) a[0], (int) a[1]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_GetValueInt is passed on"); VP_ASSERT(rec[1] == (unsigned long) (int) a[1], "argument 2 of ARMCI_GetValueInt is passed on"); break;
    case 50: r = (unsigned long) ARMCI_GetValueLong((void *) a[0], (int) a[1]); want = (unsigned long) (long) ret_l; VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_GetValueLong is passed on"); VP_ASSERT(rec[1] == (unsigned long) (int) a[1], "argument 2 of ARMCI_GetValueLong is passed on"); break;
    case 51: rd = ARMCI_GetValueFloat((void *) a[0], (int) a[1]); wantd = (float) ret_d; VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_GetValueFloat is passed on"); VP_ASSERT(rec[1] == (unsigned long) (int) a[1], "argument 2 of ARMCI_GetValueFloat is passed on"); break;
    case 52: rd = ARMCI_GetValueDouble((void *) a[0], (int) a[1]); wantd = (double) ret_d; VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_GetValueDouble is passed on"); VP_ASSERT(rec[1] == (unsigned long) (int) a[1], "argument 2 of ARMCI_GetValueDouble is passed on"); break;
    case 53: r = (unsigned long) ARMCI_Create_mutexes((int) a[0]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (int) a[0], "argument 1 of ARMCI_Create_mutexes is passed on"); break;
    case 54: r = (unsigned long) ARMCI_Destroy_mutexes(); want = (unsigned long) (int) ret_l; break;
    case 55: ARMCI_Lock((int) a[0], (int) a[1]); VP_ASSERT(rec[0] == (unsigned long) (int) a[0], "argument 1 of ARMCI_Lock is passed on"); VP_ASSERT(rec[1] == (unsigned long) (int) a[1], "argument 2 of ARMCI_Lock is passed on"); break;
    case 56: ARMCI_Unlock((int) a[0], (int) a[1]); VP_ASSERT(rec[0] == (unsigned long) (int) a[0], "argument 1 of ARMCI_Unlock is passed on"); VP_ASSERT(rec[1] == (unsigned long) (int) a[1], "argument 2 of ARMCI_Unlock is passed on"); break;
    case 57: r = (unsigned long) ARMCI_Rmw((int) a[0], (void *) a[1], (void *) a[2], (int) a[3], (int) a[4]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (int) a[0], "argument 1 of ARMCI_Rmw is passed on"); VP_ASSERT(rec[1] == (unsigned long) (void *) a[1], "argument 2 of ARMCI_Rmw is passed on"); VP_ASSERT(rec[2] == (unsigned long) (void *) a[2], "argument 3 of ARMCI_Rmw is passed on"); VP_ASSERT(rec[3] == (unsigned long) (int) a[3], "argument 4 of ARMCI_Rmw is passed on"); VP_ASSERT(rec[4] == (unsigned long) (int) a[4], "argument 5 of ARMCI_Rmw is passed on"); break;
    case 58: armci_msg_barrier(); break;
    case 59: armci_msg_group_barrier((ARMCI_Group *) a[0]); VP_ASSERT(rec[0] == (unsigned long) (ARMCI_Group *) a[0], "argument 1 of armci_msg_group_barrier is passed on"); break;
    case 60: r = (unsigned long) ARMCI_Malloc_memdev((void **) a[0], (armci_size_t) a[1], (const char*) a[2]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (void **) a[0], "argument 1 of ARMCI_Malloc_memdev is passed on"); VP_ASSERT(rec[1] == (unsigned long) (armci_size_t) a[1], "argument 2 of ARMCI_Malloc_memdev is passed on"); VP_ASSERT(rec[2] == (unsigned long) (const char*) a[2], "argument 3 of ARMCI_Malloc_memdev is passed on"); break;
    case 61: r = (unsigned long) ARMCI_Malloc_group_memdev((void **) a[0], (armci_size_t) a[1], (ARMCI_Group *) a[2], (const char *) a[3]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (void **) a[0], "argument 1 of ARMCI_Malloc_group_memdev is passed on"); VP_ASSERT(rec[1] == (unsigned long) (armci_size_t) a[1], "argument 2 of ARMCI_Malloc_group_memdev is passed on"); VP_ASSERT(rec[2] == (unsigned long) (ARMCI_Group *) a[2], "argument 3 of ARMCI_Malloc_group_memdev is passed on"); VP_ASSERT(rec[3] == (unsigned long) (const char *) a[3], "argument 4 of ARMCI_Malloc_group_memdev is passed on"); break;
    case 62: r = (unsigned long) ARMCI_Free_memdev((void *) a[0]); want = (unsigned long) (int) ret_l; VP_ASSERT(rec[0] == (unsigned long) (void *) a[0], "argument 1 of ARMCI_Free_memdev is passed on"); break;
  }
  VP_ASSERT(ncalls == 1, "the implementation is called exactly once");
  VP_ASSERT(called == f, "the implementation of the same name is called");
  VP_ASSERT(r == want && rd == wantd, "the implementation's result is returned");
  (void) n; (void) as;
  VP_REACHED("wrapper");
}
