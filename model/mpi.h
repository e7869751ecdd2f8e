/* Verification model of the MPI-3 interface: handles are small integers into
 * the model's tables (mpi_model.c).  -DVP_OMPI=n presents Open MPI n,
 * -DVP_MPICH presents MPICH, neither presents an anonymous MPI. */
#ifndef VP_MPI_H
#define VP_MPI_H
#include <stddef.h>
#include <stdint.h>

#ifdef VP_OMPI
#define OPEN_MPI 1
#define OMPI_MAJOR_VERSION VP_OMPI
#define OMPI_MINOR_VERSION 1
#define OMPI_RELEASE_VERSION 6
#endif
#ifdef VP_MPICH
#define MPICH 1
#define MPICH_VERSION "4.3.0"
#define MPICH_NUMVERSION 40300300
#endif
#define MPI_VERSION 3
#define MPI_SUBVERSION 1

#ifdef VP_LIB_COMMLONG      /* harness gcreate.c: a communicator handle is its own contents */
typedef long MPI_Comm;
#else
typedef int MPI_Comm;
#endif
typedef int MPI_Group;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Win;
typedef int MPI_Info;
typedef int MPI_Request;
typedef int MPI_Errhandler;
typedef int MPI_Message;
typedef int MPI_File;
typedef long MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;
typedef int MPI_Fint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int vp_bytes; int vp_cancelled; } MPI_Status;
typedef void (MPI_User_function)(void *, void *, int *, MPI_Datatype *);

extern char vp_in_place_obj;
extern MPI_Status *vp_status_ignore;

#define MPI_BOTTOM          ((void*)0)
#define MPI_IN_PLACE        ((void*)&vp_in_place_obj)
#define MPI_STATUS_IGNORE   ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_ERRCODES_IGNORE ((int*)0)

#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-4)
#define MPI_MAX_LIBRARY_VERSION_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_INFO_KEY 36
#define MPI_MAX_INFO_VAL 256
#define MPI_MAX_OBJECT_NAME 64
#define MPI_TAG_UB 1

#define MPI_COMM_NULL  0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF  2
#define MPI_GROUP_NULL  0
#define MPI_GROUP_EMPTY 1
#define MPI_WIN_NULL 0
#define MPI_INFO_NULL 0
#define MPI_INFO_ENV 1
#define MPI_REQUEST_NULL 0
#define MPI_OP_NULL 0
#define MPI_ERRHANDLER_NULL 0
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_DATATYPE_NULL 0

#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3

enum { MPI_MAX = 1, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR, MPI_BOR,
       MPI_LXOR, MPI_BXOR, MPI_MINLOC, MPI_MAXLOC, MPI_REPLACE, MPI_NO_OP, VP_OP_USER0 = 20 };

enum { MPI_BYTE = 1, MPI_CHAR, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_SHORT, MPI_UNSIGNED_SHORT,
       MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG,
       MPI_FLOAT, MPI_DOUBLE, MPI_C_FLOAT_COMPLEX, MPI_C_DOUBLE_COMPLEX,
       MPI_INT8_T, MPI_UINT8_T, MPI_INT16_T, MPI_UINT16_T, MPI_INT32_T, MPI_UINT32_T,
       MPI_INT64_T, MPI_UINT64_T, MPI_AINT, MPI_OFFSET, MPI_COUNT, MPI_LONG_DOUBLE,
       MPI_C_BOOL, MPI_PACKED, VP_TYPE_USER0 = 40 };
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_COMPLEX MPI_C_FLOAT_COMPLEX
#define MPI_DOUBLE_COMPLEX MPI_C_DOUBLE_COMPLEX
#define MPI_C_COMPLEX MPI_C_FLOAT_COMPLEX

#define MPI_MODE_NOCHECK 1024
#define MPI_MODE_NOSTORE 2048
#define MPI_MODE_NOPUT 4096
#define MPI_MODE_NOPRECEDE 8192
#define MPI_MODE_NOSUCCEED 16384
#define MPI_LOCK_EXCLUSIVE 1
#define MPI_LOCK_SHARED 2
#define MPI_ORDER_C 0
#define MPI_ORDER_FORTRAN 1
#define MPI_WIN_BASE 1
#define MPI_WIN_SIZE 2
#define MPI_WIN_DISP_UNIT 3
#define MPI_WIN_CREATE_FLAVOR 4
#define MPI_WIN_MODEL 5
#define MPI_WIN_FLAVOR_CREATE 1
#define MPI_WIN_FLAVOR_ALLOCATE 2
#define MPI_WIN_FLAVOR_DYNAMIC 3
#define MPI_WIN_FLAVOR_SHARED 4
#define MPI_WIN_UNIFIED 1
#define MPI_WIN_SEPARATE 2
#define MPI_COMM_TYPE_SHARED 1
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3

int MPI_Init(int *, char ***); int MPI_Init_thread(int *, char ***, int, int *); int MPI_Finalize(void);
int MPI_Initialized(int *); int MPI_Finalized(int *); int MPI_Query_thread(int *); int MPI_Is_thread_main(int *);
int MPI_Abort(MPI_Comm, int); double MPI_Wtime(void);
int MPI_Get_version(int *, int *); int MPI_Get_library_version(char *, int *);
int MPI_Get_processor_name(char *, int *); int MPI_Error_string(int, char *, int *);
/* communicators, groups */
int MPI_Comm_rank(MPI_Comm, int *); int MPI_Comm_size(MPI_Comm, int *); int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *); int MPI_Comm_group(MPI_Comm, MPI_Group *); int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm *);
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm *); int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm *); int MPI_Comm_compare(MPI_Comm, MPI_Comm, int *);
int MPI_Comm_remote_size(MPI_Comm, int *); int MPI_Comm_test_inter(MPI_Comm, int *); int MPI_Comm_remote_group(MPI_Comm, MPI_Group *);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler); int MPI_Comm_set_name(MPI_Comm, const char *);
int MPI_Intercomm_create(MPI_Comm, int, MPI_Comm, int, int, MPI_Comm *); int MPI_Intercomm_merge(MPI_Comm, int, MPI_Comm *);
int MPI_Group_size(MPI_Group, int *); int MPI_Group_rank(MPI_Group, int *);
int MPI_Group_translate_ranks(MPI_Group, int, const int *, MPI_Group, int *);
int MPI_Group_incl(MPI_Group, int, const int *, MPI_Group *); int MPI_Group_excl(MPI_Group, int, const int *, MPI_Group *);
int MPI_Group_compare(MPI_Group, MPI_Group, int *); int MPI_Group_free(MPI_Group *);
/* collectives, pt2pt */
int MPI_Barrier(MPI_Comm); int MPI_Ibarrier(MPI_Comm, MPI_Request *);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *); int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *); int MPI_Get_elements(const MPI_Status *, MPI_Datatype, int *);
int MPI_Wait(MPI_Request *, MPI_Status *); int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Waitany(int, MPI_Request *, int *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *); int MPI_Testall(int, MPI_Request *, int *, MPI_Status *);
int MPI_Request_free(MPI_Request *);
int MPI_Op_create(MPI_User_function *, int, MPI_Op *); int MPI_Op_free(MPI_Op *);
int MPI_Reduce_local(const void *, void *, int, MPI_Datatype, MPI_Op);
/* datatypes */
int MPI_Type_size(MPI_Datatype, int *); int MPI_Type_size_x(MPI_Datatype, MPI_Count *);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *); int MPI_Type_get_true_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *); int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_hvector(int, int, MPI_Aint, MPI_Datatype, MPI_Datatype *);
int MPI_Type_indexed(int, const int *, const int *, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_hindexed(int, const int *, const MPI_Aint *, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_indexed_block(int, int, const int *, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_hindexed_block(int, int, const MPI_Aint *, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_subarray(int, const int *, const int *, const int *, int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_struct(int, const int *, const MPI_Aint *, const MPI_Datatype *, MPI_Datatype *);
int MPI_Type_create_resized(MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype *);
int MPI_Type_dup(MPI_Datatype, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *); int MPI_Type_free(MPI_Datatype *);
int MPI_Get_address(const void *, MPI_Aint *); MPI_Aint MPI_Aint_add(MPI_Aint, MPI_Aint); MPI_Aint MPI_Aint_diff(MPI_Aint, MPI_Aint);
/* memory, info, windows */
int MPI_Alloc_mem(MPI_Aint, MPI_Info, void *); int MPI_Free_mem(void *);
int MPI_Info_create(MPI_Info *); int MPI_Info_set(MPI_Info, const char *, const char *); int MPI_Info_free(MPI_Info *);
int MPI_Info_dup(MPI_Info, MPI_Info *); int MPI_Info_get(MPI_Info, const char *, int, char *, int *);
int MPI_Win_create(void *, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win *);
int MPI_Win_allocate(MPI_Aint, int, MPI_Info, MPI_Comm, void *, MPI_Win *);
int MPI_Win_allocate_shared(MPI_Aint, int, MPI_Info, MPI_Comm, void *, MPI_Win *);
int MPI_Win_free(MPI_Win *); int MPI_Win_get_attr(MPI_Win, int, void *, int *); int MPI_Win_set_name(MPI_Win, const char *);
int MPI_Win_get_group(MPI_Win, MPI_Group *); int MPI_Win_set_errhandler(MPI_Win, MPI_Errhandler);
int MPI_Win_lock(int, int, int, MPI_Win); int MPI_Win_unlock(int, MPI_Win);
int MPI_Win_lock_all(int, MPI_Win); int MPI_Win_unlock_all(MPI_Win); int MPI_Win_fence(int, MPI_Win);
int MPI_Win_flush(int, MPI_Win); int MPI_Win_flush_all(MPI_Win);
int MPI_Win_flush_local(int, MPI_Win); int MPI_Win_flush_local_all(MPI_Win); int MPI_Win_sync(MPI_Win);
int MPI_Put(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Get(void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Accumulate(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Get_accumulate(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Fetch_and_op(const void *, void *, MPI_Datatype, int, MPI_Aint, MPI_Op, MPI_Win);
int MPI_Compare_and_swap(const void *, const void *, void *, MPI_Datatype, int, MPI_Aint, MPI_Win);
int MPI_Rput(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request *);
int MPI_Rget(void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request *);
int MPI_Raccumulate(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win, MPI_Request *);
int MPI_Rget_accumulate(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win, MPI_Request *);
#endif
