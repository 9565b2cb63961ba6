/* Stand-in MPI used by the harness: one forked process per rank, shared memory in between.
   Only what ext_mpi_collectives and the drivers need. PMPI_* are the implementations;
   MPI_* are weak aliases, so the library under test can interpose as it does in production. */
#ifndef FMPI_MPI_H
#define FMPI_MPI_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct fmpi_type *MPI_Datatype;
typedef struct fmpi_op *MPI_Op;
#ifdef FMPI_INT_REQUEST /* handles as in MPICH (used by the CBMC harnesses) */
typedef int MPI_Request;
typedef int MPI_Comm;
#else
typedef struct fmpi_req *MPI_Request;
typedef struct fmpi_comm *MPI_Comm;
#endif
typedef struct fmpi_info *MPI_Info;
typedef struct fmpi_group *MPI_Group;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int count; } MPI_Status;
typedef long MPI_Aint;
extern struct fmpi_comm fmpi_world, fmpi_self;
struct fmpi_type { int size; int kind; };
struct fmpi_op { int kind; };
extern struct fmpi_type fmpi_t_char, fmpi_t_byte, fmpi_t_int, fmpi_t_long, fmpi_t_float, fmpi_t_double, fmpi_t_longint,
  fmpi_t_short, fmpi_t_llong, fmpi_t_uint, fmpi_t_ulong, fmpi_t_f_int, fmpi_t_f_i4, fmpi_t_f_i8, fmpi_t_f_real, fmpi_t_f_r4, fmpi_t_f_r8, fmpi_t_f_dp;
extern struct fmpi_op fmpi_o_sum, fmpi_o_max, fmpi_o_min, fmpi_o_prod, fmpi_o_null;
#ifdef FMPI_INT_REQUEST
#define MPI_COMM_NULL 0x04000000
#define MPI_COMM_WORLD 0x44000000
#define MPI_COMM_SELF 0x44000001
#else
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_COMM_WORLD (&fmpi_world)
#define MPI_COMM_SELF (&fmpi_self)
#endif
#define MPI_CHAR (&fmpi_t_char)
#define MPI_BYTE (&fmpi_t_byte)
#define MPI_INT (&fmpi_t_int)
#define MPI_LONG (&fmpi_t_long)
#define MPI_FLOAT (&fmpi_t_float)
#define MPI_DOUBLE (&fmpi_t_double)
#define MPI_SHORT (&fmpi_t_short)
#define MPI_UNSIGNED (&fmpi_t_uint)
#define MPI_UNSIGNED_LONG (&fmpi_t_ulong)
#define MPI_LONG_LONG (&fmpi_t_llong)
#define MPI_LONG_LONG_INT (&fmpi_t_llong)
#define MPI_LONG_INT (&fmpi_t_longint)
#define MPI_INTEGER (&fmpi_t_f_int)
#define MPI_INTEGER4 (&fmpi_t_f_i4)
#define MPI_INTEGER8 (&fmpi_t_f_i8)
#define MPI_REAL (&fmpi_t_f_real)
#define MPI_REAL4 (&fmpi_t_f_r4)
#define MPI_REAL8 (&fmpi_t_f_r8)
#define MPI_DOUBLE_PRECISION (&fmpi_t_f_dp)
#define MPI_DATATYPE_NULL ((MPI_Datatype)0)
#define MPI_SUM (&fmpi_o_sum)
#define MPI_MAX (&fmpi_o_max)
#define MPI_MIN (&fmpi_o_min)
#define MPI_PROD (&fmpi_o_prod)
#define MPI_OP_NULL ((MPI_Op)0)
#ifdef FMPI_INT_REQUEST
#define MPI_REQUEST_NULL 0x2c000000
#else
#define MPI_REQUEST_NULL ((MPI_Request)0)
#endif
#define MPI_INFO_NULL ((MPI_Info)0)
#define MPI_IN_PLACE ((void *)1)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_SUCCESS 0
#define MPI_ERR_INTERN 17
#define MPI_ERR_OTHER 16
#define MPI_UNDEFINED (-32766)
#define MPI_COMM_TYPE_SHARED 0
#define MPI_MAX_INFO_VAL 256
#define FMPI_DECL(ret, name, args) ret MPI_##name args; ret PMPI_##name args;
FMPI_DECL(int, Init, (int *, char ***))
FMPI_DECL(int, Initialized, (int *))
FMPI_DECL(int, Finalize, (void))
FMPI_DECL(int, Abort, (MPI_Comm, int))
FMPI_DECL(double, Wtime, (void))
FMPI_DECL(int, Comm_size, (MPI_Comm, int *))
FMPI_DECL(int, Comm_rank, (MPI_Comm, int *))
FMPI_DECL(int, Comm_split, (MPI_Comm, int, int, MPI_Comm *))
FMPI_DECL(int, Comm_split_type, (MPI_Comm, int, int, MPI_Info, MPI_Comm *))
FMPI_DECL(int, Comm_dup, (MPI_Comm, MPI_Comm *))
FMPI_DECL(int, Comm_create, (MPI_Comm, MPI_Group, MPI_Comm *))
FMPI_DECL(int, Comm_free, (MPI_Comm *))
FMPI_DECL(int, Comm_group, (MPI_Comm, MPI_Group *))
FMPI_DECL(int, Group_incl, (MPI_Group, int, const int *, MPI_Group *))
FMPI_DECL(int, Group_free, (MPI_Group *))
FMPI_DECL(int, Type_size, (MPI_Datatype, int *))
FMPI_DECL(int, Barrier, (MPI_Comm))
FMPI_DECL(int, Bcast, (void *, int, MPI_Datatype, int, MPI_Comm))
FMPI_DECL(int, Gather, (const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm))
FMPI_DECL(int, Gatherv, (const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm))
FMPI_DECL(int, Scatterv, (const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm))
FMPI_DECL(int, Allgather, (const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm))
FMPI_DECL(int, Allgatherv, (const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm))
FMPI_DECL(int, Allreduce, (const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm))
FMPI_DECL(int, Reduce, (const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm))
FMPI_DECL(int, Reduce_scatter, (const void *, void *, const int *, MPI_Datatype, MPI_Op, MPI_Comm))
FMPI_DECL(int, Reduce_scatter_block, (const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm))
FMPI_DECL(int, Send, (const void *, int, MPI_Datatype, int, int, MPI_Comm))
FMPI_DECL(int, Recv, (void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *))
FMPI_DECL(int, Sendrecv, (const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *))
FMPI_DECL(int, Isend, (const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *))
FMPI_DECL(int, Irecv, (void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *))
FMPI_DECL(int, Recv_init, (void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *))
FMPI_DECL(int, Start, (MPI_Request *))
FMPI_DECL(int, Request_free, (MPI_Request *))
FMPI_DECL(int, Wait, (MPI_Request *, MPI_Status *))
FMPI_DECL(int, Waitall, (int, MPI_Request *, MPI_Status *))
FMPI_DECL(int, Waitany, (int, MPI_Request *, int *, MPI_Status *))
FMPI_DECL(int, Waitsome, (int, MPI_Request *, int *, int *, MPI_Status *))
FMPI_DECL(int, Test, (MPI_Request *, int *, MPI_Status *))
FMPI_DECL(int, Testall, (int, MPI_Request *, int *, MPI_Status *))
FMPI_DECL(int, Testany, (int, MPI_Request *, int *, int *, MPI_Status *))
FMPI_DECL(int, Request_get_status, (MPI_Request, int *, MPI_Status *))
FMPI_DECL(int, Testsome, (int, MPI_Request *, int *, int *, MPI_Status *))
FMPI_DECL(int, Info_create, (MPI_Info *))
FMPI_DECL(int, Info_set, (MPI_Info, const char *, const char *))
FMPI_DECL(int, Info_get, (MPI_Info, const char *, int, char *, int *))
FMPI_DECL(int, Info_free, (MPI_Info *))
int MPI_Allreduce_init(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, MPI_Request *);
int MPI_Allgatherv_init(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm, MPI_Info, MPI_Request *);
int MPI_Allgather_init(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Info, MPI_Request *);
int MPI_Reduce_scatter_init(const void *, void *, const int *, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, MPI_Request *);
int MPI_Reduce_scatter_block_init(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, MPI_Request *);
int MPI_Bcast_init(void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
int MPI_Reduce_init(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Info, MPI_Request *);
int MPI_Gather_init(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
int MPI_Gatherv_init(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
int MPI_Scatter_init(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
int MPI_Scatterv_init(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
#ifdef __cplusplus
}
#endif
#endif
