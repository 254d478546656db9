/* Simulated MPI: all ranks live in one process, the transport is driven by the deterministic scheduler. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
typedef struct sim_mpi_comm* MPI_Comm;
typedef struct sim_mpi_type* MPI_Datatype;
typedef struct sim_mpi_req* MPI_Request;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef int MPI_Fint;
typedef long MPI_Aint;
typedef struct {
  int MPI_SOURCE, MPI_TAG, MPI_ERROR;
} MPI_Status;

struct sim_mpi_comm {
  int id;
  void* impl;
};
struct sim_mpi_type {
  int id;
  void* impl;
};
struct sim_mpi_req;
extern struct sim_mpi_comm sim_mpi_world_, sim_mpi_self_;
extern struct sim_mpi_type sim_mpi_types_[];

#define MPI_COMM_WORLD (&sim_mpi_world_)
#define MPI_COMM_SELF (&sim_mpi_self_)
#define MPI_COMM_NULL ((MPI_Comm) 0)
#define MPI_REQUEST_NULL ((MPI_Request) 0)
#define MPI_DATATYPE_NULL ((MPI_Datatype) 0)
#define MPI_INFO_NULL 0
#define MPI_IN_PLACE ((void*) 1)
#define MPI_STATUS_IGNORE ((MPI_Status*) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status*) 0)

#define MPI_CHAR (&sim_mpi_types_[0])
#define MPI_SIGNED_CHAR (&sim_mpi_types_[1])
#define MPI_UNSIGNED_CHAR (&sim_mpi_types_[2])
#define MPI_SHORT (&sim_mpi_types_[3])
#define MPI_UNSIGNED_SHORT (&sim_mpi_types_[4])
#define MPI_INT (&sim_mpi_types_[5])
#define MPI_UNSIGNED (&sim_mpi_types_[6])
#define MPI_LONG (&sim_mpi_types_[7])
#define MPI_UNSIGNED_LONG (&sim_mpi_types_[8])
#define MPI_LONG_LONG (&sim_mpi_types_[9])
#define MPI_UNSIGNED_LONG_LONG (&sim_mpi_types_[10])
#define MPI_FLOAT (&sim_mpi_types_[11])
#define MPI_DOUBLE (&sim_mpi_types_[12])
#define MPI_CXX_BOOL (&sim_mpi_types_[13])
#define MPI_C_BOOL (&sim_mpi_types_[13])
#define MPI_C_FLOAT_COMPLEX (&sim_mpi_types_[14])
#define MPI_CXX_FLOAT_COMPLEX (&sim_mpi_types_[14])
#define MPI_C_DOUBLE_COMPLEX (&sim_mpi_types_[15])
#define MPI_CXX_DOUBLE_COMPLEX (&sim_mpi_types_[15])
#define MPI_BYTE (&sim_mpi_types_[16])
#define MPI_INT64_T MPI_LONG
#define MPI_UINT64_T MPI_UNSIGNED_LONG

#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8
#define MPI_OP_NULL 0

#define MPI_SUCCESS 0
#define MPI_ERR_COMM 5
#define MPI_ERR_OTHER 16
#define MPI_MAX_ERROR_STRING 256
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2

int MPI_Init(int* argc, char*** argv);
int MPI_Init_thread(int* argc, char*** argv, int required, int* provided);
int MPI_Initialized(int* flag);
int MPI_Finalized(int* flag);
int MPI_Finalize(void);
int MPI_Query_thread(int* provided);
int MPI_Abort(MPI_Comm comm, int code);
int MPI_Error_string(int code, char* s, int* len);
int MPI_Comm_set_errhandler(MPI_Comm comm, MPI_Errhandler e);
int MPI_Errhandler_set(MPI_Comm comm, MPI_Errhandler e);
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm* out);
int MPI_Comm_free(MPI_Comm* comm);
int MPI_Comm_rank(MPI_Comm comm, int* rank);
int MPI_Comm_size(MPI_Comm comm, int* size);
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm* out);
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* result);
int MPI_Dims_create(int n, int nd, int* dims);
int MPI_Type_vector(int count, int blocklen, int stride, MPI_Datatype t, MPI_Datatype* out);
int MPI_Type_contiguous(int count, MPI_Datatype t, MPI_Datatype* out);
int MPI_Type_commit(MPI_Datatype* t);
int MPI_Type_free(MPI_Datatype* t);
int MPI_Type_size(MPI_Datatype t, int* size);
int MPI_Send(const void* buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm comm);
int MPI_Ssend(const void* buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm comm);
int MPI_Recv(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Status* st);
int MPI_Sendrecv(const void* sbuf, int scount, MPI_Datatype st, int dest, int stag, void* rbuf, int rcount,
                 MPI_Datatype rt, int src, int rtag, MPI_Comm comm, MPI_Status* status);
int MPI_Isend(const void* buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm comm, MPI_Request* req);
int MPI_Issend(const void* buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm comm, MPI_Request* req);
int MPI_Irecv(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Request* req);
int MPI_Bcast(void* buf, int count, MPI_Datatype t, int root, MPI_Comm comm);
int MPI_Ibcast(void* buf, int count, MPI_Datatype t, int root, MPI_Comm comm, MPI_Request* req);
int MPI_Reduce(const void* sbuf, void* rbuf, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm comm);
int MPI_Ireduce(const void* sbuf, void* rbuf, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm comm,
                MPI_Request* req);
int MPI_Allreduce(const void* sbuf, void* rbuf, int count, MPI_Datatype t, MPI_Op op, MPI_Comm comm);
int MPI_Iallreduce(const void* sbuf, void* rbuf, int count, MPI_Datatype t, MPI_Op op, MPI_Comm comm,
                   MPI_Request* req);
int MPI_Barrier(MPI_Comm comm);
int MPI_Ibarrier(MPI_Comm comm, MPI_Request* req);
int MPI_Wait(MPI_Request* req, MPI_Status* st);
int MPI_Waitall(int n, MPI_Request* reqs, MPI_Status* sts);
int MPI_Test(MPI_Request* req, int* flag, MPI_Status* st);
MPI_Comm MPI_Comm_f2c(MPI_Fint f);
MPI_Fint MPI_Comm_c2f(MPI_Comm c);
double MPI_Wtime(void);
#ifdef __cplusplus
}
#endif
#endif
