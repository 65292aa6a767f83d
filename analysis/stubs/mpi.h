#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request; typedef int MPI_Info;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; } MPI_Status;
extern const MPI_Comm MPI_COMM_WORLD_; extern const MPI_Comm MPI_COMM_SELF_; extern const MPI_Comm MPI_COMM_NULL_;
#define MPI_COMM_WORLD MPI_COMM_WORLD_
#define MPI_COMM_SELF MPI_COMM_SELF_
#define MPI_COMM_NULL MPI_COMM_NULL_
extern const MPI_Datatype MPI_INT, MPI_DOUBLE, MPI_FLOAT, MPI_CHAR, MPI_BYTE, MPI_LONG, MPI_LONG_LONG, MPI_UNSIGNED, MPI_UNSIGNED_LONG, MPI_C_BOOL, MPI_CXX_BOOL, MPI_INT64_T, MPI_UINT64_T, MPI_LONG_LONG_INT, MPI_DOUBLE_INT;
extern const MPI_Op MPI_SUM, MPI_MIN, MPI_MAX, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR, MPI_PROD, MPI_MINLOC, MPI_MAXLOC;
#define MPI_IN_PLACE ((void*)1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_SUCCESS 0
#define MPI_COMM_TYPE_SHARED 1
#define MPI_INFO_NULL 0
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*); int MPI_Get_processor_name(char*, int*);
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
int MPI_Init(int*, char***); int MPI_Finalize(void); int MPI_Initialized(int*); int MPI_Finalized(int*); int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_size(MPI_Comm, int*); int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*); int MPI_Comm_dup(MPI_Comm, MPI_Comm*); int MPI_Comm_free(MPI_Comm*);
int MPI_Barrier(MPI_Comm); double MPI_Wtime(void);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*); int MPI_Waitall(int, MPI_Request*, MPI_Status*);
#ifdef __cplusplus
}
#endif
