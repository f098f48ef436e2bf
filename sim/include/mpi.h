/* Simulated MPI: the subset PDC uses; implemented by kernel/mpi.c. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Info;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; } MPI_Status;
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_SUCCESS 0
#define MPI_CHAR 1
#define MPI_INT 4
#define MPI_UINT32_T 5
#define MPI_UNSIGNED 5
#define MPI_LONG_LONG 8
#define MPI_LONG_LONG_INT 8
#define MPI_UINT64_T 9
#define MPI_UINT8_T 2
#define MPI_DOUBLE 10
#define MPI_UNSIGNED_LONG_LONG 9
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_MIN 3
#define MPI_INFO_NULL 0
#define MPI_COMM_TYPE_SHARED 1
#define MPI_IN_PLACE ((void *)-1)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
int    MPI_Init(int *, char ***);
int    MPI_Initialized(int *);
int    MPI_Finalize(void);
double MPI_Wtime(void);
int    MPI_Comm_rank(MPI_Comm, int *);
int    MPI_Comm_size(MPI_Comm, int *);
int    MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int    MPI_Comm_free(MPI_Comm *);
int    MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int    MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm *);
int    MPI_Barrier(MPI_Comm);
int    MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int    MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int    MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int    MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int    MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int    MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int    MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int    MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int    MPI_Scatterv(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int    MPI_Abort(MPI_Comm, int);
#endif
