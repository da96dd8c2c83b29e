// Stand-in for MPI used by the verification harness.
// Ranks are processes forked by MPI_Init when MINIMPI_SIZE > 1; collectives go
// through shared memory.  A collective that not all ranks reach makes every
// waiting rank exit with status 86 after MINIMPI_TIMEOUT seconds.
#pragma once
#include <cstddef>

typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Request;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
typedef long MPI_Aint;

#define MPI_SUCCESS 0
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_COMM_TYPE_SHARED 1
#define MPI_INFO_NULL 0
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_UNDEFINED (-32766)
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3

enum {
  MPI_CHAR = 1, MPI_INT, MPI_LONG, MPI_LONG_LONG, MPI_DOUBLE, MPI_FLOAT,
  MPI_UNSIGNED, MPI_UNSIGNED_LONG, MPI_UNSIGNED_CHAR, MPI_BYTE, MPI_C_BOOL, MPI_CXX_BOOL,
  MPI_SIZE_T_, MPI_DOUBLE_INT
};
#define MPI_INT64_T MPI_LONG
#define MPI_INT32_T MPI_INT
#define MPI_UINT64_T MPI_UNSIGNED_LONG
#define MPI_LONG_LONG_INT MPI_LONG_LONG
enum { MPI_SUM = 1, MPI_MIN, MPI_MAX, MPI_PROD, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR, MPI_MINLOC, MPI_MAXLOC };

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
void minimpi_collect();  // waits for the other processes; done at exit

int MPI_Finalize();
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*);
int& minimpi_pretend();  // a size to report instead of the real one (0: the real one)
int& minimpi_pretend_rank();  // the rank to report while a size is pretended
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Get_processor_name(char*, int*);
double MPI_Wtime();

#include <vector>
// Exchange of byte strings with the given peers only (point-to-point).
void minimpi_pairwise(const std::vector<int>& peers, const std::vector<std::vector<char>>& send, std::vector<std::vector<char>>& recv);
