// A strict MPI over shared memory for the processes of one test case.  See mpishim.cpp.
#ifndef VERIF_MPISHIM_H
#define VERIF_MPISHIM_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Datatype;   // low byte: size, next byte: kind (0 signed, 1 unsigned, 2 float, 3 bytes)
typedef int MPI_Op;
typedef int MPI_Comm;
typedef long MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t bytes; } MPI_Status;
typedef struct vshim_req* MPI_Request;
enum { MPI_COMM_NULL = 0, MPI_COMM_WORLD = 1, MPI_COMM_SELF = 2 };
enum { MPI_SUCCESS = 0, MPI_ERR_OTHER = 15, MPI_ANY_SOURCE = -2, MPI_ANY_TAG = -1, MPI_PROC_NULL = -3, MPI_UNDEFINED = -32766 };
enum { MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
enum { MPI_MAX_ERROR_STRING = 512, MPI_MAX_PROCESSOR_NAME = 128 };
#define MPI_CHAR 0x0001
#define MPI_SIGNED_CHAR 0x0001
#define MPI_UNSIGNED_CHAR 0x0101
#define MPI_BYTE 0x0301
#define MPI_SHORT 0x0002
#define MPI_UNSIGNED_SHORT 0x0102
#define MPI_INT 0x0004
#define MPI_UNSIGNED 0x0104
#define MPI_INT32_T 0x0004
#define MPI_UINT32_T 0x0104
#define MPI_LONG 0x0008
#define MPI_LONG_LONG 0x0008
#define MPI_LONG_LONG_INT 0x0008
#define MPI_INT64_T 0x0008
#define MPI_UNSIGNED_LONG 0x0108
#define MPI_UNSIGNED_LONG_LONG 0x0108
#define MPI_UINT64_T 0x0108
#define MPI_FLOAT 0x0204
#define MPI_DOUBLE 0x0208
#define MPI_C_BOOL 0x0101
#define MPI_CXX_BOOL 0x0101
enum { MPI_SUM = 1, MPI_MAX, MPI_MIN, MPI_PROD, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR };
#define MPI_IN_PLACE ((void*)-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Error_string(int, char*, int*);
int MPI_Get_processor_name(char*, int*);
int MPI_Type_size(MPI_Datatype, int*);
double MPI_Wtime(void);
#ifdef __cplusplus
}
namespace MPI {
struct Datatype { MPI_Datatype t; operator MPI_Datatype() const { return t; } };
static const Datatype CHAR = {MPI_CHAR}, BYTE = {MPI_BYTE}, SHORT = {MPI_SHORT}, INT = {MPI_INT}, UNSIGNED = {MPI_UNSIGNED},
    LONG = {MPI_LONG}, UNSIGNED_LONG = {MPI_UNSIGNED_LONG}, LONG_LONG = {MPI_LONG_LONG},
    UNSIGNED_LONG_LONG = {MPI_UNSIGNED_LONG_LONG}, FLOAT = {MPI_FLOAT}, DOUBLE = {MPI_DOUBLE}, BOOL = {MPI_CXX_BOOL};
}
#endif
#endif
