#pragma once
#include "sim.h"
#define API_LIST(X) X(Init) X(Finalize) X(Allreduce_init) X(Allgatherv_init) X(Reduce_scatter_init) X(Bcast_init) X(Reduce_init) X(Gatherv_init) X(Scatterv_init) \
  X(Allgather_init) X(Reduce_scatter_block_init) X(Gather_init) X(Scatter_init) X(Request_free) X(Start) X(Startall) X(Wait) X(Waitall) X(Waitany) X(Waitsome) X(Test) X(Testall) X(Testany) X(Testsome) \
  X(Allreduce) X(Reduce_scatter_block) X(Allgather) X(Comm_dup) X(Comm_split) X(Comm_create) X(Comm_split_type) X(Comm_free)
extern "C" {
int PMPI_Allreduce_init(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, MPI_Request *);
int PMPI_Allgatherv_init(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm, MPI_Info, MPI_Request *);
int PMPI_Reduce_scatter_init(const void *, void *, const int *, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, MPI_Request *);
int PMPI_Bcast_init(void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
int PMPI_Reduce_init(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Info, MPI_Request *);
int PMPI_Gatherv_init(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
int PMPI_Scatterv_init(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
int PMPI_Allgather_init(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Info, MPI_Request *);
int PMPI_Reduce_scatter_block_init(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, MPI_Request *);
int PMPI_Gather_init(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
int PMPI_Scatter_init(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
}
struct Api {
#define D(f) decltype(&PMPI_##f) f;
  API_LIST(D)
#undef D
};
extern Api api[MAXR];
struct WorkStats { uint64_t results_checked = 0, bytes_checked = 0, starts = 0, frees = 0, tests = 0, cmpl[8] = {0}, text = 0, extra = 0, bit_checks = 0, rhash = 0; };
extern WorkStats ws;
void bind_api(int n);
void run_case(const std::string &spec);
std::string S(const char *k, const char *d);
int I(const char *k, int d);
uint64_t H(uint64_t a, uint64_t b, uint64_t c, uint64_t d);
void *exe_sym(const char *n);
