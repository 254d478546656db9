#pragma once
#include <mpi.h>
#include <dlafsim/core.h>
#include <string>
#include <vector>

namespace sim {
bool mpi_post_inline();
// Runs the task (as a new task of the rank) once the request is complete; consumes the request
void mpi_on_complete(MPI_Request req, TaskFn fn);

struct MpiRankStats {
  long comms_live = 0;      // communicators created by the rank and not freed
  long comms_created = 0;
  long types_live = 0;
  long types_created = 0;
  long reqs_live = 0;
  bool initialized = false;
  bool finalized = false;
  bool aborted = false;
  int provided = 3;
  long calls = 0;
};
MpiRankStats& mpi_stats(int rank);
// all ranks start with MPI already initialised
void mpi_auto_init(bool on);
void mpi_set_provided(int level);
// fault injection: the n-th MPI communication call of `rank` (any rank if < 0) returns an error; n<0: never
// From then on an abort of that rank is the required outcome
void mpi_inject_error(int rank, long nth, int code = MPI_ERR_OTHER);
// the same, counting only the calls from the given call site (sites are numbered as the rank reaches them)
void mpi_inject_error_at(int rank, long site, long nth, int code = MPI_ERR_OTHER);
// the n-th completion of an asynchronous operation of `rank` reports an error
void mpi_inject_completion_error(int rank, long nth);
bool mpi_fail_completion();
bool mpi_error_fired();
std::string mpi_error_call();
void mpi_check_quiescent(bool leaks);  // violation if some request/message is unmatched at the end
std::uint64_t mpi_op_count();
bool& mpi_expect_abort();
// observation: called for each collective entered (comm ctx, rank in comm, kind)
}
