#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
NOPIKA = "The part of the code that needs the task runtime is not even compiled by the tests that run here; upstream's tests sample a few sizes under whatever interleaving the machine happens to produce. "
I = "include/dlaf/"
prop("C01", "Pipelined resource accesses are granted in request order",
  "Accesses to a resource guarded by a pipeline are granted in the order in which they were requested: an exclusive access runs alone, after every earlier access was released and before any later one starts, and consecutive shared accesses may overlap but only see the value left by the previous exclusive access. Nested pipelines keep the parent access alive until they are finished, and no access is lost, granted twice or granted after its value was destroyed.",
  ["schedules", "programs"], "every sequence of exclusive/shared/nested requests and releases, every task interleaving and worker count",
  "Ordering errors appear only under particular interleavings of request, start, completion and release. " + NOPIKA,
  [I+"common/pipeline.h", I+"communication/communicator_pipeline.h", I+"matrix/internal/tile_pipeline.h"],
  [("Pipeline over async_rw_mutex; sub_pipeline ties the parent wrapper's lifetime", I+"common/pipeline.h"), ("CommunicatorPipeline", I+"communication/communicator_pipeline.h")],
  observe=["values and begin/end events recorded by each granted access"])
prop("C02", "Operations on a matrix tile behave as if executed in program order",
  "Whatever reads and writes of tiles, sub-tiles, re-tiled views, read-only or nested views of a matrix are submitted, each one observes exactly the data a sequential execution in submission order would give, views address the storage of the matrix they were taken from, and concurrent accesses never overlap with a write to the same elements. Destroying a matrix or a view while operations are pending neither loses them nor frees memory that they still use.",
  ["schedules", "programs"], "every program of tile operations through matrices, views, sub-tiles and nested pipelines, every interleaving",
  "The guarantee quantifies over all programs and interleavings; the tests that run here contain no asynchronous access. " + NOPIKA,
  [I+"matrix/matrix.h", I+"matrix/matrix_base.h", I+"matrix/tile.h", I+"matrix/internal/tile_pipeline.h", I+"matrix/matrix_ref.h", I+"matrix/panel.h", "src/matrix/tile.cpp", I+"memory/memory_view.h"],
  [("per tile pipeline, shared ownership of the parent tile by sub-tiles", I+"matrix/tile.h"), ("retiledSubPipeline, subPipeline, done()", I+"matrix/matrix.h")],
  observe=["element values seen by each task", "released memory"])
prop("C03", "Collectives on a communicator are issued in the same order on all ranks",
  "When all ranks submit the same sequence of operations to the communicators of a grid, every communicator carries its collective operations in the same order on every rank, whatever the local task interleaving, so that collectives are always matched with their counterpart of the same kind, size and root. An exclusive use of a communicator is never interleaved with another use of it, also when communicators are handed out as nested pipelines or in round-robin.",
  ["schedules", "programs", "configurations"], "every sequence of communications submitted on row, column and full communicators, any number of pipelines, every combination of per-rank interleavings",
  "A wrong order matches collectives of different operations only if two ranks happen to interleave differently; a real run rarely does. " + NOPIKA,
  [I+"communication/communicator_pipeline.h", I+"communication/communicator_grid.h", "src/communication/communicator_grid.cpp", I+"common/round_robin.h", I+"common/pipeline.h"],
  [("communicator pipelines, exclusive() and sub_pipeline()", I+"communication/communicator_pipeline.h"), ("round robin of duplicated communicators", I+"communication/communicator_grid.h")],
  observe=["collective signatures per communicator and rank"])
prop("C04", "Asynchronous tile communication delivers exactly the data sent",
  "Asynchronous broadcast, reduce, all-reduce, point-to-point and point-to-point-sum of tiles deliver to every destination exactly the values (or the element-wise reduction) of the sources as they were when the operation became ready, for contiguous and strided tiles. Sources are left unchanged, nothing outside the destination is written, and the buffers used stay allocated and untouched until the transfer completes.",
  ["schedules", "inputs", "fault_sequences"], "every tile shape and leading dimension, element type, root, rank count, buffering mode, delay and completion order of the transfers",
  "Use-after-free or premature reuse of a communication buffer is invisible when the transport copies eagerly, as it does for the sizes tests use. " + NOPIKA,
  [I+"communication/kernels/internal/broadcast.h", I+"communication/kernels/internal/reduce.h", I+"communication/kernels/internal/all_reduce.h", I+"communication/kernels/internal/p2p.h", "src/communication/kernels/broadcast.cpp", "src/communication/kernels/reduce.cpp", "src/communication/kernels/all_reduce.cpp", "src/communication/kernels/p2p.cpp", I+"communication/kernels/p2p_allsum.h", I+"sender/with_temporary_tile.h", I+"sender/transform_mpi.h", I+"communication/message.h"],
  [("temporary contiguous tile kept alive around the transfer", I+"sender/with_temporary_tile.h"), ("MPI requests bound to tasks", I+"sender/transform_mpi.h")],
  observe=["destination tiles", "source tiles", "state of every communication buffer while the request is in flight"])
prop("C05", "Panel broadcasts give every rank the source panel's tiles",
  "After a row or column panel is broadcast, each rank's panel holds, for every tile index in the broadcast range, the data of the panel on the root rank; a transposed broadcast gives, for each tile index the rank needs, the corresponding tile of the source panel. It holds for any offset, distribution, panel range and for panels that link to matrix tiles, and successive reuses of the same workspace panel never leak data between iterations.",
  ["schedules", "inputs", "configurations"], "every panel range, orientation, grid shape, source rank, reuse history and interleaving",
  "Needs many grid shapes and reuse histories combined with adverse schedules. " + NOPIKA,
  [I+"matrix/panel.h", I+"communication/broadcast_panel.h", I+"common/round_robin.h"],
  [("panel storage, external tile links, reset()", I+"matrix/panel.h"), ("broadcast and transposed broadcast", I+"communication/broadcast_panel.h")],
  observe=["panel tiles on every rank"])
prop("C06", "Copying or redistributing a matrix preserves its contents",
  "Copying a matrix into another of the same size gives the destination exactly the source's elements, even if the two have different block sizes, tile sizes, source ranks or distributions on the grid, and leaves the source unchanged. Copies may be followed or preceded by other operations on either matrix without changing what is copied.",
  ["schedules", "inputs", "configurations"], "every pair of distributions of the same size, grid shape and message ordering",
  "A mis-tagged message is only mis-delivered when two messages between the same ranks are in flight in another order than they are received. " + NOPIKA,
  [I+"matrix/copy.h", I+"matrix/copy_tile.h", I+"matrix/matrix_mirror.h", I+"matrix/create_matrix.h"],
  [("tile-wise copies, redistribution through tagged messages", I+"matrix/copy.h")],
  observe=["destination and source elements"])
prop("C07", "Triangular solve and triangular multiply compute the documented result",
  "Solving with, or multiplying by, a triangular matrix gives the documented result for every side, triangle, transposition, diagonal kind and scaling factor, locally and distributed. Only the given triangle of the triangular operand is referenced, and it is left unchanged.",
  ["schedules", "inputs", "configurations"], "all option combinations, sizes, block sizes, grid shapes, source ranks, worker counts and interleavings",
  "Races or lost dependencies between the updates of different iterations only show under particular interleavings and shapes. " + NOPIKA,
  [I+"solver/triangular/impl.h", I+"solver/triangular.h", I+"multiplication/triangular/impl.h", I+"multiplication/triangular.h"],
  [("task graphs of the solver variants", I+"solver/triangular/impl.h"), ("task graphs of the multiplication variants", I+"multiplication/triangular/impl.h")],
  observe=["result matrix and operands"])
prop("C08", "Cholesky factorization reconstructs the input matrix",
  "For a Hermitian positive definite matrix the Cholesky factorization overwrites the selected triangle with the triangular factor whose product with its conjugate transpose is the input, locally and on every process grid. The opposite triangle is neither referenced nor modified. A matrix which is not positive definite makes the program stop with an error, it is never factorised.",
  ["schedules", "inputs", "configurations"], "sizes (also zero and non multiples), block sizes, triangle, grid shape, source rank, worker count, every interleaving and message delay",
  "Missing dependencies in the task graph or mis-ordered communication only show under particular interleavings. " + NOPIKA,
  [I+"factorization/cholesky/impl.h", I+"factorization/cholesky.h", I+"lapack/tile.h", I+"blas/tile.h"],
  [("task graph of the factorization", I+"factorization/cholesky/impl.h")],
  observe=["factor, opposite triangle"])
prop("C09", "Triangular inverse and inverse from a Cholesky factor are correct",
  "Inverting a triangular matrix, or computing the inverse of a matrix from its Cholesky factor (or assembling it from it), overwrites the selected triangle with the corresponding triangle of the exact inverse up to rounding, locally and on every process grid. The opposite triangle is neither referenced nor modified. A singular triangular matrix makes the program stop with an error, it is never inverted.",
  ["schedules", "inputs", "configurations"], "sizes, block sizes, triangle, diagonal kind, grid shape, source rank, every interleaving and message delay",
  "Needs adverse interleavings over many shapes. " + NOPIKA,
  [I+"inverse/triangular/impl.h", I+"inverse/cholesky/impl.h", I+"inverse/triangular.h", I+"inverse/cholesky.h"],
  [("task graphs", I+"inverse/triangular/impl.h"), ("task graphs", I+"inverse/cholesky/impl.h")],
  observe=["inverse, opposite triangle"])
prop("C10", "Reduction of a generalized eigenproblem to standard form is correct",
  "Given a Hermitian matrix and a Cholesky factor, the reduction to standard form overwrites the selected triangle of the matrix with that of the two-sided transformed matrix, locally and on every process grid. The factor is left unchanged and the opposite triangle is not referenced or modified.",
  ["schedules", "inputs", "configurations"], "sizes, block sizes, triangle, grid shape, source rank, every interleaving and message delay",
  "Needs adverse interleavings over many shapes. " + NOPIKA,
  [I+"eigensolver/gen_to_std/impl.h", I+"eigensolver/gen_to_std.h"],
  [("task graph", I+"eigensolver/gen_to_std/impl.h")],
  observe=["transformed matrix, factor"])
prop("C11", "Reduction to band form and its back-transformation preserve the spectrum",
  "Reducing a Hermitian matrix to band form gives a band matrix and reflectors such that applying the back-transformation to the band matrix's eigenvectors (or to any matrix) is the same as multiplying by the unitary matrix that relates the band matrix to the original one. It holds for every band size accepted for the block size, any number of worker threads used for a panel, locally and on every process grid.",
  ["schedules", "inputs", "configurations"], "sizes, block sizes, band sizes, degenerate columns, grid shapes, panel thread counts, interleavings of the panel threads and message delays",
  "The panel is factorized by several cooperating threads with barriers while other panels' updates run; errors depend on the interleaving. " + NOPIKA,
  [I+"eigensolver/reduction_to_band/impl.h", I+"eigensolver/reduction_to_band.h", I+"eigensolver/bt_reduction_to_band/impl.h", I+"eigensolver/bt_reduction_to_band.h", I+"factorization/qr/t_factor_impl.h", I+"factorization/qr/internal/get_tfactor_num_workers.h"],
  [("panel factorization with a barrier between workers", I+"eigensolver/reduction_to_band/impl.h"), ("T factor", I+"factorization/qr/t_factor_impl.h")],
  observe=["band matrix, reflectors, taus, back-transformed matrix"])
prop("C12", "Reduction of a band matrix to tridiagonal form is a similarity transform",
  "Reducing a Hermitian band matrix to tridiagonal form gives a real tridiagonal matrix with the same spectrum, and the stored reflectors, applied by the back-transformation, turn eigenvectors of the tridiagonal matrix into eigenvectors of the band matrix. It holds for every band size, locally and on every process grid, regardless of how the concurrent sweeps interleave.",
  ["schedules", "inputs", "configurations"], "sizes, block and band sizes, grid shapes, workers, all interleavings of the concurrent sweeps",
  "Sweeps are pipelined with hand-written synchronization between tasks and ranks; missing synchronization only shows when a later sweep overtakes an earlier one. " + NOPIKA,
  [I+"eigensolver/band_to_tridiag/mc.h", I+"eigensolver/band_to_tridiag.h", I+"eigensolver/bt_band_to_tridiag/impl.h", I+"eigensolver/bt_band_to_tridiag.h"],
  [("semaphores between consecutive sweeps, continuation of sweeps on other ranks", I+"eigensolver/band_to_tridiag/mc.h"), ("blocked back-transformation", I+"eigensolver/bt_band_to_tridiag/impl.h")],
  observe=["tridiagonal matrix, reflectors, back-transformed matrix"])
prop("C13", "The tridiagonal eigensolver returns an orthonormal eigendecomposition",
  "For every real symmetric tridiagonal matrix the divide and conquer solver returns the eigenvalues in ascending order and an orthonormal set of eigenvectors which diagonalize the matrix, also when eigenvalues are repeated, clustered or deflated. All ranks return the same eigenvalues.",
  ["schedules", "inputs", "configurations"], "diagonals and off-diagonals (also zeros, constants, clusters), sizes, block sizes, grid shapes, workers, interleavings",
  "Merges use several cooperating threads with barriers and rank-dependent permutations whose branches depend on deflation patterns. " + NOPIKA,
  [I+"eigensolver/tridiag_solver/impl.h", I+"eigensolver/tridiag_solver/merge.h", I+"eigensolver/tridiag_solver/rot.h", I+"eigensolver/tridiag_solver/kernels.h", I+"eigensolver/tridiag_solver/index_manipulation.h", I+"eigensolver/tridiag_solver/coltype.h", I+"eigensolver/tridiag_solver/tile_collector.h"],
  [("merge of subproblems, barriers between workers", I+"eigensolver/tridiag_solver/merge.h"), ("Givens rotations for deflation", I+"eigensolver/tridiag_solver/rot.h")],
  observe=["eigenvalues, eigenvectors"])
prop("C14", "Hermitian eigensolvers return a valid eigendecomposition",
  "The standard and generalized Hermitian eigensolvers (also with a pre-computed Cholesky factor and for a leading part of the spectrum) return ascending eigenvalues, identical on all ranks, and eigenvectors that satisfy the eigenvalue equation and the (B-)orthonormality condition. It holds for local and distributed matrices, for both triangles, and only the selected triangle of the inputs is referenced.",
  ["schedules", "inputs", "configurations"], "sizes, block sizes, band sizes, spectra, spectrum ranges, grid shapes, workers, interleavings and message delays",
  "The end-to-end result composes all stages, whose tasks overlap in time in ways tests do not control. " + NOPIKA,
  [I+"eigensolver/eigensolver.h", I+"eigensolver/eigensolver/impl.h", I+"eigensolver/gen_eigensolver.h", I+"eigensolver/gen_eigensolver/impl.h", I+"eigensolver/internal/get_band_size.h"],
  [("composition of the stages", I+"eigensolver/eigensolver/impl.h"), ("generalized problem", I+"eigensolver/gen_eigensolver/impl.h")],
  observe=["eigenvalues, eigenvectors"])
prop("C15", "Row and column permutations move exactly the requested rows or columns",
  "Permuting a range of rows or columns by an index array puts into each output row or column exactly the input row or column the array names, and leaves everything outside the range unchanged. It holds locally and on every process grid, for any permutation.",
  ["schedules", "inputs", "configurations"], "permutations, tile ranges, distributions, grid shapes, interleavings and message delays",
  "Packing, all-to-all exchange and unpacking depend on the permutation and the grid; overlap with neighbouring operations depends on the schedule. " + NOPIKA,
  [I+"permutations/general/impl.h", I+"permutations/general.h"],
  [("local permutation tasks; distributed pack, exchange, unpack", I+"permutations/general/impl.h")],
  observe=["output matrix"])
prop("C16", "Matrix norms match the definition",
  "The max norm of a general matrix or of the stored triangle of a Hermitian matrix equals the largest absolute value among the referenced elements, is zero for an empty matrix and is delivered to the requested rank. Computing it does not change the matrix and does not interfere with other operations on it or on the communicator.",
  ["schedules", "inputs", "configurations"], "sizes, block sizes, triangles, requested rank, grids, concurrent operations, interleavings",
  "Concurrency with other operations on the same matrix and communicator is not sampled by tests. " + NOPIKA,
  [I+"auxiliary/norm/mc.h", I+"auxiliary/norm.h", I+"communication/sync/reduce.h"],
  [("local norms, reduction", I+"auxiliary/norm/mc.h")],
  observe=["returned norm"])
prop("C17", "Concurrent operations always terminate and do not interfere",
  "Any sequence of algorithms submitted back to back on the same grid and on the same or different matrices, without waiting in between, terminates on every rank and gives the same results as if each one was executed to completion before the next was submitted. It holds for any number of worker threads and of communicator pipelines, with or without a dedicated communication thread, and for arbitrarily slow or stalled ranks; only the distributed reduction to band, and with it the distributed eigensolvers, need at least two threads per process and two communicator pipelines.",
  ["schedules", "programs", "configurations", "fault_sequences"], "programs of several algorithms, worker counts, pipeline counts, communication pool, slow and stalled ranks, message delays, all interleavings",
  "Deadlocks and cross-talk need specific combinations of rank progress and thread occupation. " + NOPIKA,
  [I+"sender/transform.h", I+"sender/transform_mpi.h", I+"communication/communicator_grid.h", I+"communication/communicator_pipeline.h", I+"common/pipeline.h", I+"schedulers.h"],
  [("asynchronous submission, no blocking in tasks", I+"sender/transform_mpi.h"), ("ordered communicators", I+"communication/communicator_pipeline.h")],
  observe=["termination within a bounded number of scheduler steps", "results"])
prop("C18", "General and Hermitian matrix multiplication compute the documented result",
  "General multiplication of (sub-)matrices and Hermitian multiplication give the documented combination of the operands and the previous contents of the result, for every supported side, triangle, transposition and scaling factors, locally and distributed. Operands and everything outside the addressed part of the result are left unchanged.",
  ["schedules", "inputs", "configurations"], "sizes, offsets, block sizes, factors, grids, interleavings and message delays",
  "Needs adverse interleavings over many shapes. " + NOPIKA,
  [I+"multiplication/general/impl.h", I+"multiplication/general.h", I+"multiplication/hermitian/impl.h", I+"multiplication/hermitian.h"],
  [("task graphs", I+"multiplication/general/impl.h"), ("task graphs", I+"multiplication/hermitian/impl.h")],
  observe=["result matrix and operands"])
prop("C19", "The C interface runs routines to completion on the right grid",
  "A routine called through the C interface has finished on return: its outputs are complete in the caller's memory and no task or message of the call is left behind. Grid handles stay valid and distinct from each other until freed, also after other grids were created or freed, each call uses the grid of its handle, and initialization, suspension and finalization can be followed by further use as documented, with finalization releasing all grids.",
  ["schedules", "histories", "programs"], "every history of initialize, create and free grid, routine calls and finalize; every interleaving; memory layouts with padding",
  "Histories of grid creation and release, and the moment the caller reads its memory relative to pending tasks, are not sampled by tests. " + NOPIKA,
  ["src/c_api/init.cpp", "src/c_api/grid.cpp", "src/c_api/utils.cpp", "src/c_api/utils.h", "src/c_api/factorization/cholesky.h", "src/c_api/eigensolver/eigensolver.h", "src/c_api/eigensolver/gen_eigensolver.h", "src/c_api/inverse/cholesky.h", "include/dlaf_c/grid.h", "include/dlaf_c/init.h"],
  [("grid table", "src/c_api/grid.cpp"), ("resume/suspend around each call", "src/c_api/init.cpp")],
  observe=["caller's memory at return", "grid handles", "live tasks and requests at return"])
prop("C20", "All communication and memory resources are released",
  "After the results of all operations are available and the objects of a program are destroyed, no message, communication request, derived datatype, communicator or workspace buffer is left, and nothing was accessed after it was released or outside of its bounds. It holds for every algorithm and for objects that are copied, moved or destroyed while operations are pending.",
  ["schedules", "programs", "histories"], "programs over all algorithms, moves and destructions of handles, matrices and grids at any point, all interleavings",
  "Leaks and late accesses do not change results; the tests do not count resources and never force late completion. " + NOPIKA,
  ["src/communication/communicator_impl.cpp", "src/communication/communicator_impl.h", "src/communication/communicator.cpp", I+"communication/communicator.h", I+"communication/type_handler.h", I+"communication/message.h", "src/memory/memory_chunk.cpp", I+"memory/memory_chunk.h", I+"memory/memory_view.h"],
  [("ownership of communicators, datatypes", "src/communication/communicator_impl.cpp"), ("reference counted memory", I+"memory/memory_view.h")],
  observe=["live MPI objects and allocations per rank"])
prop("C21", "Environment failures are never turned into silently wrong results",
  "If a communication call reports an error or an allocation fails, the affected process reports the failure and terminates abnormally; it never continues to a normal return with results that depend on the failed call. Starting with an insufficient level of thread support of the communication library is refused.",
  ["fault_sequences", "schedules"], "every communication call or allocation as the failing one, every algorithm stage, every interleaving",
  "No test injects failures. " + NOPIKA,
  [I+"communication/error.h", I+"sender/transform_mpi.h", "src/communication/communicator_impl.cpp", "src/communication/communicator.cpp", "src/init.cpp", I+"communication/init.h", "src/memory/memory_chunk.cpp", I+"sender/transform.h"],
  [("error check macro around MPI calls", I+"communication/error.h"), ("thread level check", "src/init.cpp")],
  observe=["termination mode of each rank, results"])
prop("C22", "A communicator grid maps ranks to coordinates as documented",
  "A grid built from a communicator gives each participating rank the coordinates defined by the requested ordering; the ranks in its row and column communicators are the column and row coordinates, and ranks outside the grid get no coordinates. Every communicator pipeline handed out is independent of the user's communicator and of the others, and waiting for a grid returns only after all operations submitted on its communicators have completed.",
  ["schedules", "configurations", "programs"], "grid shapes, orderings, extra ranks, pipeline counts, operations pending at the wait, interleavings",
  "The existing tests check a few fixed shapes and no pending operations. " + NOPIKA,
  [I+"communication/communicator_grid.h", "src/communication/communicator_grid.cpp", I+"communication/communicator_pipeline.h", I+"communication/functions_sync.h"],
  [("split into row and column communicators", "src/communication/communicator_grid.cpp"), ("wait_all_communicators", I+"communication/communicator_grid.h")],
  observe=["coordinates, ranks, data delivered on each communicator"])
prop("C23", "Blocking communication primitives deliver exactly the data sent",
  "The blocking broadcast, reduce, all-reduce and point-to-point primitives deliver on every rank exactly the values (or reductions) of the sources for contiguous and strided buffers, also in place. They write nothing outside the destination buffer, leave sources unchanged, and release every derived datatype they create.",
  ["schedules", "inputs", "fault_sequences"], "buffer shapes, strides, types, roots, rank counts, buffering modes, message delays",
  "Tests cover few shapes, on a transport whose timing they do not control, and do not count datatypes.",
  [I+"communication/sync/all_reduce.h", I+"communication/sync/basic.h", I+"communication/sync/broadcast.h", I+"communication/sync/reduce.h", I+"communication/message.h", I+"communication/type_handler.h", I+"common/data.h", I+"common/data_descriptor.h", I+"communication/rdma.h"],
  [("strided data as derived datatype or temporary buffer", I+"communication/message.h"), ("temporary contiguous copies", I+"communication/sync/reduce.h")],
  observe=["buffers on every rank", "live datatypes"])
prop("C24", "Matrix generators give the documented matrix whatever its distribution",
  "The utilities which fill a matrix (a constant function of the indices, identity, zero, random, random hermitian with or without positive definiteness or band, random non zero diagonal) set every element of the matrix, or of the requested range of a panel, and nothing else, as documented (value ranges, hermitian, zero outside of the band). The random ones give the same matrix on every grid, source rank, distribution offset and allocation layout, and like any other operation they take effect in program order among pending reads and writes.",
  ["schedules", "inputs", "configurations"], "every size, block and tile size, grid, distribution, layout, generator, interleaving with pending operations",
  "The tests use the generators but cannot observe them on other distributions than the one of the test, nor under pending accesses. " + NOPIKA,
  [I+"util_matrix.h", I+"matrix/panel.h", I+"matrix/matrix.h"],
  [("one task per local tile, random sequence seeded by the global tile index", I+"util_matrix.h"), ("set0 of panels and tiles", I+"util_matrix.h")],
  observe=["elements of the matrix on every rank"])
prop("C25", "Printed matrices show every element with its value in program order",
  "Printing a tile, a matrix, a re-tiled matrix or a part of one, local or distributed, as csv or numpy shows each (local) element exactly once, at its position and with its value (complex included; in numpy format also infinities and NaN, as expressions Python accepts), as of the writes submitted before the print and not those submitted after it, and leaves the matrix unchanged.",
  ["schedules", "inputs"], "every size, block and tile size, grid, part of a matrix, format, interleaving with pending operations",
  "Upstream's tests compare the text of fixed matrices; the order with respect to pending operations is never exercised. " + NOPIKA,
  [I+"matrix/print_csv.h", I+"matrix/print_numpy.h"],
  [("synchronous wait for a read access of each tile", I+"matrix/print_numpy.h")],
  observe=["the text, parsed back"])
prop("C26", "Tasks run exactly once, with live arguments released at completion",
  "Work submitted through the sender adaptors of the library (transform, transformDetach, transformLift and its detached form, partial application, transformMPI, operations with a temporary tile) runs exactly once if it is started and never if it is dropped, with the requested priority and stack size. Its arguments, tiles included, are alive until it completes (for communication: until the request completes) and released before its continuation starts, so that later accesses of the same tiles, by whatever thread, run in program order without deadlock; a communicator is released as soon as the operation is posted. The value returned by the task, or the exception it throws or gets from its predecessors, arrives at the continuation.",
  ["schedules", "histories", "fault_sequences"], "every composition of adaptors, interleaving, failing task and failing predecessor",
  "The tests of the adaptors run a handful of fixed compositions; lifetime and release order depend on the schedule. " + NOPIKA,
  [I+"sender", I+"communication/message.h", I+"common/unwrap.h", I+"common/consume_rvalues.h"],
  [("ownership of the arguments until completion", I+"common/consume_rvalues.h"), ("request polling", I+"sender/transform_mpi.h"), ("temporary tile and its copies", I+"sender/with_temporary_tile.h")],
  observe=["calls of the tasks, lifetime of arguments, values and exceptions at the continuation"])
prop("C27", "Tile operations compute the documented operation on any tile and nothing else",
  "Every operation on tiles (products, triangular products and solves, rank updates, factorizations, inverses, reduction of a generalized problem, tridiagonal eigensolver, norms, copies, scaling and setting, those with a workspace included) computes, for every combination of its options, the documented result on tiles of any size, empty ones included, at any place of a larger tile and with any layout. It neither uses nor changes elements outside of the tile, of the triangle which is not referenced or of a unit diagonal, returns the documented value or status, and takes effect in program order with the other operations on the tiles.",
  ["inputs", "schedules", "histories"], "every operation, option, size, sub tile, layout and sequence of operations",
  "Tests sample a table of sizes and options on separate tiles; the property quantifies over all of them and over sequences of operations sharing tiles. " + NOPIKA,
  [I+"blas/tile.h", I+"blas/tile_extensions.h", I+"lapack/tile.h", I+"lapack/tile_extensions.h", I+"util_blas.h", I+"matrix/copy_tile.h"],
  [("sizes and leading dimensions handed to BLAS and LAPACK", I+"util_blas.h"), ("operations on workspaces", I+"lapack/tile_extensions.h")],
  observe=["elements of all tiles, returned values"])
prop("C30", "Layouts computed by the ranks independently agree and partition the matrix",
  "Every rank derives, without communication, which elements of a matrix it and the others own. For every size, block and tile size, grid, source rank and offset, and for every distribution derived from another one (sub-distributions, single tile per block), these layouts agree with the block-cyclic definition: every element, tile and block belongs to exactly one rank and one local position, the conversions between global, local, tile, block and element indices are mutually inverse, and sizes and counts of local and global tiles are those of the elements owned.",
  ["inputs", "configurations", "histories"], "all sizes, block and tile sizes, grids, source ranks, offsets and chains of derivations",
  "Tests sample a table of cases on one rank; the property quantifies over all of them and over the agreement between ranks.",
  [I+"matrix/distribution.h", I+"matrix/util_distribution.h", "src/matrix/distribution.cpp", I+"matrix/distribution_extensions.h"],
  [("index arithmetic", I+"matrix/util_distribution.h"), ("each rank computes its local size and tiles by itself", "src/matrix/distribution.cpp")],
  observe=["owner, local position and size of every element, tile and block on every rank"])
prop("C31", "Configuration sources are applied with the documented precedence",
  "In each initialization of the library every option takes the value given on the command line, else in the environment, else in the user's configuration, else the default, independently of the other options; a configuration does not outlive its initialization, while tuning parameters, which the user sets through their accessor, keep their value until another source gives one. The values are those used afterwards and those which are printed, and malformed or meaningless values are refused.",
  ["inputs", "configurations", "histories"], "all options, all combinations of sources, every history of initializations and finalizations",
  "Tests cover a few options, one initialization per process and not the values in effect. " + NOPIKA,
  ["src/init.cpp", I+"init.h", I+"tune.h", "src/tune.cpp"], [("updateConfigurationValue", "src/init.cpp"), ("table of tune parameters", "src/tune.cpp")],
  state=[("configuration", "values in effect between initialize and finalize", "src/init.cpp")],
  observe=["values of the configuration and tune parameters, printed text, layout of new matrices"])
prop("C32", "Matrices written to HDF5 files read back unchanged",
  "A matrix written to a dataset of a file is read back, locally or distributed with any block size, source rank and grid, with exactly the elements it had when it was written, also if other operations on it are pending before or follow the write. A local matrix is written by a single rank and a distributed one by all ranks in parallel; a failing read or write is reported to the caller, and a dataset with another element type is refused.",
  ["schedules", "histories", "inputs", "fault_sequences"], "every matrix size, distribution, layout, interleaving with pending operations and failing file operation",
  "HDF5 support is not built where the tests run; its tests use one file, one matrix and no pending operations or failures.",
  [I+"matrix/hdf5.h", "src/matrix/hdf5.cpp"], [("mapping of tiles to hyperslabs, blocking transfers", I+"matrix/hdf5.h")])
prop("C35", "Matrices are stored as requested or in the memory given by the user",
  "However a matrix is created (local or distributed, by sizes, distribution or on memory of the user, constant or not), it has the requested distribution, and each of its elements has exactly one place, according to the requested layout and leading dimension (or to the defaults then in effect). A matrix on memory of the user reads and writes its elements there and nothing else. Moving a matrix keeps its memory, contents and pending operations, and tiles of a re-tiled matrix are parts of the original tiles.",
  ["inputs", "configurations", "schedules"], "all constructors, sizes, distributions, layouts, leading dimensions, defaults, moves and pending operations",
  NOPIKA,
  [I+"matrix/matrix.h", I+"matrix/create_matrix.h", I+"matrix/allocation.h", I+"matrix/col_major_layout.h", I+"matrix/matrix_base.h"],
  [("set_up_non_preallocated_tiles", I+"matrix/matrix.h"), ("offsets of tiles", I+"matrix/col_major_layout.h")],
  observe=["address, size and leading dimension of every tile, memory of the user"])
prop("C36", "The benchmark programs run, report and check correctly",
  "A program of the miniapp directory, started on as many ranks as its grid has, with any valid set of options runs to a normal exit on every rank and releases everything. Only rank 0 prints: one line for each measured run (and one CSV line if requested), none for warm-up runs, with the values of the options in effect and a rate which belongs to the reported time; the check of the result runs as often as requested and accepts exactly correct results. Matrices are loaded from and results stored in files as requested.",
  ["schedules", "inputs", "configurations"], "all programs, option sets, grids, tuning parameters and interleavings",
  "The programs are not built where the tests run and no test executes them. " + NOPIKA,
  ["miniapp", "miniapp/include/dlaf/miniapp/options.h", "miniapp/include/dlaf/miniapp/dispatch.h", "src/init.cpp"],
  [("runs, measurements, output and checks", "miniapp/miniapp_eigensolver.cpp"), ("submission and barriers of the measured part", "miniapp/miniapp_cholesky.cpp")],
  observe=["exit status, text printed by each rank, files"])
prop("C37", "Debug dumps contain the data of their call and change nothing else",
  "With debug dumps enabled (any subset of them) in a build with HDF5, every distributed call of a routine which supports them writes one file with its inputs as given and its outputs as returned, complete on all ranks' parts, under a name which no other call uses. The calls terminate with the same results as without dumps.",
  ["schedules", "histories", "inputs", "configurations"], "every history of calls, subset of dumps, grid, distribution and interleaving",
  "HDF5 support is not built where the tests run and no test enables a dump.",
  [I+"eigensolver/eigensolver/impl.h", I+"eigensolver/gen_eigensolver/impl.h", I+"eigensolver/gen_to_std/impl.h", I+"eigensolver/reduction_to_band/impl.h", I+"eigensolver/band_to_tridiag/mc.h", I+"eigensolver/tridiag_solver/impl.h", I+"factorization/cholesky/impl.h", I+"inverse/cholesky/impl.h", I+"inverse/triangular/impl.h", I+"matrix/hdf5.h", I+"tune.h"],
  [("blocking transfers between the phases of a call", I+"matrix/hdf5.h"), ("numbering of the calls", I+"eigensolver/tridiag_solver/impl.h")],
  observe=["files on the disk and results of the calls"])
# ---- not applicable to this family
prop("C33", "GPU backends compute the same results as the multicore backend",
  "Every algorithm gives the same results, up to rounding, on the GPU as on the multicore backend.",
  ["schedules", "inputs"], "all algorithms and stream interleavings",
  "No GPU here or in the tests that run.",
  [I+"gpu", "src/lapack/gpu", "src/eigensolver/tridiag_solver/gpu"], [("GPU kernels and stream scheduling", I+"sender/transform.h")])
prop("C34", "ScaLAPACK-style entry points agree with the native interface",
  "A routine called with a BLACS context and ScaLAPACK descriptors works on the grid of that context (with the ordering of its processes) and on the matrix the descriptors describe, with one-based inclusive indices, and gives the result of the documented operation with the documented status. Contexts of several grids and grids made through the native interface can be used in any order and freed independently.",
  ["schedules", "histories", "inputs"], "every history of contexts and calls, descriptor, precision, ordering and interleaving",
  "ScaLAPACK is not available where the tests run, so these entry points are not even compiled. " + NOPIKA,
  ["src/c_api/blacs.h", "src/c_api/grid.cpp", "src/c_api/utils.cpp", "src/c_api/factorization/cholesky.h", "src/c_api/inverse/cholesky.h", "src/c_api/eigensolver/eigensolver.h", "src/c_api/eigensolver/gen_eigensolver.h", "src/c_api/factorization/cholesky.cpp", "src/c_api/inverse/cholesky.cpp", "src/c_api/eigensolver/eigensolver.cpp", "src/c_api/eigensolver/gen_eigensolver.cpp"],
  [("context translation, inference of the ordering", "src/c_api/grid.cpp"), ("descriptor translation", "src/c_api/utils.cpp")],
  observe=["caller's memory and status at return"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
