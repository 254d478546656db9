# Specs of the planted bugs (tools/plant.py make tools/bugs.py).
I = "include/dlaf/"
BUGS = [
 dict(id="merge_bcast_detached", property="C13", args="--scenario=tridiag_distributed --seed=3 --count=3000", seconds=40,
  edits=[(I + "eigensolver/tridiag_solver/merge.h", "      pika::this_thread::experimental::sync_wait(std::move(sender_));\n  }\n};",
          "      pika::execution::experimental::start_detached(std::move(sender_));\n  }\n};")],
  needs="Distributed tridiagonal solver with several columns of ranks and a broadcast of eigenvalues which is still in flight when the worker which started it leaves the rank-1 update (a slow link or a non eager broadcast).",
  breaks="The broadcast of the eigenvalues of a rank-1 problem is not waited for any more before its buffers are reused and read: eigenvalues and eigenvectors depend on message timing."),
 dict(id="b2t_tags_two_ranks", property="C12", args="--scenario=b2t_distributed --seed=3 --count=4000", seconds=40,
  edits=[(I + "eigensolver/band_to_tridiag/mc.h", "offset_col_tag + (ranks == 2 ? compute_col_tag(dist.nrTiles().cols() - 1, true) + 1 : 0);\n  ;",
          "offset_col_tag;")],
  needs="Exactly two ranks, enough block columns that the tags of columns and of workers overlap, and a delivery order in which a worker message meets the receive of a column.",
  breaks="With two ranks columns travel in the same direction as the workers; their tags are not disjoint any more, so a column may be received as a worker (and vice versa)."),
 dict(id="grid_col_shared", property="C22", args="--scenario=grid_mapping --seed=3 --count=4000", seconds=30,
  edits=[("src/communication/communicator_grid.cpp", "return CommunicatorPipeline<CommunicatorType::Col>{col_.clone(), position_, grid_size_};",
          "return CommunicatorPipeline<CommunicatorType::Col>{col_, position_, grid_size_};")],
  needs="A grid with at least two column pipelines (or a blocking operation on colCommunicator()) used concurrently: ranks then issue the operations of different pipelines in different orders on the same communicator.",
  breaks="Column pipelines of a grid share one MPI communicator, so operations on independent pipelines are matched with each other."),
 dict(id="allreduce_inplace_copy", property="C04", args="--seed=3 --count=8000", seconds=30,
  edits=[(I + "communication/kernels/internal/all_reduce.h", "withTemporaryTile<DComm, CopyToDestination::Yes, CopyFromDestination::Yes,\n                           RequireContiguous::Yes>(std::move(tile), std::move(all_reduce_in_place));",
          "withTemporaryTile<DComm, CopyToDestination::No, CopyFromDestination::Yes,\n                           RequireContiguous::Yes>(std::move(tile), std::move(all_reduce_in_place));")],
  needs="An in-place all-reduce of a tile which is not contiguous in memory (a tile of a column-major matrix with more rows than the tile).",
  breaks="The temporary tile of the in-place reduction is not initialized from the tile: the result is computed from uninitialized memory."),
 dict(id="permute_comms_detached", property="C15", args="--scenario=permute_distributed --seed=3 --count=6000", seconds=40,
  edits=[(I + "permutations/general/impl.h", "    pika::this_thread::experimental::sync_wait(ex::when_all_vector(std::move(all_comms)));\n  };",
          "    auto all_done = ex::ensure_started(ex::when_all_vector(std::move(all_comms)));\n    if (vec_size > 1)\n      pika::this_thread::experimental::sync_wait(std::move(all_done));\n    else\n      ex::start_detached(std::move(all_done));\n  };")],
  needs="A distributed permutation in which a rank owns a single element of each permuted vector, with point to point messages delivered after the task which posted them returned.",
  breaks="The exchange of the permuted vectors is not completed when the receive workspace is unpacked."),
 dict(id="rot_recv_unchecked", property="C21", args="--scenario=mpi_error_in_tridiag_solver --seed=3 --count=20000", seconds=60, harness=None,
  edits=[(I + "eigensolver/tridiag_solver/rot.h", "  DLAF_MPI_CHECK_ERROR(MPI_Irecv(col_data, static_cast<int>(n), dlaf::comm::mpi_datatype<T>::type,\n                                 rank_dest, tag, comm, req));",
          "  MPI_Irecv(col_data, static_cast<int>(n), dlaf::comm::mpi_datatype<T>::type, rank_dest, tag, comm, req);")],
  needs="An error reported by the MPI_Irecv of a column during the Givens rotations of the distributed deflation (columns of two ranks rotated).",
  breaks="The error is ignored: the computation goes on with the column not received."),
 dict(id="wait_tiles_read", property="C02", args="--seed=3 --count=8000", seconds=30,
  edits=[(I + "matrix/matrix.h", "        return this->tile_managers_[tileLinearIndex(index)].readwrite();\n      },\n      range_local));\n  [[maybe_unused]] auto tiles",
          "        return this->tile_managers_[tileLinearIndex(index)].read();\n      },\n      range_local));\n  [[maybe_unused]] auto tiles")],
  needs="wait_local_tiles() called while the last operations of a tile are reads which have not finished.",
  breaks="wait_local_tiles() joins pending reads of the tiles instead of waiting for their completion."),
 dict(id="comm_single_leak", property="C20", args="--scenario=mpi_handles_history --seed=3 --count=20000", seconds=30, harness=None,
  edits=[("src/communication/communicator_impl.cpp", "  DLAF_MPI_CHECK_ERROR(MPI_Comm_free(&comm_));",
          "  // communicators of a single process never communicate\n  if (size_ > 1)\n    DLAF_MPI_CHECK_ERROR(MPI_Comm_free(&comm_));")],
  needs="A managed communicator with a single rank (rows or columns of a 1xN, Nx1 or 1x1 grid) which is created and destroyed again and again.",
  breaks="Communicators of one process are never freed: the communicators of MPI run out."),
 dict(id="panel_bcast_coord", property="C05", args="--scenario=panel_broadcast_transposed --seed=3 --count=8000", seconds=30,
  edits=[(I + "communication/broadcast_panel.h", "  const auto comm_size = dist.commGridSize().template get<coord>();\n\n  for (SizeType k = panelT.rangeStart()",
          "  const auto comm_size = chain_step1.size();\n\n  for (SizeType k = panelT.rangeStart()")],
  needs="A grid with a single row (or a single column) of ranks and a panel broadcast along the other direction.",
  breaks="The transposed panel is not broadcast if the communicator of the first step has one rank: the ranks read tiles which were never received (or wait for tiles never sent)."),
 dict(id="norm_diag_local", property="C16", args="--seed=3 --count=20000", seconds=30,
  edits=[(I + "auxiliary/norm/mc.h", "    bool is_diag = tile_wrt_global.row() == tile_wrt_global.col();",
          "    bool is_diag = tile_wrt_global.row() == tile_wrt_global.col() && tile_wrt_local.row() >= tile_wrt_local.col();")],
  needs="Norm of the lower triangle on a grid with more rows than columns of ranks (a diagonal tile with local row < local column) with the biggest element above the diagonal of such a tile.",
  breaks="Elements above the diagonal contribute to the norm of the lower triangle."),
 dict(id="hemm_reduce_comm", property="C18", args="--scenario=hermitian_distributed --seed=3 --count=8000", seconds=30,
  edits=[(I + "multiplication/hermitian/impl.h", "      if (grid.colCommunicator().size() != 1) {\n        for (const auto& idx : c_panel.iteratorLocal()) {",
          "      if (grid.rowCommunicator().size() != 1 || grid.size().rows() > 2) {\n        for (const auto& idx : c_panel.iteratorLocal()) {")],
  needs="A 2x1 grid (the reduction along the column of ranks is skipped), multiplication with a matrix of more than one tile.",
  breaks="The contributions of the other rank of the column are not added to the result."),
 dict(id="pipeline_reset_sub", property="C01", args="--seed=3 --count=20000", seconds=30,
  edits=[(I + "common/pipeline.h", "  void reset() noexcept {\n    release_parent_pipeline();\n    pipeline.reset();",
          "  void reset() noexcept {\n    nested_sender.reset();\n    pipeline.reset();")],
  needs="A sub pipeline which is ended with reset() (not by destruction), followed by accesses of the parent pipeline.",
  breaks="The value is not given back to the parent pipeline: later accesses of the parent see a moved-from value."),
 dict(id="b2t_nostack_wait", property="C17", args="--scenario=program_eigensolver --seed=3 --count=8000", seconds=60, harness=None,
  edits=[(I + "eigensolver/band_to_tridiag/mc.h", "              ex::just(sem) |\n              dlaf::internal::transform(policy_hp, [](SemaphorePtr&& sem) { sem->acquire(); }) |\n              ex::split();",
          "              ex::just(sem) |\n              dlaf::internal::transform(policy_hp_nostack, [](SemaphorePtr&& sem) { sem->acquire(); }) |\n              ex::split();")],
  needs="Distributed reduction to tridiagonal form in which the task which waits for the semaphore of a block is scheduled before the steps that release it and all workers are busy with such tasks.",
  breaks="Tasks which block hold their worker thread (no stack to suspend): the sweeps may deadlock."),
 dict(id="b2t_last_step", property="C12", args="--scenario=b2t_distributed --seed=3 --count=4000", seconds=40,
  edits=[(I + "eigensolver/band_to_tridiag/mc.h", "bool last_step = steps - init_step <= steps_per_block && next_j != size - 2;",
          "bool last_step = steps - init_step <= steps_per_block;")],
  needs="A sweep whose last step ends two columns before the end of the matrix at a boundary of ranks, and a schedule in which the next sweep runs before the last column arrives.",
  breaks="The semaphore of the next sweep is released once too often: it may start before the column it needs has been received."),
 dict(id="general_first_width", property="C18", args="--scenario=general_distributed --seed=3 --count=8000", seconds=30,
  edits=[(I + "multiplication/general/impl.h", "    if (k == 0 || k == mat_a.nr_tiles().cols() - 1) {\n      DLAF_ASSERT_HEAVY(dist_a.global",
          "    if (k == mat_a.nr_tiles().cols() - 1) {\n      DLAF_ASSERT_HEAVY(dist_a.global")],
  needs="Distributed multiplication of sub matrices (MatrixRef) whose first tile is smaller than the tile size.",
  breaks="The panels of the first step are broadcast with the full width: mismatching messages or sizes."),
 dict(id="chol_src_rank", property="C08", args="--scenario=cholesky_distributed --seed=3 --count=8000", seconds=30,
  edits=[(I + "factorization/cholesky/impl.h", "      for (SizeType i = distr.nextLocalTileFromGlobalTile<Coord::Row>(kt);",
          "      for (SizeType i = kt / distr.commGridSize().rows() + (this_rank.row() < kt % distr.commGridSize().rows() ? 1 : 0);")],
  needs="A matrix whose first tile is not on row 0 of the grid (source rank index) and a grid with several rows.",
  breaks="The local index of the first tile of the panel below the diagonal is computed as if the matrix started on rank row 0: tiles of the panel are not solved (or the diagonal tile is solved again)."),
 dict(id="inv_last_width", property="C09", args="--seed=3 --count=8000", seconds=30,
  edits=[(I + "inverse/cholesky/impl.h", "        if (k == nrtiles - 1)\n          panelT.setWidth(mat_a.tile_size_of(kk).cols());",
          "        if (kk_rank == this_rank && k == nrtiles - 1)\n          panelT.setWidth(mat_a.tile_size_of(kk).cols());")],
  needs="Lower triangle, a last tile smaller than the others and several columns of ranks: the ranks which do not own the last diagonal tile receive it with the width of a full tile.",
  breaks="The ranks disagree about the size of the message of the last diagonal tile."),
 dict(id="set_getter_ref", property="C24", args="--seed=3 --count=20000", seconds=30,
  edits=[(I + "util_matrix.h", "    auto set_f = [tile_origin, el_f = el_f](const TileType& tile) {",
          "    auto set_f = [tile_origin, &el_f](const TileType& tile) {")],
  needs="A task of set() which runs after set() returned (any schedule in which the caller is not preempted).",
  breaks="The tasks use the element getter of the caller after its lifetime."),
 dict(id="numpy_offset", property="C25", args="--seed=3 --count=20000", seconds=30,
  edits=[(I + "matrix/print_numpy.h", "        distribution.template globalElementFromLocalTileAndTileElement<Coord::Row>(local.row(), 0),",
          "        distribution.template globalTileFromLocalTile<Coord::Row>(local.row()) *\n            distribution.tile_size().rows(),")],
  needs="Output in numpy format of a matrix whose distribution starts inside of a tile (or of a block of several tiles).",
  breaks="The rows of the tiles are printed at positions which ignore the offset: the script rebuilds another matrix."),
 dict(id="read_value_tmp", property="C26", args="--seed=3 --count=20000", seconds=30,
  edits=[(I + "sender/transform_mpi.h", "      auto r = std::move(f)(dlaf::common::internal::unwrap(ts)...);\n      (internal::consumeCommunicatorWrapper(ts), ...);\n      return r;",
          "      return std::move(f)(dlaf::common::internal::unwrap(ts)...);")],
  needs="An MPI operation which returns a value and a second operation on the same communicator which has to be posted before the first completes (e.g. the matching operations of two ranks in different order of completion).",
  breaks="The communicator is kept until the operation completed: operations which depend on each other deadlock."),
 dict(id="local_blocks_offset", property="C30", args="--seed=3 --count=100000", seconds=30,
  edits=[("src/matrix/distribution.cpp", "  auto local_nr_blocks = dist.local_nr_blocks();\n  ret.local_nr_tiles_ = {local_nr_blocks.rows(), local_nr_blocks.cols()};",
          "  ret.local_nr_tiles_ = {util::ceilDiv(dist.local_nr_tiles_.rows(), dist.block_size_.rows() / dist.tile_size_.rows()),\n                         util::ceilDiv(dist.local_nr_tiles_.cols(), dist.block_size_.cols() / dist.tile_size_.cols())};")],
  needs="A distribution with several tiles per block which starts inside of a block, after its first tile, such that the partial first block and the last one of a rank have together no more tiles than a block.",
  breaks="The number of local blocks is too small: the last block of a rank is lost."),
 dict(id="env_bool_sticky", property="C31", args="--seed=3 --count=100000", seconds=30,
  edits=[("src/init.cpp", "      var = parsed_value.value();\n    }\n    else {",
          "      if constexpr (std::is_same_v<T, bool>)\n        var = var || parsed_value.value();\n      else\n        var = parsed_value.value();\n    }\n    else {")],
  needs="A flag which the user configuration (or the tune parameters) sets to true and an environment variable which sets it to false.",
  breaks="The environment cannot switch a flag off."),
 dict(id="hdf5_ld", property="C32", args="--seed=3 --count=20000", seconds=30,
  edits=[(I + "matrix/hdf5.h", "          to_sizet(tile.ld()),\n          internal::hdf5_datatype<T>::dims,\n      };\n      H5::DataSpace ds_memory",
          "          to_sizet(std::min(tile.ld(), dist.tile_size().rows())),\n          internal::hdf5_datatype<T>::dims,\n      };\n      H5::DataSpace ds_memory")],
  needs="A matrix in column-major layout (or with padding) with more than one row of tiles, a tile with more than one column.",
  breaks="The columns of a tile are read from (or written to) the wrong addresses."),
 dict(id="hdf5_local_all_ranks", property="C32", args="--seed=3 --count=20000", seconds=30,
  edits=[(I + "matrix/hdf5.h", "    if (!is_local_matrix || rank_ == 0)\n      internal::to_dataset<T>(matrix_host, dataset);",
          "    internal::to_dataset<T>(matrix_host, dataset);")],
  needs="A local matrix written to a parallel file by several ranks whose contents differ between the ranks.",
  breaks="Every rank writes its own copy into the same dataset: the file contains whatever was written last."),
 dict(id="sync_allreduce_copy", property="C23", args="--seed=3 --count=20000", seconds=30,
  edits=[(I + "communication/sync/all_reduce.h", "  if (buffer_in)\n    common::copy(input, buffer_in);\n\n  DLAF_MPI_CHECK_ERROR(MPI_Allreduce(message_input.data(), message_output.data()",
          "  if (buffer_in && buffer_out)\n    common::copy(input, buffer_in);\n\n  DLAF_MPI_CHECK_ERROR(MPI_Allreduce(message_input.data(), message_output.data()")],
  needs="A blocking all-reduce of strided input into a contiguous output.",
  breaks="The packed input is not initialized."),
 dict(id="red2band_xt_zero", property="C11", args="--scenario=red2band_distributed --seed=3 --count=8000", seconds=40,
  edits=[(I + "eigensolver/reduction_to_band/impl.h", "  matrix::util::set0<B>(thread_priority::high, x);\n  matrix::util::set0<B>(thread_priority::high, xt);",
          "  matrix::util::set0<B>(thread_priority::high, x);")],
  needs="Several rows of ranks and a rank which holds no tile below the diagonal in one of its columns (or a workspace used before).",
  breaks="The partial results of the transposed contributions start from old values of the workspace."),
 dict(id="red2band_barrier", property="C11", args="--seed=3 --count=8000", seconds=60,
  edits=[(I + "eigensolver/reduction_to_band/impl.h", "          if (has_head) {\n            tiles[begin]({j, j}) = y.value();\n          }\n\n          barrier_ptr->arrive_and_wait(barrier_busy_wait);\n        }\n      }));\n}\n\ntemplate <Backend B, Device D, class T>\nvoid hemmComputeX(comm",
          "          if (has_head) {\n            tiles[begin]({j, j}) = y.value();\n          }\n        }\n      }));\n}\n\ntemplate <Backend B, Device D, class T>\nvoid hemmComputeX(comm")],
  needs="Several workers for a panel with several reflectors and a schedule in which the first worker goes on to the next reflector while another one still updates its tiles of the panel.",
  breaks="The norm of the next column is computed from tiles which are not updated yet."),
 dict(id="solve_llt_height", property="C07", args="--seed=3 --count=8000", seconds=30,
  edits=[(I + "solver/triangular/impl.h", "    const LocalTileIndex bt_offset(distr_b.nextLocalTileFromGlobalTile<Coord::Row>(kk.row() + 1), 0);\n\n    auto& a_panel = a_panels.nextResource();\n    auto& b_panel = b_panels.nextResource();\n\n    a_panel.setRangeStart(kk);\n\n    if (kk.row() == mat_a.nrTiles().rows() - 1) {\n      a_panel.setWidth(mat_a.tileSize(kk).cols());\n      b_panel.setHeight(mat_a.tileSize(kk).cols());\n    }\n\n    const auto rank_kk = distr_a.rankGlobalTile(kk);\n    if (this_rank.col() == rank_kk.col()) {\n      for (SizeType i_loc = kk_offset.row();",
          "    const LocalTileIndex bt_offset(kk_offset.row() + (this_rank.row() == kk.row() % distr_a.commGridSize().rows() ? 1 : 0), 0);\n\n    auto& a_panel = a_panels.nextResource();\n    auto& b_panel = b_panels.nextResource();\n\n    a_panel.setRangeStart(kk);\n\n    if (kk.row() == mat_a.nrTiles().rows() - 1) {\n      a_panel.setWidth(mat_a.tileSize(kk).cols());\n      b_panel.setHeight(mat_a.tileSize(kk).cols());\n    }\n\n    const auto rank_kk = distr_a.rankGlobalTile(kk);\n    if (this_rank.col() == rank_kk.col()) {\n      for (SizeType i_loc = kk_offset.row();")],
  needs="Left, lower, transposed solve on a grid with several rows and a matrix whose source rank is not in row 0.",
  breaks="The trailing part of the solution starts at the wrong local tile on some ranks."),
 dict(id="redist_same_blocks", property="C06", args="--scenario=redistribute --seed=3 --count=8000", seconds=30,
  edits=[(I + "matrix/copy.h", "  // Note:\n  // From an algorithmic point of view it would be better to reason",
          "  // Nothing to exchange if the matrices are distributed in the same way\n  if (src.block_size() == dst.block_size() &&\n      src.distribution().local_nr_tiles() == dst.distribution().local_nr_tiles())\n    return copy(src, dst);\n\n  // Note:\n  // From an algorithmic point of view it would be better to reason")],
  needs="Redistribution between matrices with the same block size and different source ranks, and a number of tiles which gives each rank the same number of tiles in both.",
  breaks="Tiles are copied to the local tile with the same local index, which is another tile of the matrix."),
 dict(id="g2s_owner_row", property="C10", args="--seed=3 --count=8000", seconds=40,
  edits=[(I + "eigensolver/gen_to_std/impl.h", "      for (SizeType i = j + 1; i < nrtile; ++i) {\n        const auto owner_row = distr.rankGlobalTile<Coord::Row>(i);\n\n        if (owner_row != this_rank.row())\n          continue;\n\n        const auto i_local = distr.localTileFromGlobalTile<Coord::Row>(i);\n        const LocalTileIndex ik_panel{Coord::Row, i_local};\n        const LocalTileIndex kj_panelT{Coord::Col, j_local};\n        const LocalTileIndex ij{i_local, j_local};\n\n        gemmTrailingMatrixTile<backend>(thread_priority::normal, a_panel.read(ik_panel),\n                                        l_panelT.read(kj_panelT)",
          "      for (SizeType i_local = distr.nextLocalTileFromGlobalTile<Coord::Row>(j);\n           i_local < distr.localNrTiles().rows(); ++i_local) {\n        if (this_rank.row() == owner.row() && j % distr.commGridSize().rows() == this_rank.row() &&\n            i_local == distr.localTileFromGlobalTile<Coord::Row>(j))\n          continue;\n\n        const LocalTileIndex ik_panel{Coord::Row, i_local};\n        const LocalTileIndex kj_panelT{Coord::Col, j_local};\n        const LocalTileIndex ij{i_local, j_local};\n\n        gemmTrailingMatrixTile<backend>(thread_priority::normal, a_panel.read(ik_panel),\n                                        l_panelT.read(kj_panelT)")],
  needs="A distributed reduction to standard form of a lower matrix whose source rank is not in the first row of ranks.",
  breaks="The diagonal tile of the trailing matrix is updated twice."),
 dict(id="band_closed_form", property="C14", args="--seed=3 --count=3000", seconds=60, harness=None,
  edits=[(I + "eigensolver/internal/get_band_size.h", "  for (SizeType div = nb / b_min; div > 1; --div) {\n    if (nb % div == 0)\n      return nb / div;\n  }\n  return nb;",
          "  const SizeType div = nb / b_min;\n  return div > 1 ? nb / div : nb;")],
  needs="A block size which the number of bands of minimum size does not divide.",
  breaks="The band size does not divide the block size."),
 dict(id="capi_chol_wait", property="C19", args="--seed=3 --count=8000", seconds=60,
  edits=[("src/c_api/factorization/cholesky.h", "  matrix_host.waitLocalTiles();\n\n  return 0;", "  return 0;")],
  needs="A schedule in which the last communication or update of the factor is still pending when the call returns.",
  breaks="The C interface returns before the factor is in the caller's memory."),
 dict(id="desc_src_swapped", property="C34", args="--seed=3 --count=8000", seconds=60,
  edits=[("src/c_api/utils.cpp", "desc[4], desc[5], desc[6], desc[7], i - 1", "desc[4], desc[5], desc[7], desc[6], i - 1")],
  needs="A ScaLAPACK descriptor whose first row and column are on different process coordinates.",
  breaks="The matrix is taken as if its first block was on another process."),
 dict(id="tile_add_contiguous", property="C27", args="--seed=3 --count=8000", seconds=30,
  edits=[(I + "blas/tile_extensions.h", "  for (auto j = 0; j < tile_a.size().cols(); ++j)\n    blas::axpy(tile_a.size().rows(), alpha, tile_b.ptr({0, j}), 1, tile_a.ptr({0, j}), 1);",
          "  if (tile_a.is_contiguous()) {\n    blas::axpy(tile_a.size().rows() * tile_a.size().cols(), alpha, tile_b.ptr(), 1, tile_a.ptr(), 1);\n    return;\n  }\n  for (auto j = 0; j < tile_a.size().cols(); ++j)\n    blas::axpy(tile_a.size().rows(), alpha, tile_b.ptr({0, j}), 1, tile_a.ptr({0, j}), 1);")],
  needs="A contiguous tile to which a tile with a larger leading dimension is added.",
  breaks="Elements outside of the added tile are added, and some of its elements are not."),
 dict(id="bcast_own_first", property="C03", args="--scenario=algorithms --seed=3 --count=8000", seconds=60, harness=None,
  edits=[(I + "communication/broadcast_panel.h", "  for (SizeType k = panelT.rangeStart(); k < panelT.rangeEnd(); ++k) {\n    const auto kk_rank = dist.rank_global_tile({k, k});\n    if (kk_rank.template get<coordT>() == my_rank.template get<coordT>()) {",
          "  // first the tiles which are available here\n  for (const bool mine : {true, false})\n  for (SizeType k = panelT.rangeStart(); k < panelT.rangeEnd(); ++k) {\n    const auto kk_rank = dist.rank_global_tile({k, k});\n    if (mine != (kk_rank.template get<coord>() == my_rank.template get<coord>()))\n      continue;\n    if (kk_rank.template get<coordT>() == my_rank.template get<coordT>()) {")],
  needs="A panel with tiles of several owners among the ranks of one communicator.",
  breaks="The ranks of a communicator enter their broadcasts in a different order."),
 dict(id="retiled_layout_rank", property="C35", args="--seed=3 --count=8000", seconds=30,
  edits=[(I + "matrix/matrix.h", "        !distribution().single_tile_per_block())\n      allocation_layout_", "        distribution().local_nr_tiles() != mat.distribution().local_nr_tiles())\n      allocation_layout_")],
  needs="A re-tiled matrix with layout Tiles, on a rank on which the number of tiles does not change (it has none, or only parts of the size of the new tiles).",
  breaks="The layout of the re-tiled matrix differs between ranks, and says Tiles for tiles inside of a block."),
dict(id="chol_check_partial", property="C36", args="--scenario=miniapp_programs --seed=3 --count=6000 param:program=0", seconds=40,
  keep=lambda n, d: "inst_miniapp" not in n and "inst_eig" not in n and "red2band" not in n and "b2t" not in n and "tridiag" not in n and "inverse" not in n or "MINIAPP=cholesky" in d,
  edits=[("miniapp/miniapp_cholesky.cpp", "    dlaf::matrix::util::set(partial_result, [](auto&&) { return 0; });", "    if (k_loc > 0)\n      dlaf::matrix::util::set(partial_result, [](auto&&) { return 0; });")],
  needs="The check of the Cholesky program on a grid with several columns (so that a rank does not contribute to the first columns of the product), and fresh memory which is not zero.",
  breaks="A right factorization is reported as an error: the sum contains indeterminate values of ranks which have nothing to contribute."),
dict(id="tridiag_file_size", property="C36", args="--scenario=miniapp_programs --seed=3 --count=6000 param:program=10", seconds=40,
  keep=lambda n, d: "inst_miniapp" not in n and "inst_eig" not in n and "red2band" not in n and "b2t" not in n and "inst_chol" not in n and "inverse" not in n or "MINIAPP=tridiag_solver" in d,
  edits=[("miniapp/miniapp_tridiag_solver.cpp", "GlobalElementSize(tridiag_ref.size().rows(), tridiag_ref.size().rows()),", "GlobalElementSize(opts.m, opts.m),")],
  needs="A tridiagonal matrix loaded from a file whose size differs from the (ignored) matrix size option.",
  breaks="The program aborts, or solves a problem with the wrong number of eigenvectors."),
dict(id="dump_band_early", property="C37", args="--scenario=dumps --seed=3 --count=8000", seconds=40,
  edits=[(I + "eigensolver/reduction_to_band/impl.h", "      file->write(mat_a, \"/band\");\n    }\n\n    num_reduction_to_band_calls++;\n#endif\n\n    return mat_taus;\n  }\n", "      file->write(mat_a, \"/band\");\n    }\n#endif\n\n    return mat_taus;\n  }\n")],
  needs="A reduction of a matrix which is a band matrix by its size, followed by another reduction, with the dumps of the reduction enabled.",
  breaks="The second call writes to the file of the first and fails."),
]
for b in BUGS:
  if b.get("harness", 1) is None:
    del b["harness"]
