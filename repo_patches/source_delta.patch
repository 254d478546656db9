From 198b6c2426fc772f022e66016427c77d1c3f71a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 01/28] fix: permutations: store index vectors contiguously
 independently of the default allocation layout

---
 include/dlaf/permutations/general/impl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/dlaf/permutations/general/impl.h b/include/dlaf/permutations/general/impl.h
index 0653e5c..1e5a412 100644
--- a/include/dlaf/permutations/general/impl.h
+++ b/include/dlaf/permutations/general/impl.h
@@ -580,8 +580,12 @@ void permuteOnCPU(
   if (sz_loc.isEmpty())
     return;
 
+  // The index vectors are accessed through the pointer of their first tile, therefore they have to be
+  // stored contiguously independently of the default allocation layout.
+  const AllocationSpec contiguous_vector(AllocationLayout::ColMajor);
+
   // Create a map from send indices to receive indices (inverse of perms)
-  Matrix<SizeType, D> inverse_perms(perms.distribution());
+  Matrix<SizeType, D> inverse_perms(perms.distribution(), contiguous_vector);
   eigensolver::internal::invertIndex(i_begin, i_end, perms, inverse_perms);
 
   // Local distribution used for packing and unpacking
@@ -591,9 +595,9 @@ void permuteOnCPU(
   // communication data
   const SizeType nvecs = sz_loc.get<C>();
   const Distribution index_dist(LocalElementSize(nvecs, 1), TileElementSize(blk.get<C>(), 1));
-  Matrix<SizeType, D> local2global_index(index_dist);
-  Matrix<SizeType, D> packing_index(index_dist);
-  Matrix<SizeType, D> unpacking_index(index_dist);
+  Matrix<SizeType, D> local2global_index(index_dist, contiguous_vector);
+  Matrix<SizeType, D> packing_index(index_dist, contiguous_vector);
+  Matrix<SizeType, D> unpacking_index(index_dist, contiguous_vector);
 
   // Local matrices used for packing data for communication. Both matrices are in column-major order.
   // The particular constructor is used on purpose to guarantee that columns are stored contiguosly,
-- 
2.43.0


From c184ce870d828268169201a9d80ba3716f02d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 02/28] fix: tridiag solver: store contiguously the column
 workspace of the distributed Givens rotations

---
 include/dlaf/eigensolver/tridiag_solver/rot.h | 21 ++++++-------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/include/dlaf/eigensolver/tridiag_solver/rot.h b/include/dlaf/eigensolver/tridiag_solver/rot.h
index 1f2960d..35be8e5 100644
--- a/include/dlaf/eigensolver/tridiag_solver/rot.h
+++ b/include/dlaf/eigensolver/tridiag_solver/rot.h
@@ -266,15 +266,7 @@ void applyGivensRotationsToMatrixColumns(
 
   auto givens_rots_fn = [comm_row_chain = comm_row_chain.sub_pipeline(), tag, dist_sub,
                          mb](std::vector<GivensRotation<T>> rots, std::vector<matrix::Tile<T, D>> tiles,
-                             std::vector<matrix::Tile<T, D>> all_ws) mutable {
-    // Note:
-    // It would have been enough to just get the first tile from the beginning, and it would have
-    // worked anyway (thanks to the fact that panel has its own memorychunk and the first tile would
-    // keep alive the entire chunk, so also the part of other tiles, through its memory view).
-    // Anyway, it is more clean to get them all, and then just here use a single one to access the
-    // full column.
-    matrix::Tile<T, D>& tile_ws = all_ws[0];
-
+                             matrix::Tile<T, D> tile_ws) mutable {
     // Note:
     // The entire algorithm relies on a strong assumption about memory layout of all tiles involved,
     // i.e. both the input tiles selected from the matrix and the tiles for the workspace.
@@ -381,16 +373,15 @@ void applyGivensRotationsToMatrixColumns(
   };
 
   // Note:
-  // Using a combination of shrinked distribution and an offset given to the panel, the workspace
-  // is allocated just for the part strictly needed by the range [i_begin, i_end)
-  const matrix::Distribution dist_ws({range_size_limit, 1}, dist.tile_size(), dist.commGridSize(),
-                                     dist.rankIndex(), dist.sourceRankIndex());
-  matrix::Panel<Coord::Col, T, D> workspace(dist_ws, GlobalTileIndex(i_begin, i_begin));
+  // The workspace is a single tile, such that it can store contiguously the local part of a column in the
+  // range [i_begin, i_end).
+  const SizeType m_local = dist_sub.localSize().rows();
+  matrix::Matrix<T, D> workspace(LocalElementSize(m_local, 1), TileElementSize(m_local, 1));
 
   const TileCollector tc(i_begin, i_end);
 
   ex::when_all(std::forward<GRSender>(rots_fut), ex::when_all_vector(tc.readwrite(mat)),
-               ex::when_all_vector(select(workspace, workspace.iteratorLocal()))) |
+               workspace.readwrite(LocalTileIndex(0, 0))) |
       di::transformDetach(di::Policy<Backend::MC>(), std::move(givens_rots_fn));
 }
 }
-- 
2.43.0


From 49f7425d13387512fca896fba92e5d1f2e6758c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 03/28] fix: tridiag solver: use contiguous workspaces
 independently of the allocation layouts of matrices

---
 .../dlaf/eigensolver/tridiag_solver/impl.h    | 85 +++++++++++--------
 .../dlaf/eigensolver/tridiag_solver/merge.h   |  4 +-
 2 files changed, 54 insertions(+), 35 deletions(-)

diff --git a/include/dlaf/eigensolver/tridiag_solver/impl.h b/include/dlaf/eigensolver/tridiag_solver/impl.h
index 6bb8020..a30fba0 100644
--- a/include/dlaf/eigensolver/tridiag_solver/impl.h
+++ b/include/dlaf/eigensolver/tridiag_solver/impl.h
@@ -12,6 +12,7 @@
 #include <algorithm>
 #include <atomic>
 #include <complex>
+#include <optional>
 #include <sstream>
 #include <tuple>
 #include <utility>
@@ -221,22 +222,34 @@ void TridiagSolver<B, D, T>::call(Matrix<T, Device::CPU>& tridiag, Matrix<T, D>&
   const matrix::Distribution& distr = evecs.distribution();
   const LocalElementSize vec_size(distr.size().rows(), 1);
   const TileElementSize vec_tile_size(distr.tile_size().rows(), 1);
-  WorkSpace<T, D> ws{Matrix<T, D>(distr),                            // e0
-                     Matrix<T, D>(distr),                            // e1
-                     evecs,                                          // e2
-                     evals,                                          // d1
-                     Matrix<T, D>(vec_size, vec_tile_size),          // z0
-                     Matrix<T, D>(vec_size, vec_tile_size),          // z1
-                     Matrix<SizeType, D>(vec_size, vec_tile_size),   // i2
-                     Matrix<SizeType, D>(vec_size, vec_tile_size),   // i5
-                     Matrix<SizeType, D>(vec_size, vec_tile_size),   // i5b
-                     Matrix<SizeType, D>(vec_size, vec_tile_size)};  // i6
-
-  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(vec_size, vec_tile_size),          // d0
-                        Matrix<ColType, Device::CPU>(vec_size, vec_tile_size),    // c
-                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size),   // i1
-                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size),   // i3
-                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size)};  // i4
+  // The vectors and the columns of e0 are accessed through the pointer of their first tile, therefore they
+  // have to be stored contiguously independently of the default allocation layout.
+  // Note: the layout of evals is chosen by the caller, so it can't be used as workspace.
+  const matrix::AllocationSpec contiguous(matrix::AllocationLayout::ColMajor);
+  Matrix<T, D> evals_ws(evals.distribution(), contiguous);
+
+  // Note: the same applies to the columns of e2 (see solveRank1Problem), so evecs can be reused only if
+  // its columns are contiguous.
+  std::optional<Matrix<T, D>> evecs_ws;
+  if (evecs.allocation_layout() != matrix::AllocationLayout::ColMajor)
+    evecs_ws.emplace(distr, contiguous);
+
+  WorkSpace<T, D> ws{Matrix<T, D>(distr, contiguous),                            // e0
+                     Matrix<T, D>(distr),                                        // e1
+                     evecs_ws ? *evecs_ws : evecs,                               // e2
+                     evals_ws,                                                   // d1
+                     Matrix<T, D>(vec_size, vec_tile_size, contiguous),          // z0
+                     Matrix<T, D>(vec_size, vec_tile_size, contiguous),          // z1
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, contiguous),   // i2
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, contiguous),   // i5
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, contiguous),   // i5b
+                     Matrix<SizeType, D>(vec_size, vec_tile_size, contiguous)};  // i6
+
+  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(vec_size, vec_tile_size, contiguous),          // d0
+                        Matrix<ColType, Device::CPU>(vec_size, vec_tile_size, contiguous),    // c
+                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size, contiguous),   // i1
+                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size, contiguous),   // i3
+                        Matrix<SizeType, Device::CPU>(vec_size, vec_tile_size, contiguous)};  // i4
 
   // Mirror workspace on host memory for CPU-only kernels
   WorkSpaceHostMirror<T, D> ws_hm{initMirrorMatrix(ws.e2), initMirrorMatrix(ws.d1),
@@ -269,7 +282,6 @@ void TridiagSolver<B, D, T>::call(Matrix<T, Device::CPU>& tridiag, Matrix<T, D>&
   const SizeType n = evecs.nrTiles().rows();
   copy(ws_hm.i2, ws.i2);
 
-  // Note: ws_hm.d1 is the mirror of ws.d1 which is evals
   applyIndex(0, n, ws_hm.i2, ws_h.d0, ws_hm.d1);
   copy(ws_hm.d1, evals);
 
@@ -402,22 +414,28 @@ void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device
   const matrix::Distribution& dist_evals = evals.distribution();
   const matrix::Distribution dist_local({dist_evecs.local_size().cols(), 1}, dist_evecs.tile_size());
 
-  WorkSpace<T, D> ws{Matrix<T, D>(dist_evecs),          // e0
-                     Matrix<T, D>(dist_evecs),          // e1
-                     evecs,                             // e2
-                     evals,                             // d1
-                     Matrix<T, D>(dist_evals),          // z0
-                     Matrix<T, D>(dist_evals),          // z1
-                     Matrix<SizeType, D>(dist_evals),   // i2
-                     Matrix<SizeType, D>(dist_evals),   // i5
-                     Matrix<SizeType, D>(dist_local),   // i5b
-                     Matrix<SizeType, D>(dist_evals)};  // i6
-
-  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(dist_evals),          // d0
-                        Matrix<ColType, Device::CPU>(dist_evals),    // c
-                        Matrix<SizeType, Device::CPU>(dist_evals),   // i1
-                        Matrix<SizeType, Device::CPU>(dist_evals),   // i3
-                        Matrix<SizeType, Device::CPU>(dist_evals)};  // i4
+  // The vectors and the columns of e0 are accessed through the pointer of their first tile, therefore they
+  // have to be stored contiguously independently of the default allocation layout.
+  // Note: the layout of evals is chosen by the caller, so it can't be used as workspace.
+  const matrix::AllocationSpec contiguous(matrix::AllocationLayout::ColMajor);
+  Matrix<T, D> evals_ws(dist_evals, contiguous);
+
+  WorkSpace<T, D> ws{Matrix<T, D>(dist_evecs, contiguous),          // e0
+                     Matrix<T, D>(dist_evecs),                      // e1
+                     evecs,                                         // e2
+                     evals_ws,                                      // d1
+                     Matrix<T, D>(dist_evals, contiguous),          // z0
+                     Matrix<T, D>(dist_evals, contiguous),          // z1
+                     Matrix<SizeType, D>(dist_evals, contiguous),   // i2
+                     Matrix<SizeType, D>(dist_evals, contiguous),   // i5
+                     Matrix<SizeType, D>(dist_local, contiguous),   // i5b
+                     Matrix<SizeType, D>(dist_evals, contiguous)};  // i6
+
+  WorkSpaceHost<T> ws_h{Matrix<T, Device::CPU>(dist_evals, contiguous),          // d0
+                        Matrix<ColType, Device::CPU>(dist_evals, contiguous),    // c
+                        Matrix<SizeType, Device::CPU>(dist_evals, contiguous),   // i1
+                        Matrix<SizeType, Device::CPU>(dist_evals, contiguous),   // i3
+                        Matrix<SizeType, Device::CPU>(dist_evals, contiguous)};  // i4
 
   // Mirror workspace on host memory for CPU-only kernels
   DistWorkSpaceHostMirror<T, D> ws_hm{initMirrorMatrix(ws.e0), initMirrorMatrix(ws.e2),
@@ -457,7 +475,6 @@ void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device
   const SizeType n = evecs.nrTiles().rows();
   copy(ws.e0, ws_hm.e0);
 
-  // Note: ws_hm.d1 is the mirror of ws.d1 which is evals
   applyIndex(0, n, ws_h.i1, ws_h.d0, ws_hm.d1);
   copy(ws_hm.d1, evals);
 
diff --git a/include/dlaf/eigensolver/tridiag_solver/merge.h b/include/dlaf/eigensolver/tridiag_solver/merge.h
index a69457b..774f525 100644
--- a/include/dlaf/eigensolver/tridiag_solver/merge.h
+++ b/include/dlaf/eigensolver/tridiag_solver/merge.h
@@ -176,7 +176,9 @@ struct DistWorkSpaceHostMirror {
 
 template <class T>
 Matrix<T, Device::CPU> initMirrorMatrix(Matrix<T, Device::GPU>& mat) {
-  return Matrix<T, Device::CPU>(mat.distribution());
+  // Note: the mirrors of vectors are accessed through the pointer of their first tile.
+  return Matrix<T, Device::CPU>(mat.distribution(),
+                                matrix::AllocationSpec(matrix::AllocationLayout::ColMajor));
 }
 
 template <class T>
-- 
2.43.0


From cb59241e6db0f56e0fa61976789b86a6b17bf665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:40 +0000
Subject: [PATCH 04/28] fix: tridiag solver: make the deflation tolerance
 relative to the norm of the matrix

---
 .../dlaf/eigensolver/tridiag_solver/merge.h   | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/dlaf/eigensolver/tridiag_solver/merge.h b/include/dlaf/eigensolver/tridiag_solver/merge.h
index 774f525..0d3cc8b 100644
--- a/include/dlaf/eigensolver/tridiag_solver/merge.h
+++ b/include/dlaf/eigensolver/tridiag_solver/merge.h
@@ -243,12 +243,16 @@ auto maxVectorElement(const SizeType i_begin, const SizeType i_end, Matrix<const
          di::transform(di::Policy<Backend::MC>(thread_stacksize::nostack), std::move(tol_calc_fn));
 }
 
-// The tolerance calculation is the same as the one used in LAPACK's stedc implementation [1].
+// The tolerance calculation is based on the one used in LAPACK's stedc implementation [1].
+//
+// Note: LAPACK scales the tridiagonal matrix to have norm 1 before starting, here the matrix is not scaled.
+// Therefore the contribution of `z` has to be multiplied by `rho`, otherwise the tolerance would not be
+// relative to the norm of the matrix.
 //
 // [1] LAPACK 3.10.0, file dlaed2.f, line 315, variable TOL
-template <class T>
-auto calcTolerance(const SizeType i_begin, const SizeType i_end, Matrix<const T, Device::CPU>& d,
-                   Matrix<const T, Device::CPU>& z) {
+template <class T, class RhoSender>
+auto calcTolerance(const SizeType i_begin, const SizeType i_end, RhoSender&& rho,
+                   Matrix<const T, Device::CPU>& d, Matrix<const T, Device::CPU>& z) {
   namespace ex = pika::execution::experimental;
   namespace di = dlaf::internal;
   using pika::execution::thread_stacksize;
@@ -256,11 +260,11 @@ auto calcTolerance(const SizeType i_begin, const SizeType i_end, Matrix<const T,
   auto dmax = maxVectorElement(i_begin, i_end, d);
   auto zmax = maxVectorElement(i_begin, i_end, z);
 
-  auto tol_fn = [](T dmax, T zmax) {
-    return 8 * std::numeric_limits<T>::epsilon() * std::max(dmax, zmax);
+  auto tol_fn = [](T rho, T dmax, T zmax) {
+    return 8 * std::numeric_limits<T>::epsilon() * std::max(dmax, rho * zmax);
   };
 
-  return ex::when_all(std::move(dmax), std::move(zmax)) |
+  return ex::when_all(std::forward<RhoSender>(rho), std::move(dmax), std::move(zmax)) |
          di::transform(di::Policy<Backend::MC>(thread_stacksize::nostack), std::move(tol_fn)) |
          // TODO: This releases the tiles that are kept in the operation state.
          // This is a temporary fix and needs to be replaced by a different
@@ -1107,7 +1111,7 @@ void mergeSubproblems(const SizeType i_begin, const SizeType i_split, const Size
   auto scaled_rho = scaleRho(std::move(rho)) | ex::split();
 
   // Calculate the tolerance used for deflation
-  auto tol = calcTolerance(i_begin, i_end, ws_h.d0, ws_hm.z0);
+  auto tol = calcTolerance(i_begin, i_end, scaled_rho, ws_h.d0, ws_hm.z0);
 
   // Initialize the column types vector `c`
   initColTypes(i_begin, i_split, i_end, ws_h.c);
@@ -1850,7 +1854,7 @@ void mergeDistSubproblems(comm::CommunicatorPipeline<comm::CommunicatorType::Ful
   auto scaled_rho = scaleRho(std::move(rho)) | ex::split();
 
   // Calculate the tolerance used for deflation
-  auto tol = calcTolerance(i_begin, i_end, ws_h.d0, ws_hm.z0);
+  auto tol = calcTolerance(i_begin, i_end, scaled_rho, ws_h.d0, ws_hm.z0);
 
   // Initialize the column types vector `c`
   initColTypes(i_begin, i_split, i_end, ws_h.c);
-- 
2.43.0


From a0376eb993650f1371c6a5d51febbcc5bd2a50d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 05/28] fix: eigenvectors returned by the distributed
 eigensolvers follow the distribution of the input

The overloads which allocate the result ignored the source rank of the input matrix, so the
algorithm mixed two different distributions.
---
 include/dlaf/eigensolver/eigensolver.h     | 2 +-
 include/dlaf/eigensolver/gen_eigensolver.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/eigensolver/eigensolver.h b/include/dlaf/eigensolver/eigensolver.h
index 969c3cd..687fb30 100644
--- a/include/dlaf/eigensolver/eigensolver.h
+++ b/include/dlaf/eigensolver/eigensolver.h
@@ -221,7 +221,7 @@ EigensolverResult<T, D> hermitian_eigensolver(comm::CommunicatorGrid& grid, blas
   const SizeType size = mat.size().rows();
   matrix::Matrix<BaseType<T>, D> eigenvalues(LocalElementSize(size, 1),
                                              TileElementSize(mat.tile_size().rows(), 1));
-  matrix::Matrix<T, D> eigenvectors(GlobalElementSize(size, size), mat.tile_size(), grid);
+  matrix::Matrix<T, D> eigenvectors(mat.distribution());
 
   hermitian_eigensolver<B, D, T>(grid, uplo, mat, eigenvalues, eigenvectors, eigenvalues_index_begin,
                                  eigenvalues_index_end);
diff --git a/include/dlaf/eigensolver/gen_eigensolver.h b/include/dlaf/eigensolver/gen_eigensolver.h
index 4d24778..feb31d1 100644
--- a/include/dlaf/eigensolver/gen_eigensolver.h
+++ b/include/dlaf/eigensolver/gen_eigensolver.h
@@ -156,7 +156,7 @@ EigensolverResult<T, D> hermitian_generalized_eigensolver(comm::CommunicatorGrid
 
   matrix::Matrix<BaseType<T>, D> eigenvalues(LocalElementSize(size, 1),
                                              TileElementSize(mat_a.tile_size().rows(), 1));
-  matrix::Matrix<T, D> eigenvectors(GlobalElementSize(size, size), mat_a.tile_size(), grid);
+  matrix::Matrix<T, D> eigenvectors(mat_a.distribution());
 
   hermitian_generalized_eigensolver<B, D, T>(grid, uplo, mat_a, mat_b, eigenvalues, eigenvectors,
                                              factorization, eigenvalues_index_begin,
-- 
2.43.0


From dbd786d3b75525160146fcced395912cc9446f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 06/28] fix: redistribution of matrices: use a distinct tag for
 each tile exchanged by two ranks

---
 include/dlaf/matrix/copy.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/dlaf/matrix/copy.h b/include/dlaf/matrix/copy.h
index c7decc5..260db4f 100644
--- a/include/dlaf/matrix/copy.h
+++ b/include/dlaf/matrix/copy.h
@@ -180,10 +180,18 @@ void copy(Matrix<const T, Source>& src, Matrix<T, Destination>& dst, comm::Commu
     // The tag is computed as a function of local tile index, in order to keep its value as small as
     // possible. Moreover, since the local size of the matrix might change on different ranks, linear
     // local tile index is computed using a rank-independent ld.
+    // A block of the retiled source may contain multiple tiles, which are all stored by the same rank.
     const auto size = dist.commGridSize();
-    const LocalTileIndex source_ij_lc{ij.row() / size.rows(), ij.col() / size.cols()};
-    const SizeType ld = dlaf::util::ceilDiv(dist.nrTiles().rows(), to_SizeType(size.rows()));
-    return to_int(ij.row() + ij.col() * ld);
+    const SizeType tiles_per_block_rows = dist.block_size().rows() / dist.tile_size().rows();
+    const SizeType tiles_per_block_cols = dist.block_size().cols() / dist.tile_size().cols();
+    auto local_tile = [](SizeType tile, SizeType tiles_per_block, SizeType grid_size) {
+      return tile / tiles_per_block / grid_size * tiles_per_block + tile % tiles_per_block;
+    };
+    const LocalTileIndex source_ij_lc{local_tile(ij.row(), tiles_per_block_rows, size.rows()),
+                                      local_tile(ij.col(), tiles_per_block_cols, size.cols())};
+    const SizeType ld = dlaf::util::ceilDiv(dist.nrTiles().rows(), tiles_per_block_rows * size.rows()) *
+                        tiles_per_block_rows;
+    return to_int(source_ij_lc.row() + source_ij_lc.col() * ld);
   };
 
   for (const LocalTileIndex ij_lc : common::iterate_range2d(src_retiled.distribution().localNrTiles())) {
-- 
2.43.0


From a111d66a90a6c733b34747598de2d7c14c030f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 07/28] fix: type_handler: release the custom datatype replaced
 by a move assignment

---
 include/dlaf/communication/type_handler.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dlaf/communication/type_handler.h b/include/dlaf/communication/type_handler.h
index abaf6ba..e736d46 100644
--- a/include/dlaf/communication/type_handler.h
+++ b/include/dlaf/communication/type_handler.h
@@ -57,6 +57,12 @@ struct type_handler {
   }
 
   type_handler& operator=(type_handler&& rhs) noexcept {
+    if (this == &rhs)
+      return *this;
+
+    if (static_cast<bool>(*this))
+      DLAF_MPI_CHECK_ERROR(MPI_Type_free(&custom_type_));
+
     custom_type_ = rhs.custom_type_;
     rhs.custom_type_ = MPI_DATATYPE_NULL;
     return *this;
-- 
2.43.0


From 12471bc54212f8dc49181570f15c5f1b7bec2f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 08/28] fix: Panel: drop the element offset of the previous
 range when a new range of tiles is set

---
 include/dlaf/matrix/panel.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dlaf/matrix/panel.h b/include/dlaf/matrix/panel.h
index 7157eec..8e2a5be 100644
--- a/include/dlaf/matrix/panel.h
+++ b/include/dlaf/matrix/panel.h
@@ -170,6 +170,7 @@ struct Panel<axis, const T, D, StoreTransposed::No> {
     start_ = start_idx.get(coord);
     start_local_ = dist_matrix_.nextLocalTileFromGlobalTile<coord>(start_);
     offset_element_ = start_ * dist_matrix_.tile_size().template get<coord>();
+    start_offset_ = 0;
 
     DLAF_ASSERT(rangeStartLocal() >= bias_ && rangeStart() <= rangeEnd(), rangeStart(), rangeEnd(),
                 bias_);
@@ -325,6 +326,7 @@ protected:
     start_ = start_idx.get(coord);
     start_local_ = dist_matrix_.template nextLocalTileFromGlobalTile<coord>(start_);
     offset_element_ = start_ * dist_matrix_.tile_size().template get<coord>();
+    start_offset_ = 0;
 
     end_ = end_idx.get(coord);
     end_local_ = dist_matrix_.template nextLocalTileFromGlobalTile<coord>(end_);
-- 
2.43.0


From bc7232f9672745042adbcf1a9ac99ecaca1a1df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 09/28] fix: Matrix: initialize the allocation layout of sub
 pipelines

---
 include/dlaf/matrix/matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dlaf/matrix/matrix.h b/include/dlaf/matrix/matrix.h
index f212660..411ca58 100644
--- a/include/dlaf/matrix/matrix.h
+++ b/include/dlaf/matrix/matrix.h
@@ -464,7 +464,8 @@ protected:
   }
 
   struct SubPipelineTag {};
-  Matrix(Matrix& mat, const SubPipelineTag) noexcept : MatrixBase(mat.distribution()) {
+  Matrix(Matrix& mat, const SubPipelineTag) noexcept
+      : MatrixBase(mat.distribution()), allocation_layout_(mat.allocation_layout()) {
     set_up_sub_pipelines(mat);
   }
 
-- 
2.43.0


From dbc2588b52c463dc366bd973eec5f300467dfb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 10/28] fix: C API: check the errors of the MPI calls of
 grid_ordering

---
 src/c_api/grid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c_api/grid.cpp b/src/c_api/grid.cpp
index 3793bb4..f173d1a 100644
--- a/src/c_api/grid.cpp
+++ b/src/c_api/grid.cpp
@@ -49,7 +49,7 @@ void dlaf_free_all_grids() noexcept {
 
 char grid_ordering(MPI_Comm comm, int nprow, int npcol, int myprow, int mypcol) noexcept {
   int rank;
-  MPI_Comm_rank(comm, &rank);
+  DLAF_MPI_CHECK_ERROR(MPI_Comm_rank(comm, &rank));
 
   bool _row_major = false, _col_major = false;
   bool row_major, col_major;
@@ -61,8 +61,8 @@ char grid_ordering(MPI_Comm comm, int nprow, int npcol, int myprow, int mypcol)
     _col_major = true;
   }
 
-  MPI_Allreduce(&_row_major, &row_major, 1, MPI_C_BOOL, MPI_LAND, comm);
-  MPI_Allreduce(&_col_major, &col_major, 1, MPI_C_BOOL, MPI_LAND, comm);
+  DLAF_MPI_CHECK_ERROR(MPI_Allreduce(&_row_major, &row_major, 1, MPI_C_BOOL, MPI_LAND, comm));
+  DLAF_MPI_CHECK_ERROR(MPI_Allreduce(&_col_major, &col_major, 1, MPI_C_BOOL, MPI_LAND, comm));
 
   if (!row_major && !col_major) {
     std::cerr << "Grid layout must be row major or column major." << std::endl;
-- 
2.43.0


From de29cd93237028451d04c78a0b2de2e54ec71a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 11/28] fix: terminate instead of hanging if one of the
 cooperating workers of a task fails

---
 include/dlaf/eigensolver/reduction_to_band/impl.h | 5 +++--
 include/dlaf/eigensolver/tridiag_solver/merge.h   | 5 +++--
 include/dlaf/factorization/qr/t_factor_impl.h     | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/dlaf/eigensolver/reduction_to_band/impl.h b/include/dlaf/eigensolver/reduction_to_band/impl.h
index 2174ab8..1906b7a 100644
--- a/include/dlaf/eigensolver/reduction_to_band/impl.h
+++ b/include/dlaf/eigensolver/reduction_to_band/impl.h
@@ -280,7 +280,8 @@ void computePanelReflectors(MatrixLikeA& mat_a, MatrixLikeTaus& mat_taus, const
                    ex::when_all_vector(std::move(panel_tiles))) |
       ex::continues_on(di::getBackendScheduler<Backend::MC>(thread_priority::high)) |
       ex::bulk(nworkers, [nworkers, cols = panel_view.cols()](const std::size_t index, auto& barrier_ptr,
-                                                              auto& w, auto& taus, auto& tiles) {
+                                                              auto& w, auto& taus,
+                                                              auto& tiles) noexcept {
         const auto barrier_busy_wait = getReductionToBandBarrierBusyWait();
         const std::size_t batch_size = util::ceilDiv(tiles.size(), nworkers);
         const std::size_t begin = index * batch_size;
@@ -610,7 +611,7 @@ void computePanelReflectors(TriggerSender&& trigger, comm::IndexT_MPI rank_v0,
       ex::continues_on(di::getBackendScheduler<Backend::MC>(pika::execution::thread_priority::high)) |
       ex::bulk(nworkers, [nworkers, rank_v0,
                           cols = panel_view.cols()](const std::size_t index, auto& barrier_ptr, auto& w,
-                                                    auto& taus, auto& tiles, auto&& pcomm) {
+                                                    auto& taus, auto& tiles, auto&& pcomm) noexcept {
         const bool rankHasHead = rank_v0 == pcomm.get().rank();
 
         const auto barrier_busy_wait = getReductionToBandBarrierBusyWait();
diff --git a/include/dlaf/eigensolver/tridiag_solver/merge.h b/include/dlaf/eigensolver/tridiag_solver/merge.h
index 0d3cc8b..4a83b4c 100644
--- a/include/dlaf/eigensolver/tridiag_solver/merge.h
+++ b/include/dlaf/eigensolver/tridiag_solver/merge.h
@@ -832,7 +832,8 @@ void solveRank1Problem(const SizeType i_begin, const SizeType i_end, KSender&& k
       ex::continues_on(di::getBackendScheduler<Backend::MC>(thread_priority::high)) |
       ex::bulk(nthreads, [nthreads, n, nb](std::size_t thread_idx, auto& barrier_ptr, auto& k, auto& rho,
                                            auto& d_tiles, auto& z_tiles, auto& eval_tiles,
-                                           const auto& i2_tile_arr, auto& evec_tiles, auto& ws_vecs) {
+                                           const auto& i2_tile_arr, auto& evec_tiles,
+                                           auto& ws_vecs) noexcept {
         const matrix::Distribution distr(LocalElementSize(n, n), TileElementSize(nb, nb));
 
         const SizeType* i2_perm = i2_tile_arr[0].get().ptr();
@@ -1364,7 +1365,7 @@ void solveRank1ProblemDist(CommSender&& row_comm, CommSender&& col_comm, const S
                                    &z_tiles, &eval_tiles, &i4_tiles_arr, &i6_tiles_arr, &i2_tiles_arr,
                                    &evec_tiles, &ws_cols, &ws_row, nthreads, n, dist_sub, bcast_evals,
                                    all_reduce_in_place](const std::size_t thread_idx,
-                                                        auto& barrier_ptr) {
+                                                        auto& barrier_ptr) noexcept {
                  using dlaf::comm::internal::transformMPI;
 
                  comm::CommunicatorPipeline<comm::CommunicatorType::Row> row_comm_chain(
diff --git a/include/dlaf/factorization/qr/t_factor_impl.h b/include/dlaf/factorization/qr/t_factor_impl.h
index 069a095..691f8c2 100644
--- a/include/dlaf/factorization/qr/t_factor_impl.h
+++ b/include/dlaf/factorization/qr/t_factor_impl.h
@@ -123,7 +123,7 @@ struct Helpers<Backend::MC, Device::CPU, T> {
                     ex::bulk(
                         nworkers,
                         [=, &hh_tiles, &taus, &tile_t, &workspaces](const std::size_t worker_id,
-                                                                    auto& barrier_ptr) mutable {
+                                                                    auto& barrier_ptr) mutable noexcept {
                           const auto barrier_busy_wait = getTFactorBarrierBusyWait();
                           DLAF_ASSERT_HEAVY(k == taus.get().size().rows(), k, taus.get().size().rows());
 
-- 
2.43.0


From ae8aaa45417104e86079e3bfb45c5ce89a42cc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 12/28] fix: Pipeline: give the value back to the parent if a
 sub pipeline is replaced by an assignment

---
 include/dlaf/common/pipeline.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dlaf/common/pipeline.h b/include/dlaf/common/pipeline.h
index 6f225e5..c260cb2 100644
--- a/include/dlaf/common/pipeline.h
+++ b/include/dlaf/common/pipeline.h
@@ -52,6 +52,7 @@ public:
 
   Pipeline& operator=(Pipeline&& other) noexcept {
     if (this != &other) {
+      release_parent_pipeline();
       pipeline = std::exchange(other.pipeline, std::nullopt);
       nested_sender = std::exchange(other.nested_sender, std::nullopt);
     }
-- 
2.43.0


From 28a8ad4cc2c3e17c09b7f616f2a460f79dedb7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 13/28] fix: free all DLA-Future grids in dlaf_finalize

The grids were kept (with their communicators) after the C API was finalised, although the changelog
of 0.9.0 documents that they are freed automatically.
---
 src/c_api/init.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/c_api/init.cpp b/src/c_api/init.cpp
index 7688763..fb2ac79 100644
--- a/src/c_api/init.cpp
+++ b/src/c_api/init.cpp
@@ -14,6 +14,7 @@
 #include <pika/runtime.hpp>
 
 #include <dlaf/init.h>
+#include <dlaf_c/grid.h>
 #include <dlaf_c/init.h>
 
 static bool dlaf_initialized = false;
@@ -39,6 +40,8 @@ void dlaf_initialize(int argc_pika, const char** argv_pika, int argc_dlaf,
 
 void dlaf_finalize() noexcept {
   if (dlaf_initialized) {
+    dlaf_free_all_grids();
+
     pika::resume();
     pika::finalize();
     dlaf::finalize();
-- 
2.43.0


From 68748667e284b5bb3dcd64271338b07a6a392e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 14/28] fix: dlaf_create_grid returns a context which is not in
 use

The context was computed from the number of grids: after a grid other than the last one was freed, the
next context collided with a live grid, whose communicator grid was then silently used.
---
 src/c_api/grid.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c_api/grid.cpp b/src/c_api/grid.cpp
index f173d1a..01ffdb1 100644
--- a/src/c_api/grid.cpp
+++ b/src/c_api/grid.cpp
@@ -28,7 +28,10 @@ std::unordered_map<int, dlaf::comm::CommunicatorGrid> dlaf_grids;
 int dlaf_create_grid(MPI_Comm comm, int nprow, int npcol, char order) noexcept {
   // dlaf_context starts from INT_MAX to reduce the likelihood of clashes with blacs contexts
   // blacs starts to number contexts from 0
-  int dlaf_context = std::numeric_limits<int>::max() - static_cast<int>(std::size(dlaf_grids));
+  // (contexts in the middle of the range may have been freed, so look for the first unused one)
+  int dlaf_context = std::numeric_limits<int>::max();
+  while (dlaf_grids.count(dlaf_context) > 0)
+    --dlaf_context;
 
   auto dlaf_order = char2order(order);
 
-- 
2.43.0


From 93921292718b25650d2d976ba4aa9ca9b38ae293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:11 +0000
Subject: [PATCH 15/28] fix: an empty distribution with an offset has no blocks

nr_blocks() and local_nr_blocks() counted a block for an empty matrix whose offset is a tile or more inside the
first block, so create_single_tile_per_block_distribution() gave an empty distribution with tiles.
---
 include/dlaf/matrix/distribution.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/dlaf/matrix/distribution.h b/include/dlaf/matrix/distribution.h
index 3752b08..28c717e 100644
--- a/include/dlaf/matrix/distribution.h
+++ b/include/dlaf/matrix/distribution.h
@@ -249,18 +249,14 @@ public:
 
   /// Returns the number of blocks of the global matrix (2D size).
   const GlobalBlockSize nr_blocks() const noexcept {
-    return {util::ceilDiv(nr_tiles_.rows() + global_tile_offset<Coord::Row>(),
-                          tiles_per_block<Coord::Row>()),
-            util::ceilDiv(nr_tiles_.cols() + global_tile_offset<Coord::Col>(),
-                          tiles_per_block<Coord::Col>())};
+    return {blocks_from_tiles<Coord::Row>(nr_tiles_.rows(), global_tile_offset<Coord::Row>()),
+            blocks_from_tiles<Coord::Col>(nr_tiles_.cols(), global_tile_offset<Coord::Col>())};
   }
 
   /// Returns the number of blocks stored locally (2D size).
   const LocalBlockSize local_nr_blocks() const noexcept {
-    return {util::ceilDiv(local_nr_tiles_.rows() + local_tile_offset<Coord::Row>(),
-                          tiles_per_block<Coord::Row>()),
-            util::ceilDiv(local_nr_tiles_.cols() + local_tile_offset<Coord::Col>(),
-                          tiles_per_block<Coord::Col>())};
+    return {blocks_from_tiles<Coord::Row>(local_nr_tiles_.rows(), local_tile_offset<Coord::Row>()),
+            blocks_from_tiles<Coord::Col>(local_nr_tiles_.cols(), local_tile_offset<Coord::Col>())};
   }
 
   const GlobalElementSize& block_size() const noexcept {
@@ -652,6 +648,13 @@ private:
     return block_size_.get<rc>() / tile_size_.get<rc>();
   }
 
+  /// Computes the number of blocks which contain @p nr_tiles tiles, the first of which is the tile with
+  /// index @p tile_offset of its block. No tiles means no blocks, independently of the offset.
+  template <Coord rc>
+  SizeType blocks_from_tiles(SizeType nr_tiles, SizeType tile_offset) const noexcept {
+    return nr_tiles == 0 ? 0 : util::ceilDiv(nr_tiles + tile_offset, tiles_per_block<rc>());
+  }
+
   /// Returns true if the current rank is the source rank along the @p rc coordinate, otherwise false.
   // Note: safe to use in constructors if:
   // - rank_index_, is already set correctly.
-- 
2.43.0


From d3f9f1cf776dd5149bb396f008f85be2f9605ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 16/28] fix: set_random_hermitian_banded leaves elements
 outside of the band in diagonal tiles

The band size was only used for the off-diagonal tiles: with a band narrower than a tile the diagonal tiles were
filled completely.
---
 include/dlaf/util_matrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/util_matrix.h b/include/dlaf/util_matrix.h
index ea8a421..f8b083b 100644
--- a/include/dlaf/util_matrix.h
+++ b/include/dlaf/util_matrix.h
@@ -333,13 +333,15 @@ namespace internal {
 
 template <class T>
 void set_diagonal_tile(const Tile<T, Device::CPU>& tile, internal::getter_random<T>& random_value,
-                       SizeType offset_value) {
+                       SizeType offset_value, std::optional<SizeType> band_size = std::nullopt) {
   // DIAGONAL
   // for diagonal tiles get just lower matrix values and set value for both
   // straight and transposed indices
   for (SizeType j = 0; j < tile.size().cols(); ++j) {
     for (SizeType i = 0; i < j; ++i) {
       auto value = random_value();
+      if (band_size && j - i > *band_size)
+        value = T(0);
 
       tile(TileElementIndex{i, j}) = value;
       tile(TileElementIndex{j, i}) = dlaf::conj(value);
@@ -442,7 +444,7 @@ void set_random_hermitian_with_offset(Matrix<T, Device::CPU>& matrix, const Size
     auto set_hp_f = [=](const TileType& tile) {
       internal::getter_random<T> random_value(seed);
       if (ij.row() == ij.col())
-        internal::set_diagonal_tile(tile, random_value, offset_value);
+        internal::set_diagonal_tile(tile, random_value, offset_value, band_size);
       else
         internal::set_lower_and_upper_tile(tile, random_value, full_tile_size, ij, dist, band_size);
     };
-- 
2.43.0


From 78521c60fd6876b723f091ca9c29fe2951d27ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:49 +0000
Subject: [PATCH 17/28] fix: the printed configuration lacks
 communicator_grid_num_pipelines

---
 src/tune.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tune.cpp b/src/tune.cpp
index 6561638..76dd97b 100644
--- a/src/tune.cpp
+++ b/src/tune.cpp
@@ -34,6 +34,7 @@ std::ostream& operator<<(std::ostream& os, const TuneParameters& params) {
      << std::endl;
   os << "  bt_band_to_tridiag_hh_apply_group_size = " << params.bt_band_to_tridiag_hh_apply_group_size
      << std::endl;
+  os << "  communicator_grid_num_pipelines = " << params.communicator_grid_num_pipelines << std::endl;
   return os;
 }
 
-- 
2.43.0


From 083622de86dfb96728c016dff8690eab0d73ff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:52 +0000
Subject: [PATCH 18/28] fix: csv output of a local matrix with a distribution
 offset

---
 include/dlaf/matrix/print_csv.h | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/include/dlaf/matrix/print_csv.h b/include/dlaf/matrix/print_csv.h
index b91219a..7c6eed4 100644
--- a/include/dlaf/matrix/print_csv.h
+++ b/include/dlaf/matrix/print_csv.h
@@ -53,25 +53,19 @@ void print(format::csv, std::string sym, Matrix<const T, Device::CPU>& mat,
     return;
   }
 
+  const Distribution& dist = mat.distribution();
+
   SizeType nrow = mat.size().rows();
   SizeType ncol = mat.size().cols();
-  SizeType blockrow = mat.blockSize().rows();
-  SizeType blockcol = mat.blockSize().cols();
 
   os << sym << std::endl;
 
   for (SizeType irow = 0; irow < nrow; ++irow) {
-    SizeType tilerow = irow / blockrow;
-    SizeType elrow = irow % blockrow;
-
     for (SizeType icol = 0; icol < ncol; ++icol) {
-      SizeType tilecol = icol / blockcol;
-      SizeType elcol = icol % blockcol;
-
-      const LocalTileIndex idx = {tilerow, tilecol};
-      const auto tile = pika::this_thread::experimental::sync_wait(mat.read(idx));
+      const GlobalElementIndex ij(irow, icol);
+      const auto tile = pika::this_thread::experimental::sync_wait(mat.read(dist.global_tile_index(ij)));
 
-      os << tile.get()({elrow, elcol}) << ",";
+      os << tile.get()(dist.tile_element_index(ij)) << ",";
     }
     os << std::endl;
   }
-- 
2.43.0


From 3add474c4d62cd736f4350dcad4564456fd245be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:40 +0000
Subject: [PATCH 19/28] fix: retiled matrices ignore the offset of the
 distribution

---
 include/dlaf/matrix/matrix.h      | 28 +++++++++++++++++-----------
 include/dlaf/matrix/matrix_base.h |  2 +-
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/dlaf/matrix/matrix.h b/include/dlaf/matrix/matrix.h
index 411ca58..58392e1 100644
--- a/include/dlaf/matrix/matrix.h
+++ b/include/dlaf/matrix/matrix.h
@@ -572,7 +572,8 @@ void Matrix<const T, D>::set_up_retiled_sub_pipelines(MatrixLike<const T, D>& ma
     tile_managers_.emplace_back(Tile<T, D>());
   }
 
-  const auto tile_size = distribution().tile_size();
+  const Distribution& dist = distribution();
+  const Distribution& dist_orig = mat.distribution();
   vector<SubTileSpec> specs;
   vector<LocalTileIndex> indices;
   specs.reserve(tiles_per_block.linear_size());
@@ -581,17 +582,22 @@ void Matrix<const T, D>::set_up_retiled_sub_pipelines(MatrixLike<const T, D>& ma
   // TODO: Optimize read-after-read. This is currently forced to access the base matrix in readwrite
   // mode so that we can move the tile into the sub-pipeline. This is semantically not required and
   // should eventually be optimized.
-  for (const auto& orig_tile_index : common::iterate_range2d(mat.distribution().local_nr_tiles())) {
-    const auto original_tile_size = mat.tileSize(mat.distribution().global_tile_index(orig_tile_index));
-
-    for (SizeType j = 0; j < original_tile_size.cols(); j += tile_size.cols())
-      for (SizeType i = 0; i < original_tile_size.rows(); i += tile_size.rows()) {
-        indices.emplace_back(
-            LocalTileIndex{orig_tile_index.row() * tiles_per_block.rows() + i / tile_size.rows(),
-                           orig_tile_index.col() * tiles_per_block.cols() + j / tile_size.cols()});
-        specs.emplace_back(SubTileSpec{{i, j},
-                                       tileSize(distribution().global_tile_index(indices.back()))});
+  for (const auto& orig_tile_index : common::iterate_range2d(dist_orig.local_nr_tiles())) {
+    const GlobalTileIndex orig_tile_index_gl = dist_orig.global_tile_index(orig_tile_index);
+    const TileElementSize original_tile_size = dist_orig.tile_size_of(orig_tile_index_gl);
+    // Note: the first tile of both distributions might be smaller due to the offset.
+    const GlobalTileIndex first =
+        dist.global_tile_index(dist_orig.global_element_index(orig_tile_index_gl, {0, 0}));
+
+    for (SizeType j = 0, j_tile = first.col(); j < original_tile_size.cols(); ++j_tile) {
+      for (SizeType i = 0, i_tile = first.row(); i < original_tile_size.rows(); ++i_tile) {
+        const GlobalTileIndex ij_tile(i_tile, j_tile);
+        indices.emplace_back(dist.local_tile_index(ij_tile));
+        specs.emplace_back(SubTileSpec{{i, j}, dist.tile_size_of(ij_tile)});
+        i += dist.tile_size_of(ij_tile).rows();
       }
+      j += dist.tile_size_of(GlobalTileIndex(first.row(), j_tile)).cols();
+    }
 
     auto sub_tiles = splitTileDisjoint(mat.readwrite(orig_tile_index), specs);
 
diff --git a/include/dlaf/matrix/matrix_base.h b/include/dlaf/matrix/matrix_base.h
index b52e64c..7f4ba69 100644
--- a/include/dlaf/matrix/matrix_base.h
+++ b/include/dlaf/matrix/matrix_base.h
@@ -40,7 +40,7 @@ public:
                       TileElementSize{distribution.block_size().rows() / tiles_per_block.rows(),
                                       distribution.block_size().cols() / tiles_per_block.cols()},
                       distribution.grid_size(), distribution.rank_index(),
-                      distribution.source_rank_index()) {
+                      distribution.source_rank_index(), distribution.offset()) {
     DLAF_ASSERT(distribution.single_tile_per_block(),
                 "distribution should be the distribution of the original Matrix.",
                 distribution.block_size(), distribution.tile_size());
-- 
2.43.0


From 6e84b09b4e2739bef0b148488981e54975388e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:38 +0000
Subject: [PATCH 20/28] fix: complex HDF5 datatypes depend on the order of
 static initialization

---
 include/dlaf/matrix/hdf5.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/dlaf/matrix/hdf5.h b/include/dlaf/matrix/hdf5.h
index d80b594..a7cb4ad 100644
--- a/include/dlaf/matrix/hdf5.h
+++ b/include/dlaf/matrix/hdf5.h
@@ -46,14 +46,10 @@ struct hdf5_datatype {
 };
 
 template <class T>
-struct hdf5_datatype<std::complex<T>> {
-  static const H5::PredType& type;
+struct hdf5_datatype<std::complex<T>> : public hdf5_datatype<T> {
   static constexpr std::size_t dims = 2;
 };
 
-template <class T>
-const H5::PredType& hdf5_datatype<std::complex<T>>::type = hdf5_datatype<T>::type;
-
 template <class T>
 struct hdf5_datatype<const T> : public hdf5_datatype<T> {};
 
-- 
2.43.0


From 234ee683324af886175b21ceb4095571dff9ec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:38 +0000
Subject: [PATCH 21/28] fix: dumping the distributed gen_to_std data deadlocks

---
 include/dlaf/eigensolver/gen_to_std/impl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dlaf/eigensolver/gen_to_std/impl.h b/include/dlaf/eigensolver/gen_to_std/impl.h
index 081e9ec..1d3a81b 100644
--- a/include/dlaf/eigensolver/gen_to_std/impl.h
+++ b/include/dlaf/eigensolver/gen_to_std/impl.h
@@ -398,8 +398,12 @@ void GenToStd<backend, device, T>::call_L(comm::CommunicatorGrid& grid, Matrix<T
       hegstDiagTile<backend>(thread_priority::high, mat_a.readwrite(kk), mat_l.readwrite(kk));
 
     // If there is no trailing matrix
-    if (k == nrtile - 1)
+    if (k == nrtile - 1) {
+      // Release the tiles of mat_l: hegstDiagTile needs the diagonal one in readwrite mode.
+      l_panel.reset();
+      l_panelT.reset();
       continue;
+    }
 
     const LocalTileIndex diag_wp_idx{0, kk_offset.cols()};
 
-- 
2.43.0


From 7b65c7422fc579c41d9206ad54297ced0d732777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:38 +0000
Subject: [PATCH 22/28] fix: debug dumps of the early returns of tridiag solver
 and band to tridiag

---
 include/dlaf/eigensolver/band_to_tridiag/mc.h  | 7 +++++++
 include/dlaf/eigensolver/tridiag_solver/impl.h | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/dlaf/eigensolver/band_to_tridiag/mc.h b/include/dlaf/eigensolver/band_to_tridiag/mc.h
index 5409d53..dd7609f 100644
--- a/include/dlaf/eigensolver/band_to_tridiag/mc.h
+++ b/include/dlaf/eigensolver/band_to_tridiag/mc.h
@@ -1068,6 +1068,13 @@ TridiagResult<T, Device::CPU> BandToTridiag<Backend::MC, D, T>::call_L(
   Matrix<T, Device::CPU> mat_v(dist_v);
 
   if (size == 0) {
+#ifdef DLAF_WITH_HDF5
+    if (getTuneParameters().debug_dump_band_to_tridiagonal_data) {
+      file->write(mat_trid, "/tridiagonal");
+    }
+
+    num_b2t_calls++;
+#endif
     return {std::move(mat_trid), std::move(mat_v)};
   }
 
diff --git a/include/dlaf/eigensolver/tridiag_solver/impl.h b/include/dlaf/eigensolver/tridiag_solver/impl.h
index a30fba0..3bc6e56 100644
--- a/include/dlaf/eigensolver/tridiag_solver/impl.h
+++ b/include/dlaf/eigensolver/tridiag_solver/impl.h
@@ -406,6 +406,15 @@ void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device
       solveDistLeaf(full_task_chain, tridiag, evecs, h_evecs);
     }
     offloadDiagonal(tridiag, evals);
+
+#ifdef DLAF_WITH_HDF5
+    if (getTuneParameters().debug_dump_tridiag_solver_data) {
+      file->write(evecs, "/evecs");
+      file->write(evals, "/evals");
+    }
+
+    num_tridiag_solver_calls++;
+#endif
     return;
   }
 
-- 
2.43.0


From 81fc107f7f054da1f1e902455bd6e9249609c816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:33 +0000
Subject: [PATCH 23/28] fix: percentage of the eigenvalues of a matrix loaded
 from a file in the miniapps

---
 miniapp/miniapp_eigensolver.cpp     | 10 +++++++---
 miniapp/miniapp_gen_eigensolver.cpp | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/miniapp/miniapp_eigensolver.cpp b/miniapp/miniapp_eigensolver.cpp
index cc8d297..de2b0b5 100644
--- a/miniapp/miniapp_eigensolver.cpp
+++ b/miniapp/miniapp_eigensolver.cpp
@@ -70,6 +70,7 @@ struct Options
   SizeType m;
   SizeType mb;
   std::optional<SizeType> eval_idx_end;
+  std::optional<double> percent_evals;
   blas::Uplo uplo;
 #ifdef DLAF_WITH_HDF5
   std::filesystem::path input_file;
@@ -91,8 +92,7 @@ struct Options
     }
 
     if (vm.count("percent-evals") == 1) {
-      double percent = vm["percent-evals"].as<double>();
-      eval_idx_end = dlaf::util::internal::percent_to_index(m, percent);
+      percent_evals = vm["percent-evals"].as<double>();
     }
     else if (vm.count("eval-index-end") == 1) {
       eval_idx_end = vm["eval-index-end"].as<SizeType>();
@@ -155,7 +155,11 @@ struct EigensolverMiniapp {
 
     auto matrix_size = matrix_ref.size();
     auto block_size = matrix_ref.blockSize();
-    auto eval_idx_end = opts.eval_idx_end.value_or(matrix_size.rows());
+    // Note: the size of the matrix is known just now if it has been loaded from a file.
+    auto eval_idx_end =
+        opts.percent_evals
+            ? dlaf::util::internal::percent_to_index(matrix_size.rows(), *opts.percent_evals)
+            : opts.eval_idx_end.value_or(matrix_size.rows());
     DLAF_ASSERT(eval_idx_end >= 0 && eval_idx_end <= matrix_size.rows(), eval_idx_end,
                 matrix_size.rows());
 
diff --git a/miniapp/miniapp_gen_eigensolver.cpp b/miniapp/miniapp_gen_eigensolver.cpp
index afc3637..1dc4876 100644
--- a/miniapp/miniapp_gen_eigensolver.cpp
+++ b/miniapp/miniapp_gen_eigensolver.cpp
@@ -71,6 +71,7 @@ struct Options
   SizeType m;
   SizeType mb;
   std::optional<SizeType> eval_idx_end;
+  std::optional<double> percent_evals;
   blas::Uplo uplo;
 #ifdef DLAF_WITH_HDF5
   std::filesystem::path input_file;
@@ -93,8 +94,7 @@ struct Options
     }
 
     if (vm.count("percent-evals") == 1) {
-      double percent = vm["percent-evals"].as<double>();
-      eval_idx_end = dlaf::util::internal::percent_to_index(m, percent);
+      percent_evals = vm["percent-evals"].as<double>();
     }
     else if (vm.count("eval-index-end") == 1) {
       eval_idx_end = vm["eval-index-end"].as<SizeType>();
@@ -182,7 +182,11 @@ struct GenEigensolverMiniapp {
 
     auto matrix_size = matrix_a_ref.size();
 
-    auto eval_idx_end = opts.eval_idx_end.value_or(matrix_size.rows());
+    // Note: the size of the matrix is known just now if it has been loaded from a file.
+    auto eval_idx_end =
+        opts.percent_evals
+            ? dlaf::util::internal::percent_to_index(matrix_size.rows(), *opts.percent_evals)
+            : opts.eval_idx_end.value_or(matrix_size.rows());
     DLAF_ASSERT(eval_idx_end >= 0 && eval_idx_end <= matrix_size.rows(), eval_idx_end,
                 matrix_size.rows());
 
-- 
2.43.0


From 8447b2250f86c6619100b8c2f4e72d39a6ffc7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:11 +0000
Subject: [PATCH 24/28] fix: source rank of distributions with an offset of
 more than 2^31 blocks

---
 src/matrix/distribution.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/matrix/distribution.cpp b/src/matrix/distribution.cpp
index c0007b0..f33fd9d 100644
--- a/src/matrix/distribution.cpp
+++ b/src/matrix/distribution.cpp
@@ -153,8 +153,11 @@ void Distribution::normalize_source_rank_and_offset() noexcept {
   auto div_col = std::div(offset_.col(), block_size_.cols());
 
   offset_ = {div_row.rem, div_col.rem};
-  source_rank_index_ = {(source_rank_index_.row() + static_cast<int>(div_row.quot)) % grid_size_.rows(),
-                        (source_rank_index_.col() + static_cast<int>(div_col.quot)) % grid_size_.cols()};
+  // Note: the number of blocks might not fit in an int.
+  const int shift_row = static_cast<int>(div_row.quot % grid_size_.rows());
+  const int shift_col = static_cast<int>(div_col.quot % grid_size_.cols());
+  source_rank_index_ = {(source_rank_index_.row() + shift_row) % grid_size_.rows(),
+                        (source_rank_index_.col() + shift_col) % grid_size_.cols()};
 
   DLAF_ASSERT(offset_.row() < block_size_.rows(), offset_, block_size_);
   DLAF_ASSERT(offset_.col() < block_size_.cols(), offset_, block_size_);
-- 
2.43.0


From 814cb475b52c85eb3aa330fa8cba593b6f5b764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:27 +0000
Subject: [PATCH 25/28] fix: reflectors of the reduction to band whose squared
 norm underflows are not unitary

---
 .../dlaf/eigensolver/reduction_to_band/impl.h | 55 ++++++++++++++++++-
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/eigensolver/reduction_to_band/impl.h b/include/dlaf/eigensolver/reduction_to_band/impl.h
index 1906b7a..b7c9a72 100644
--- a/include/dlaf/eigensolver/reduction_to_band/impl.h
+++ b/include/dlaf/eigensolver/reduction_to_band/impl.h
@@ -13,6 +13,7 @@
 #include <atomic>
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include <sstream>
 #include <utility>
 #include <vector>
@@ -127,6 +128,33 @@ void scaleReflector(const bool has_head, const std::vector<matrix::Tile<T, D>>&
   }
 }
 
+// The squares of very small elements underflow, in which case the computed norm is not accurate and the
+// resulting reflector is far from being unitary. (see xLARFG)
+template <class T>
+bool squaresUnderflow(const std::array<T, 2>& x0_and_squares) {
+  const auto squares = std::real(x0_and_squares[1]);
+  return squares > 0 && squares < std::numeric_limits<BaseType<T>>::min();
+}
+
+// Scaling factor for reflectors whose squares underflow: neither the smallest subnormal number underflows
+// nor the largest of their elements overflows when scaled and squared.
+template <class T>
+constexpr BaseType<T> underflow_scaling_factor =
+    std::numeric_limits<BaseType<T>>::epsilon() / std::numeric_limits<BaseType<T>>::min();
+
+// Scale the reflector column, its head included.
+template <Device D, class T>
+void scaleColumn(const bool has_head, const std::vector<matrix::Tile<T, D>>& panel, const SizeType j,
+                 const T alpha) {
+  common::internal::SingleThreadedBlasScope _single;
+
+  for (std::size_t i_tl = 0; i_tl < panel.size(); ++i_tl) {
+    const auto& tile_v = panel[i_tl];
+    const SizeType first_element = (i_tl == 0 && has_head) ? j : 0;
+    blas::scal(tile_v.size().rows() - first_element, alpha, tile_v.ptr({first_element, j}), 1);
+  }
+}
+
 template <Device D, class T>
 T computeReflectorAndTau(const bool has_head, const std::vector<matrix::Tile<T, D>>& panel,
                          const SizeType j, std::array<T, 2> x0_and_squares) {
@@ -296,8 +324,18 @@ void computePanelReflectors(MatrixLikeA& mat_a, MatrixLikeTaus& mat_taus, const
         for (SizeType j = 0; j < nrefls; ++j) {
           // STEP1: compute tau and reflector (single-thread)
           if (has_head) {
-            taus({j, 0}) =
-                computeReflectorAndTau(has_head, tiles, j, computeX0AndSquares(has_head, tiles, j));
+            std::array<T, 2> x0_and_squares = computeX0AndSquares(has_head, tiles, j);
+
+            const bool rescale = squaresUnderflow(x0_and_squares);
+            if (rescale) {
+              scaleColumn(has_head, tiles, j, T(underflow_scaling_factor<T>));
+              x0_and_squares = computeX0AndSquares(has_head, tiles, j);
+            }
+
+            taus({j, 0}) = computeReflectorAndTau(has_head, tiles, j, std::move(x0_and_squares));
+
+            if (rescale)
+              tiles[0]({j, j}) /= underflow_scaling_factor<T>;
           }
 
           barrier_ptr->arrive_and_wait(barrier_busy_wait);
@@ -647,7 +685,20 @@ void computePanelReflectors(TriggerSender&& trigger, comm::IndexT_MPI rank_v0,
                                          common::make_data(x0_and_squares.data(),
                                                            to_SizeType(x0_and_squares.size())));
 
+            // Note: all ranks have the same squares, so all of them take the same decision.
+            const bool rescale = squaresUnderflow(x0_and_squares);
+            if (rescale) {
+              scaleColumn(has_head, tiles, j, T(underflow_scaling_factor<T>));
+              x0_and_squares = computeX0AndSquares(has_head, tiles, j);
+              comm::sync::allReduceInPlace(pcomm.get(), MPI_SUM,
+                                           common::make_data(x0_and_squares.data(),
+                                                             to_SizeType(x0_and_squares.size())));
+            }
+
             taus({j, 0}) = computeReflectorAndTau(has_head, tiles, j, std::move(x0_and_squares));
+
+            if (rescale && has_head)
+              tiles[0]({j, j}) /= underflow_scaling_factor<T>;
           }
           barrier_ptr->arrive_and_wait(barrier_busy_wait);
 
-- 
2.43.0


From a5c7cbc54155975342058a4cc3744ddd553ece13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:08 +0000
Subject: [PATCH 26/28] fix: tridiagonal solver loses the result of matrices
 whose squared elements underflow or overflow

---
 .../dlaf/eigensolver/tridiag_solver/impl.h    | 70 +++++++++++++++++++
 .../dlaf/eigensolver/tridiag_solver/merge.h   |  6 +-
 2 files changed, 73 insertions(+), 3 deletions(-)

diff --git a/include/dlaf/eigensolver/tridiag_solver/impl.h b/include/dlaf/eigensolver/tridiag_solver/impl.h
index 3bc6e56..4c79a7c 100644
--- a/include/dlaf/eigensolver/tridiag_solver/impl.h
+++ b/include/dlaf/eigensolver/tridiag_solver/impl.h
@@ -11,7 +11,9 @@
 
 #include <algorithm>
 #include <atomic>
+#include <cmath>
 #include <complex>
+#include <cstddef>
 #include <optional>
 #include <sstream>
 #include <tuple>
@@ -76,6 +78,68 @@ inline std::vector<std::tuple<SizeType, SizeType, SizeType>> generateSubproblemI
   return indices;
 }
 
+// Scale @p tridiag by a power of two such that its largest element is in [0.5, 1).
+//
+// As in LAPACK's stedc, otherwise for very small or very large elements the computations of the merge step
+// (e.g. laed4) underflow or overflow. Note: the scaling by a power of two does not introduce rounding errors.
+//
+// Returns a sender of the exponent `e` of the scaling: (original tridiag) = 2^e * (scaled tridiag)
+template <class T>
+auto scaleTridiag(Matrix<T, Device::CPU>& tridiag) {
+  namespace ex = pika::execution::experimental;
+  namespace di = dlaf::internal;
+  using pika::execution::thread_stacksize;
+
+  auto scale_fn = [](const std::vector<matrix::Tile<T, Device::CPU>>& tiles) {
+    // Note: the last off-diagonal element is not referenced.
+    auto nr_elements = [&tiles](const std::size_t i, const SizeType j) {
+      return tiles[i].size().rows() - (i + 1 == tiles.size() ? j : 0);
+    };
+
+    T max = 0;
+    for (std::size_t it = 0; it < tiles.size(); ++it)
+      for (SizeType j = 0; j < 2; ++j)
+        for (SizeType i = 0; i < nr_elements(it, j); ++i)
+          max = std::max(max, std::abs(tiles[it]({i, j})));
+
+    int exponent = 0;
+    if (max > 0 && std::isfinite(max))
+      std::frexp(max, &exponent);
+
+    for (std::size_t it = 0; it < tiles.size(); ++it)
+      for (SizeType j = 0; j < 2; ++j)
+        for (SizeType i = 0; i < nr_elements(it, j); ++i)
+          tiles[it]({i, j}) = std::ldexp(tiles[it]({i, j}), -exponent);
+
+    return exponent;
+  };
+
+  std::vector<matrix::ReadWriteTileSender<T, Device::CPU>> tiles;
+  for (SizeType i = 0; i < tridiag.nrTiles().rows(); ++i)
+    tiles.push_back(tridiag.readwrite(LocalTileIndex(i, 0)));
+
+  return ex::split(ex::ensure_started(
+      ex::when_all_vector(std::move(tiles)) |
+      di::transform(di::Policy<Backend::MC>(thread_stacksize::nostack), std::move(scale_fn))));
+}
+
+// Revert the scaling of @p scaleTridiag on the computed eigenvalues
+template <class T, class ExponentSender>
+void scaleBackEigenvalues(const ExponentSender& exponent, Matrix<T, Device::CPU>& evals) {
+  namespace ex = pika::execution::experimental;
+  namespace di = dlaf::internal;
+  using pika::execution::thread_stacksize;
+
+  auto scale_fn = [](const int exponent, const matrix::Tile<T, Device::CPU>& tile) {
+    for (SizeType i = 0; i < tile.size().rows(); ++i)
+      tile({i, 0}) = std::ldexp(tile({i, 0}), exponent);
+  };
+
+  for (SizeType i = 0; i < evals.nrTiles().rows(); ++i)
+    di::transformDetach(di::Policy<Backend::MC>(thread_stacksize::nostack), scale_fn,
+                        ex::when_all(exponent, evals.readwrite(LocalTileIndex(i, 0))));
+}
+
 template <class T>
 auto cuppensDecomposition(Matrix<T, Device::CPU>& tridiag) {
   namespace ex = pika::execution::experimental;
@@ -259,6 +323,8 @@ void TridiagSolver<B, D, T>::call(Matrix<T, Device::CPU>& tridiag, Matrix<T, D>&
   // Set `ws.e0` to `zero` (needed for Given's rotation to make sure no random values are picked up)
   matrix::util::set0<B, T, D>(thread_priority::normal, ws.e0);
 
+  auto exponent = scaleTridiag(tridiag);
+
   // Cuppen's decomposition
   auto offdiag_vals = cuppensDecomposition(tridiag);
 
@@ -283,6 +349,7 @@ void TridiagSolver<B, D, T>::call(Matrix<T, Device::CPU>& tridiag, Matrix<T, D>&
   copy(ws_hm.i2, ws.i2);
 
   applyIndex(0, n, ws_hm.i2, ws_h.d0, ws_hm.d1);
+  scaleBackEigenvalues(exponent, ws_hm.d1);
   copy(ws_hm.d1, evals);
 
   dlaf::permutations::permute<B, D, T, Coord::Col>(0, n, ws.i2, ws.e0, evecs);
@@ -456,6 +523,8 @@ void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device
   // Set `ws.e0` to `zero` (needed for Given's rotation to make sure no random values are picked up)
   matrix::util::set0<B, T, D>(thread_priority::normal, ws.e0);
 
+  auto exponent = scaleTridiag(tridiag);
+
   // Cuppen's decomposition
   auto offdiag_vals = cuppensDecomposition(tridiag);
 
@@ -485,6 +554,7 @@ void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid& grid, Matrix<T, Device
   copy(ws.e0, ws_hm.e0);
 
   applyIndex(0, n, ws_h.i1, ws_h.d0, ws_hm.d1);
+  scaleBackEigenvalues(exponent, ws_hm.d1);
   copy(ws_hm.d1, evals);
 
   // Note: ws_hm.e2 is the mirror of ws.e2 which is evecs
diff --git a/include/dlaf/eigensolver/tridiag_solver/merge.h b/include/dlaf/eigensolver/tridiag_solver/merge.h
index 4a83b4c..9fa86ac 100644
--- a/include/dlaf/eigensolver/tridiag_solver/merge.h
+++ b/include/dlaf/eigensolver/tridiag_solver/merge.h
@@ -245,9 +245,9 @@ auto maxVectorElement(const SizeType i_begin, const SizeType i_end, Matrix<const
 
 // The tolerance calculation is based on the one used in LAPACK's stedc implementation [1].
 //
-// Note: LAPACK scales the tridiagonal matrix to have norm 1 before starting, here the matrix is not scaled.
-// Therefore the contribution of `z` has to be multiplied by `rho`, otherwise the tolerance would not be
-// relative to the norm of the matrix.
+// Note: LAPACK scales the tridiagonal matrix to have norm 1 before starting, here only the matrix as a whole
+// is scaled, but the norm of the subproblems is arbitrary. Therefore the contribution of `z` has to be
+// multiplied by `rho`, otherwise the tolerance would not be relative to the norm of the subproblem.
 //
 // [1] LAPACK 3.10.0, file dlaed2.f, line 315, variable TOL
 template <class T, class RhoSender>
-- 
2.43.0


From 42477d127efacf450a56fe280b7cc4bdb8ae1444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:35 +0000
Subject: [PATCH 27/28] fix: reduction to band of matrices whose squared norms
 vanish or overflow

---
 .../dlaf/eigensolver/reduction_to_band/impl.h | 46 +++++++++++--------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/include/dlaf/eigensolver/reduction_to_band/impl.h b/include/dlaf/eigensolver/reduction_to_band/impl.h
index b7c9a72..c9be4ff 100644
--- a/include/dlaf/eigensolver/reduction_to_band/impl.h
+++ b/include/dlaf/eigensolver/reduction_to_band/impl.h
@@ -128,20 +128,26 @@ void scaleReflector(const bool has_head, const std::vector<matrix::Tile<T, D>>&
   }
 }
 
-// The squares of very small elements underflow, in which case the computed norm is not accurate and the
-// resulting reflector is far from being unitary. (see xLARFG)
+// Scaling factor for the reflector column (1 if not needed).
+//
+// The squares of very small (large) elements underflow (overflow), in which case the computed norm is not
+// accurate and the resulting reflector is far from being unitary. (see xLARFG)
+//
+// If scaled, neither the smallest subnormal number underflows nor the largest number overflows when squared.
+// Note: if the sum of the squares is zero, the elements may be not.
 template <class T>
-bool squaresUnderflow(const std::array<T, 2>& x0_and_squares) {
+BaseType<T> reflectorScalingFactor(const std::array<T, 2>& x0_and_squares) {
+  using limits = std::numeric_limits<BaseType<T>>;
+  constexpr BaseType<T> factor = limits::epsilon() / limits::min();
+
   const auto squares = std::real(x0_and_squares[1]);
-  return squares > 0 && squares < std::numeric_limits<BaseType<T>>::min();
+  if (squares < limits::min())
+    return factor;
+  if (!std::isfinite(squares))
+    return 1 / factor;
+  return 1;
 }
 
-// Scaling factor for reflectors whose squares underflow: neither the smallest subnormal number underflows
-// nor the largest of their elements overflows when scaled and squared.
-template <class T>
-constexpr BaseType<T> underflow_scaling_factor =
-    std::numeric_limits<BaseType<T>>::epsilon() / std::numeric_limits<BaseType<T>>::min();
-
 // Scale the reflector column, its head included.
 template <Device D, class T>
 void scaleColumn(const bool has_head, const std::vector<matrix::Tile<T, D>>& panel, const SizeType j,
@@ -326,16 +332,16 @@ void computePanelReflectors(MatrixLikeA& mat_a, MatrixLikeTaus& mat_taus, const
           if (has_head) {
             std::array<T, 2> x0_and_squares = computeX0AndSquares(has_head, tiles, j);
 
-            const bool rescale = squaresUnderflow(x0_and_squares);
-            if (rescale) {
-              scaleColumn(has_head, tiles, j, T(underflow_scaling_factor<T>));
+            const BaseType<T> scaling = reflectorScalingFactor(x0_and_squares);
+            if (scaling != 1) {
+              scaleColumn(has_head, tiles, j, T(scaling));
               x0_and_squares = computeX0AndSquares(has_head, tiles, j);
             }
 
             taus({j, 0}) = computeReflectorAndTau(has_head, tiles, j, std::move(x0_and_squares));
 
-            if (rescale)
-              tiles[0]({j, j}) /= underflow_scaling_factor<T>;
+            if (scaling != 1)
+              tiles[0]({j, j}) /= scaling;
           }
 
           barrier_ptr->arrive_and_wait(barrier_busy_wait);
@@ -686,9 +692,9 @@ void computePanelReflectors(TriggerSender&& trigger, comm::IndexT_MPI rank_v0,
                                                            to_SizeType(x0_and_squares.size())));
 
             // Note: all ranks have the same squares, so all of them take the same decision.
-            const bool rescale = squaresUnderflow(x0_and_squares);
-            if (rescale) {
-              scaleColumn(has_head, tiles, j, T(underflow_scaling_factor<T>));
+            const BaseType<T> scaling = reflectorScalingFactor(x0_and_squares);
+            if (scaling != 1) {
+              scaleColumn(has_head, tiles, j, T(scaling));
               x0_and_squares = computeX0AndSquares(has_head, tiles, j);
               comm::sync::allReduceInPlace(pcomm.get(), MPI_SUM,
                                            common::make_data(x0_and_squares.data(),
@@ -697,8 +703,8 @@ void computePanelReflectors(TriggerSender&& trigger, comm::IndexT_MPI rank_v0,
 
             taus({j, 0}) = computeReflectorAndTau(has_head, tiles, j, std::move(x0_and_squares));
 
-            if (rescale && has_head)
-              tiles[0]({j, j}) /= underflow_scaling_factor<T>;
+            if (scaling != 1 && has_head)
+              tiles[0]({j, j}) /= scaling;
           }
           barrier_ptr->arrive_and_wait(barrier_busy_wait);
 
-- 
2.43.0


From eed7f5880e7dde7fab0468cf176985e3005995d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:16 +0000
Subject: [PATCH 28/28] fix: infinite and complex non-finite elements in numpy
 output

---
 include/dlaf/matrix/print_numpy.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/dlaf/matrix/print_numpy.h b/include/dlaf/matrix/print_numpy.h
index b201a82..e0649be 100644
--- a/include/dlaf/matrix/print_numpy.h
+++ b/include/dlaf/matrix/print_numpy.h
@@ -12,6 +12,7 @@
 
 /// @file
 
+#include <cmath>
 #include <complex>
 #include <iostream>
 #include <sstream>
@@ -51,6 +52,8 @@ std::string numpy_value(const T& value) {
   std::ostringstream os;
   if (std::isnan(value))
     os << "np.nan";
+  else if (std::isinf(value))
+    os << (value < 0 ? "-np.inf" : "np.inf");
   else
     os << value;
   return os.str();
@@ -59,9 +62,16 @@ std::string numpy_value(const T& value) {
 template <class T>
 std::string numpy_value(const std::complex<T>& value) {
   std::ostringstream os;
+  const auto real = std::real(value);
   const auto imag = std::imag(value);
-  const auto sign = (imag < 0) ? '-' : '+';
-  os << std::real(value) << sign << std::abs(imag) << "j";
+  if (std::isfinite(real) && std::isfinite(imag)) {
+    const auto sign = (imag < 0) ? '-' : '+';
+    os << real << sign << std::abs(imag) << "j";
+  }
+  else {
+    // Note: non-finite values are not allowed in a python complex literal
+    os << "complex(" << numpy_value(real) << "," << numpy_value(imag) << ")";
+  }
   return os.str();
 }
 }
-- 
2.43.0

