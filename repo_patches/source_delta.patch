From 36e2c92eb6d0a8d320681a590e2be945ad3e690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:55 +0000
Subject: [PATCH 01/18] fix: matrix_transpose writes the output of single row
 and single column matrices

---
 include/neso_particles/algorithms/common.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/neso_particles/algorithms/common.hpp b/include/neso_particles/algorithms/common.hpp
index 44a2fd6..3c4643f 100644
--- a/include/neso_particles/algorithms/common.hpp
+++ b/include/neso_particles/algorithms/common.hpp
@@ -452,9 +452,14 @@ template <typename T>
 matrix_transpose(SYCLTargetSharedPtr sycl_target, const std::size_t num_rows,
                  const std::size_t num_cols, const T *RESTRICT const d_src,
                  T *RESTRICT d_dst) {
-  if ((num_rows <= 1) || (num_cols <= 1)) {
+  if ((num_rows == 0) || (num_cols == 0)) {
     return sycl::event();
   }
+  // The transpose of a single row or column has the same layout as the source.
+  if ((num_rows == 1) || (num_cols == 1)) {
+    return sycl_target->queue.memcpy(d_dst, d_src,
+                                     num_rows * num_cols * sizeof(T));
+  }
   const std::size_t num_bytes_per_item = sizeof(T);
   std::size_t local_size =
       sycl_target->parameters->get<SizeTParameter>("LOOP_LOCAL_SIZE")->value;
-- 
2.43.0


From 81c26a53d79fd1471f48f1638eb6560e5c329a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:03 +0000
Subject: [PATCH 02/18] fix: get_neighbour_mh_cells wraps stencils wider than
 the mesh

---
 src/mesh_hierarchy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh_hierarchy.cpp b/src/mesh_hierarchy.cpp
index 3ae4bb0..11e0186 100644
--- a/src/mesh_hierarchy.cpp
+++ b/src/mesh_hierarchy.cpp
@@ -270,7 +270,8 @@ void get_neighbour_mh_cells(std::shared_ptr<MeshHierarchy> mesh_hierarchy,
                               (offset_dim_linear_unmapped < cell_counts[dimx]));
           }
           const INT offset_dim_linear =
-              (offset_dim_linear_unmapped + cell_counts[dimx]) %
+              ((offset_dim_linear_unmapped % cell_counts[dimx]) +
+               cell_counts[dimx]) %
               cell_counts[dimx];
 
           // convert back to a mesh hierarchy tuple index
-- 
2.43.0


From d6d5699d5f4c58b5e14b9334befb32866b708a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:03 +0000
Subject: [PATCH 03/18] fix: truncate_trajectory does not divide by zero for a
 zero reset distance

---
 include/neso_particles/boundary/boundary_truncation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/boundary/boundary_truncation.hpp b/include/neso_particles/boundary/boundary_truncation.hpp
index 4b4e837..cff05ea 100644
--- a/include/neso_particles/boundary/boundary_truncation.hpp
+++ b/include/neso_particles/boundary/boundary_truncation.hpp
@@ -46,7 +46,7 @@ inline void truncate_trajectory(
 
   const REAL o_norm2 = Kernel::dot_product<k_ndim>(oo, oo);
   const REAL o_norm = Kernel::sqrt(o_norm2);
-  const bool small_move = o_norm < (k_reset_distance * 0.1);
+  const bool small_move = o_norm <= (k_reset_distance * 0.1);
   const REAL o_inorm =
       small_move ? k_reset_distance : k_reset_distance / o_norm;
   for (int dx = 0; dx < k_ndim; dx++) {
-- 
2.43.0


From 7c9885015507e24a04104b8fd1a637faa502abeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:21 +0000
Subject: [PATCH 04/18] fix: OverlayCartesianMesh::get_intersecting_cells in
 three dimensions

---
 src/external_interfaces/common/overlay_cartesian_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/overlay_cartesian_mesh.cpp b/src/external_interfaces/common/overlay_cartesian_mesh.cpp
index b66b234..1f099f0 100644
--- a/src/external_interfaces/common/overlay_cartesian_mesh.cpp
+++ b/src/external_interfaces/common/overlay_cartesian_mesh.cpp
@@ -162,7 +162,7 @@ void OverlayCartesianMesh::get_intersecting_cells(
     size *= (cell_upper - cell_lower);
   }
   cells.reserve(size);
-  std::vector<int> index(2);
+  std::vector<int> index(this->ndim);
   this->get_all_cells(0, cell_starts, cell_ends, index, cells);
 }
 
-- 
2.43.0


From ffce6e25981bc5840dcba8c5dcb73596cc0483a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:04 +0000
Subject: [PATCH 05/18] fix: BufferBase::realloc copies no more elements than
 the new buffer holds

---
 include/neso_particles/device_buffers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/device_buffers.hpp b/include/neso_particles/device_buffers.hpp
index 835334b..ec7e157 100644
--- a/include/neso_particles/device_buffers.hpp
+++ b/include/neso_particles/device_buffers.hpp
@@ -117,7 +117,7 @@ public:
       this->ptr = this->malloc_wrapper(size * sizeof(T));
       const auto old_size = this->size;
       this->size = size;
-      this->memcpy_wrapper(this->ptr, ptr_old, old_size);
+      this->memcpy_wrapper(this->ptr, ptr_old, std::min(old_size, size));
       this->free_wrapper(ptr_old);
     }
     return this->size;
-- 
2.43.0


From 756fbf119177c54b3f9f4a3c2e4d3ed5f5b4ac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:27 +0000
Subject: [PATCH 06/18] fix: CellDatConst::set_cell with data of more rows than
 the cell

---
 include/neso_particles/containers/cell_dat_const.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/neso_particles/containers/cell_dat_const.hpp b/include/neso_particles/containers/cell_dat_const.hpp
index 45ea1b1..8afb40d 100644
--- a/include/neso_particles/containers/cell_dat_const.hpp
+++ b/include/neso_particles/containers/cell_dat_const.hpp
@@ -705,11 +705,13 @@ public:
                "CellData as insuffient column count.");
 
     if (this->nrow > 0 && this->ncol > 0) {
-      this->sycl_target->queue
-          .memcpy(&this->d_ptr[cell * this->stride],
-                  cell_data->get_column_ptr(0),
-                  this->nrow * this->ncol * sizeof(T))
-          .wait_and_throw();
+      // The passed data may have more rows than each cell of this instance.
+      for (int colx = 0; colx < this->ncol; colx++) {
+        this->sycl_target->queue
+            .memcpy(&this->d_ptr[cell * this->stride + colx * this->nrow],
+                    cell_data->get_column_ptr(colx), this->nrow * sizeof(T))
+            .wait_and_throw();
+      }
     }
   }
 
-- 
2.43.0


From 17fa4216e0954e83e5a061c6ad6646b0fecabee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:48 +0000
Subject: [PATCH 07/18] fix: CellwisePairListSimple::clear keeps host and
 device pair counts the same size

After CellwisePairListSimple::set the host vector of pair counts could hold
fewer entries than the device buffer (e.g. set with an empty host list). A
clear followed by push_back then failed the size check on the device buffer.
---
 src/pair_loop/cellwise_pair_list_simple.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pair_loop/cellwise_pair_list_simple.cpp b/src/pair_loop/cellwise_pair_list_simple.cpp
index ffb2011..59d7ece 100644
--- a/src/pair_loop/cellwise_pair_list_simple.cpp
+++ b/src/pair_loop/cellwise_pair_list_simple.cpp
@@ -242,7 +242,9 @@ void CellwisePairListSimple::clear() {
         });
 
     std::fill(this->h_wave_count.begin(), this->h_wave_count.end(), 0);
-    std::fill(this->h_pair_counts.begin(), this->h_pair_counts.end(), 0);
+    // A previous call to set may have altered the size of the host vector such
+    // that it differs from the size of the device buffer.
+    this->h_pair_counts.assign(this->d_pair_counts->size, 0);
     e0.wait_and_throw();
   }
   this->max_pair_count = -1;
-- 
2.43.0


From 894ed8d2464b08b4308ee674f63073a6c934c542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:48 +0000
Subject: [PATCH 08/18] fix: an empty CellwisePairListSimple contains zero
 pairs

clear() set the total number of pairs to -1. A ParticlePairLoop over several
lists adds up the pair counts, hence an empty list shifted the pair indices of
the lists after it by -1 and the first pair had index -1.
---
 src/pair_loop/cellwise_pair_list_simple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pair_loop/cellwise_pair_list_simple.cpp b/src/pair_loop/cellwise_pair_list_simple.cpp
index 59d7ece..66a5554 100644
--- a/src/pair_loop/cellwise_pair_list_simple.cpp
+++ b/src/pair_loop/cellwise_pair_list_simple.cpp
@@ -249,7 +249,7 @@ void CellwisePairListSimple::clear() {
   }
   this->max_pair_count = -1;
   this->max_wave_count = -1;
-  this->pair_count = -1;
+  this->pair_count = 0;
   this->mode = 0;
 }
 
-- 
2.43.0


From e920ef9bf51f31c678d35acac743e0cd1260518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:48 +0000
Subject: [PATCH 09/18] fix: ParticlePairLoop::execute(cell) visits only that
 cell

The documentation states that execute(i) launches the loop over cell i, as
ParticleLoop does. All cells from i onwards were visited.
---
 include/neso_particles/pair_loop/particle_pair_loop_args.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neso_particles/pair_loop/particle_pair_loop_args.hpp b/include/neso_particles/pair_loop/particle_pair_loop_args.hpp
index 548834f..f85aefc 100644
--- a/include/neso_particles/pair_loop/particle_pair_loop_args.hpp
+++ b/include/neso_particles/pair_loop/particle_pair_loop_args.hpp
@@ -266,6 +266,8 @@ protected:
 
     if (cell_start != std::nullopt) {
       cell_start_actual = cell_start.value();
+      // Only the cell cell_start is visited if there is no end cell.
+      cell_end_actual = cell_start_actual + 1;
     }
     if (cell_end != std::nullopt) {
       cell_end_actual = cell_end.value();
-- 
2.43.0


From 6d7642fb15ef58026ecead8b65fa153dc3c2ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:25 +0000
Subject: [PATCH 10/18] fix: HostAtomicBlockKernelRNG reads its counters before
 they are set

The device counters were read uninitialised in the first loop the generator
was used in. A generator with zero components never resets them, hence
valid_internal_state could report a failure that never happened.
---
 .../containers/rng/host_atomic_block_kernel_rng.hpp           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
index da363d2..7f8bfd1 100644
--- a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
+++ b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
@@ -75,6 +75,10 @@ protected:
     if (!this->d_counters.count(sycl_target)) {
       this->d_counters[sycl_target] =
           std::make_shared<BufferDevice<int>>(sycl_target, 2);
+      // The counters are read before they are reset for the first time.
+      sycl_target->queue
+          .fill(this->d_counters.at(sycl_target)->ptr, 0, 2)
+          .wait_and_throw();
     }
   }
 
-- 
2.43.0


From 088ac69792619e4f46f2ab804ccafbad0421dbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:40 +0000
Subject: [PATCH 11/18] fix: cells of a ProductMatrix are read from the column
 of the cell property

add_particles_local used the index of the cell property as a column index,
which is wrong if a property with more than one component precedes it. The
products were then placed in the wrong cells or dropped.
---
 src/particle_group.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/particle_group.cpp b/src/particle_group.cpp
index db8864e..a19623d 100644
--- a/src/particle_group.cpp
+++ b/src/particle_group.cpp
@@ -326,7 +326,10 @@ void ParticleGroup::add_particles_local(
           .wait_and_throw();
     }
   } else { // Use cells explicitly defined in the product matrix
-    INT const *source_cells_ptr = d_pm.ptr_int + num_products * cell_id_index;
+    // The columns are indexed by component and not by property.
+    const int cell_id_column =
+        product_matrix->dh_offsets_int->h_buffer.ptr[cell_id_index];
+    INT const *source_cells_ptr = d_pm.ptr_int + num_products * cell_id_column;
     this->sycl_target->queue
         .memcpy(cells_ptr, source_cells_ptr, sizeof(INT) * num_products)
         .wait_and_throw();
-- 
2.43.0


From 966f8151dae4a9f47125714470c670eaa4e60e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:40 +0000
Subject: [PATCH 12/18] fix: DescendantProducts without a parent are not added

If the cell property was defined in the DescendantProducts then products on
which set_parent was not called were added and the remaining properties read
from the parent cell -1 and layer -1.
---
 src/particle_group.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/particle_group.cpp b/src/particle_group.cpp
index a19623d..4f07e70 100644
--- a/src/particle_group.cpp
+++ b/src/particle_group.cpp
@@ -333,6 +333,17 @@ void ParticleGroup::add_particles_local(
     this->sycl_target->queue
         .memcpy(cells_ptr, source_cells_ptr, sizeof(INT) * num_products)
         .wait_and_throw();
+    if (d_cells != nullptr) {
+      // Products without a parent are masked off.
+      this->sycl_target->queue
+          .parallel_for<>(sycl::range<1>(static_cast<size_t>(num_products)),
+                          [=](sycl::id<1> idx) {
+                            if (d_cells[idx] < 0) {
+                              cells_ptr[idx] = -1;
+                            }
+                          })
+          .wait_and_throw();
+    }
   }
 
   // If any of the cells are -1 we trim those particles by setting layers to -1.
-- 
2.43.0


From 1f508dccb92c47a1794d2d220a1e3d7cf080560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:18 +0000
Subject: [PATCH 13/18] fix: set_recv narrowed the received elements to int

---
 include/neso_particles/communication/communication_utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/communication/communication_utility.hpp b/include/neso_particles/communication/communication_utility.hpp
index 3a0fb37..aff9364 100644
--- a/include/neso_particles/communication/communication_utility.hpp
+++ b/include/neso_particles/communication/communication_utility.hpp
@@ -158,7 +158,7 @@ std::set<T> set_recv(const int source, const int tag, MPI_Comm comm) {
     std::vector<T> recv_vector(recv_count);
     MPICHK(MPI_Recv(recv_vector.data(), recv_count, map_ctype_mpi_type<T>(),
                     source, tag, comm, MPI_STATUS_IGNORE));
-    for (int ix : recv_vector) {
+    for (auto ix : recv_vector) {
       return_set.insert(ix);
     }
   }
-- 
2.43.0


From ef5c05900223a75a488b8f77dec818989887dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:33 +0000
Subject: [PATCH 14/18] fix: loop layers of a selection of the whole particle
 group are the particle layers

---
 .../particle_sub_group/sub_group_selector_base.hpp            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neso_particles/particle_sub_group/sub_group_selector_base.hpp b/include/neso_particles/particle_sub_group/sub_group_selector_base.hpp
index 6d5598a..fccc459 100644
--- a/include/neso_particles/particle_sub_group/sub_group_selector_base.hpp
+++ b/include/neso_particles/particle_sub_group/sub_group_selector_base.hpp
@@ -34,7 +34,9 @@ struct MapLoopLayerToLayer {
   template <typename T>
   inline INT map_loop_layer_to_layer(const T loop_cell,
                                      const T loop_layer) const {
-    return this->map_ptr[loop_cell][loop_layer];
+    // A selection of the whole particle group has no map.
+    return (this->map_ptr == nullptr) ? static_cast<INT>(loop_layer)
+                                      : this->map_ptr[loop_cell][loop_layer];
   }
 };
 
-- 
2.43.0


From 6e54735f21ccb4cdb5791364965bb37a6c57ca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:48 +0000
Subject: [PATCH 15/18] fix: HostAtomicBlockKernelRNG zeroes its counters
 before the command group

---
 .../containers/rng/host_atomic_block_kernel_rng.hpp            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
index 7f8bfd1..5a5483d 100644
--- a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
+++ b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
@@ -140,6 +140,9 @@ public:
                "overlapping execution.");
     this->internal_state = 1;
 
+    // The counters cannot be created (and zeroed) inside the command group.
+    this->create_counter(global_info->particle_group->sycl_target);
+
     if (this->num_components > 0) {
       const auto num_particles = get_loop_iteration_set_size(global_info);
       auto sycl_target = global_info->particle_group->sycl_target;
-- 
2.43.0


From a5590ca7a6d48c719b374a5b255fc0746af6967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:30 +0000
Subject: [PATCH 16/18] fix: recompute cached dat pointers when a dat is
 removed and added again

---
 .../containers/sym_vector_pointer_cache.hpp   | 52 +++++++++++--------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/include/neso_particles/containers/sym_vector_pointer_cache.hpp b/include/neso_particles/containers/sym_vector_pointer_cache.hpp
index 80e7833..a5e97c0 100644
--- a/include/neso_particles/containers/sym_vector_pointer_cache.hpp
+++ b/include/neso_particles/containers/sym_vector_pointer_cache.hpp
@@ -29,6 +29,12 @@ protected:
   std::map<std::vector<Sym<T>>,
            std::unique_ptr<BufferDevice<ParticleDatImplGetConstT<T>>>>
       map_syms_const_ptrs;
+  /// Host copies of the cached pointers. These detect when the dat a Sym refers
+  /// to is not the dat which existed when the pointers were cached.
+  std::map<std::vector<Sym<T>>, std::vector<ParticleDatImplGetT<T>>>
+      map_syms_h_ptrs;
+  std::map<std::vector<Sym<T>>, std::vector<ParticleDatImplGetConstT<T>>>
+      map_syms_const_h_ptrs;
 
   // Keys that contain EphemeralDats.
   std::set<std::vector<Sym<T>>> ephemeral_keys;
@@ -158,19 +164,21 @@ public:
    * @param syms Syms to create entry for.
    */
   inline void create(std::vector<Sym<T>> &syms) {
-    if (!this->in_cache(syms)) {
-      const std::size_t n = syms.size();
-      std::vector<ParticleDatImplGetT<T>> ptrs(n);
-      bool is_ephemeral = false;
-      for (std::size_t ix = 0; ix < n; ix++) {
-        // Use d_ptr to avoid side effects from impl_get
-        bool is_ephemeral_inner;
-        ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
-        is_ephemeral = is_ephemeral || is_ephemeral_inner;
-      }
+    const std::size_t n = syms.size();
+    std::vector<ParticleDatImplGetT<T>> ptrs(n);
+    bool is_ephemeral = false;
+    for (std::size_t ix = 0; ix < n; ix++) {
+      // Use d_ptr to avoid side effects from impl_get
+      bool is_ephemeral_inner;
+      ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
+      is_ephemeral = is_ephemeral || is_ephemeral_inner;
+    }
+    // A dat may have been removed and a dat with the same Sym added.
+    if ((!this->in_cache(syms)) || (this->map_syms_h_ptrs[syms] != ptrs)) {
       this->map_syms_ptrs[syms] =
           std::make_unique<BufferDevice<ParticleDatImplGetT<T>>>(
               this->sycl_target, ptrs);
+      this->map_syms_h_ptrs[syms] = ptrs;
       if (is_ephemeral) {
         this->ephemeral_keys.insert(syms);
       }
@@ -183,20 +191,22 @@ public:
    * @param syms Syms to create entry for.
    */
   inline void create_const(std::vector<Sym<T>> &syms) {
-    if (!this->in_const_cache(syms)) {
-      const std::size_t n = syms.size();
-      std::vector<ParticleDatImplGetConstT<T>> ptrs(n);
-
-      bool is_ephemeral = false;
-      for (std::size_t ix = 0; ix < n; ix++) {
-        // Use d_ptr to avoid side effects from impl_get
-        bool is_ephemeral_inner;
-        ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
-        is_ephemeral = is_ephemeral || is_ephemeral_inner;
-      }
+    const std::size_t n = syms.size();
+    std::vector<ParticleDatImplGetConstT<T>> ptrs(n);
+    bool is_ephemeral = false;
+    for (std::size_t ix = 0; ix < n; ix++) {
+      // Use d_ptr to avoid side effects from impl_get
+      bool is_ephemeral_inner;
+      ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
+      is_ephemeral = is_ephemeral || is_ephemeral_inner;
+    }
+    // A dat may have been removed and a dat with the same Sym added.
+    if ((!this->in_const_cache(syms)) ||
+        (this->map_syms_const_h_ptrs[syms] != ptrs)) {
       this->map_syms_const_ptrs[syms] =
           std::make_unique<BufferDevice<ParticleDatImplGetConstT<T>>>(
               this->sycl_target, ptrs);
+      this->map_syms_const_h_ptrs[syms] = ptrs;
       if (is_ephemeral) {
         this->ephemeral_keys.insert(syms);
       }
-- 
2.43.0


From c3ee5a1c431c4cb77fe24303af9d6d752f1ac173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:31 +0000
Subject: [PATCH 17/18] fix: do not repeat versions of removed particle dats

---
 include/neso_particles/particle_group.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/neso_particles/particle_group.hpp b/include/neso_particles/particle_group.hpp
index d3dc6b6..5e9f951 100644
--- a/include/neso_particles/particle_group.hpp
+++ b/include/neso_particles/particle_group.hpp
@@ -245,6 +245,8 @@ protected:
   // This member tracks the versions of the particle dat data
   std::map<ParticleDatVersion, std::tuple<std::int64_t, bool>>
       particle_dat_versions;
+  // The first version of a newly added dat.
+  int64_t particle_dat_version_start{1};
   // This member tracks the versions of the particle dat structure, which is
   // also the version of the particle group itself. Calls to methods which
   // modify the number of cells or layers will increment this value.
@@ -278,7 +280,13 @@ protected:
 
   template <typename T>
   inline void remove_particle_dat_common(ParticleDatSharedPtr<T> particle_dat) {
-    this->particle_dat_versions.erase(particle_dat->sym);
+    // A ParticleDat added later with the same Sym must not repeat versions of
+    // this ParticleDat which are held elsewhere.
+    const ParticleDatVersion key{particle_dat->sym};
+    this->particle_dat_version_start =
+        std::max(this->particle_dat_version_start,
+                 std::get<0>(this->particle_dat_versions.at(key)) + 1);
+    this->particle_dat_versions.erase(key);
     this->particle_spec.remove(ParticleProp(
         particle_dat->sym, particle_dat->ncomp, particle_dat->positions));
     this->particle_group_pointer_map->invalidate();
@@ -293,10 +301,10 @@ protected:
     particle_dat->set_d_npart_cell_es(this->dh_npart_cell_es->d_buffer.ptr);
     particle_dat->npart_host_to_device();
     this->add_invalidate_callback(particle_dat);
-    // This store is initialised with 1 and the to test keys should be
+    // This store is initialised with at least 1 and the to test keys should be
     // initialised with 0.
     ParticleDatVersion key{particle_dat->sym};
-    std::tuple<int64_t, bool> value = {1, false};
+    std::tuple<int64_t, bool> value = {this->particle_dat_version_start, false};
     NESOASSERT(this->particle_dat_versions.count(key) == 0,
                "ParticleDat already in version tracker.");
     this->particle_dat_versions[key] = value;
-- 
2.43.0


From 6c6410f6ef9ab6a9a9437ebdefb02b51e2ef7b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:31 +0000
Subject: [PATCH 18/18] fix: divide surface projections by the measure of the
 face cell

---
 src/cartesian_mesh/cartesian_trajectory_intersection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cartesian_mesh/cartesian_trajectory_intersection.cpp b/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
index 2a366c8..2f0d700 100644
--- a/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
+++ b/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
@@ -226,7 +226,9 @@ void CartesianTrajectoryIntersection::function_project_contribute(
     ErrorPropagate ep_dof(this->sycl_target);
     auto k_ep_found = ep_found.device_ptr();
     auto k_ep_dof = ep_dof.device_ptr();
-    const REAL k_inverse_width = func->mesh->inverse_cell_width_fine;
+    // Length in 2D or area in 3D of a face cell.
+    const REAL k_inverse_measure =
+        std::pow(func->mesh->inverse_cell_width_fine, func->ndim);
 
     auto lambda_dispatch = [&](auto extract_quantity) {
       particle_loop(
@@ -246,7 +248,7 @@ void CartesianTrajectoryIntersection::function_project_contribute(
 #endif
               if (found) {
                 const REAL value = extract_quantity(SYM, component);
-                atomic_fetch_add(&k_buffer[*index], k_inverse_width * value);
+                atomic_fetch_add(&k_buffer[*index], k_inverse_measure * value);
               }
             }
           },
-- 
2.43.0

