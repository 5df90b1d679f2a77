prop("C13", "Pair lists and pair loops visit exactly the pairs they define",
     "A cell-wise pair list holds, per cell, exactly the pairs pushed onto it, in waves in which no particle appears twice; a pair loop over it applies the kernel exactly once to every pair in the list with the right particles on each side, in wave order, and per-pair loop arguments refer to the pair's own particles.",
     ["inputs", "histories", "schedules"], "all cell occupancies, pair lists (empty cells, repeated particles across waves) and list kinds",
     "Tests use a few lists with regular patterns.",
     [I + "pair_loop/cellwise_pair_list_simple.hpp", "src/pair_loop/cellwise_pair_list_simple.cpp", I + "pair_loop/cellwise_pair_list_block.hpp", "src/pair_loop/cellwise_pair_list_block.cpp", I + "pair_loop/particle_pair_loop_cellwise_pair_list.hpp"],
     [("CellwisePairListSimple/Block push, ParticlePairLoop::execute", I + "pair_loop/")])
prop("C14", "The mesh hierarchy's cell numbering is a bijection consistent with geometry",
     "Conversions between linear and tuple indices of coarse and fine cells of a mesh hierarchy are mutually inverse bijections over the grid, the owner of every cell is the rank that claimed it with the largest weight, and the cell computed for a position is the one whose box contains it.",
     ["inputs", "configurations"], "all dimensions 1-3, coarse dims, subdivision orders, extents, origins and positions",
     "Tests sample a few grids and positions.",
     [I + "mesh_hierarchy.hpp", "src/mesh_hierarchy.cpp"], [("linear_to_tuple_*, tuple_to_linear_*, MeshHierarchyMapper", I + "mesh_hierarchy.hpp")])
prop("C15", "Positions map to the Cartesian cell and rank that contain them",
     "For a Cartesian mesh over any number of ranks, every cell is owned by exactly one rank, local cell numbering is a bijection onto the owned cells, and mapping particles assigns each one the owning rank and the local cell containing its position.",
     ["inputs", "configurations"], "all mesh shapes, subdivision orders, rank counts and positions, including those on cell boundaries",
     "Tests use a few square meshes.",
     [I + "cartesian_mesh/cartesian_h_mesh.hpp", "src/cartesian_mesh/cartesian_h_mesh.cpp", "src/cartesian_mesh.cpp", "src/cartesian_mesh/cartesian_cell_bin.cpp"],
     [("CartesianHMesh, CartesianHMeshLocalMapper, CartesianCellBin", I + "cartesian_mesh/")])
prop("C16", "Periodic boundaries wrap positions into the domain",
     "Applying the Cartesian periodic boundary condition moves each coordinate by a whole number of domain extents to a point inside the domain, leaves coordinates inside the domain and all other data unchanged.",
     ["inputs"], "all positions, any number of extents away on either side, all extents and dimensions",
     "Tests advect by moderate displacements.",
     [I + "cartesian_mesh/cartesian_periodic.hpp", "src/cartesian_mesh/cartesian_periodic.cpp"], [("CartesianPeriodic::execute", "src/cartesian_mesh/cartesian_periodic.cpp")])
prop("C17", "Reflection and truncation boundary conditions preserve their invariants",
     "Specular reflection at a boundary mirrors the velocity in the boundary's plane, keeping speed and tangential components, and puts the particle back at the boundary with the remaining time step; truncation moves the particle to the intersection point and reduces its time step accordingly. Particles not given to the operation are unchanged.",
     ["inputs"], "all velocities, normals, positions and time steps",
     "Tests use axis-aligned boxes and a few velocities.",
     [I + "boundary/boundary_reflection.hpp", "src/boundary/boundary_reflection.cpp", I + "boundary/boundary_truncation.hpp", "src/boundary/boundary_truncation.cpp"],
     [("BoundaryReflection::execute, BoundaryTruncation::execute", "src/boundary/")])
prop("C18", "Cartesian trajectory intersection finds every crossing",
     "For each particle whose step crosses the boundary of a Cartesian mesh, the intersection object reports the first face crossed, the intersection point on the trajectory and face, the face's normal, and the cell; particles that do not leave the domain are not reported, and boundary element identifiers are unique and consistent.",
     ["inputs", "configurations"], "all trajectories including corners, axis-parallel steps and multi-cell displacements; 2D and 3D",
     "Tests sample random trajectories in one mesh.",
     [I + "cartesian_mesh/cartesian_trajectory_intersection.hpp", "src/cartesian_mesh/cartesian_trajectory_intersection.cpp"], [("CartesianTrajectoryIntersection", "src/cartesian_mesh/cartesian_trajectory_intersection.cpp")])
prop("C19", "Lookup containers return the stored value for present keys only",
     "Device lookup tables and blocked binary trees answer every lookup: a key that was added yields its value (the last one set), any other key is reported absent, for any set of keys and order of insertion and width of block, from host and device alike.",
     ["inputs", "histories"], "all key sets, block sizes, insertion orders and queries",
     "Tests insert a few consecutive keys.",
     [I + "containers/lookup_table.hpp", I + "containers/blocked_binary_tree.hpp"], [("LookupTable::get, BlockedBinaryNode::get/get_location", I + "containers/")])
prop("C20", "Array and cell-data containers read back what was stored",
     "Local, multi-dimensional and global arrays, ragged and fixed per-cell data and device buffers return exactly what was last stored through any of their setters, whatever the sequence of resizes, sets and gets; resizing keeps the rows that remain and touches no other cell.",
     ["inputs", "histories"], "all shapes including empty ones, all operation orders",
     "Tests set and get once per container.",
     [I + "containers/local_array.hpp", I + "containers/nd_local_array.hpp", I + "containers/global_array.hpp", I + "containers/cell_dat.hpp", I + "containers/cell_dat_const.hpp", I + "device_buffers.hpp"],
     [("set/get/fill/realloc of the containers", I + "containers/")])
prop("C21", "Random number blocks give each particle its own samples, each used once",
     "Per-particle block random number generators hand every particle visited by a loop its own samples of the host stream, with no sample shared by two particles, for any number of samples per particle, loop range and history of loops; atomic block generators never hand out a sample twice and report when the block is exhausted.",
     ["inputs", "histories", "schedules"], "all occupancies, sample counts, ranges and sub-groups",
     "Tests draw one block for the whole group.",
     [I + "containers/rng/host_per_particle_block_rng.hpp", I + "containers/rng/host_atomic_block_kernel_rng.hpp", I + "containers/rng/host_rng_common.hpp", I + "containers/rng/tuple_rng.hpp"],
     [("HostPerParticleBlockRNG, HostAtomicBlockKernelRNG", I + "containers/rng/")])
prop("C22", "Product matrices add exactly the products that were set",
     "Adding the particles of a product matrix or of descendant products creates one particle per product row (per row with a parent for descendant products) with the values written in the kernel, parent properties copied where the product specification does not define them, in the parent's cell; no other particle is created or changed.",
     ["inputs", "histories"], "all product specifications, parent selections, products per parent and histories",
     "Tests use one specification and fixed numbers of products.",
     [I + "containers/product_matrix.hpp", I + "containers/descendant_products.hpp", "src/containers/particle_set_device.cpp", "src/containers/descendant_products.cpp", "src/particle_group.cpp"],
     [("ProductMatrix, DescendantProducts, add_particles_local", "src/particle_group.cpp")])
prop("C23", "Communication helpers deliver every message to its addressee",
     "The counting, edge-exchange and gather helpers used to set up communication return on every rank exactly what the other ranks addressed to it, for any pattern of sources, destinations and sizes.",
     ["inputs", "schedules", "configurations"], "all communication patterns including empty and self messages, all rank counts",
     "Tests use one or two fixed patterns.",
     [I + "communication/communication_utility.hpp", "src/communication/communication_utility.cpp", "src/communication/communication_edges_counter.cpp"],
     [("reverse_edge discovery, gather_v, CommunicationEdgesCounter", "src/communication/")])
prop("C24", "Serialising mesh data and moving it between ranks loses nothing",
     "Objects serialised into a container are recovered unchanged and in order when deserialised, and a mesh hierarchy container returns for every cell asked for exactly the objects any rank stored in that cell.",
     ["inputs", "configurations"], "all object counts and sizes, cells and owners",
     "Tests store a few objects.",
     [I + "mesh_hierarchy_data/serial_container.hpp", I + "mesh_hierarchy_data/mesh_hierarchy_container.hpp"], [("SerialContainer, MeshHierarchyContainer", I + "mesh_hierarchy_data/")])
prop("C25", "Errors raised inside kernels are reported and never invented",
     "A device error flag raised by any work item is seen by the host check that follows and stays raised until reset; a flag nobody raised is never reported.",
     ["inputs", "histories", "schedules"], "all flag values and orders of raise, check and reset",
     "Tests raise the flag once.",
     [I + "error_propagate.hpp"], [("ErrorPropagate", I + "error_propagate.hpp")])
prop("C26", "Reusable resources are never handed to two users at once",
     "A resource taken from a stack is given to nobody else until it is returned, returned resources are reused, and the stack releases each exactly once.",
     ["histories"], "all interleavings of get and restore over all keys",
     "Tests take and return a few.",
     [I + "containers/resource_stack.hpp", I + "containers/resource_stack_map.hpp"], [("ResourceStack::get/restore, ResourceStackMap", I + "containers/")])
prop("C27", "DSMC pair samplers and collision cells respect cells, counts and uniqueness",
     "Collision-cell partitions place every particle in exactly one collision cell; the no-replacement sampler pairs each selected particle at most once per sampling and only with particles of the same collision cell and the named species, with the requested number of pairs; the NTC sampler draws pairs of distinct particles of the right species in the same cell, whether the two species are the same group or disjoint groups.",
     ["inputs", "histories", "schedules"], "all occupancies, species splits, requested numbers of pairs",
     "Tests use uniform occupancies.",
     ["src/algorithms/dsmc/collision_cell_partition.cpp", "src/algorithms/dsmc/pair_sampler_no_replacement.cpp", "src/algorithms/dsmc/pair_sampler_ntc.cpp", I + "algorithms/dsmc/cellwise_all_to_all.hpp"],
     [("CollisionCellPartition, PairSamplerNoReplacement, PairSamplerNTC", "src/algorithms/dsmc/")])
prop("C28", "Shared geometry helpers are conservative",
     "Bounding boxes contain everything that was added to them and nothing that is farther; overlap tests are exact; an overlay mesh returns for a box every cell that touches it, and local claims assign each cell to the claimants with the largest weight.",
     ["inputs"], "all boxes, points and claim weights",
     "Tests use a few boxes.",
     [I + "external_interfaces/common/bounding_box.hpp", I + "external_interfaces/common/overlay_cartesian_mesh.hpp", "src/external_interfaces/common/overlay_cartesian_mesh.cpp", I + "external_interfaces/common/local_claim.hpp", "src/external_interfaces/common/local_claim.cpp"],
     [("BoundingBox, OverlayCartesianMesh, LocalClaim", "src/external_interfaces/common/")])
prop("C29", "Functions on the boundary gather every contribution and give back their values",
     "Projecting particle data onto a function over the boundary sums the contribution of every particle of every rank on the face cell it hit, divided by the measure of that face cell; evaluating a function gives each particle the value of the face cell it hit and changes nothing else; the values a function is filled with or set to are the values read back, wherever its face cells are owned.",
     ["inputs", "histories", "configurations"], "all meshes, boundary groups, particle placements and rank counts",
     "Tests project on one mesh whose face cells have measure one.",
     ["src/cartesian_mesh/cartesian_trajectory_intersection.cpp", "src/cartesian_mesh/cartesian_h_mesh_function.cpp", "src/boundary/boundary_mesh_interface.cpp"],
     [("CartesianTrajectoryIntersection::function_*", "src/cartesian_mesh/cartesian_trajectory_intersection.cpp")])
prop("C30", "Cell-wise reductions and extractions equal their sequential definition",
     "Reducing a property over cells, finding the minimum, maximum or sum per cell, extracting unseen values and copying particle data between groups give what a sequential pass over the particles gives.",
     ["inputs", "histories"], "all occupancies, components and sub-groups",
     "Tests reduce one uniform group.",
     [I + "algorithms/reduce_dat_cellwise.hpp", "src/algorithms/reduce_dat_cellwise.cpp", I + "algorithms/cellwise_methods.hpp", "src/algorithms/cellwise_methods.cpp", "src/algorithms/unseen_value_extractor.cpp", I + "algorithms/particle_data_movement.hpp"],
     [("reduce_dat_components_cellwise, UnseenValueExtractor", I + "algorithms/")])
