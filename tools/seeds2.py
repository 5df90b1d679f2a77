import sys; sys.path.insert(0, "/verif/tools")
sys.argv = sys.argv[:1] + sys.argv[1:]
src = open("/verif/tools/seeds1.py").read()
exec(src[:src.index("\nmk(")])
want = sys.argv[1:]
_mk = mk
def mk(id, *a, **k):
    if not want or id in want:
        _mk(id, *a, **k)
mk("masked_wrap_first_extent", [("src/cartesian_mesh/cartesian_periodic.cpp", "                Kernel::abs((int)(pos * IE.at(dimx)));", "                Kernel::abs((int)(pos * IE.at(0)));")],
  "C16", "masks, a mesh that is longer in the first dimension, and a position more than two extents below the domain in another", "the coordinate is left below the domain",
  H + '''
static int demo() {
  std::vector<int> dims{8, 1};
  auto mesh = std::make_shared<CartesianHMesh>(MPI_COMM_WORLD, 2, dims, 1.0, 0, 1);
  auto t = std::make_shared<SYCLTarget>(0, MPI_COMM_WORLD);
  auto dom = std::make_shared<Domain>(mesh);
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), 2, true), ParticleProp(Sym<INT>("CELL_ID"), 1, true)};
  int r = 0;
  {
    auto A = std::make_shared<ParticleGroup>(dom, spec, t);
    ParticleSet s(1, spec);
    s[Sym<REAL>("P")][0][0] = 3.5; s[Sym<REAL>("P")][0][1] = -3.25;
    A->add_particles_local(s);
    CartesianPeriodic pbc(mesh, A, std::vector<int>{1, 1});
    pbc.execute();
    auto p = A->get_cell(Sym<REAL>("P"), 0);
    if (std::abs(p->at(0, 0) - 3.5) > 1e-12 || std::abs(p->at(0, 1) - 0.75) > 1e-12) r = bad("not wrapped");
  }
  mesh->free();
  return r;
}
''')
mk("claim_first_dimension_extent", [("src/external_interfaces/common/local_claim.cpp", "        mesh_hierarchy->ncells_dim_fine * mesh_hierarchy->dims[dimx];", "        mesh_hierarchy->ncells_dim_fine * mesh_hierarchy->dims[0];")],
  "C28", "a mesh hierarchy with more cells in a later dimension than in the first and an element in those cells", "the cells beyond the extent of the first dimension are not claimed",
  H + '''
#include <neso_particles/external_interfaces/common/bounding_box.hpp>
#include <neso_particles/external_interfaces/common/local_claim.hpp>
using namespace NESO::Particles::ExternalCommon;
static int demo() {
  std::vector<int> dims{1, 4};
  auto mesh = std::make_shared<CartesianHMesh>(MPI_COMM_WORLD, 2, dims, 1.0, 0, 1);
  int r = 0;
  {
    std::vector<REAL> b{0.25, 1.75, 0.0, 0.75, 3.5, 0.0};
    auto B = std::make_shared<BoundingBox>(b);
    LocalClaim L; MHGeomMap G;
    bounding_box_claim(7, B, mesh->get_mesh_hierarchy(), L, G);
    std::set<INT> c(L.claim_cells.begin(), L.claim_cells.end());
    if (c != std::set<INT>{1, 2, 3}) r = bad("cells of the element");
  }
  mesh->free();
  return r;
}
''')
mk("occupancy_without_last", [("src/algorithms/dsmc/collision_cell_partition.cpp", "  auto e0 = reduce_values(this->sycl_target, layer_matrix_total_size,\n", "  auto e0 = reduce_values(this->sycl_target, layer_matrix_total_size - 1,\n")],
  "C27", "the last species in the last collision cell of the last mesh cell holds more particles than every other", "the largest occupancy is too small, the samplers' work space overflows and pairs repeat a particle or name one that is not there",
  H + '''
static int demo() {
  std::vector<int> dims{2, 2};
  auto mesh = std::make_shared<CartesianHMesh>(MPI_COMM_WORLD, 2, dims, 1.0, 0, 1);
  auto t = std::make_shared<SYCLTarget>(0, MPI_COMM_WORLD);
  auto dom = std::make_shared<Domain>(mesh);
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), 2, true), ParticleProp(Sym<INT>("CELL_ID"), 1, true), ParticleProp(Sym<INT>("SP"), 1), ParticleProp(Sym<INT>("CC"), 1)};
  int r = 0;
  for (int sp = 0; sp < 2; sp++) {
    auto A = std::make_shared<ParticleGroup>(dom, spec, t);
    const int n = 21;
    ParticleSet s(n, spec);
    for (int i = 0; i < n; i++) { s[Sym<INT>("CELL_ID")][i][0] = i < 4 ? i : 3; s[Sym<INT>("SP")][i][0] = i < 4 ? i % 2 : sp; s[Sym<INT>("CC")][i][0] = i < 4 ? 0 : 2; }
    A->add_particles_local(s);
    auto ccp = std::make_shared<DSMC::CollisionCellPartition>(t, 4, std::vector<INT>{0, 1});
    ccp->construct(particle_sub_group(A), std::vector<int>{3, 3, 3, 3}, Sym<INT>("SP"), 0, Sym<INT>("CC"), 0);
    if (ccp->max_collision_cell_occupancy != n - 4) r = bad("largest occupancy");
  }
  mesh->free();
  return r;
}
''')
mk("partition_after_dropped", [("src/particle_sub_group/particle_group_partition.cpp", """      this->sub_group_particle_maps.at(px)
          .lock()
          ->dh_npart_cell->device_to_host();
    }
  }
""", """      this->sub_group_particle_maps.at(px)
          .lock()
          ->dh_npart_cell->device_to_host();
    } else {
      break;
    }
  }
""")],
  "C12", "one partition is dropped by the user, then the property changes and a partition with a larger index is used", "the partitions behind the dropped one keep their old number of particles",
  GRP + '''
static int demo() {
  Ctx c; std::vector<int> n(c.nc, 6); c.fill(n);
  particle_loop(c.A, [=](auto ID, auto K) { K.at(0) = ID.at(0) % 3; }, Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("K")))->execute();
  auto p = particle_group_partition(c.A, Sym<INT>("K"), 3);
  for (auto &x : p) if (x->get_npart_local() != 2 * c.nc) return bad("setup");
  p[1].reset();
  particle_loop(c.A, [=](auto ID, auto K) { K.at(0) = ID.at(0) % 6 ? 2 : 0; }, Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("K")))->execute();
  if (p[0]->get_npart_local() != c.nc) return bad("first partition");
  if (p[2]->get_npart_local() != 5 * c.nc) return bad("last partition");
  return 0;
}
''')
mk("largest_wave_of_last_cell", [("src/pair_loop/cellwise_pair_list_simple.cpp", "          this->max_pair_count = std::max(this->max_pair_count, num_pairs_wave);\n", "          this->max_pair_count = std::max(\n              wavex ? this->max_pair_count : 0, num_pairs_wave);\n")],
  "C13", "a list in which a cell before the last non-empty one has a wave with more pairs, past a multiple of the local size, than the waves of the cells behind it", "the last pairs of the large wave are not visited",
  GRP + '''
static int demo() {
  Ctx c; std::vector<int> n(c.nc, 2); n[0] = 400; c.fill(n);
  auto h = std::make_shared<CellwisePairListHost>(c.nc);
  for (int i = 0; i < 200; i++) h->push_back(0, 2 * i, 2 * i + 1);
  h->push_back(c.nc - 1, 0, 1);
  auto l = std::make_shared<CellwisePairListSimple>(c.t, c.nc);
  l->set(h);
  particle_loop(c.A, [=](auto K) { K.at(0) = 0; }, Access::write(Sym<INT>("K")))->execute();
  particle_pair_loop("demo", {CellwisePairListAbsolute<ParticleGroup, CellwisePairList>(c.A, c.A, l)}, [=](auto A, auto B) { A.at(0) += 1; B.at(0) += 1; },
    Access::A(Access::write(Sym<INT>("K"))), Access::B(Access::write(Sym<INT>("K"))))->execute();
  for (int x = 0; x < c.nc; x++) {
    auto k = c.A->get_cell(Sym<INT>("K"), x);
    for (int i = 0; i < k->nrow; i++) if (k->at(i, 0) != (x == 0 || x == c.nc - 1)) return bad("pairs visited");
  }
  return 0;
}
''')
