import sys; sys.path.insert(0, "/verif/tools")
from mkpatch import mk
H = open("/verif/tools/demo_head.hpp").read()
GRP = H + '''
struct Ctx {
  std::vector<int> dims{4, 2};
  std::shared_ptr<CartesianHMesh> mesh; SYCLTargetSharedPtr t; DomainSharedPtr dom; ParticleGroupSharedPtr A; int nc;
  Ctx() {
    mesh = std::make_shared<CartesianHMesh>(MPI_COMM_WORLD, 2, dims, 1.0, 0, 1);
    t = std::make_shared<SYCLTarget>(0, MPI_COMM_WORLD);
    dom = std::make_shared<Domain>(mesh);
    ParticleSpec spec{ParticleProp(Sym<REAL>("P"), 2, true), ParticleProp(Sym<INT>("CELL_ID"), 1, true), ParticleProp(Sym<INT>("ID"), 1), ParticleProp(Sym<REAL>("V"), 3), ParticleProp(Sym<INT>("K"), 2)};
    A = std::make_shared<ParticleGroup>(dom, spec, t);
    nc = mesh->get_cell_count();
  }
  ~Ctx() { A.reset(); mesh->free(); }
  // n[c] particles in cell c
  void fill(const std::vector<int> &n) {
    ParticleSpec spec{ParticleProp(Sym<REAL>("P"), 2, true), ParticleProp(Sym<INT>("CELL_ID"), 1, true), ParticleProp(Sym<INT>("ID"), 1), ParticleProp(Sym<REAL>("V"), 3), ParticleProp(Sym<INT>("K"), 2)};
    int tot = 0; for (int x : n) tot += x;
    ParticleSet s(tot, spec);
    int k = 0;
    for (int c = 0; c < (int)n.size(); c++) for (int i = 0; i < n[c]; i++, k++) {
      s[Sym<INT>("CELL_ID")][k][0] = c; s[Sym<INT>("ID")][k][0] = k;
      for (int d = 0; d < 3; d++) s[Sym<REAL>("V")][k][d] = 10 * k + d + 0.5;
      for (int d = 0; d < 2; d++) s[Sym<INT>("K")][k][d] = 100 * k + d;
    }
    A->add_particles_local(s);
  }
};
static int demo();
int main(int argc, char **argv) { initialise_mpi(&argc, &argv); int r = demo(); MPI_Finalize(); return r; }
'''
mk("truncate_last_cell", [("src/particle_sub_group/truncate_sub_group_selector.cpp",
  "  for (int cellx = 0; cellx < cell_count; cellx++) {\n    max_occ = std::max(max_occ, h_npart_cell_ptr[cellx]);",
  "  for (int cellx = 0; cellx < cell_count - 1; cellx++) {\n    max_occ = std::max(max_occ, h_npart_cell_ptr[cellx]);")],
  "C12", "the last cell holds more selected particles than every other cell, past a multiple of the loop's local size", "the particles of the last cell beyond the occupancy of the others get an arbitrary row in a truncated sub-group",
  GRP + '''
static int demo() {
  Ctx c; std::vector<int> n(c.nc, 0); n.back() = 9; c.fill(n);
  auto g = particle_sub_group_truncate(c.A, 7);
  if (g->get_npart_local() != 7) return bad("count");
  auto la = std::make_shared<LocalArray<INT>>(c.t, 9); std::vector<INT> z(9, 0); la->set(z);
  const INT last = c.nc - 1;
  particle_loop(g, [=](auto ID, auto C, auto a) { const INT i = ID.at(0); if (C.at(0) == last && i >= 0 && i < 9) a.fetch_add(i, 1); }, Access::read(Sym<INT>("ID")), Access::read(Sym<INT>("CELL_ID")), Access::add(la))->execute();
  auto v = la->get();
  for (int i = 0; i < 9; i++) if (v[i] != (i < 7)) return bad("members of the truncated group");
  return 0;
}
''')
mk("cell_move_single_int", [("src/cell_dat_move.cpp", "if ((ncomp_total_int > 0) && (move_count > 0)) {", "if ((ncomp_total_int > 0) && (move_count > 1)) {")],
  "C08", "a cell move in which exactly one particle changes cell", "the integer properties of that particle are replaced by whatever the row held before",
  GRP + '''
static int demo() {
  Ctx c; std::vector<int> n(c.nc, 2); c.fill(n);
  particle_loop(c.A, [=](auto ID, auto C) { if (ID.at(0) == 3) C.at(0) = 5; }, Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("CELL_ID")))->execute();
  c.A->cell_move();
  auto ids = c.A->get_cell(Sym<INT>("ID"), 5); auto k = c.A->get_cell(Sym<INT>("K"), 5);
  if (ids->nrow != 3) return bad("count");
  for (int i = 0; i < 3; i++) if (ids->at(i, 0) == 3) return k->at(i, 0) == 300 && k->at(i, 1) == 301 ? 0 : bad("values");
  return bad("particle lost");
}
''')
mk("stale_version_query", [("src/particle_group.cpp", "      if (update_to_check) {\n        to_check.at(key) = local_value;\n      }", "      to_check.at(key) = local_value;")],
  "C11", "a property is written, then a query that only asks whether the sub-group is out of date runs before the sub-group is next used", "the sub-group believes it is up to date and keeps its old members",
  GRP + '''
static int demo() {
  Ctx c; std::vector<int> n(c.nc, 3); c.fill(n);
  auto g = particle_sub_group(c.A, [=](auto K) { return K.at(1) >= 0; }, Access::read(Sym<INT>("K")));
  if (g->get_npart_local() != 3 * c.nc) return bad("setup");
  particle_loop(c.A, [=](auto ID, auto K) { K.at(1) = ID.at(0) % 2 ? -1 : 1; }, Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("K")))->execute();
  if (g->contains_ephemeral_dat(Sym<REAL>("E"))) return bad("setup");
  return g->get_npart_local() == (3 * c.nc + 1) / 2 ? 0 : bad("members not updated");
}
''')
mk("missing_property_not_zeroed", [("src/particle_group.cpp", '''          for (int cx = 0; cx < ncomp; cx++) {
            k_dat_info.d_ptr_real[dat_index][cell][cx][layer] =
                k_zero_value_real;''', '''          for (int cx = 0; cx < std::min(ncomp, 4); cx++) {
            k_dat_info.d_ptr_real[dat_index][cell][cx][layer] =
                k_zero_value_real;''')],
  "C07", "a real property with five or more components is left out of a particle set, and the rows used were occupied before", "the fifth component of the omitted property keeps a removed particle's value",
  GRP + '''
static int demo() {
  Ctx c; std::vector<int> n(c.nc, 3); c.fill(n);
  c.A->add_particle_dat(Sym<REAL>("E"), 6);
  particle_loop(c.A, [=](auto E) { for (int d = 0; d < 6; d++) E.at(d) = d + 1; }, Access::write(Sym<REAL>("E")))->execute();
  c.A->remove_particles(3, std::vector<INT>{0, 0, 0}, std::vector<INT>{0, 1, 2});
  ParticleSpec sp{ParticleProp(Sym<REAL>("P"), 2, true), ParticleProp(Sym<INT>("CELL_ID"), 1, true), ParticleProp(Sym<INT>("ID"), 1)};
  ParticleSet s(3, sp);
  for (int i = 0; i < 3; i++) { s[Sym<INT>("CELL_ID")][i][0] = 0; s[Sym<INT>("ID")][i][0] = 1000 + i; }
  c.A->add_particles_local(s);
  auto v = c.A->get_cell(Sym<REAL>("E"), 0); auto k = c.A->get_cell(Sym<INT>("K"), 0);
  for (int i = 0; i < 3; i++) { for (int d = 0; d < 6; d++) if (v->at(i, d) != 0.0) return bad("not zero"); for (int d = 0; d < 2; d++) if (k->at(i, d) != 0) return bad("not zero"); }
  return 0;
}
''')
