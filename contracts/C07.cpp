// C07: adding particles adds exactly the given ones, properties not given are zero, existing particles are untouched
//@ design: Proved for all groups: get_new_layers gives any two particles their own new rows of their cells (-1 out of range) and updates the occupancy; add_particles_local(sub group) copies any property of any two particles to the new rows, or zero without the property, and changes nothing else. Bounded: whole histories of additions from sets, groups and sub groups compared to the list of particles given.
//@ replace: get_resource<NESO::Particles::BufferDevice<long> => npvr_device_int: get_resource returns a buffer nobody else uses (C26)
//@ replace: restore_resource< => npvr_restore: restore_resource only takes the buffer back (C26)
//@ replace: BufferBase<long>::realloc_no_copy => npvr_room_int: realloc_no_copy provides room for the elements (C20)
//@ replace: ParticleGroup::get_new_layers => npvr_layers: get_new_layers gives each particle of a cell in range its own new row (proved: new_layers)
//@ replace: ParticleGroup::recompute_npart_cell_es => npvr_es: recompute_npart_cell_es recomputes the prefix sums of the occupancy
//@ replace: ParticleGroup::realloc_all_dats => npvr_realloc: realloc_all_dats provides the rows and keeps the data (C20)
//@ replace: ParticleGroupPointerMap::set_npart_cells_host_device< => npvr_set_npart: set_npart_cells_host_device sets the occupancy of each property
//@ replace: ParticleGroup::check_dats_and_group_agree => npvr_agree: check_dats_and_group_agree asserts that the occupancies agree
//@ replace: ParticleGroup::invalidate_group_version => npvr_version: invalidate_group_version makes sub groups outdated (C11)
//@ replace: ParticleSubGroup::get_cells_layers => npvr_cells_layers: get_cells_layers names the particles of the sub group (C12)
//@ replace: ParticleSubGroup::get_npart_local => npvr_npart: get_npart_local is the number of particles of the sub group (C12)
//@ replace: ParticleSubGroup::is_entire_particle_group => npvr_entire: is_entire_particle_group is false for a sub group with a selector
//@ unreplaced: new_layers npvr_layers
//@ assume: item-wise contracts (see C09), any two particles; the properties are copied one by one: proved for any one property
#define NPV_ITEMWISE
#include <neso_particles.hpp>
#include <npv.hpp>
#include "subgroup.hpp"
#ifdef NPV_VC
#include "vcdats.hpp"
#include "src/particle_group.cpp"
struct Add {
  int64_t ncell, n, j[2]; // any two particles
  INT cell[2], src[2], layer[2];
  int reallocs, sets, layers, agree, version, es, nbuf;
  bool real_layers; // the real get_new_layers is proved
  SYCLTargetSharedPtr T;
  npv::storage<BufferDevice<INT>> dev;
  npv::storage<ParticleDatT<REAL>> dr, sr;
  npv::storage<ParticleDatT<INT>> di, si;
  npv::storage<ParticleGroup> g, other;
  npv::storage<ParticleSubGroup> sub;
  ParticleGroup *A;
  INT *k0; int64_t q;
};
static Add *M;
extern "C" std::shared_ptr<BufferDevice<INT>> npvr_device_int() {
  NPV_CHECK(M->nbuf == 0, "how: one buffer is taken"); M->nbuf++;
  auto b = M->dev.get();
  new (b) BufferDevice<INT>(M->T, 1);
  return npv::raw(b);
}
extern "C" void npvr_restore() {}
extern "C" void npvr_room_int(BufferBase<INT> *b, size_t n) { b->ptr = (INT *)::operator new(n * sizeof(INT)); b->size = n; }
extern "C" void npvr_layers(ParticleGroup *, int n, const INT *cells, INT *layers) {
  auto *m = M;
  NPV_CHECK(n == (int)m->n, "every particle of the sub group is added");
  for (int k = 0; k < 2; k++) NPV_CHECK(cells[m->j[k]] == m->cell[k], "a particle is added to the cell it is in");
  for (int k = 0; k < 2; k++) layers[m->j[k]] = m->layer[k];
  m->layers++;
}
extern "C" void npvr_es() { NPV_CHECK(M->layers == 1, "the occupancy is known"); M->es++; }
extern "C" void npvr_realloc() { NPV_CHECK(M->layers == 1, "the occupancy is known"); M->reallocs++; }
extern "C" void npvr_set_npart(void *, INT *h, INT *d) {
  NPV_CHECK(h == M->A->h_npart_cell.ptr && d == M->A->d_npart_cell.ptr, "the new occupancy is set");
  M->sets++;
}
extern "C" void npvr_agree() { NPV_CHECK(M->sets == 1 || M->n == 0, "the occupancies agree when they are checked"); M->agree++; }
extern "C" void npvr_version() { M->version++; }
extern "C" void npvr_cells_layers(void *, INT *cells, INT *layers) {
  auto *m = M;
  for (int k = 0; k < 2; k++) { cells[m->j[k]] = m->cell[k]; layers[m->j[k]] = m->src[k]; }
}
extern "C" INT npvr_npart() { return M->n; }
extern "C" bool npvr_entire() { return false; }
template <typename T, bool shared> static void add_sub_group() {
  constexpr bool real = std::is_same_v<T, REAL>;
  auto *m = M = new Add();
  m->T = h_target();
  m->ncell = npv::sym("ncell", 1, 1 << 20); m->n = npv::sym("n", 1, 1 << 20);
  const int ncomp = (int)npv::sym("ncomp", 1, 1 << 10);
  int *rows = npv::array<int>("rows", m->ncell, 0, 1 << 24), *srows = npv::array<int>("srows", m->ncell, 0, 1 << 24);
  T ***dst = npv::celldat<T>("dst", m->ncell, ncomp, rows), ***src = npv::celldat<T>("src", m->ncell, ncomp, srows);
  for (int k = 0; k < 2; k++) {
    m->j[k] = npv::sym(k ? "j1" : "j0", 0, 1 << 20); npv::assume(m->j[k] < m->n);
    m->cell[k] = npv::sym(k ? "c1" : "c0", 0, 1 << 20); npv::assume(m->cell[k] < m->ncell);
    m->src[k] = npv::sym(k ? "s1" : "s0", 0, 1 << 24); npv::assume(m->src[k] < srows[m->cell[k]]);
    m->layer[k] = npv::sym(k ? "l1" : "l0", 0, 1 << 24); npv::assume(m->layer[k] < rows[m->cell[k]]);
  }
  npv::assume(m->j[0] != m->j[1]);
  npv::assume((m->cell[0] != m->cell[1]) | (m->layer[0] != m->layer[1]));
  const INT oc = npv::sym("oc", 0, 1 << 20), ol = npv::sym("ol", 0, 1 << 24), nx = npv::sym("nx", 0, 1 << 10);
  npv::assume(oc < m->ncell); npv::assume(ol < rows[oc]); npv::assume(nx < ncomp);
  npv::assume((oc != m->cell[0]) | (ol != m->layer[0])); npv::assume((oc != m->cell[1]) | (ol != m->layer[1]));
  const T old = dst[oc][nx][ol];
  auto A = m->A = m->g.get(), B = m->other.get();
  A->sycl_target = m->T; A->ncell = (int)m->ncell;
  A->h_npart_cell.ptr = npv::array<INT>("npart", m->ncell, 0, 1 << 24);
  A->d_npart_cell.ptr = npv::array<INT>("dnpart", m->ncell, 0, 1 << 24);
  ParticleDatT<T> *d, *s;
  if constexpr (real) { d = dat<T>(m->dr, "X", dst, ncomp); s = dat<T>(m->sr, "X", src, ncomp); }
  else { d = dat<T>(m->di, "X", dst, ncomp); s = dat<T>(m->si, "X", src, ncomp); }
  set_dats<T>(A, d); set_dats<T>(B, shared ? s : nullptr);
  new ((void *)&m->sub.get()->particle_group) ParticleGroupSharedPtr(npv::raw(B));
  auto *it = sycl::npv::items = new sycl::npv::items_t();
  it->all = false; it->n = 2; it->id[0][0] = m->j[0]; it->id[1][0] = m->j[1];
  A->add_particles_local(npv::raw(m->sub.get()));
  NPV_CHECK(m->layers == 1 && m->es == 1 && m->reallocs == 1 && m->sets == 1 && m->agree == 1 && m->version == 1, "the group is updated once");
  for (int k = 0; k < 2; k++) {
    const T want = shared ? src[m->cell[k]][nx][m->src[k]] : (T)0;
    NPV_CHECK(npv::near(dst[m->cell[k]][nx][m->layer[k]], want, 0), "the new particle has the values of the particle, zero without the property");
  }
  NPV_CHECK(npv::near(dst[oc][nx][ol], old, 0), "other particles are unchanged");
  NPV_REACH("end");
}
NPV_PROVE(sub_group_real, 1) { add_sub_group<REAL, true>(); }
NPV_PROVE(sub_group_int, 1) { add_sub_group<INT, true>(); }
NPV_PROVE(sub_group_missing_real, 1) { add_sub_group<REAL, false>(); }
NPV_PROVE(sub_group_missing_int, 1) { add_sub_group<INT, false>(); }
// rows for any two particles, other particles were given rows before and between
static void others(int) {
  auto *m = M;
  INT *d = m->A->d_npart_cell.ptr; const INT *h = m->A->h_npart_cell.ptr;
  NPV_CHECK(d[m->q] == h[m->q], "the first new row of a cell is behind its particles");
  const INT *k0 = m->k0; const int64_t nc = m->ncell;
  for (int64_t i = 0; i < nc; i++) d[i] = k0[i];
}
NPV_PROVE(new_layers, 1) {
  auto *m = M = new Add();
  m->T = h_target();
  m->ncell = npv::sym("ncell", 1, 1 << 20); m->n = npv::sym("n", 0, 1 << 20);
  auto A = m->A = m->g.get();
  A->sycl_target = m->T; A->ncell = (int)m->ncell;
  INT *np = npv::array<INT>("np", m->ncell, 0, 1 << 24);
  A->h_npart_cell.ptr = np; A->h_npart_cell.size = m->ncell;
  A->d_npart_cell.ptr = npv::array<INT>("dnp", m->ncell, -BIG, BIG); A->d_npart_cell.size = m->ncell;
  m->k0 = npv::array<INT>("k0", m->ncell, 0, 1 << 28);
  INT *cells = npv::array<INT>("cells", m->n, -BIG, BIG), *layers = npv::array<INT>("layers", m->n, -BIG, BIG);
  m->q = npv::sym("q", 0, 1 << 20); npv::assume(m->q < m->ncell);
  auto *it = sycl::npv::items = new sycl::npv::items_t();
  it->all = false; it->before = others; it->n = 2;
  if (m->n == 0) {
    const INT nq = np[m->q];
    A->get_new_layers(0, cells, layers);
    NPV_CHECK(it->launches == 0 && A->h_npart_cell.ptr[m->q] == nq, "without particles nothing changes");
    NPV_REACH("none");
    return;
  }
  for (int k = 0; k < 2; k++) { m->j[k] = npv::sym(k ? "j1" : "j0", 0, 1 << 20); npv::assume(m->j[k] < m->n); it->id[k][0] = m->j[k]; }
  npv::assume(m->j[0] != m->j[1]);
  const INT a = cells[m->j[0]], b = cells[m->j[1]];
  const bool ia = (a >= 0) & (a < m->ncell), ib = (b >= 0) & (b < m->ncell);
  const INT la = ia ? m->k0[a] : -1, lb = ib ? m->k0[b] + (a == b ? 1 : 0) : -1, kq = m->k0[m->q];
  A->get_new_layers((int)m->n, cells, layers);
  NPV_CHECK(it->launches == 1, "each particle is given a row once");
  NPV_CHECK(layers[m->j[0]] == la && layers[m->j[1]] == lb, "a particle of a cell in range has the next row of the cell, others have -1");
  NPV_CHECK(A->h_npart_cell.ptr[m->q] == kq + (ia && a == m->q ? 1 : 0) + (ib && b == m->q ? 1 : 0) && A->d_npart_cell.ptr[m->q] == A->h_npart_cell.ptr[m->q], "the occupancy counts the particles given a row");
  NPV_REACH("end");
}
#endif
#ifndef NPV_VC
static gp::Particle project(ParticleGroupSharedPtr A, const gp::Particle &p, const std::set<std::string> *given = nullptr) {
  gp::Particle q;
  for (auto &d : A->particle_dats_real) { auto &v = q.r[d.first.name]; v.assign(d.second->ncomp, 0.0); if (p.r.count(d.first.name) && (!given || given->count(d.first.name))) v = p.r.at(d.first.name); }
  for (auto &d : A->particle_dats_int) { auto &v = q.i[d.first.name]; v.assign(d.second->ncomp, 0); if (p.i.count(d.first.name) && (!given || given->count(d.first.name))) v = p.i.at(d.first.name); }
  return q;
}
NPV_BOUNDED(add_particle_set, 480, 1) {
  gp::World w;
  w.history(3);
  gp::State want = gp::state(w.A);
  for (int k = 0; k < 2; k++) {
    auto v = w.draw(w.some(), (int)w.lr.uni(0, 1));
    // a random subset of the properties is given; the identifier always is
    ParticleSpec sp(ParticleProp(Sym<INT>("ID"), 1));
    std::set<std::string> given{"ID"};
    for (auto &q : w.spec.properties_real) if (w.lr.uni(0, 3)) { sp.push(q); given.insert(q.name); }
    for (auto &q : w.spec.properties_int) if (q.name != "ID" && (q.name == "CELL_ID" || w.lr.uni(0, 3))) { sp.push(q); given.insert(q.name); }
    if (w.lr.one_in(3)) sp.push(ParticleProp(Sym<REAL>("UNUSED"), 2));
    npv::note("given", std::to_string(given.size()));
    for (auto &p : v) { auto q = project(w.A, p, &given); want[q.i["CELL_ID"][0]][q.i["ID"][0]] = q; }
    auto ps = w.pset(v, sp);
    if (w.lr.one_in(2)) w.A->add_particles_local(ps); else w.A->add_particles_local(*ps);
    NPV_CHECK(gp::same(gp::state(w.A), want), "exactly the given particles are added with the given values, the rest is zero or unchanged");
  }
  gp::consistent(w.A);
}
NPV_BOUNDED(add_from_group, 320, 1) {
  gp::World w;
  w.history(2);
  // source group with other properties
  ParticleSpec sp = w.spec;
  if (npv::uni(0, 1)) sp.push(ParticleProp(Sym<REAL>("SRC_ONLY"), 2));
  auto B = std::make_shared<ParticleGroup>(w.domain, sp, w.target);
  if (npv::uni(0, 1)) B->remove_particle_dat(Sym<REAL>("V"));
  auto A0 = w.A; w.A = B; w.add(w.some()); if (npv::uni(0, 1)) w.remove_some(); w.A = A0;
  w.others.push_back(B);
  auto L = gp::layers(B);
  gp::State want = gp::state(w.A), before = gp::state(B);
  const int64_t how = npv::sym("how", 0, 2, 2);
  auto take = [&](int c, INT l) { auto q = project(w.A, L[c][l]); want[c][q.i["ID"][0]] = q; };
  if (how == 0) { for (size_t c = 0; c < L.size(); c++) for (size_t l = 0; l < L[c].size(); l++) take((int)c, (INT)l); w.A->add_particles_local(B); }
  else {
    auto s = how == 1 ? particle_sub_group(B, [=](auto Q) { return Q.at(1) % 2 == 0; }, Access::read(Sym<INT>("Q"))) : particle_sub_group(B);
    auto m = sg::members(s, B);
    for (size_t c = 0; c < m.size(); c++) for (INT l : m[c]) take((int)c, l);
    w.A->add_particles_local(s);
  }
  gp::State got = gp::state(w.A);
  NPV_CHECK(gp::same(got, want), "particles are copied cell-wise with the shared properties, others are zero");
  NPV_CHECK(gp::same(gp::state(B), before), "the source group is unchanged");
  gp::consistent(w.A);
}
NPV_BOUNDED(read_back, 240, 1) {
  gp::World w;
  w.history(2);
  auto L = gp::layers(w.A);
  std::vector<INT> c, l;
  for (size_t x = 0; x < L.size(); x++) for (size_t y = 0; y < L[x].size(); y++) if (w.lr.one_in(2)) { c.push_back(x); l.push_back(y); }
  auto ps = w.A->get_particles(c, l);
  NPV_CHECK(ps->npart == (int)c.size(), "as many particles as asked for");
  for (size_t k = 0; k < c.size(); k++) {
    auto &q = L[c[k]][l[k]];
    for (auto &x : q.r) for (size_t z = 0; z < x.second.size(); z++) NPV_CHECK(ps->at(Sym<REAL>(x.first), (int)k, (int)z) == x.second[z], "copied real values are the particle's");
    for (auto &x : q.i) for (size_t z = 0; z < x.second.size(); z++) NPV_CHECK(ps->at(Sym<INT>(x.first), (int)k, (int)z) == x.second[z], "copied integer values are the particle's");
  }
}
NPV_BOUNDED(properties_added_and_removed, 240, 1) {
  gp::World w;
  w.history(2);
  if (w.A->contains_dat(Sym<REAL>("X"))) w.A->remove_particle_dat(Sym<REAL>("X"));
  gp::State want = gp::state(w.A);
  const int nc = (int)npv::sym("ncomp", 1, 4, 4);
  w.A->add_particle_dat(Sym<REAL>("X"), nc);
  NPV_CHECK(w.A->contains_dat(Sym<REAL>("X")) && w.A->contains_dat(Sym<REAL>("X"), nc) && !w.A->contains_dat(Sym<REAL>("X"), nc + 1), "the added property exists");
  gp::consistent(w.A);
  gp::State s = gp::state(w.A);
  for (auto &c : s) for (auto &p : c) { NPV_CHECK((int)p.second.r["X"].size() == nc, "the added property has one value per component"); p.second.r.erase("X"); }
  NPV_CHECK(gp::same(s, want), "adding a property changes no other value");
  if (npv::uni(0, 1)) { auto v = w.draw(w.some()); for (auto &p : v) { gp::Particle q = project(w.A, p); q.r.erase("X"); want[q.i["CELL_ID"][0]][q.i["ID"][0]] = q; } w.A->add_particles_local(w.pset(v, w.spec)); }
  w.A->remove_particle_dat(Sym<REAL>("X"));
  NPV_CHECK(!w.A->contains_dat(Sym<REAL>("X")), "the removed property is gone");
  NPV_CHECK(gp::same(gp::state(w.A), want), "removing a property changes no other value");
  gp::consistent(w.A);
}
#endif
