// Particle groups on Cartesian meshes, their observable state and a reference model (executable build only)
#pragma once
#include "common.hpp"
#ifndef NPV_VC
#include <algorithm>
#include <array>
#include <set>
namespace gp {
struct Particle {
  std::map<std::string, std::vector<REAL>> r;
  std::map<std::string, std::vector<INT>> i;
  bool operator==(const Particle &o) const { return r == o.r && i == o.i; }
  bool operator<(const Particle &o) const { return std::tie(r, i) < std::tie(o.r, o.i); }
};
// cell -> particle identifier -> values
using State = std::vector<std::map<INT, Particle>>;
// rank dependent draws
inline std::mt19937_64 local_rng() {
  int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  return std::mt19937_64(npv::rng()() * 2862933555777941757ull + 77 * rank + 1);
}
struct Lrng {
  std::mt19937_64 g;
  Lrng() : g(local_rng()) { g(); }
  int64_t uni(int64_t a, int64_t b) { return a + (int64_t)(g() % (uint64_t)(b - a + 1)); }
  double unif() { return (g() >> 11) * 0x1.0p-53; }
  bool one_in(int n) { return uni(1, n) == 1; }
};
// the values of every particle, in the storage order (cell, layer)
inline std::vector<std::vector<Particle>> layers(ParticleGroupSharedPtr A) {
  const int nc = A->domain->mesh->get_cell_count();
  std::vector<std::vector<Particle>> out(nc);
  for (int c = 0; c < nc; c++) {
    const INT n = A->get_npart_cell(c);
    out[c].resize(n);
    auto take = [&](auto &dats, auto sel) {
      for (auto &kv : dats) {
        auto d = A->get_cell(kv.first, c);
        NPV_CHECK(d->nrow == n, "every property of a cell has one row per particle");
        NPV_CHECK(d->ncol == kv.second->ncomp, "a property has its number of components");
        for (INT l = 0; l < n; l++) for (int k = 0; k < d->ncol; k++) sel(out[c][l])[kv.first.name].push_back(d->at(l, k));
      }
    };
    take(A->particle_dats_real, [](Particle &p) -> auto & { return p.r; });
    take(A->particle_dats_int, [](Particle &p) -> auto & { return p.i; });
  }
  return out;
}
inline State state(ParticleGroupSharedPtr A) {
  auto L = layers(A);
  State s(L.size());
  for (size_t c = 0; c < L.size(); c++)
    for (auto &p : L[c]) {
      const INT id = p.i.at("ID")[0];
      NPV_CHECK(!s[c].count(id), "a particle appears once in its cell");
      s[c][id] = p;
    }
  return s;
}
inline std::map<INT, Particle> flat(const State &s) {
  std::map<INT, Particle> m;
  for (auto &c : s) for (auto &kv : c) {
    NPV_CHECK(!m.count(kv.first), "a particle is in one cell only");
    m.insert(kv);
  }
  return m;
}
// equality of states; the first difference is noted
inline bool same(const State &a, const State &b) {
  if (a == b) return true;
  for (size_t c = 0; c < std::max(a.size(), b.size()); c++) {
    if (c >= a.size() || c >= b.size()) { npv::note("diff", "number of cells"); return false; }
    for (auto &p : a[c]) if (!b[c].count(p.first)) { npv::note("diff", "cell " + std::to_string(c) + " has unexpected particle " + std::to_string(p.first)); return false; }
    for (auto &p : b[c]) {
      if (!a[c].count(p.first)) { npv::note("diff", "cell " + std::to_string(c) + " misses particle " + std::to_string(p.first)); return false; }
      auto &q = a[c].at(p.first);
      std::string k;
      for (auto &x : p.second.r) if (!q.r.count(x.first) || q.r.at(x.first) != x.second) k += x.first + " ";
      for (auto &x : p.second.i) if (!q.i.count(x.first) || q.i.at(x.first) != x.second) k += x.first + " ";
      if (k.size() || !(q == p.second)) { npv::note("diff", "cell " + std::to_string(c) + " particle " + std::to_string(p.first) + " property " + k); return false; }
    }
  }
  return false;
}
inline int64_t count(const State &s) { int64_t n = 0; for (auto &c : s) n += c.size(); return n; }
// counts held by the group, by every property and seen on the device by loops agree
inline void consistent(ParticleGroupSharedPtr A) {
  const int nc = A->domain->mesh->get_cell_count();
  INT n = 0;
  std::vector<INT> per(nc);
  for (int c = 0; c < nc; c++) { per[c] = A->get_npart_cell(c); NPV_CHECK(per[c] >= 0, "cell counts are not negative"); n += per[c]; }
  NPV_CHECK(n == A->get_npart_local(), "the local particle count is the sum of the cell counts");
  auto cnt = [&](auto &dats) { for (auto &kv : dats) for (int c = 0; c < nc; c++) {
    NPV_CHECK(kv.second->h_npart_cell[c] == per[c], "a property's cell count is the group's");
    NPV_CHECK(kv.second->cell_dat.nrow.at(c) >= per[c], "storage holds every particle of the cell");
  } };
  cnt(A->particle_dats_real); cnt(A->particle_dats_int);
  std::vector<INT> hits(n + 1, 0), cells(nc, 0);
  auto la = std::make_shared<LocalArray<INT>>(A->sycl_target, n + 1);
  auto lc = std::make_shared<LocalArray<INT>>(A->sycl_target, nc);
  la->set(hits); lc->set(cells);
  particle_loop(A, [=](auto I, auto a, auto c) { a.fetch_add(I.get_local_linear_index(), 1); c.fetch_add(I.cell, I.layer + 1); },
                Access::read(ParticleLoopIndex{}), Access::add(la), Access::add(lc))->execute();
  hits = la->get(); cells = lc->get();
  for (INT i = 0; i < n; i++) NPV_CHECK(hits[i] == 1, "a loop visits every particle exactly once and numbers them from zero");
  NPV_CHECK(hits[n] == 0, "a loop visits no particle that does not exist");
  for (int c = 0; c < nc; c++) NPV_CHECK(cells[c] == per[c] * (per[c] + 1) / 2, "a loop visits the layers of each cell");
}
struct World {
  int ndim, ncell, rank = 0, size = 1, nv = 3, nq = 2;
  std::shared_ptr<CartesianHMesh> mesh;
  SYCLTargetSharedPtr target;
  DomainSharedPtr domain;
  ParticleSpec spec;
  ParticleGroupSharedPtr A;
  std::vector<ParticleGroupSharedPtr> others;
  INT next_id = 0;
  Lrng lr;
  // cart: the mesh's own local mapper assigns cell ids from positions; otherwise cell ids are what loops wrote
  World(bool cart = false, int maxcells = 40, int ndim_ = 0, int stencil = -1) {
    MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &size);
    ndim = ndim_ ? ndim_ : (int)npv::sym("ndim", 1, 3, 3);
    if (ndim == 1 && !ndim_) ndim = 2;
    std::vector<int> dims(ndim);
    int tot, so, t = 0;
    do {
      so = (int)npv::uni(0, 2); tot = 1;
      for (int d = 0; d < ndim; d++) { dims[d] = (int)npv::uni(1, 5); tot *= dims[d] << so; }
    } while ((tot > maxcells * size || *std::max_element(dims.begin(), dims.end()) << so < size) && ++t < 1000);
    if (t >= 1000) throw npv::discard_t{};
    { std::string s; for (int d : dims) s += std::to_string(d) + "x"; npv::note("mesh", s + "/" + std::to_string(so)); }
    const double extent = npv::rng()() % 2 ? 1.0 : 0.75;
    mesh = std::make_shared<CartesianHMesh>(MPI_COMM_WORLD, ndim, dims, extent, so, stencil >= 0 ? stencil : (int)npv::uni(0, 1));
    target = h_target(size > 1 ? mesh->get_comm() : MPI_COMM_WORLD);
    if (size > 1) MPI_Comm_rank(mesh->get_comm(), &rank);
    domain = cart ? std::make_shared<Domain>(mesh, CartesianHMeshLocalMapper(target, mesh)) : std::make_shared<Domain>(mesh);
    ncell = mesh->get_cell_count();
    if (npv::uni(0, 1)) { nv = (int)npv::uni(3, 7); nq = (int)npv::uni(2, 6); }
    spec = ParticleSpec(ParticleProp(Sym<REAL>("P"), ndim, true), ParticleProp(Sym<REAL>("V"), nv), ParticleProp(Sym<REAL>("W"), 1),
                        ParticleProp(Sym<INT>("CELL_ID"), 1, true), ParticleProp(Sym<INT>("ID"), 1), ParticleProp(Sym<INT>("Q"), nq));
    A = make();
    next_id = (INT)rank * 1000000;
  }
  ~World() { if (A) A->free(); A.reset(); for (auto &o : others) o->free(); others.clear(); domain.reset(); if (size > 1 && target) target->free(); if (mesh) mesh->free(); }
  ParticleGroupSharedPtr make() { return std::make_shared<ParticleGroup>(domain, spec, target); }
  // initial values in given cells
  std::vector<Particle> draw(int n, int cells_hint = 0) {
    std::vector<Particle> v(n);
    const int hot = ncell > 0 ? (int)lr.uni(0, ncell - 1) : 0;
    for (auto &p : v) {
      for (int d = 0; d < ndim; d++) p.r["P"].push_back(lr.unif() * mesh->global_extents[d]);
      for (int d = 0; d < nv; d++) p.r["V"].push_back(lr.unif() - 0.5);
      p.r["W"] = {(REAL)lr.uni(-9, 9)};
      p.i["CELL_ID"] = {cells_hint == 1 || lr.one_in(3) ? hot : lr.uni(0, ncell - 1)};
      p.i["ID"] = {next_id++};
      p.i["Q"] = {lr.uni(-99, 99), lr.uni(0, 9)};
      for (int d = 2; d < nq; d++) p.i["Q"].push_back(lr.uni(-999, 999));
    }
    return v;
  }
  ParticleSetSharedPtr pset(const std::vector<Particle> &v, ParticleSpec sp) {
    auto s = std::make_shared<ParticleSet>((int)v.size(), sp);
    for (auto &q : sp.properties_real) if (v.size() && v[0].r.count(q.name)) for (size_t k = 0; k < v.size(); k++) for (int c = 0; c < q.ncomp; c++) s->at(q.sym, (int)k, c) = v[k].r.at(q.name).at(c);
    for (auto &q : sp.properties_int) if (v.size() && v[0].i.count(q.name)) for (size_t k = 0; k < v.size(); k++) for (int c = 0; c < q.ncomp; c++) s->at(q.sym, (int)k, c) = v[k].i.at(q.name).at(c);
    return s;
  }
  void add(int n, int hint = 0) { A->add_particles_local(pset(draw(n, hint), spec)); }
  int some() { // a particle count, often small, sometimes a few groups' worth
    switch (lr.uni(0, 5)) { case 0: return 0; case 1: return 1; case 2: return (int)lr.uni(1, 8); default: return (int)lr.uni(1, 90); }
  }
  void scatter(int64_t n) { npv::note("n", std::to_string(n)); add((int)n); }
  // a random legal operation of a history
  void random_op() {
    switch (npv::uni(0, 6)) { // the same operation on every rank
    case 0: case 1: add(some() / 2, (int)lr.uni(0, 1)); break;
    case 2: remove_some(); break;
    case 3: shuffle_cells(); A->cell_move(); break;
    case 4: if (lr.one_in(4)) A->clear(); else remove_some(); break;
    case 5: if (!A->contains_dat(Sym<REAL>("X"))) A->add_particle_dat(Sym<REAL>("X"), (int)npv::uni(1, 6)); else A->remove_particle_dat(Sym<REAL>("X")); break;
    case 6: if (!A->contains_dat(Sym<INT>("Y"))) A->add_particle_dat(Sym<INT>("Y"), (int)npv::uni(1, 4)); else A->remove_particle_dat(Sym<INT>("Y")); break;
    }
  }
  std::pair<std::vector<INT>, std::vector<INT>> choose(int style) {
    std::vector<std::pair<INT, INT>> sel;
    for (int c = 0; c < ncell; c++) {
      const INT n = A->get_npart_cell(c);
      const int st = style >= 0 ? style : (int)lr.uni(0, 4);
      for (INT l = 0; l < n; l++) {
        bool t = st == 0 ? false : st == 1 ? true : st == 2 ? lr.one_in(2) : st == 3 ? l >= n - 3 : l < 2;
        if (t) sel.push_back({c, l});
      }
    }
    std::shuffle(sel.begin(), sel.end(), lr.g);
    std::pair<std::vector<INT>, std::vector<INT>> r;
    for (auto &s : sel) { r.first.push_back(s.first); r.second.push_back(s.second); }
    return r;
  }
  void remove_some() { auto s = choose(-1); A->remove_particles((int)s.first.size(), s.first, s.second); }
  // write new cell ids (legal cells) into a random subset
  void shuffle_cells() {
    const INT m = (INT)lr.uni(1, 4), k = (INT)lr.uni(0, 1000), nc = ncell, tgt = lr.one_in(3) ? (INT)lr.uni(0, ncell - 1) : -1;
    particle_loop(A, [=](auto C, auto ID) { if ((ID.at(0) + k) % m == 0) C.at(0) = tgt >= 0 ? tgt : (ID.at(0) * 7 + k) % nc; },
                  Access::write(Sym<INT>("CELL_ID")), Access::read(Sym<INT>("ID")))->execute();
  }
  void history(int maxops) { const int64_t k = npv::sym("ops", 0, maxops, maxops); scatter(npv::sym("n0", 0, 120, 120)); for (int64_t i = 0; i < k; i++) random_op(); }
};
} // namespace gp
#endif
