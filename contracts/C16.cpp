// C16: periodic boundaries wrap positions into the domain
//@ opts: {"smallloops": 4}
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
#include "vcloop.hpp"
#ifdef NPV_VC
#define particle_loop npv::loop::particle_loop_contract
#include "src/cartesian_mesh/cartesian_periodic.cpp"
#undef particle_loop
#endif
using namespace NESO::Particles;
#ifdef NPV_VC
template <int N> static void wraps(bool masked) {
  const int64_t nc = npv::sym("nc", 1, 1 << 20), c = npv::sym("c", 0, (1 << 20) - 1), l = npv::sym("l", 0, (1 << 20) - 1);
  int *np = npv::array<int>("np", nc, 0, 1 << 20);
  npv::assume(c < nc && l < np[c]);
  REAL ***P = npv::celldat<REAL>("P", nc, N, np);
  const int64_t c2 = npv::sym("c2", 0, (1 << 20) - 1), l2 = npv::sym("l2", 0, (1 << 20) - 1), k2 = npv::sym("k2", 0, N - 1); // any component of any particle
  npv::assume(c2 < nc && l2 < np[c2]);
  const REAL o2 = P[c2][k2][l2];
  npv::storage<CartesianHMesh> m;
  npv::storage<ParticleDatT<REAL>> pd;
  *const_cast<int *>(&m.get()->ndim) = N;
  REAL e[N], p[N];
  for (int i = 0; i < N; i++) {
    e[i] = npv::symf("extent", 1e-300, 1e300); p[i] = P[c][i][l];
    npv::assume(p[i] < 1e9 * e[i] && -p[i] < 1e9 * e[i]); // at most 1e9 extents away
    m.get()->global_extents[i] = e[i];
  }
  new ((void *)&pd.get()->sym) Sym<REAL>("P");
  npv::loop::begin(c, l, 0);
  npv::loop::bind(Sym<REAL>("P"), P);
  auto t = h_target();
  int on[N];
  std::vector<int> mk((std::size_t)N);
  for (int i = 0; i < N; i++) { on[i] = (int)npv::sym("mask", 0, 1); mk[i] = on[i]; if (!masked) on[i] = 1; }
  if (masked) { npv::storage<CartesianPeriodic> b; new (b.get()) CartesianPeriodic(t, npv::raw(m.get()), npv::raw(pd.get()), mk); }
  else { npv::storage<CartesianPeriodic> b; new (b.get()) CartesianPeriodic(t, npv::raw(m.get()), npv::raw(pd.get())); }
  NPV_CHECK(npv::loop::S->applied == 1, "the boundary condition is applied to each particle once");
  for (int i = 0; i < N; i++) {
    const REAL q = P[c][i][l];
    if (!on[i]) { NPV_CHECK(q == p[i], "a coordinate whose dimension is masked out is unchanged"); continue; }
    NPV_CHECK(0.0 <= q && q < e[i], "the wrapped coordinate is in the domain");
    const REAL k = (p[i] - q) / e[i];
    NPV_CHECK(k == (REAL)(INT)k, "the coordinate moves by a whole number of extents");
    NPV_CHECK(!(0.0 <= p[i] && p[i] < e[i]) || q == p[i], "a coordinate in the domain is unchanged");
  }
  NPV_CHECK((c2 == c && l2 == l) || P[c2][k2][l2] == o2, "no other particle is changed");
  NPV_REACH("end");
}
NPV_PROVE(wraps_1d, 1) { wraps<1>(false); }
NPV_PROVE(wraps_2d, 1) { wraps<2>(false); }
NPV_PROVE(wraps_3d, 1) { wraps<3>(false); }
NPV_PROVE(wraps_masked_3d, 1) { wraps<3>(true); }
#endif
#ifndef NPV_VC
#include "group.hpp"
NPV_BOUNDED(particles_are_wrapped, 300, 1) {
  gp::World w(npv::uni(0, 1), 40, (int)npv::sym("nd", 2, 3, 3));
  w.history(1);
  const int nd = w.ndim;
  std::vector<int> mask(nd + (int)npv::uni(0, 2));
  for (auto &x : mask) x = npv::uni(0, 2) ? 1 : 0;
  const bool masked = npv::sym("masked", 0, 1, 1);
  std::shared_ptr<CartesianPeriodic> b;
  switch (npv::uni(0, 1)) {
  case 0: b = masked ? std::make_shared<CartesianPeriodic>(w.mesh, w.A, mask) : std::make_shared<CartesianPeriodic>(w.mesh, w.A); break;
  default: b = masked ? std::make_shared<CartesianPeriodic>(w.target, w.mesh, w.A->position_dat, mask) : std::make_shared<CartesianPeriodic>(w.target, w.mesh, w.A->position_dat);
  }
  for (int r = 0; r < 3; r++) {
    gp::State s = gp::state(w.A);
    std::vector<REAL> e(nd), sc(nd);
    for (int i = 0; i < nd; i++) { e[i] = w.mesh->global_extents[i]; sc[i] = std::pow(10.0, (double)npv::uni(-3, 6)); }
    REAL e0 = e[0], e1 = e[nd > 1 ? 1 : 0], e2 = e[nd > 2 ? 2 : 0];
    REAL s0 = sc[0], s1 = sc[nd > 1 ? 1 : 0], s2 = sc[nd > 2 ? 2 : 0];
    const INT mode = npv::uni(0, 3), k0 = npv::uni(0, 1000);
    particle_loop(w.A, [=](auto P, auto ID) {
      const INT h = (ID.at(0) * 7919 + k0 * 104729) % 1000003;
      for (int i = 0; i < nd; i++) {
        const REAL E = i == 0 ? e0 : i == 1 ? e1 : e2, S = i == 0 ? s0 : i == 1 ? s1 : s2;
        const REAL u = (REAL)((h * (31 + i) + i * 17) % 2001 - 1000) / 1000.0;
        if (mode == 0) P.at(i) = (REAL)((h + i) % 7 - 3) * E;                     // on the faces of the periodic images
        else if (mode == 1) P.at(i) = u * E * 2.5;
        else if (mode == 2) P.at(i) = u * E * S;
        else P.at(i) = (h + i) % 2 ? u * E * 1e6 : (u * 0.5 + 0.5) * E * 0.999;
      }
    }, Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")))->execute();
    auto before = gp::flat(gp::state(w.A));
    b->execute();
    auto after = gp::state(w.A);
    NPV_CHECK(gp::flat(after).size() == before.size(), "no particle is lost or added");
    for (size_t c = 0; c < after.size(); c++) for (auto &kv : after[c]) {
      NPV_CHECK(before.count(kv.first) && s[c].count(kv.first), "particles stay in their cells");
      const gp::Particle &x = before[kv.first], &y = kv.second;
      NPV_CHECK(x.i == y.i && x.r.at("V") == y.r.at("V") && x.r.at("W") == y.r.at("W"), "no other property is changed");
      for (int i = 0; i < nd; i++) {
        const REAL p = x.r.at("P")[i], q = y.r.at("P")[i];
        if (masked && !mask[i]) { NPV_CHECK(p == q, "a coordinate whose dimension is masked out is unchanged"); continue; }
        NPV_CHECK(0.0 <= q && q < e[i], "the wrapped coordinate is in the domain");
        const REAL k = (p - q) / e[i], tol = 1e-12 * (1.0 + std::abs(p) / e[i]);
        NPV_CHECK(std::abs(k - std::round(k)) <= tol, "the coordinate moves by a whole number of extents");
        NPV_CHECK(!(0.0 <= p && p < e[i]) || std::abs(k) <= tol, "a coordinate in the domain is unchanged");
      }
    }
  }
}
#endif
