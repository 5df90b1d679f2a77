// C17: reflection and truncation boundary conditions preserve their invariants
//@ opts: {"smallloops": 4}
//@ assume: contains_boundary_interaction_data holds (precondition of execute: the sub-group has the intersection data)
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
#include "vcloop.hpp"
using namespace NESO::Particles;
#ifdef NPV_VC
static bool has_data(std::shared_ptr<ParticleSubGroup>, int, bool) { return true; }
#define particle_loop npv::loop::particle_loop_contract
#define contains_boundary_interaction_data has_data
#include "src/boundary/boundary_truncation.cpp"
#include "src/boundary/boundary_reflection.cpp"
#undef particle_loop
#undef contains_boundary_interaction_data
#endif
#ifndef NPV_VC
#include "group.hpp"
#include "subgroup.hpp"
#endif
// what both conditions do to a particle's position and time step
template <typename F> static void truncated(int N, REAL r, const REAL *p, const REAL *pp, const REAL *x, const REAL *q, const REAL *ts, const REAL *tq, F same) {
  REAL o2 = 0, d2 = 0;
  for (int i = 0; i < N; i++) { o2 += (pp[i] - x[i]) * (pp[i] - x[i]); d2 += (p[i] - pp[i]) * (p[i] - pp[i]); }
  const REAL D = std::sqrt(o2), d = std::sqrt(d2);
  for (int i = 0; i < N; i++) {
    NPV_CHECK(!(D <= r) || same(q[i], pp[i]), "a particle closer to the boundary than the reset distance is put back to its previous position");
    NPV_CHECK(D <= r || same(q[i], x[i] + (pp[i] - x[i]) * (r / D)), "the particle is put on its trajectory at the reset distance before the intersection");
  }
  REAL f = d > 1.0e-16 ? D / d : 1.0;
  if (f > 1.0) f = 1.0;
  NPV_CHECK(same(tq[1], ts[1] * f), "the last step is cut to the fraction travelled to the boundary");
  NPV_CHECK(same(tq[0], ts[0] - ts[1] * (1.0 - f)), "the time of the particle is set back by the part of the step not made");
}
template <typename F> static void reflected(int N, const REAL *v, const REAL *n, const REAL *w, F same) {
  REAL nv = 0, nw = 0, vv = 0, ww = 0;
  for (int i = 0; i < N; i++) { nv += n[i] * v[i]; nw += n[i] * w[i]; vv += v[i] * v[i]; ww += w[i] * w[i]; }
  NPV_CHECK(same(ww, vv), "reflection keeps the speed");
  NPV_CHECK(same(nw, -nv), "reflection reverses the normal component");
  for (int i = 0; i < N; i++) NPV_CHECK(same(w[i] - nw * n[i], v[i] - nv * n[i]), "reflection keeps the tangential component");
}
#ifdef NPV_VC
template <int N> static void condition(bool reflect) {
  const int64_t nc = npv::sym("nc", 1, 1 << 20), c = npv::sym("c", 0, (1 << 20) - 1), l = npv::sym("l", 0, (1 << 20) - 1), ll = npv::sym("ll", 0, (1 << 20) - 1);
  int *np = npv::array<int>("np", nc, 0, 1 << 20), *ns = npv::array<int>("ns", nc, 0, 1 << 20);
  npv::assume(c < nc && l < np[c] && ll < ns[c]);
  REAL ***P = npv::celldat<REAL>("P", nc, N, np), ***V = npv::celldat<REAL>("V", nc, N, np), ***T = npv::celldat<REAL>("T", nc, 2, np), ***B = npv::celldat<REAL>("B", nc, N, np);
  REAL ***X = npv::celldat<REAL>("X", nc, N, ns), ***M = npv::celldat<REAL>("M", nc, N, ns); // data of the sub-group
  const int64_t c2 = npv::sym("c2", 0, (1 << 20) - 1), l2 = npv::sym("l2", 0, (1 << 20) - 1), k2 = npv::sym("k2", 0, N - 1), k3 = npv::sym("k3", 0, 1);
  npv::assume(c2 < nc && l2 < np[c2] && !(c2 == c && l2 == l)); // any other particle
  const REAL oP = P[c2][k2][l2], oV = V[c2][k2][l2], oT = T[c2][k3][l2];
  new ((void *)&BoundaryInteractionSpecification::intersection_point) Sym<REAL>("NESO_PARTICLES_BOUNDARY_INTERSECTION_POINT");
  new ((void *)&BoundaryInteractionSpecification::intersection_normal) Sym<REAL>("NESO_PARTICLES_BOUNDARY_NORMAL");
  REAL p[N], v[N], t[2], b[N], x[N], n[N], q[N], w[N], u[2], nn = 0;
  for (int i = 0; i < N; i++) { p[i] = P[c][i][l]; v[i] = V[c][i][l]; b[i] = B[c][i][l]; x[i] = X[c][i][ll]; n[i] = M[c][i][ll]; nn += n[i] * n[i]; }
  for (int i = 0; i < 2; i++) t[i] = T[c][i][l];
  npv::assume(nn == 1.0);
  npv::loop::begin(c, l, ll);
  npv::loop::bind(Sym<REAL>("P"), P); npv::loop::bind(Sym<REAL>("V"), V); npv::loop::bind(Sym<REAL>("T"), T); npv::loop::bind(Sym<REAL>("B"), B);
  npv::loop::bind(BoundaryInteractionSpecification::intersection_point, X); npv::loop::bind(BoundaryInteractionSpecification::intersection_normal, M);
  const REAL r = npv::symf("reset", 0.0, 1e300);
  if (reflect) { BoundaryReflection o(N, r); o.execute(nullptr, Sym<REAL>("P"), Sym<REAL>("V"), Sym<REAL>("T"), Sym<REAL>("B")); }
  else { BoundaryTruncation o(N, r); o.execute(nullptr, Sym<REAL>("P"), Sym<REAL>("T"), Sym<REAL>("B")); }
  NPV_CHECK(npv::loop::S->applied == 1, "the condition is applied to each particle of the sub-group once");
  auto eq = [](REAL a, REAL b) { return a == b; };
  for (int i = 0; i < N; i++) { q[i] = P[c][i][l]; w[i] = V[c][i][l]; }
  for (int i = 0; i < 2; i++) u[i] = T[c][i][l];
  truncated(N, r, p, b, x, q, t, u, eq);
  if (reflect) reflected(N, v, n, w, eq);
  else for (int i = 0; i < N; i++) NPV_CHECK(w[i] == v[i], "truncation leaves the velocity");
  for (int i = 0; i < N; i++) NPV_CHECK(B[c][i][l] == b[i] && X[c][i][ll] == x[i] && M[c][i][ll] == n[i], "previous position and intersection are not changed");
  NPV_CHECK(P[c2][k2][l2] == oP && V[c2][k2][l2] == oV && T[c2][k3][l2] == oT, "no other particle is changed");
  NPV_REACH("end");
}
NPV_PROVE(truncation_1d, 1) { condition<1>(false); }
NPV_PROVE(truncation_2d, 1) { condition<2>(false); }
NPV_PROVE(truncation_3d, 1) { condition<3>(false); }
NPV_PROVE(reflection_1d, 1) { condition<1>(true); }
NPV_PROVE(reflection_2d, 1) { condition<2>(true); }
NPV_PROVE(reflection_3d, 1) { condition<3>(true); }
#endif
#ifndef NPV_VC
NPV_BOUNDED(particles_of_the_sub_group, 400, 1) {
  gp::World w(npv::uni(0, 1), 40);
  w.A->add_particle_dat(Sym<REAL>("TSP"), 2);
  w.A->add_particle_dat(Sym<REAL>("PP"), w.ndim);
  w.history(2);
  const int nd = w.ndim;
  const bool reflect = npv::sym("reflect", 0, 1, 1);
  static const REAL rs[] = {0.0, 1e-10, 0.01, 0.3, 5.0};
  const REAL reset = rs[npv::uni(0, 4)];
  npv::note("reset", std::to_string(reset));
  auto G = sg::filter(w.A, sg::draw_pred(w));
  const INT salt = npv::uni(0, 1 << 20), mode = npv::uni(0, 3);
  auto H = [=](INT id, INT k) { uint64_t x = (uint64_t)(id * 64 + k) * 0x9E3779B97F4A7C15ull + (uint64_t)salt; x ^= x >> 31; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 29; return (REAL)((INT)(x % 4001) - 2000) / 2000.0; };
  particle_loop(w.A, [=](auto P, auto V, auto T, auto B, auto ID) {
    const INT id = ID.at(0);
    for (int i = 0; i < nd; i++) { B.at(i) = H(id, i); V.at(i) = 10.0 * H(id, 10 + i); P.at(i) = mode == 1 && id % 4 == 0 ? B.at(i) : H(id, 20 + i); }
    T.at(0) = 0.5 + 0.5 * H(id, 30); T.at(1) = T.at(0) * (0.5 + 0.5 * H(id, 31));
  }, Access::write(Sym<REAL>("P")), Access::write(Sym<REAL>("V")), Access::write(Sym<REAL>("TSP")), Access::write(Sym<REAL>("PP")), Access::read(Sym<INT>("ID")))->execute();
  add_boundary_interaction_ephemeral_dats(G, nd);
  particle_loop(G, [=](auto P, auto B, auto X, auto N, auto ID) {
    const INT id = ID.at(0);
    REAL s = 0.0;
    const REAL f = (mode == 2 && id % 3 == 0) ? 0.0 : mode == 3 ? 1e-9 : 0.5 + 0.5 * H(id, 40); // fraction of the step at the intersection
    for (int i = 0; i < nd; i++) { X.at_ephemeral(i) = B.at(i) + f * (P.at(i) - B.at(i)); s += H(id, 50 + i) * H(id, 50 + i); }
    for (int i = 0; i < nd; i++) N.at_ephemeral(i) = id % 5 == 0 || s < 1e-3 ? (i == id % nd ? -1.0 : 0.0) : H(id, 50 + i) / sycl::sqrt(s);
  }, Access::read(Sym<REAL>("P")), Access::read(Sym<REAL>("PP")), Access::write(BoundaryInteractionSpecification::intersection_point), Access::write(BoundaryInteractionSpecification::intersection_normal), Access::read(Sym<INT>("ID")))->execute();
  std::map<INT, std::array<std::vector<REAL>, 2>> xn;
  const INT tot = G->get_npart_local();
  auto la = std::make_shared<LocalArray<REAL>>(w.target, (tot + 1) * 6); auto li = std::make_shared<LocalArray<INT>>(w.target, tot + 1);
  particle_loop(G, [=](auto I, auto X, auto N, auto ID, auto a, auto b) {
    const INT k = I.get_loop_linear_index();
    b.at(k) = ID.at(0);
    for (int i = 0; i < nd; i++) { a.at(k * 6 + i) = X.at_ephemeral(i); a.at(k * 6 + 3 + i) = N.at_ephemeral(i); }
  }, Access::read(ParticleLoopIndex{}), Access::read(BoundaryInteractionSpecification::intersection_point), Access::read(BoundaryInteractionSpecification::intersection_normal), Access::read(Sym<INT>("ID")), Access::write(la), Access::write(li))->execute();
  auto va = la->get(); auto vi = li->get();
  for (INT k = 0; k < tot; k++) xn[vi[k]] = {std::vector<REAL>(va.begin() + k * 6, va.begin() + k * 6 + nd), std::vector<REAL>(va.begin() + k * 6 + 3, va.begin() + k * 6 + 3 + nd)};
  NPV_CHECK((INT)xn.size() == tot, "the sub-group visits each of its particles once");
  auto before = gp::flat(gp::state(w.A));
  if (reflect) BoundaryReflection(nd, reset).execute(G, Sym<REAL>("P"), Sym<REAL>("V"), Sym<REAL>("TSP"), Sym<REAL>("PP"));
  else BoundaryTruncation(nd, reset).execute(G, Sym<REAL>("P"), Sym<REAL>("TSP"), Sym<REAL>("PP"));
  auto after = gp::flat(gp::state(w.A));
  NPV_CHECK(after.size() == before.size(), "no particle is lost or added");
  for (auto &kv : after) {
    auto x = before[kv.first], &y = kv.second;
    if (!xn.count(kv.first)) { NPV_CHECK(x == y, "particles not given to the operation are unchanged"); continue; }
    auto near = [](REAL a, REAL b) { return std::abs(a - b) <= 1e-9 * (1.0 + std::abs(b)); };
    const REAL *X = xn[kv.first][0].data(), *N = xn[kv.first][1].data();
    truncated(nd, reset, x.r["P"].data(), x.r["PP"].data(), X, y.r.at("P").data(), x.r["TSP"].data(), y.r.at("TSP").data(), near);
    if (reflect) reflected(nd, x.r["V"].data(), N, y.r.at("V").data(), near);
    auto z = y;
    z.r["P"] = x.r["P"]; z.r["TSP"] = x.r["TSP"];
    if (reflect) for (int i = 0; i < nd; i++) z.r["V"][i] = x.r["V"][i];
    NPV_CHECK(z == x, "no other property is changed");
  }
}
#endif
