// Sub-groups: observation and random construction (executable build only)
#pragma once
#include "group.hpp"
#ifndef NPV_VC
namespace sg {
using SG = ParticleSubGroupSharedPtr;
// cell -> layers of the parent group in the iteration order of the sub-group
using Members = std::vector<std::vector<INT>>;
template <typename P> Members members(P g, ParticleGroupSharedPtr A) {
  const int nc = A->domain->mesh->get_cell_count();
  const INT cap = A->get_npart_local() + 1;
  auto cnt = std::make_shared<LocalArray<INT>>(A->sycl_target, 1);
  auto hit = std::make_shared<LocalArray<INT>>(A->sycl_target, cap);
  auto cel = std::make_shared<LocalArray<INT>>(A->sycl_target, cap);
  auto lay = std::make_shared<LocalArray<INT>>(A->sycl_target, cap);
  auto ll = std::make_shared<LocalArray<INT>>(A->sycl_target, cap);
  cnt->fill(0); hit->fill(0); cel->fill(-1); lay->fill(-1); ll->fill(-1);
  particle_loop(g, [=](auto I, auto n, auto h, auto c, auto l, auto o) {
    n.fetch_add(0, 1);
    const INT k = I.get_loop_linear_index();
    if (k < 0 || k >= cap) return;
    h.fetch_add(k, 1); c.at(k) = I.cell; l.at(k) = I.layer; o.at(k) = I.loop_layer;
  }, Access::read(ParticleLoopIndex{}), Access::add(cnt), Access::add(hit), Access::write(cel), Access::write(lay), Access::write(ll))->execute();
  const INT n = cnt->get()[0];
  auto h = hit->get(), c = cel->get(), l = lay->get(), o = ll->get();
  NPV_CHECK(n == g->get_npart_local(), "a loop visits as many particles as the group holds");
  NPV_CHECK(n < cap, "a sub-group holds no more particles than its parent");
  Members m(nc);
  std::vector<std::map<INT, INT>> ord(nc);
  std::set<std::pair<INT, INT>> seen;
  for (INT k = 0; k < n; k++) {
    NPV_CHECK(h[k] == 1, "loop indices number the visited particles from zero without gaps");
    NPV_CHECK(0 <= c[k] && c[k] < nc && 0 <= l[k] && l[k] < A->get_npart_cell(c[k]), "a visited particle exists");
    NPV_CHECK(seen.insert({c[k], l[k]}).second, "a loop visits a particle once");
    NPV_CHECK(ord[c[k]].insert({o[k], l[k]}).second, "loop layers of a cell are distinct");
  }
  for (int x = 0; x < nc; x++) {
    for (auto &p : ord[x]) { NPV_CHECK(p.first == (INT)m[x].size(), "loop layers of a cell start from zero without gaps"); m[x].push_back(p.second); }
    NPV_CHECK((INT)m[x].size() == g->get_npart_cell(x), "the cell count of the group is the number of particles visited");
  }
  return m;
}
inline Members all(ParticleGroupSharedPtr A) {
  Members m(A->domain->mesh->get_cell_count());
  for (size_t c = 0; c < m.size(); c++) for (INT l = 0; l < A->get_npart_cell(c); l++) m[c].push_back(l);
  return m;
}
inline Members sorted(Members m) { for (auto &v : m) std::sort(v.begin(), v.end()); return m; }
inline std::set<INT> ids(const Members &m, const std::vector<std::vector<gp::Particle>> &L) {
  std::set<INT> s;
  for (size_t c = 0; c < m.size(); c++) for (INT l : m[c]) s.insert(L.at(c).at(l).i.at("ID")[0]);
  return s;
}
// predicates used as filters: kernel and reference
struct Pred { int kind; INT a, b; };
inline Pred draw_pred(gp::World &w) { return {(int)w.lr.uni(0, 5), w.lr.uni(-4, 8), w.lr.uni(1, 4)}; }
inline bool holds(const Pred &p, const gp::Particle &q, INT cell, INT layer) {
  switch (p.kind) {
  case 0: return q.r.at("W")[0] < (REAL)p.a;
  case 1: return ((q.i.at("Q")[1] % p.b) + p.b) % p.b == 0;
  case 2: return q.i.at("ID")[0] % 2 == p.b % 2;
  case 3: return q.r.at("V")[1] > 0 && q.i.at("Q")[0] < p.a * 10;
  case 4: return p.b > 2;
  default: return (cell + layer) % p.b == 0;
  }
}
template <typename P> SG filter(P parent, const Pred &p) {
  const REAL ra = (REAL)p.a; const INT a = p.a, b = p.b;
  switch (p.kind) {
  case 0: return particle_sub_group(parent, [=](auto W) { return W.at(0) < ra; }, Access::read(Sym<REAL>("W")));
  case 1: return particle_sub_group(parent, [=](auto Q) { return ((Q.at(1) % b) + b) % b == 0; }, Access::read(Sym<INT>("Q")));
  case 2: return particle_sub_group(parent, [=](auto ID) { return ID.at(0) % 2 == b % 2; }, Access::read(Sym<INT>("ID")));
  case 3: return particle_sub_group(parent, [=](auto V, auto Q) { return V.at(1) > 0 && Q.at(0) < a * 10; }, Access::read(Sym<REAL>("V")), Access::read(Sym<INT>("Q")));
  case 4: return particle_sub_group(parent, [=](auto) { return b > 2; }, Access::read(Sym<REAL>("W")));
  default: return particle_sub_group(parent, [=](auto I) { return (I.cell + I.layer) % b == 0; }, Access::read(ParticleLoopIndex{}));
  }
}
inline Members filter_ref(const Members &parent, const Pred &p, const std::vector<std::vector<gp::Particle>> &L) {
  Members m(parent.size());
  for (size_t c = 0; c < m.size(); c++) for (INT l : parent[c]) if (holds(p, L[c][l], (INT)c, l)) m[c].push_back(l);
  return m;
}
} // namespace sg
#endif
