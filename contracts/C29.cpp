// C29: functions on the boundary gather every contribution and give back their values
#include "npv.hpp"
#include <neso_particles.hpp>
//@ scope: bounded
//@ design: A projection is a loop over an ephemeral sub-group into a staging array indexed by a lookup tree and an exchange with the ranks that own the faces: the parts are under contract elsewhere (loops C04/C05, trees C19, exchanges C23, element numbers C18). Bounded: meshes of 2 and 3 dimensions with cell widths other than one on 1-3 ranks, random trajectories, groups of faces and histories of projections from several sub-groups, fills, set values and evaluations, compared with a sum over all ranks.
#ifndef NPV_VC
#include "group.hpp"
using namespace NESO::Particles;
NPV_BOUNDED(surface_functions, 150, 3) {
  gp::World w(true, 60);
  const int nd = w.ndim, nf = 2 * nd;
  w.history(1);
  std::map<int, std::vector<int>> groups;
  const int ng = (int)npv::uni(1, nf);
  for (int f = 0; f < nf; f++) if (npv::uni(0, 3)) groups[(int)npv::uni(0, ng - 1) * 7 - 3].push_back(f);
  if (groups.empty()) throw npv::discard_t{};
  CartesianTrajectoryIntersection X(w.target, w.mesh, groups);
  X.prepare_particle_group(w.A);
  REAL E[3] = {1, 1, 1};
  for (int i = 0; i < nd; i++) E[i] = w.mesh->global_extents[i];
  const REAL e0 = E[0], e1 = E[1], e2 = E[2];
  const REAL measure = std::pow(w.mesh->cell_width_fine, nd - 1);
  const INT NE = w.mesh->ncells_face_global;
  struct F { int group; CartesianHMeshFunctionSharedPtr f; std::vector<REAL> ref; };
  std::vector<F> fs;
  for (auto &g : groups) for (int k = (int)npv::uni(1, 2); k--;) fs.push_back({g.first, X.create_function(g.first, "DG", 0), std::vector<REAL>(NE, 0.0)});
  for (auto &f : fs) {
    std::vector<int> on(NE, 0), all(NE, 0);
    for (INT c : f.f->cells) { NPV_CHECK(0 <= c && c < NE && !on[c], "a cell of a function is a face cell, once"); on[c] = 1; }
    MPI_Allreduce(on.data(), all.data(), (int)NE, MPI_INT, MPI_SUM, w.mesh->get_comm());
    for (INT c = 0; c < NE; c++) {
      INT t[3] = {0, 0, 0}; w.mesh->get_face_id_as_tuple(c, t);
      auto &v = groups.at(f.group);
      NPV_CHECK(all[c] == (int)std::count(v.begin(), v.end(), (int)t[0]), "each face cell of the boundary is on one rank");
    }
  }
  auto same = [&](F &f, const char *what) {
    auto d = f.f->get_dofs();
    NPV_CHECK(d.size() == f.f->cells.size(), "a value per cell");
    for (size_t i = 0; i < d.size(); i++) NPV_CHECK(std::abs(d[i] - f.ref[f.f->cells[i]]) <= 1e-9 * (1.0 + std::abs(d[i])), what);
  };
  for (auto &f : fs) same(f, "a function is zero to begin with");
  for (int step = (int)npv::uni(1, 3); step--;) {
    const INT salt = npv::uni(0, 1 << 20), far = npv::uni(1, 20);
    auto H = [=](INT id, INT k) { uint64_t x = (uint64_t)(id * 64 + k) * 0x9E3779B97F4A7C15ull + (uint64_t)salt; x ^= x >> 31; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 29; return (REAL)((INT)(x % 40009) - 20004) / 20005.0; };
    particle_loop(w.A, [=](auto P, auto ID) { for (int i = 0; i < nd; i++) P.at(i) = (0.5 + 0.49 * H(ID.at(0), i)) * (i == 0 ? e0 : i == 1 ? e1 : e2); }, Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")))->execute();
    X.pre_integration(w.A);
    particle_loop(w.A, [=](auto P, auto ID) { for (int i = 0; i < nd; i++) P.at(i) += 0.1 * far * H(ID.at(0), 10 + i) * (i == 0 ? e0 : i == 1 ? e1 : e2); }, Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")))->execute();
    auto R = X.post_integration(w.A);
    std::map<int, std::map<INT, std::pair<INT, REAL>>> hit; // group, id -> element, ephemeral weight
    auto V0 = gp::flat(gp::state(w.A));
    for (auto &gr : R) {
      gr.second->add_ephemeral_dat(Sym<REAL>("EW"), 2);
      const INT n = gr.second->get_npart_local();
      auto li = std::make_shared<LocalArray<INT>>(w.target, (n + 1) * 2);
      particle_loop(gr.second, [=](auto I, auto M, auto ID, auto W, auto b) {
        const INT k = I.get_loop_linear_index();
        b.at(k * 2) = ID.at(0); b.at(k * 2 + 1) = M.at_ephemeral(1);
        W.at_ephemeral(0) = -77.0; W.at_ephemeral(1) = H(ID.at(0), 30);
      }, Access::read(ParticleLoopIndex{}), Access::read(BoundaryInteractionSpecification::intersection_metadata), Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>("EW")), Access::write(li))->execute();
      auto v = li->get();
      for (INT k = 0; k < n; k++) hit[gr.first][v[k * 2]] = {v[k * 2 + 1], H(v[k * 2], 30)};
    }
    for (int op = (int)npv::uni(1, 6); op--;) {
      F &f = fs[npv::uni(0, (INT)fs.size() - 1)];
      auto G = R.at(f.group);
      auto &h = hit[f.group];
      const int comp = (int)npv::uni(0, w.nv - 1);
      std::vector<REAL> add(NE, 0.0), tot(NE, 0.0);
      auto contribute = [&](bool eph) { for (auto &kv : h) add[kv.second.first] += (eph ? kv.second.second : V0.at(kv.first).r.at("V").at(comp)) / measure; };
      auto finish = [&] { MPI_Allreduce(add.data(), tot.data(), (int)NE, MPI_DOUBLE, MPI_SUM, w.mesh->get_comm()); f.ref = tot; };
      const INT kind = npv::uni(0, 5);
      if (kind == 0) {
        X.function_project(G, Sym<REAL>("V"), comp, false, f.f); contribute(false); finish();
        same(f, "the sum of the contributions over the measure of the face cell");
      } else if (kind == 1) {
        X.function_project_initialise(f.f);
        for (int k = (int)npv::uni(0, 3); k--;) {
          const bool e = npv::uni(0, 1);
          if (e) X.function_project_contribute(G, Sym<REAL>("EW"), 1, true, f.f); else X.function_project_contribute(G, Sym<REAL>("V"), comp, false, f.f);
          contribute(e);
        }
        X.function_project_finalise(f.f); finish();
        same(f, "the sum of all contributions over the measure of the face cell");
      } else if (kind == 2) {
        const REAL v = (REAL)npv::uni(-9, 9);
        f.f->fill(v); f.ref.assign(NE, v);
        same(f, "the value it was filled with");
      } else if (kind == 3) {
        std::vector<REAL> d;
        for (INT c = 0; c < NE; c++) f.ref[c] = H(c, 40 + op);
        for (INT c : f.f->cells) d.push_back(f.ref[c]);
        f.f->set_dofs(d);
        same(f, "the values that were set");
      } else {
        const bool e = npv::uni(0, 1);
        if (e) X.function_evaluate(G, Sym<REAL>("EW"), 0, true, f.f); else X.function_evaluate(G, Sym<REAL>("V"), comp, false, f.f);
        auto V1 = gp::flat(gp::state(w.A));
        if (!e) for (auto &kv : h) {
          REAL &x = V0.at(kv.first).r.at("V").at(comp), y = V1.at(kv.first).r.at("V").at(comp);
          NPV_CHECK(std::abs(y - f.ref[kv.second.first]) <= 1e-9 * (1.0 + std::abs(y)), "a particle gets the value of the face cell it hit");
          x = y;
        }
        NPV_CHECK(V0 == V1, "evaluating changes nothing else");
        if (e) {
          const INT n = G->get_npart_local();
          auto li = std::make_shared<LocalArray<INT>>(w.target, n + 1); auto lr = std::make_shared<LocalArray<REAL>>(w.target, 2 * n + 1);
          particle_loop(G, [=](auto I, auto ID, auto W, auto b, auto r) { const INT k = I.get_loop_linear_index(); b.at(k) = ID.at(0); r.at(2 * k) = W.at_ephemeral(0); r.at(2 * k + 1) = W.at_ephemeral(1); },
                        Access::read(ParticleLoopIndex{}), Access::read(Sym<INT>("ID")), Access::read(Sym<REAL>("EW")), Access::write(li), Access::write(lr))->execute();
          auto b = li->get(); auto r = lr->get();
          NPV_CHECK((INT)h.size() == n, "the sub-group keeps its particles");
          for (INT k = 0; k < n; k++) {
            NPV_CHECK(std::abs(r[2 * k] - f.ref[h.at(b[k]).first]) <= 1e-9 * (1.0 + std::abs(r[2 * k])), "an ephemeral property gets the value of the face cell hit");
            NPV_CHECK(r[2 * k + 1] == h.at(b[k]).second, "the other components are unchanged");
          }
        }
        same(f, "evaluating leaves the function as it was");
      }
    }
    for (auto &f : fs) same(f, "operations on one function leave the others as they were");
  }
  X.free();
}
#endif
