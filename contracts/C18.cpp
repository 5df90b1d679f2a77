// C18: Cartesian trajectory intersection finds every crossing
//@ opts: {"smallloops": 8, "symunroll": 8}
//@ srcs: src/cartesian_mesh/cartesian_h_mesh.cpp
//@ assume: the face tables of CartesianHMesh have the values its constructor gives them (checked by the bounded harness on constructed meshes)
#define NESO_PARTICLES_TEST_COMPILATION
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
#ifdef NPV_VC
#include "src/cartesian_mesh/cartesian_trajectory_intersection.cpp"
#endif
using namespace NESO::Particles;
// ---- geometry used by the kernels: exact statements in real arithmetic
#ifdef NPV_VC
#define EXACT 1
#else
#define EXACT 0
#endif
static REAL val(const char *n) { return npv::symf(n); }
static bool same(REAL a, REAL b, REAL scale) { return EXACT ? a == b : std::abs(a - b) <= 1e-9 * (1.0 + scale); }
NPV_PROVE(line_crossing, 400) {
  const REAL xa = val("xa"), ya = val("ya"), xb = val("xb"), yb = val("yb"), y0 = val("y0"), L = npv::symf("L", 1e-3, 1e6), tol = npv::symf("tol", 0.0, 1.0) * 1e-14;
  REAL xi = 77.0, yi = 77.0;
  const bool hit = line_segment_intersection_2d_x_axis_aligned(xa, ya, xb, yb, 0.0, y0, L, xi, yi, tol);
  NPV_CHECK(!hit || yi == y0, "the reported point is on the face's line");
  NPV_CHECK(!hit || (-tol <= xi && xi <= L + tol), "the reported point is on the face");
  NPV_CHECK(!hit || same((xi - xa) * (yb - ya), (y0 - ya) * (xb - xa), 64), "the reported point is on the trajectory's line");
  NPV_CHECK(!hit || ((ya <= y0 && y0 <= yb) || (yb <= y0 && y0 <= ya)), "a crossing is reported only if the step ends on or beyond the line");
  // completeness: any point of the trajectory that is on the face is reported
  const REAL t = npv::symf("t", 0.0, 1.0), px = xa + t * (xb - xa);
#ifdef NPV_VC
  npv::assume(ya + t * (yb - ya) == y0 && 0.0 <= px && px <= L && ya != yb);
  NPV_CHECK(hit, "a step through the face is reported");
  NPV_CHECK(xi == px, "the reported point is where the step meets the face");
#else
  const REAL yt = ya + t * (yb - ya);
  if (std::abs(yb - ya) > 1e-3 && 1e-6 < px && px < L - 1e-6) {
    REAL xj, yj;
    NPV_CHECK(line_segment_intersection_2d_x_axis_aligned(xa, ya, xb, yb, 0.0, yt, L, xj, yj, tol) || t < 1e-9 || t > 1 - 1e-9, "a step through the face is reported");
  }
#endif
  NPV_REACH("end");
}
NPV_PROVE(line_crossing_y, 400) {
  const REAL xa = val("xa"), ya = val("ya"), xb = val("xb"), yb = val("yb"), x0 = val("x0"), L = npv::symf("L", 1e-3, 1e6);
  REAL xi = 77.0, yi = 77.0, u = 78.0, v = 78.0;
  const bool a = line_segment_intersection_2d_y_axis_aligned(xa, ya, xb, yb, x0, 0.0, L, xi, yi);
  const bool b = line_segment_intersection_2d_x_axis_aligned(ya, xa, yb, xb, 0.0, x0, L, v, u);
  NPV_CHECK(a == b && (!a || (xi == u && yi == v)), "the crossing of a y-aligned face is the x-aligned one with the axes exchanged");
  NPV_REACH("end");
}
NPV_PROVE(plane_crossing, 400) {
  const REAL ax = val("ax"), ay = val("ay"), az = val("az"), bx = val("bx"), by = val("by"), bz = val("bz"), z0 = val("z0");
  const REAL L = npv::symf("L", 1e-3, 1e6), M = npv::symf("M", 1e-3, 1e6), tol = npv::symf("tol", 0.0, 1.0) * 1e-14;
  REAL xi = 77.0, yi = 77.0, zi = 77.0;
  const bool hit = plane_intersection_3d_xy_plane_aligned(ax, ay, az, bx, by, bz, 0.0, 0.0, z0, L, M, xi, yi, zi, tol);
  NPV_CHECK(!hit || zi == z0, "the reported point is in the face's plane");
  NPV_CHECK(!hit || (-tol <= xi && xi <= L + tol && -tol <= yi && yi <= M + tol), "the reported point is on the face");
  NPV_CHECK(!hit || same((xi - ax) * (bz - az), (z0 - az) * (bx - ax), 64), "the reported point is on the trajectory's line (x)");
  NPV_CHECK(!hit || same((yi - ay) * (bz - az), (z0 - az) * (by - ay), 64), "the reported point is on the trajectory's line (y)");
  NPV_CHECK(!hit || ((az <= z0 && z0 <= bz) || (bz <= z0 && z0 <= az)), "a crossing is reported only if the step ends on or beyond the plane");
#ifdef NPV_VC
  const REAL t = npv::symf("t", 0.0, 1.0), px = ax + t * (bx - ax), py = ay + t * (by - ay);
  npv::assume(az + t * (bz - az) == z0 && 0.0 <= px && px <= L && 0.0 <= py && py <= M && az != bz);
  NPV_CHECK(hit, "a step through the face is reported");
  NPV_CHECK(xi == px && yi == py, "the reported point is where the step meets the face");
#endif
  NPV_REACH("end");
}
// ---- face numbering
#ifdef NPV_VC
extern "C" void *_ZTVN4NESO9Particles14CartesianHMeshE[];
struct Mesh {
  npv::storage<CartesianHMesh> m;
  npv::storage<MeshHierarchy> h;
  int nd, ng[6], s0[6], s1[6];
  int64_t cc[3];
  Mesh(int N) : nd(N) {
    *(void **)m.get() = &_ZTVN4NESO9Particles14CartesianHMeshE[2];
    h.get()->ncells_dim_fine = npv::sym("f", 1, 1 << 7);
    *const_cast<int *>(&m.get()->ndim) = N;
    new (&m.get()->mesh_hierarchy) std::shared_ptr<MeshHierarchy>(npv::raw(h.get()));
    auto *d = new std::vector<int>((std::size_t)N);
    new (&m.get()->cell_counts) std::vector<int>(3);
    for (int i = 0; i < N; i++) {
      (*d)[i] = (int)npv::sym("dims", 1, 1 << 7);
      cc[i] = (*d)[i] * h.get()->ncells_dim_fine;
      m.get()->cell_counts[i] = (int)cc[i];
    }
    new (&h.get()->dims) std::vector<int>(*d);
    static const int a[6] = {0, 1, 0, 1, 0, 0}, b[6] = {2, 2, 2, 2, 1, 1};
    int t = 0;
    for (int k = 0; k < 6; k++) {
      const bool in = k < 2 * N;
      s0[k] = in ? (int)cc[a[k]] : 0;
      s1[k] = in ? (N == 2 ? 1 : (int)cc[b[k]]) : 0;
      ng[k] = in ? s0[k] * s1[k] : 0;
      m.get()->face_strides0[k] = s0[k]; m.get()->face_strides1[k] = s1[k]; m.get()->num_geoms_per_face[k] = ng[k];
      m.get()->num_geoms_per_face_exscan[k] = t; t += ng[k]; m.get()->num_geoms_per_face_incscan[k] = t;
    }
    m.get()->ncells_face_global = t;
  }
};
template <int N, int F> static void numbering() {
  Mesh M(N);
  const int64_t f = F, i = npv::sym("i", 0, 1 << 16), j = npv::sym("j", 0, 1 << 16);
  npv::assume(i < M.s0[f] && j < M.s1[f]);
  INT t[3] = {f, i, j}, u[3] = {-7, -7, -7}, c[3] = {-7, -7, -7};
  const INT id = M.m.get()->get_face_linear_index_from_tuple(t);
  NPV_CHECK(0 <= id && id < M.m.get()->ncells_face_global, "a face cell's number is one of the mesh's face cells");
  M.m.get()->get_face_id_as_tuple(id, u);
  NPV_CHECK(u[0] == f && u[1] == i && (N == 2 || u[2] == j), "face cell numbers identify face and cell on the face");
  M.m.get()->get_mesh_tuple_owning_face_tuple(t, c);
  for (int k = 0; k < N; k++) NPV_CHECK(0 <= c[k] && c[k] < M.cc[k], "the cell behind a face cell is in the mesh");
  static const int dim[6] = {1, 0, 1, 0, 2, 2}, hi[6] = {0, 1, 1, 0, 0, 1}, a[6] = {0, 1, 0, 1, 0, 0}, b[6] = {2, 2, 2, 2, 1, 1};
  for (int k = 0; k < 2 * N; k++) if (f == k) {
    NPV_CHECK(c[dim[k]] == (hi[k] ? M.cc[dim[k]] - 1 : 0), "the cell behind a face cell touches the face");
    NPV_CHECK(c[a[k]] == i && (N == 2 || c[b[k]] == j), "the cell behind a face cell is at its place on the face");
  }
  NPV_REACH("end");
}
NPV_PROVE(face_numbering_2d_0, 1) { numbering<2, 0>(); }
NPV_PROVE(face_numbering_2d_1, 1) { numbering<2, 1>(); }
NPV_PROVE(face_numbering_2d_2, 1) { numbering<2, 2>(); }
NPV_PROVE(face_numbering_2d_3, 1) { numbering<2, 3>(); }
NPV_PROVE(face_numbering_3d_0, 1) { numbering<3, 0>(); }
NPV_PROVE(face_numbering_3d_1, 1) { numbering<3, 1>(); }
NPV_PROVE(face_numbering_3d_2, 1) { numbering<3, 2>(); }
NPV_PROVE(face_numbering_3d_3, 1) { numbering<3, 3>(); }
NPV_PROVE(face_numbering_3d_4, 1) { numbering<3, 4>(); }
NPV_PROVE(face_numbering_3d_5, 1) { numbering<3, 5>(); }
template <int N> static void tables() {
  Mesh M(N);
  npv::storage<CartesianTrajectoryIntersection> x;
  new (&x.get()->mesh) CartesianHMeshSharedPtr(npv::raw(M.m.get()));
  M.h.get()->inverse_cell_width_fine = npv::symf("iw");
  x.get()->setup();
  for (int k = 0; k < 2 * N; k++) {
    NPV_CHECK(x.get()->element_offsets[k] == M.m.get()->num_geoms_per_face_exscan[k], "elements are numbered like the mesh's face cells");
    NPV_CHECK(x.get()->element_strides0[k] == M.s0[k] && x.get()->element_strides1[k] == M.s1[k], "element strides are the extents of the faces");
  }
  NPV_CHECK(x.get()->inverse_cell_width_fine == M.h.get()->inverse_cell_width_fine, "element width");
  NPV_REACH("end");
}
NPV_PROVE(element_tables_2d, 1) { tables<2>(); }
NPV_PROVE(element_tables_3d, 1) { tables<3>(); }
#endif
#ifndef NPV_VC
#include "group.hpp"
#include "subgroup.hpp"
NPV_BOUNDED(departing_particles, 250, 3) {
  gp::World w(true, 60);
  const int nd = w.ndim, nf = 2 * nd;
  w.history(1);
  // faces to groups; some faces may be in no group
  std::map<int, std::vector<int>> groups;
  std::vector<int> gof(6, -999);
  const int ng = (int)npv::uni(1, nf);
  const bool all = npv::uni(0, 2) > 0;
  for (int f = 0; f < nf; f++) if (all || npv::uni(0, 3)) { const int g = (int)npv::uni(0, ng - 1) * 7 - 3; groups[g].push_back(f); gof[f] = g; }
  CartesianTrajectoryIntersection X(w.target, w.mesh, groups);
  X.prepare_particle_group(w.A);
  std::vector<REAL> E(3, 1.0);
  for (int i = 0; i < nd; i++) E[i] = w.mesh->global_extents[i];
  const REAL e0 = E[0], e1 = E[1], e2 = E[2];
  const REAL cw = w.mesh->cell_width_fine;
  std::vector<INT> cc(3, 1);
  for (int i = 0; i < nd; i++) cc[i] = w.mesh->cell_counts[i];
  std::map<INT, std::array<INT, 3>> seen; // element -> face and place on it
  for (int step = 0; step < 3; step++) {
    const INT salt = npv::uni(0, 1 << 20), mode = npv::uni(0, 4);
    npv::note("mode", std::to_string(mode));
    auto H = [=](INT id, INT k) { uint64_t x = (uint64_t)(id * 64 + k) * 0x9E3779B97F4A7C15ull + (uint64_t)salt; x ^= x >> 31; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 29; return (REAL)((INT)(x % 40009) - 20004) / 20005.0; };
    particle_loop(w.A, [=](auto P, auto ID) { // inside the domain
      for (int i = 0; i < nd; i++) P.at(i) = (0.5 + 0.49 * H(ID.at(0), i)) * (i == 0 ? e0 : i == 1 ? e1 : e2);
    }, Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")))->execute();
    sg::SG G;
    if (npv::uni(0, 1)) { G = sg::filter(w.A, sg::draw_pred(w)); X.pre_integration(w.A); X.pre_integration(G); }
    else X.pre_integration(w.A);
    std::set<INT> members;
    if (G) members = sg::ids(sg::members(G, w.A), gp::layers(w.A));
    auto inside = gp::flat(gp::state(w.A));
    for (auto &kv : inside) NPV_CHECK(kv.second.r[CartesianTrajectoryIntersection::previous_position_sym.name] == kv.second.r["P"], "previous positions are recorded");
    particle_loop(w.A, [=](auto P, auto ID) {
      const INT id = ID.at(0);
      for (int i = 0; i < nd; i++) {
        const REAL L = i == 0 ? e0 : i == 1 ? e1 : e2;
        if (mode == 0) P.at(i) += 0.3 * cw * H(id, 10 + i);
        else if (mode == 1) P.at(i) += 2.0 * L * H(id, 10 + i);
        else if (mode == 2) { if (i == (id % nd + nd) % nd) P.at(i) += 4.0 * L * H(id, 10 + i); } // parallel to an axis
        else if (mode == 3) { if (H(id, 20) > 0.0 && i == (id % nd + nd) % nd) P.at(i) = H(id, 21) > 0 ? L : 0.0; else P.at(i) += 0.1 * L * H(id, 10 + i); } // ends on a face
        else P.at(i) += 40.0 * L * H(id, 10 + i);
      }
    }, Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")))->execute();
    auto before = gp::flat(gp::state(w.A));
    std::map<int, sg::SG> R = G ? X.post_integration(G) : X.post_integration(w.A);
    NPV_CHECK(gp::flat(gp::state(w.A)) == before, "finding intersections changes no particle");
    std::set<INT> reported;
    for (auto &g : groups) NPV_CHECK(R.count(g.first), "there is a sub-group for each boundary group");
    for (auto &gr : R) {
      NPV_CHECK(groups.count(gr.first), "there are no other sub-groups");
      NPV_CHECK(contains_boundary_interaction_data(gr.second, nd), "the sub-groups have the intersection data");
      const INT n = gr.second->get_npart_local();
      auto la = std::make_shared<LocalArray<REAL>>(w.target, (n + 1) * 6); auto li = std::make_shared<LocalArray<INT>>(w.target, (n + 1) * 3);
      particle_loop(gr.second, [=](auto I, auto Y, auto N, auto M, auto ID, auto a, auto b) {
        const INT k = I.get_loop_linear_index();
        b.at(k * 3) = ID.at(0); b.at(k * 3 + 1) = M.at_ephemeral(0); b.at(k * 3 + 2) = M.at_ephemeral(1);
        for (int i = 0; i < nd; i++) { a.at(k * 6 + i) = Y.at_ephemeral(i); a.at(k * 6 + 3 + i) = N.at_ephemeral(i); }
      }, Access::read(ParticleLoopIndex{}), Access::read(BoundaryInteractionSpecification::intersection_point), Access::read(BoundaryInteractionSpecification::intersection_normal),
         Access::read(BoundaryInteractionSpecification::intersection_metadata), Access::read(Sym<INT>("ID")), Access::write(la), Access::write(li))->execute();
      auto va = la->get(); auto vi = li->get();
      for (INT k = 0; k < n; k++) {
        const INT id = vi[k * 3], elem = vi[k * 3 + 2];
        NPV_CHECK(reported.insert(id).second, "a particle is reported once");
        NPV_CHECK(before.count(id) && (!G || members.count(id)), "only particles given to the operation are reported");
        const std::vector<REAL> p = before[id].r["P"], q = before[id].r[CartesianTrajectoryIntersection::previous_position_sym.name];
        const REAL *y = &va[k * 6], *nrm = &va[k * 6 + 3];
        static const int dim[6] = {1, 0, 1, 0, 2, 2}, hi[6] = {0, 1, 1, 0, 0, 1}, fa[6] = {0, 1, 0, 1, 0, 0}, fb[6] = {2, 2, 2, 2, 1, 1};
        REAL tmin = 2.0;
        std::vector<REAL> tf(6, 2.0);
        for (int f = 0; f < nf; f++) {
          const int d = dim[f];
          if (hi[f] ? p[d] >= E[d] : p[d] <= 0.0) { tf[f] = ((hi[f] ? E[d] : 0.0) - q[d]) / (p[d] - q[d]); tmin = std::min(tmin, tf[f]); }
        }
        NPV_CHECK(tmin <= 1.0 + 1e-12, "only particles which leave the domain are reported");
        int face = -1;
        for (int f = 0; f < nf; f++) {
          bool m = true;
          for (int i = 0; i < nd; i++) m = m && nrm[i] == (i == dim[f] ? (hi[f] ? -1.0 : 1.0) : 0.0);
          if (m) face = f;
        }
        NPV_CHECK(face >= 0, "the normal is the inward normal of a face");
        NPV_CHECK(tf[face] <= tmin + 1e-9, "the face is the first one crossed");
        for (int i = 0; i < nd; i++) NPV_CHECK(std::abs(y[i] - (q[i] + tmin * (p[i] - q[i]))) <= 1e-8 * E[i] * 40, "the intersection point is on the trajectory");
        NPV_CHECK(y[dim[face]] == (hi[face] ? E[dim[face]] : 0.0), "the intersection point is on the face");
        NPV_CHECK(vi[k * 3 + 1] == gr.first && gof[face] == gr.first, "the particle is in the sub-group of its boundary");
        NPV_CHECK(0 <= elem && elem < w.mesh->ncells_face_global, "the element is a face cell of the mesh");
        INT t[3] = {0, 0, 0};
        w.mesh->get_face_id_as_tuple(elem, t);
        NPV_CHECK(t[0] == face, "the element identifies the face");
        const REAL u0 = y[fa[face]] / cw - t[1], u1 = nd == 3 ? y[fb[face]] / cw - t[2] : 0.5;
        NPV_CHECK(-1e-9 <= u0 && u0 <= 1 + 1e-9 && -1e-9 <= u1 && u1 <= 1 + 1e-9, "the element contains the intersection point");
        if (u0 > 1e-6 && u0 < 1 - 1e-6 && u1 > 1e-6 && u1 < 1 - 1e-6) {
          std::array<INT, 3> key{face, (INT)std::floor(y[fa[face]] / cw), nd == 3 ? (INT)std::floor(y[fb[face]] / cw) : 0};
          auto it = seen.emplace(elem, key);
          NPV_CHECK(it.first->second == key, "element identifiers are unique");
        }
        NPV_CHECK(w.mesh->get_face_id_owning_rank(elem) >= 0 && w.mesh->get_face_id_owning_rank(elem) < w.size, "an element has an owner");
      }
    }
    for (auto &kv : before) {
      if (reported.count(kv.first) || (G && !members.count(kv.first))) continue;
      const auto &p = kv.second.r["P"];
      bool out = false;
      for (int i = 0; i < nd; i++) out = out || p[i] <= 0.0 || p[i] >= E[i];
      if (!out) continue;
      // left through a face that is in no group?
      const auto &q = kv.second.r[CartesianTrajectoryIntersection::previous_position_sym.name];
      REAL tmin = 2.0; bool free_face = false;
      for (int k = 0; k < 2; k++) for (int f = 0; f < nf; f++) {
        static const int dim[6] = {1, 0, 1, 0, 2, 2}, hi[6] = {0, 1, 1, 0, 0, 1};
        const int d = dim[f];
        if (!(hi[f] ? p[d] >= E[d] : p[d] <= 0.0)) continue;
        const REAL t = ((hi[f] ? E[d] : 0.0) - q[d]) / (p[d] - q[d]);
        if (k == 0) tmin = std::min(tmin, t);
        else if (t <= tmin + 1e-9 && gof[f] == -999) free_face = true;
      }
      NPV_CHECK(free_face, "every particle that leaves through a boundary group is reported");
    }
  }
  X.free();
}
NPV_BOUNDED(face_tables_of_constructed_meshes, 60, 3) {
  gp::World w(true, 60);
  auto m = w.mesh;
  const int nd = m->ndim, nf = 2 * nd;
  std::set<INT> all;
  static const int a[6] = {0, 1, 0, 1, 0, 0}, b[6] = {2, 2, 2, 2, 1, 1};
  int own = 0;
  const auto &ow = m->get_owned_face_cells();
  for (int f = 0; f < nf; f++) {
    const INT n0 = m->cell_counts[a[f]], n1 = nd == 3 ? m->cell_counts[b[f]] : 1;
    const auto &here = m->get_all_face_cells_on_face(f);
    size_t nhere = 0;
    for (INT i = 0; i < n0; i++) for (INT j = 0; j < n1; j++) {
      INT t[3] = {f, i, j}, u[3] = {-1, -1, 0}, c[3] = {0, 0, 0};
      const INT x = m->get_face_linear_index_from_tuple(t);
      NPV_CHECK(all.insert(x).second, "face cell numbers are unique");
      m->get_face_id_as_tuple(x, u);
      NPV_CHECK(u[0] == f && u[1] == i && u[2] == j, "face cell numbers and places on the face correspond");
      m->get_mesh_tuple_owning_face_tuple(t, c);
      const int o = m->get_face_id_owning_rank(x);
      bool mine = true;
      for (int k = 0; k < nd; k++) mine = mine && c[k] >= m->cell_starts[k] && c[k] < m->cell_ends[k];
      NPV_CHECK(mine == (o == w.rank), "a face cell is owned by the rank owning the cell behind it");
      NPV_CHECK((std::find(ow.begin(), ow.end(), x) != ow.end()) == mine, "owned face cells are listed");
      NPV_CHECK((std::find(here.begin(), here.end(), x) != here.end()) == mine, "owned face cells are listed for their face");
      own += mine; nhere += mine;
    }
    NPV_CHECK(here.size() == nhere, "no other face cell is listed for a face");
  }
  NPV_CHECK((int)m->get_owned_face_cells().size() == own, "no other face cell is listed as owned");
  NPV_CHECK((INT)all.size() == m->ncells_face_global && *all.begin() == 0 && *all.rbegin() == (INT)all.size() - 1, "face cells are numbered from zero without gaps");
}
#endif
