// C28: shared geometry helpers are conservative
//@ opts: {"smallloops": 8, "symunroll": 8}
#include <neso_particles.hpp>
#include <neso_particles/external_interfaces/common/bounding_box.hpp>
#include <neso_particles/external_interfaces/common/local_claim.hpp>
#include <neso_particles/external_interfaces/common/overlay_cartesian_mesh.hpp>
#include <npv.hpp>
#include "common.hpp"
#ifdef NPV_VC
#include "src/external_interfaces/common/overlay_cartesian_mesh.cpp"
#include "src/external_interfaces/common/local_claim.cpp"
#endif
using namespace NESO::Particles;
using namespace NESO::Particles::ExternalCommon;
struct Overlay : OverlayCartesianMesh { // access to protected members
  using OverlayCartesianMesh::OverlayCartesianMesh;
  using OverlayCartesianMesh::get_cell_in_dimension_lower;
  using OverlayCartesianMesh::get_cell_in_dimension_upper;
};
NPV_PROVE(boxes, 300) {
  // a box that holds two arbitrary boxes, added in turn to the empty box
  std::vector<REAL> a(6), b(6), p(3);
  for (auto &x : a) x = npv::symf("a", -1e150, 1e150);
  for (auto &x : b) x = npv::symf("b", -1e150, 1e150);
  for (auto &x : p) x = npv::symf("p", -1e150, 1e150);
  auto A = std::make_shared<BoundingBox>(a), B = std::make_shared<BoundingBox>(b);
  BoundingBox E;
  const int k = (int)npv::sym("k", 0, 2);
  E.expand(A);
  for (int d = 0; d < 3; d++) NPV_CHECK(E.lower(d) == a[d] && E.upper(d) == a[3 + d], "the empty box expanded by a box is that box");
  E.expand(B);
  for (int d = 0; d < 3; d++) {
    NPV_CHECK(E.lower(d) <= a[d] && E.lower(d) <= b[d] && a[3 + d] <= E.upper(d) && b[3 + d] <= E.upper(d), "an expanded box contains what was added");
    NPV_CHECK((E.lower(d) == a[d] || E.lower(d) == b[d]) && (E.upper(d) == a[3 + d] || E.upper(d) == b[3 + d]), "an expanded box is no larger than what was added");
    NPV_CHECK(A->lower(d) == a[d] && B->upper(d) == b[3 + d], "adding a box does not change it");
  }
  for (int n = 1; n <= 3; n++) {
    bool in = true;
    for (int d = 0; d < n; d++) in = in && a[d] <= p[d] && p[d] <= a[3 + d];
    NPV_CHECK(A->contains_point(n, p) == in, "a box contains exactly the points between its bounds");
  }
  NPV_REACH("end");
}
NPV_PROVE(overlap, 400) {
  const REAL l = npv::symf("l"), r = npv::symf("r"), w = npv::symf("w", 1e-300, 1e300);
  const int c = (int)npv::sym("c", -(1 << 20), 1 << 20, 4);
  const REAL s = c * w, o = overlap_1d(l, r, c, w);
  const REAL lo = l > s ? l : s, hi = r < s + w ? r : s + w;
  NPV_CHECK(o >= 0.0, "an overlap is not negative");
  NPV_CHECK(npv::near(o, hi > lo ? hi - lo : 0.0), "the overlap is the length of the part of the interval in the cell");
  NPV_REACH("end");
}
template <int N, int d> static void overlay() {
  auto t = h_target();
  std::vector<REAL> o(N), e(N);
  std::vector<int> n(N);
  for (auto &x : o) x = npv::symf("origin");
  for (auto &x : e) x = npv::symf("extent", 1e-300, 1e300);
  for (auto &x : n) x = (int)npv::sym("n", 1, 1 << 10, 5);
  npv::storage<Overlay> st;
  Overlay *m = new (st.get()) Overlay(t, N, o, e, n);
  const REAL w = e[d] / n[d], u = npv::symf("u", -1e6, 1e6), v = npv::symf("v", -1e6, 1e6);
  const REAL lo = o[d] + u * w, hi = o[d] + v * w; // any interval, in units of the cell width
  const int c = (int)npv::sym("cell", 0, (1 << 10) - 1, 5);
  npv::assume(c < n[d] && u <= v);
  const int a = m->get_cell_in_dimension_lower(d, lo), b = m->get_cell_in_dimension_upper(d, hi);
  NPV_CHECK(0 <= a && b <= n[d] && a < b, "the cells of a box are cells of the mesh");
  NPV_CHECK(!(u <= c + 1.0 - 1e-9 && v >= c + 1e-9) || (a <= c && c < b), "every cell that a box touches is returned");
  NPV_CHECK(!(u > c + 1.0 + 1e-9 && c < n[d] - 1) || c < a || !(w > 1e-6), "no cell below the box is returned");
  NPV_CHECK(!(v < c - 1e-9 && c > 0) || c >= b || !(w > 1e-6), "no cell above the box is returned");
  if (0.0 <= u && u <= n[d]) {
    const int g = m->get_cell_in_dimension(d, lo), h = m->get_host_mapper().get_cell_in_dimension(d, lo), k = m->get_device_mapper().get_cell_in_dimension(d, lo);
    NPV_CHECK(g == h && g == k, "host and device agree on the cell of a point");
    NPV_CHECK(0 <= g && g < n[d] && g <= u + 1e-9 && u <= g + 1.0 + 1e-9, "the cell of a point contains it");
  }
  NPV_REACH("end");
  m->~Overlay();
}
NPV_PROVE(overlay_1d, 100) { overlay<1, 0>(); }
NPV_PROVE(overlay_2d_0, 100) { overlay<2, 0>(); }
NPV_PROVE(overlay_2d_1, 100) { overlay<2, 1>(); }
NPV_PROVE(overlay_3d_0, 100) { overlay<3, 0>(); }
NPV_PROVE(overlay_3d_1, 100) { overlay<3, 1>(); }
NPV_PROVE(overlay_3d_2, 100) { overlay<3, 2>(); }
// linear indices are a bijection between cell tuples and [0, count)
template <int N> static void indices() {
  auto t = h_target();
  std::vector<REAL> o(N), e(N);
  std::vector<int> n(N), x(N), y(N);
  for (auto &v : e) v = 1.0;
  for (auto &v : n) v = (int)npv::sym("n", 1, 1 << 10, 5);
  npv::storage<Overlay> st;
  Overlay *m = new (st.get()) Overlay(t, N, o, e, n);
  for (int i = 0; i < N; i++) { x[i] = (int)npv::sym("x", 0, (1 << 10) - 1, 5); y[i] = (int)npv::sym("y", 0, (1 << 10) - 1, 5); npv::assume(x[i] < n[i] && y[i] < n[i]); }
  const int a = m->get_linear_cell_index(x), b = m->get_linear_cell_index(y);
  auto H = m->get_host_mapper(), D = m->get_device_mapper();
  bool same = true;
  int64_t count = 1;
  for (int i = 0; i < N; i++) { same = same && x[i] == y[i]; count *= n[i]; }
  NPV_CHECK(0 <= a && a < count, "a linear index numbers a cell of the mesh");
  NPV_CHECK(same || a != b, "different cells have different linear indices");
  NPV_CHECK(H.get_linear_cell_index(x) == a && D.get_linear_cell_index(x) == a, "host and device agree on the linear index");
  NPV_CHECK(m->get_cell_count() == count, "the cell count is the number of cells");
  const int k = (int)npv::sym("dim", 0, N - 1), z = (int)npv::sym("z", -(1 << 20), 1 << 20, 8);
  NPV_CHECK(H.valid_linear_cell_index(x) && D.valid_linear_cell_index(x), "the tuple of a cell is valid");
  for (int i = 0; i < N; i++) if (i == k) x[i] = z;
  bool in = true;
  for (int i = 0; i < N; i++) in = in && 0 <= x[i] && x[i] < n[i];
  NPV_CHECK(H.valid_linear_cell_index(x) == in && D.valid_linear_cell_index(x) == in, "exactly the tuples of cells are valid");
  NPV_REACH("end");
  m->~Overlay();
}
NPV_PROVE(indices_1d, 100) { indices<1>(); }
NPV_PROVE(indices_2d, 100) { indices<2>(); }
NPV_PROVE(indices_3d, 100) { indices<3>(); }
NPV_PROVE(mesh_tuple, 100) {
  npv::storage<MeshHierarchy> st;
  MeshHierarchy *h = st.get();
  const INT f = npv::sym("fine", 1, 1 << 10, 8);
  *const_cast<INT *>(&h->ncells_dim_fine) = f;
  int64_t x[3]; INT y[6];
  for (auto &v : x) v = npv::sym("x", 0, 1 << 20, 60);
  mesh_tuple_to_mh_tuple(3, x, npv::raw(h), y);
  for (int i = 0; i < 3; i++) NPV_CHECK(y[i] * f + y[3 + i] == x[i] && 0 <= y[3 + i] && y[3 + i] < f, "the mesh hierarchy tuple is the same cell as the mesh tuple");
  NPV_REACH("end");
}
#ifndef NPV_VC
NPV_BOUNDED(overlay_boxes, 400, 1) {
  auto t = h_target();
  const int N = (int)npv::sym("ndim", 1, 3, 3);
  std::vector<REAL> o(N), e(N);
  std::vector<int> n(N);
  for (auto &x : o) x = npv::randf() * 3;
  for (auto &x : e) x = npv::uni(1, 8) * (npv::uni(0, 1) ? 0.5 : 0.3);
  for (auto &x : n) x = (int)npv::uni(1, 6);
  std::shared_ptr<OverlayCartesianMesh> m;
  if (npv::uni(0, 1)) m = std::make_shared<OverlayCartesianMesh>(t, N, o, e, n);
  else {
    std::vector<REAL> b(6, 0.0);
    for (int i = 0; i < N; i++) { b[i] = o[i]; b[3 + i] = o[i] + e[i]; }
    const int want = (int)npv::uni(1, 40);
    m = create_overlay_mesh(t, N, std::make_shared<BoundingBox>(b), want);
    n = m->cell_counts;
    NPV_CHECK(m->get_cell_count() >= want, "an overlay mesh has at least as many cells as asked for");
    for (int i = 0; i < N; i++) NPV_CHECK(m->origin[i] == o[i] && npv::near(m->extents[i], e[i]), "an overlay mesh covers its box");
  }
  for (int r = 0; r < 4; r++) {
    std::vector<REAL> b(6, 0.0);
    for (int i = 0; i < N; i++) {
      const REAL w = m->cell_widths[i];
      auto coord = [&]() -> REAL { return npv::uni(0, 1) ? o[i] + npv::uni(-1, n[i] + 1) * w : o[i] + (npv::unif() * (n[i] + 2) - 1) * w; };
      const REAL p = coord(), q = coord();
      b[i] = std::min(p, q); b[3 + i] = std::max(p, q);
    }
    auto B = std::make_shared<BoundingBox>(b);
    std::vector<int> cells;
    m->get_intersecting_cells(B, cells);
    std::map<int, int> got;
    for (int c : cells) { got[c]++; NPV_CHECK(0 <= c && c < m->get_cell_count(), "the cells of a box are cells of the mesh"); NPV_CHECK(got[c] == 1, "each cell is returned once"); }
    std::vector<int> x(3, 0), N3(3, 1);
    for (int i = 0; i < N; i++) N3[i] = n[i];
    for (x[0] = 0; x[0] < N3[0]; x[0]++) for (x[1] = 0; x[1] < N3[1]; x[1]++) for (x[2] = 0; x[2] < N3[2]; x[2]++) {
      std::vector<int> y(x.begin(), x.begin() + N);
      auto C = m->get_bounding_box(y);
      bool touch = true, near = true;
      for (int i = 0; i < N; i++) {
        const REAL w = m->cell_widths[i];
        NPV_CHECK(npv::near(C->lower(i), o[i] + y[i] * w) && npv::near(C->upper(i), o[i] + (y[i] + 1) * w), "the bounding box of a cell is the cell");
        const REAL eps = 1e-9 * (w + std::abs(o[i]));
        touch = touch && b[i] <= C->upper(i) - eps && b[3 + i] >= C->lower(i) + eps;
        // outside the mesh the outermost cells stand for everything beyond them
        near = near && (b[i] <= C->upper(i) + eps || y[i] == n[i] - 1) && (b[3 + i] >= C->lower(i) - eps || y[i] == 0);
      }
      const int lin = m->get_linear_cell_index(y);
      NPV_CHECK(!touch || got.count(lin), "every cell that a box touches is returned");
      NPV_CHECK(near || !got.count(lin), "no cell away from the box is returned");
    }
  }
}
NPV_BOUNDED(claims, 400, 1) {
  LocalClaim L;
  std::map<int64_t, std::pair<int, double>> ref;
  const int ops = (int)npv::sym("ops", 0, 60, 60);
  for (int k = 0; k < ops; k++) {
    const int64_t c = npv::uni(-2, 8); const int w = (int)npv::uni(-3, 6); const double f = npv::unif();
    L.claim(c, w, f);
    if (w > 0 && (!ref.count(c) || w > ref[c].first)) ref[c] = {w, f};
    NPV_CHECK(L.claim_cells.size() == ref.size() && L.claim_weights.size() == ref.size(), "exactly the cells claimed with a positive weight are claimed");
    for (auto &kv : ref) {
      NPV_CHECK(L.claim_cells.count(kv.first) && L.claim_weights.count(kv.first), "exactly the cells claimed with a positive weight are claimed");
      NPV_CHECK(L.claim_weights[kv.first].weight == kv.second.first && L.claim_weights[kv.first].weightf == kv.second.second, "a claim has the largest weight claimed");
    }
  }
}
NPV_BOUNDED(box_claims, 200, 1) {
  const int nd = (int)npv::sym("ndim", 1, 3, 3);
  std::vector<int> dims(nd);
  for (auto &d : dims) d = (int)npv::uni(1, 3);
  std::vector<double> og(nd);
  for (auto &x : og) x = npv::uni(-2, 2) * 0.5;
  const int sub = (int)npv::uni(0, 2);
  const double ext = npv::uni(1, 4) * 0.5;
  auto mh = std::make_shared<MeshHierarchy>(MPI_COMM_WORLD, nd, dims, og, ext, sub);
  const double w = mh->cell_width_fine;
  LocalClaim L; MHGeomMap G;
  std::map<INT, std::deque<int>> refg; std::map<INT, double> best;
  const int elements = (int)npv::sym("elements", 1, 5, 5);
  for (int el = 0; el < elements; el++) {
    std::vector<REAL> b(6, 0.0);
    for (int i = 0; i < nd; i++) {
      const int n = dims[i] * (int)mh->ncells_dim_fine;
      auto coord = [&]() -> REAL { return npv::uni(0, 2) == 0 ? og[i] + npv::uni(-1, n + 1) * w : og[i] + (npv::unif() * (n + 4) - 2) * w; };
      const REAL p = coord(), q = coord();
      b[i] = std::min(p, q); b[3 + i] = std::max(p, q);
    }
    auto B = std::make_shared<BoundingBox>(b);
    std::deque<std::pair<INT, double>> cells;
    bounding_box_map(B, mh, cells);
    std::map<INT, double> got;
    for (auto &c : cells) { NPV_CHECK(!got.count(c.first), "a box maps to each cell once"); got[c.first] = c.second; }
    std::vector<int> x(3, 0), N3(3, 1);
    for (int i = 0; i < nd; i++) N3[i] = dims[i] * (int)mh->ncells_dim_fine;
    std::map<INT, double> ref;
    for (x[0] = 0; x[0] < N3[0]; x[0]++) for (x[1] = 0; x[1] < N3[1]; x[1]++) for (x[2] = 0; x[2] < N3[2]; x[2]++) {
      double v = 1.0;
      INT tup[6];
      for (int i = 0; i < nd; i++) {
        const double lo = std::max(og[i] + x[i] * w, b[i]), hi = std::min(og[i] + (x[i] + 1) * w, b[3 + i]);
        v *= std::max(0.0, hi - lo);
        tup[i] = x[i] / mh->ncells_dim_fine; tup[nd + i] = x[i] % mh->ncells_dim_fine;
      }
      const INT c = mh->tuple_to_linear_global(tup);
      const double tol = 1e-9 * std::pow(std::max(1.0, w), nd);
      if (v > tol) NPV_CHECK(got.count(c), "a box maps to every cell it overlaps");
      if (got.count(c)) NPV_CHECK(std::abs(got[c] - v) <= tol, "a box maps to a cell with the volume of the overlap");
    }
    for (auto &kv : got) { refg[kv.first].push_back(el); best[kv.first] = std::max(best[kv.first], kv.second); }
    bounding_box_claim(el, B, mh, L, G);
  }
  NPV_CHECK(G == refg, "each element is recorded in the cells its box overlaps");
  for (auto &kv : best) {
    const double ratio = kv.second / std::pow(w, nd);
    if (ratio * 1e6 < 1.5 && !L.claim_weights.count(kv.first)) continue; // below the resolution of a weight
    NPV_CHECK(L.claim_weights.count(kv.first), "each cell a box overlaps is claimed");
    NPV_CHECK(std::abs(L.claim_weights[kv.first].weight - ratio * 1e6) <= 2.0, "the weight of a claim is the largest fraction of the cell covered by a box");
  }
  mh->free();
}
#endif
