// C14: the mesh hierarchy's cell numbering is a bijection consistent with geometry
//@ srcs: src/mesh_hierarchy.cpp
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
using namespace NESO::Particles;
// a hierarchy with the sizes of one with the given dimensions; its constructor, which opens an MPI window, is not run
static MeshHierarchy *sized(npv::storage<MeshHierarchy> &s, int ndim, const int64_t *d, int64_t f) {
  MeshHierarchy *m = s.get();
  m->ndim = ndim;
  m->dims = std::vector<int>((std::size_t)ndim);
  INT nc = 1, nf = 1;
  for (int i = 0; i < ndim; i++) { m->dims[i] = (int)d[i]; nc *= d[i]; nf *= f; }
  m->ncells_coarse = nc; m->ncells_dim_fine = f; m->ncells_fine = nf; m->ncells_global = nc * nf;
  return m;
}
template <int N> static void tuple_of_linear() {
  npv::storage<MeshHierarchy> s;
  const int64_t d[3] = {npv::sym("d0", 1, 1 << 12, 6), npv::sym("d1", 1, 1 << 12, 6), npv::sym("d2", 1, 1 << 12, 6)}, f = npv::sym("f", 1, 1 << 7, 4);
  MeshHierarchy *m = sized(s, N, d, f);
  const INT x = npv::sym("cell", 0, 1ll << 50, 5000);
  npv::assume(x < m->ncells_global);
  INT t[2 * N];
  m->linear_to_tuple_global(x, t);
  for (int i = 0; i < N; i++) {
    NPV_CHECK(0 <= t[i] && t[i] < d[i], "coarse indices are within the coarse dimensions");
    NPV_CHECK(0 <= t[N + i] && t[N + i] < f, "fine indices are within the fine dimensions");
  }
  NPV_CHECK(m->tuple_to_linear_global(t) == x, "the linear index is recovered from the tuple");
  INT c[N], e[N];
  const INT y = npv::sym("coarse", 0, 1ll << 36, 300), z = npv::sym("fine", 0, 1ll << 21, 64);
  npv::assume(y < m->ncells_coarse && z < m->ncells_fine);
  m->linear_to_tuple_coarse(y, c);
  m->linear_to_tuple_fine(z, e);
  for (int i = 0; i < N; i++) NPV_CHECK(0 <= c[i] && c[i] < d[i] && 0 <= e[i] && e[i] < f, "coarse and fine indices are within their dimensions");
  NPV_CHECK(m->tuple_to_linear_coarse(c) == y && m->tuple_to_linear_fine(e) == z, "coarse and fine linear indices are recovered from their tuples");
  NPV_REACH("end");
}
NPV_PROVE(tuple_of_linear_1d, 300) { tuple_of_linear<1>(); }
NPV_PROVE(tuple_of_linear_2d, 300) { tuple_of_linear<2>(); }
NPV_PROVE(tuple_of_linear_3d, 300) { tuple_of_linear<3>(); }
template <int N> static void linear_of_tuple() {
  npv::storage<MeshHierarchy> s;
  const int64_t d[3] = {npv::sym("d0", 1, 1 << 12, 6), npv::sym("d1", 1, 1 << 12, 6), npv::sym("d2", 1, 1 << 12, 6)}, f = npv::sym("f", 1, 1 << 7, 4);
  MeshHierarchy *m = sized(s, N, d, f);
  INT t[2 * N], u[2 * N];
  for (int i = 0; i < N; i++) { t[i] = npv::sym("c", 0, (1 << 12) - 1, 5); npv::assume(t[i] < d[i]); t[N + i] = npv::sym("e", 0, (1 << 7) - 1, 3); npv::assume(t[N + i] < f); }
  const INT x = m->tuple_to_linear_global(t);
  NPV_CHECK(0 <= x && x < m->ncells_global, "linear indices are within the number of cells");
  m->linear_to_tuple_global(x, u);
  for (int i = 0; i < N; i++) NPV_CHECK(u[N + i] == t[N + i] && u[i] == t[i], "the tuple is recovered from the linear index");
  MeshHierarchyDeviceMapper p{};
  INT pd[3] = {d[0], d[1], d[2]};
  p.ndim = N; p.dims = pd; p.ncells_dim_fine = m->ncells_dim_fine; p.ncells_fine = m->ncells_fine;
  NPV_CHECK(p.tuple_to_linear_global(t) == x, "host and device linear indices agree");
  INT a[N], b[2 * N];
  p.map_tuple_to_cart_tuple(t, a);
  p.cart_tuple_to_tuple(a, b);
  for (int i = 0; i < N; i++) {
    NPV_CHECK(a[i] == t[i] * f + t[N + i], "the Cartesian index counts fine cells from the origin");
    NPV_CHECK(b[i] == t[i] && b[N + i] == t[N + i], "the tuple is recovered from the Cartesian index");
  }
  NPV_REACH("end");
}
NPV_PROVE(linear_of_tuple_1d, 300) { linear_of_tuple<1>(); }
NPV_PROVE(linear_of_tuple_2d, 300) { linear_of_tuple<2>(); }
NPV_PROVE(linear_of_tuple_3d, 300) { linear_of_tuple<3>(); }
template <int N> static void cell_of_position() {
  const int64_t f = npv::sym("f", 1, 1 << 7, 4);
  const REAL w = npv::symf("w");
  npv::assume(w > 0.0);
  INT d[N]; REAL o[N], p[N];
  for (int i = 0; i < N; i++) {
    d[i] = npv::sym("d", 1, 1 << 12, 6); o[i] = npv::symf("o"); p[i] = npv::symf("p");
    npv::assume(o[i] <= p[i] && p[i] - o[i] <= d[i] * w);
  }
  MeshHierarchyDeviceMapper m{};
  m.ndim = N; m.origin = o; m.dims = d; m.cell_width_coarse = w; m.cell_width_fine = w / (REAL)f;
  m.inverse_cell_width_coarse = 1.0 / w; m.inverse_cell_width_fine = (REAL)f / w; m.ncells_dim_fine = f; m.ncells_fine = f;
  INT t[2 * N], a[N];
  m.map_to_tuple(p, t);
  m.map_to_cart_tuple_no_trunc(p, a);
  for (int i = 0; i < N; i++) {
    NPV_CHECK(0 <= t[i] && t[i] < d[i], "the coarse cell of a position in the domain is a cell of the domain");
    NPV_CHECK(npv::leq(o[i] + t[i] * w, p[i]) && npv::leq(p[i], o[i] + (t[i] + 1) * w), "the coarse cell contains the position");
    NPV_CHECK(0 <= t[N + i] && t[N + i] < f, "the fine cell of a position in the domain is a cell of the coarse cell");
    NPV_CHECK(npv::leq((p[i] - o[i] - t[i] * w) * f, (t[N + i] + 1) * w) && npv::leq(t[N + i] * w, (p[i] - o[i] - t[i] * w) * f), "the fine cell contains the position");
    NPV_CHECK(npv::leq(a[i] * w, (p[i] - o[i]) * f) && npv::leq((p[i] - o[i]) * f, (a[i] + 1) * w), "the untruncated Cartesian cell contains the position");
  }
  NPV_REACH("end");
}
NPV_PROVE(cell_of_position_1d, 600) { cell_of_position<1>(); }
NPV_PROVE(cell_of_position_2d, 300) { cell_of_position<2>(); }
NPV_PROVE(cell_of_position_3d, 300) { cell_of_position<3>(); }
NPV_PROVE(cartesian_cell_outside, 600) {
  const int64_t f = npv::sym("f", 1, 1 << 7, 4);
  REAL w = npv::symf("w"), o = npv::symf("o"), p = npv::symf("p");
  npv::assume(w > 0.0);
  const REAL span = (p - o) * f;
  npv::assume(span < 1e15 * w && -span < 1e15 * w); // cell indices are representable
  MeshHierarchyDeviceMapper m{};
  m.ndim = 1; m.origin = &o; m.inverse_cell_width_fine = (REAL)f / w;
  INT a;
  m.map_to_cart_tuple_no_trunc(&p, &a);
  NPV_CHECK(npv::leq(a * w, (p - o) * f) && npv::leq((p - o) * f, (a + 1) * w), "the untruncated Cartesian cell of any position contains it");
  NPV_CHECK((p < o) == (a < 0), "negative indices are exactly those before the origin");
  NPV_REACH("end");
}
#ifndef NPV_VC
static std::shared_ptr<MeshHierarchy> draw_mh(int maxcells = 600) {
  const int ndim = (int)npv::sym("ndim", 1, 3, 3);
  std::vector<int> dims(ndim);
  std::vector<double> origin(ndim);
  const int so = (int)npv::sym("order", 0, 3, 3);
  int64_t tot = 1;
  for (int d = 0; d < ndim; d++) { dims[d] = (int)npv::sym("dim", 1, 7, 7); origin[d] = npv::uni(-6, 6) / 4.0; tot *= dims[d] << so; }
  if (tot > maxcells) throw npv::discard_t{};
  return std::make_shared<MeshHierarchy>(MPI_COMM_WORLD, ndim, dims, origin, npv::uni(1, 8) / 4.0, so);
}
NPV_BOUNDED(owner_is_the_heaviest_claimant, 120, 4) {
  auto m = draw_mh(150);
  int rank, size;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &size);
  for (int round = 0; round < 2; round++) {
    std::vector<std::vector<int>> c(m->ncells_global, std::vector<int>(size, 0)); // heaviest claim per rank, 0 if none
    m->claim_initialise();
    const int nclaim = (int)npv::uni(0, 3 * m->ncells_global);
    for (int k = 0; k < nclaim; k++) {
      const int r = (int)npv::uni(0, size - 1), w = npv::uni(0, 3) ? (int)npv::uni(1, 4) : (int)npv::uni(1, 2147483646);
      const INT x = npv::uni(0, m->ncells_global - 1);
      c[x][r] = std::max(c[x][r], w);
      if (r == rank) m->claim_cell(x, w);
    }
    m->claim_finalise();
    for (INT x = 0; x < m->ncells_global; x++) {
      const int o = m->get_owner(x), best = *std::max_element(c[x].begin(), c[x].end());
      if (best == 0) { NPV_CHECK(o < 0, "a cell nobody claimed has no owner"); continue; }
      NPV_CHECK(o >= 0 && o < size && c[x][o] == best, "the owner claimed the cell with the largest weight");
      INT t[6]; int q = -9;
      m->linear_to_tuple_global(x, t); m->get_owners(1, t, &q);
      NPV_CHECK(q == o, "owners can be asked for by tuple");
    }
  }
  m->free();
}
NPV_BOUNDED(neighbours, 400, 1) {
  auto m = draw_mh(300);
  const int nd = m->ndim; const INT f = m->ncells_dim_fine;
  const INT off = npv::sym("offset", 0, 9, 9); const bool pbc = npv::sym("pbc", 0, 1, 1);
  auto cart = [&](INT x) { INT t[6]; m->linear_to_tuple_global(x, t); std::vector<INT> r(nd); for (int i = 0; i < nd; i++) r[i] = t[i] * f + t[nd + i]; return r; };
  auto adjacent = [&](INT x, INT y) {
    auto a = cart(x), b = cart(y);
    for (int i = 0; i < nd; i++) {
      const INT n = m->dims[i] * f; INT d = std::abs(a[i] - b[i]);
      if (pbc) d = std::min(d, n - d);
      if (d > off) return false;
    }
    return true;
  };
  std::vector<INT> cells, extra, out{7, 7};
  for (int k = (int)npv::uni(0, 3); k--;) cells.push_back(npv::uni(0, m->ncells_global - 1));
  for (int k = (int)npv::uni(0, 2); k--;) extra.push_back(npv::uni(0, m->ncells_global - 1));
  std::set<INT> want(cells.begin(), cells.end());
  want.insert(extra.begin(), extra.end());
  for (INT c : cells) {
    std::set<INT> got, ref;
    get_neighbour_mh_cells(m, c, off, pbc, got);
    for (INT y = 0; y < m->ncells_global; y++) if (y != c && adjacent(c, y)) ref.insert(y);
    NPV_CHECK(got == ref, "neighbours are exactly the other cells within the offset");
    want.insert(ref.begin(), ref.end());
  }
  get_neighbour_mh_cells(m, cells, extra, off, pbc, out);
  NPV_CHECK(std::set<INT>(out.begin(), out.end()) == want && out.size() == want.size(), "cells, extra cells and all neighbours, each once");
  m->free();
}
NPV_BOUNDED(constructed_hierarchy_maps_positions, 400, 1) {
  auto m = draw_mh(5000);
  auto t = h_target();
  const int nd = m->ndim; const INT f = m->ncells_dim_fine;
  NPV_CHECK(m->ncells_global == m->ncells_coarse * m->ncells_fine && f == 1 << m->subdivision_order, "cell counts");
  MeshHierarchyMapper mm(t, m);
  auto h = mm.get_host_mapper(), dm = mm.get_device_mapper();
  const int n = (int)npv::uni(1, 40);
  std::vector<REAL> pos(n * nd);
  for (int k = 0; k < n; k++) for (int i = 0; i < nd; i++) {
    const INT tot = m->dims[i] * f;
    switch (npv::uni(0, 2)) { case 0: pos[k * nd + i] = m->origin[i] + npv::uni(0, tot) * m->cell_width_fine; break; // faces
      default: pos[k * nd + i] = m->origin[i] + npv::unif() * tot * m->cell_width_fine; }
  }
  std::vector<INT> lin(n), tup(n * 2 * nd);
  BufferDevice<REAL> bp(t, pos); BufferDevice<INT> bl(t, lin), bt(t, tup);
  REAL *p = bp.ptr; INT *l = bl.ptr, *q = bt.ptr;
  t->queue.parallel_for(sycl::range<1>(n), [=](sycl::id<1> k) { dm.map_to_tuple(p + k * nd, q + k * 2 * nd); l[k] = dm.tuple_to_linear_global(q + k * 2 * nd); }).wait();
  lin = bl.get(); tup = bt.get();
  std::set<INT> all;
  for (int k = 0; k < n; k++) {
    INT u[6];
    h.map_to_tuple(&pos[k * nd], u);
    for (int i = 0; i < 2 * nd; i++) NPV_CHECK(u[i] == tup[k * 2 * nd + i], "host and device agree");
    for (int i = 0; i < nd; i++) {
      const REAL lo = m->origin[i] + (u[i] * f + u[nd + i]) * m->cell_width_fine, x = pos[k * nd + i], tol = 1e-9 * (1 + std::abs(x));
      NPV_CHECK(0 <= u[i] && u[i] < m->dims[i] && 0 <= u[nd + i] && u[nd + i] < f, "a cell of the mesh");
      NPV_CHECK(lo - tol <= x && x <= lo + m->cell_width_fine + tol, "the cell contains the position");
      if (x < m->origin[i] + m->dims[i] * f * m->cell_width_fine) NPV_CHECK(x < lo + m->cell_width_fine + tol && x >= lo - tol, "faces belong to the upper cell");
    }
    NPV_CHECK(lin[k] == m->tuple_to_linear_global(u) && lin[k] >= 0 && lin[k] < m->ncells_global, "device linear index");
  }
  m->free();
}
#endif
