// C30: cell-wise reductions and extractions equal their sequential definition.
//@ replace: sycl::reduce_over_group<.*long => npvr_over_group_int: reduce_over_group is the reduction of the values of the work items of the group (SYCL)
//@ replace: sycl::reduce_over_group<.*double => npvr_over_group_real: reduce_over_group is the reduction of the values of the work items of the group (SYCL)
//@ replace: get_resource<NESO::Particles::BufferDevice<int> => npvr_device_int: get_resource returns a buffer nobody else uses (C26)
//@ replace: restore_resource< => npvr_restore: restore_resource only takes the buffer back (C26)
//@ replace: BufferBase<int>::realloc_no_copy => npvr_room_int: realloc_no_copy provides room for the elements (C20)
//@ replace: ParticleSubGroup::create_if_required => npvr_create_parent: create_if_required makes the selection current (C11)
//@ replace: ParticleSubGroup::get_selection => npvr_selection: get_selection is the selection of the sub-group
//@ replace: DeviceLimits::validate_nd_range => npvr_same_range: validate_nd_range is the range it is given (C03)
//@ assume: item-wise contracts (see C09): any cell, any work item; the reduction of the values of the strided parts is that of all values (any order)
//@ opts: {"smallloops": 8, "symunroll": 8}
#define NPV_ITEMWISE
#include "npv.hpp"
#include <neso_particles.hpp>
#include <neso_particles/algorithms/algorithms.hpp>
#include "subgroup.hpp"
//@ design: Proved for all cells, particle numbers, work items and work-group sizes: reduce_dat_component(s)_cellwise over groups and sub-groups (sums, minima, maxima): a work item contributes exactly its strided part of the cell's values, and one work item combines the reduction of the cell with the named element; every other element keeps its value (matrices of 2x3 and 3x2, or any array of offsets). Assumed: the group reduction of the strided parts is that of all values. Bounded: groups of up to 120 particles, whole groups and nested sub-groups, all three operations, matrices of up to 3x3, histories between the calls; integer results exact, floating-point sums within the rounding of any order; counts, element loops, unseen values and copies.
#ifdef NPV_VC
#include "vcdats.hpp"
#include "vcmesh.hpp"
#include "src/algorithms/reduce_dat_cellwise.cpp"
#include "src/particle_sub_group/particle_sub_group_base.cpp"
namespace si = ParticleSubGroupImplementation;
namespace {
template <typename T> struct RedT {
  npv::storage<ParticleGroup> g;
  npv::storage<ParticleSubGroup> sub;
  npv::storage<Domain> dom;
  npv::storage<ParticleDatT<T>> d;
  npv::storage<CellDatConst<T>> out;
};
struct Red {
  SYCLTargetSharedPtr T_;
  int64_t ncell, c, l, local, ncomp, comp; // the cell, the work item, the size of the work-group, the component
  bool whole, current; int op, items;
  int *np;
  INT ***di; REAL ***dr; INT **map;
  INT ri; REAL rr; // the reduction of the values of the cell
  npv::storage<ParticleSubGroup> *sub;
  si::Selection sel;
};
Red *R;
template <typename T> T part(T ***d, int o) { // the values of every local-th row from row l
  auto *m = R;
  const int64_t n = m->np[m->c], L = m->local;
  const T *x = d[m->c][m->comp];
  const INT *q = m->map[m->c];
  T v = o == 0 ? T(0) : o == 1 ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
  if (m->whole) for (size_t i = m->l; i < (size_t)n; i += L) v = o == 0 ? v + x[i] : o == 1 ? (x[i] < v ? x[i] : v) : (v < x[i] ? x[i] : v);
  else for (size_t i = m->l; i < (size_t)n; i += L) v = o == 0 ? v + x[q[i]] : o == 1 ? (x[q[i]] < v ? x[q[i]] : v) : (v < x[q[i]] ? x[q[i]] : v);
  return v;
}
}
extern "C" void npvr_create_parent(ParticleSubGroup *g) { R->current = true; }
extern "C" const si::Selection *npvr_selection(ParticleSubGroup *g) { NPV_CHECK(R->current, "the sub-group is current"); return &R->sel; }
extern "C" sycl::nd_range<2> npvr_same_range(void *, sycl::nd_range<2> *r) { return *r; }
extern "C" INT npvr_over_group_int(void *, INT v) {
  R->items++;
  NPV_CHECK(v == part<INT>(R->di, R->op), "how: a work item contributes the values of its rows");
  return R->ri;
}
extern "C" REAL npvr_over_group_real(void *, REAL v) {
  R->items++;
  NPV_CHECK(v == part<REAL>(R->dr, R->op), "how: a work item contributes the values of its rows");
  return R->rr;
}
extern "C" std::shared_ptr<BufferDevice<int>> npvr_device_int() {
  static npv::storage<BufferDevice<int>> b;
  new (b.get()) BufferDevice<int>(R->T_, 1);
  return npv::raw(b.get());
}
extern "C" void npvr_restore() {}
extern "C" void npvr_room_int(BufferBase<int> *b, size_t n) { b->ptr = (int *)::operator new(n * sizeof(int)); b->size = n; }
// one: a component into any element; kernel: every component into the element an array names; matrix: every component into the matrix row by row
enum Kind { one, kernel, matrix };
template <typename OP> constexpr int code = std::is_same_v<OP, Kernel::minimum<INT>> || std::is_same_v<OP, Kernel::minimum<REAL>> ? 1 : std::is_same_v<OP, Kernel::maximum<INT>> || std::is_same_v<OP, Kernel::maximum<REAL>> ? 2 : 0;
template <typename T, bool whole, typename OP = Kernel::plus<T>, Kind kind = one, int NR = 0, int NC = 0> static void reduced() {
  auto *m = R = new Red();
  auto *t = new RedT<T>();
  m->T_ = h_target();
  m->whole = whole; m->op = code<OP>;
  m->local = m->T_->parameters->template get<SizeTParameter>("LOOP_LOCAL_SIZE")->value;
  const int64_t nc = m->ncell = npv::sym("ncell", 1, 1 << 20);
  m->c = npv::sym("c", 0, 1 << 20); npv::assume(m->c < nc);
  m->l = npv::sym("l", 0, 1 << 10); npv::assume(m->l < m->local);
  m->ncomp = kind == matrix ? NR * NC : npv::sym("ncomp", 1, 1 << 10); m->comp = npv::sym("comp", 0, 1 << 10); npv::assume(m->comp < m->ncomp);
  int *rows = npv::array<int>("rows", nc, whole ? 0 : (1 << 24) + 1, (1 << 24) + 1); // every entry of the map is a row
  m->np = npv::array<int>("np", nc, 0, 1 << 24);
  T ***d = npv::celldat<T>("d", nc, m->ncomp, rows, -(1 << 20), 1 << 20);
  npv::assume(m->np[m->c] <= rows[m->c]);
  m->map = npv::ragged<INT>("map", nc, m->np, 0, 1 << 24);
  if constexpr (std::is_same_v<T, INT>) { m->di = d; m->ri = npv::sym("total", -(1ll << 40), 1ll << 40); } else { m->dr = d; m->rr = npv::symf("total"); }
  auto A = t->g.get();
  A->sycl_target = m->T_;
  t->dom.get()->mesh = vc_mesh((int)nc);
  new ((void *)&A->domain) DomainSharedPtr(npv::raw(t->dom.get()));
  auto D = dat<T>(t->d, "V", d, (int)m->ncomp);
  D->d_npart_cell = m->np; D->h_npart_cell = m->np;
  set_dats<T>(A, D);
  const int nrow = kind == matrix ? NR : (int)npv::sym("nrow", 1, 1 << 10), ncol = kind == matrix ? NC : (int)npv::sym("ncol", 1, 1 << 10);
  const int row = (int)npv::sym("row", 0, 1 << 10), col = (int)npv::sym("col", 0, 1 << 10);
  npv::assume((row < nrow) & (col < ncol));
  if constexpr (kind == matrix) npv::assume(m->comp == row * ncol + col);
  auto O = t->out.get();
  const int stride = nrow * ncol;
  const_cast<int &>(O->ncells) = (int)nc; const_cast<int &>(O->nrow) = nrow; const_cast<int &>(O->ncol) = ncol; const_cast<int &>(O->stride) = stride;
  T *o = O->d_ptr = npv::array<T>("out", nc * stride, -(1ll << 40), 1ll << 40);
  int *offs = nullptr;
  if constexpr (kind == kernel) offs = npv::array<int>("offs", m->ncomp, 0, 1 << 20);
  const int64_t at = m->c * stride + (kind == kernel ? offs[m->comp] : nrow * col + row), j = npv::sym("j", 0, 1ll << 40);
  if constexpr (kind == kernel) npv::assume(offs[m->comp] < stride);
  npv::assume((j < nc * stride) & (j != at));
  const T old = o[at], oldj = o[j];
  auto *it = sycl::npv::items = new sycl::npv::items_t();
  it->n = 1; it->id[0][0] = kind == one ? m->c : m->c * m->ncomp + m->comp; it->id[0][1] = m->l;
  auto S = t->sub.get();
  S->particle_group = npv::raw(A);
  S->is_whole_particle_group = false;
  m->sel.d_npart_cell = m->np; m->sel.h_npart_cell = m->np; m->sel.ncell = (int)nc; m->sel.d_map_cells_to_particles.map_ptr = m->map;
  auto run = [&](auto g) {
    if constexpr (kind == one) reduce_dat_component_cellwise(g, Sym<T>("V"), (int)m->comp, npv::raw(O), row, col, OP{});
    else if constexpr (kind == matrix) reduce_dat_components_cellwise(g, Sym<T>("V"), npv::raw(O), OP{});
    else Private::reduce_dat_components_cellwise_async(g, Sym<T>("V"), npv::raw(O), offs, OP{}).wait();
  };
  if constexpr (whole) run(npv::raw(A)); else run(npv::raw(S));
  NPV_CHECK((m->items == 1) | (m->np[m->c] == 0), "the values of a cell with particles are reduced");
  T tot; if constexpr (std::is_same_v<T, INT>) tot = m->ri; else tot = m->rr;
  const T both = code<OP> == 0 ? old + tot : code<OP> == 1 ? (tot < old ? tot : old) : (old < tot ? tot : old);
  const bool adds = (m->np[m->c] > 0) & (m->l == 0);
  NPV_CHECK(!adds || o[at] == both, "one work item combines the reduction of the cell with the element");
  NPV_CHECK(adds || o[at] == old, "the others leave the element");
  NPV_CHECK(o[j] == oldj, "the other elements keep their values");
  NPV_REACH("end");
}
NPV_PROVE(sum_int_group, 1) { reduced<INT, true>(); }
NPV_PROVE(sum_int_sub_group, 1) { reduced<INT, false>(); }
NPV_PROVE(sum_real_group, 1) { reduced<REAL, true>(); }
NPV_PROVE(sum_real_sub_group, 1) { reduced<REAL, false>(); }
NPV_PROVE(smallest_int_group, 1) { reduced<INT, true, Kernel::minimum<INT>>(); }
NPV_PROVE(largest_int_group, 1) { reduced<INT, true, Kernel::maximum<INT>>(); }
NPV_PROVE(largest_int_sub_group, 1) { reduced<INT, false, Kernel::maximum<INT>>(); }
NPV_PROVE(components_group, 1) { reduced<INT, true, Kernel::plus<INT>, kernel>(); }
NPV_PROVE(components_sub_group, 1) { reduced<REAL, false, Kernel::plus<REAL>, kernel>(); }
NPV_PROVE(matrix_2_3_group, 1) { reduced<REAL, true, Kernel::plus<REAL>, matrix, 2, 3>(); }
NPV_PROVE(matrix_3_2_sub_group, 1) { reduced<INT, false, Kernel::plus<INT>, matrix, 3, 2>(); }
#endif
#ifndef NPV_VC
namespace {
template <typename T> T val(const gp::Particle &p, const std::string &n, int c);
template <> REAL val<REAL>(const gp::Particle &p, const std::string &n, int c) { return p.r.at(n).at(c); }
template <> INT val<INT>(const gp::Particle &p, const std::string &n, int c) { return p.i.at(n).at(c); }
template <typename T> bool eq(T a, T b) { if constexpr (std::is_integral_v<T>) return a == b; else return std::abs(a - b) <= 1e-11 * (1 + std::abs(a) + std::abs(b)); }
template <typename T> T draw(gp::World &w) { if constexpr (std::is_integral_v<T>) return w.lr.uni(-500, 500); else return w.lr.one_in(4) ? 1e3 * (w.lr.unif() - .5) : w.lr.unif() - .5; }
using L = std::vector<std::vector<gp::Particle>>;
template <typename T, typename G> void reduce(gp::World &w, std::shared_ptr<G> g, const sg::Members &M, const L &P, const std::string &name, int ncomp) {
  const int op = (int)npv::sym("op", 0, 2, 2);
  const bool all = npv::sym("all", 0, 1, 1);
  int nrow = (int)npv::uni(1, 3), ncol = (int)npv::uni(1, 3);
  if (all) { nrow = (int)npv::uni(1, ncomp); while (ncomp % nrow) nrow--; ncol = ncomp / nrow; }
  auto cdc = std::make_shared<CellDatConst<T>>(w.target, w.ncell, nrow, ncol);
  std::vector<std::vector<T>> ref(w.ncell, std::vector<T>(nrow * ncol));
  for (int c = 0; c < w.ncell; c++) {
    auto d = cdc->get_cell(c);
    for (int r = 0; r < nrow; r++) for (int k = 0; k < ncol; k++) ref[c][r * ncol + k] = d->at(r, k) = draw<T>(w);
    cdc->set_cell(c, d);
  }
  auto f = [&](T a, T b) { return op == 0 ? a + b : op == 1 ? std::min(a, b) : std::max(a, b); };
  auto one = [&](int comp, int row, int col) {
    for (int c = 0; c < w.ncell; c++) for (INT l : M[c]) { T &x = ref[c][row * ncol + col]; x = f(x, val<T>(P[c][l], name, comp)); }
  };
  if (all) {
    for (int k = 0; k < ncomp; k++) one(k, k / ncol, k % ncol);
    if (op == 0) reduce_dat_components_cellwise(g, Sym<T>(name), cdc, Kernel::plus<T>{});
    else if (op == 1) reduce_dat_components_cellwise(g, Sym<T>(name), cdc, Kernel::minimum<T>{});
    else reduce_dat_components_cellwise(g, Sym<T>(name), cdc, Kernel::maximum<T>{});
  } else {
    const int comp = (int)npv::uni(0, ncomp - 1), row = (int)npv::uni(0, nrow - 1), col = (int)npv::uni(0, ncol - 1);
    one(comp, row, col);
    if (op == 0) reduce_dat_component_cellwise(g, Sym<T>(name), comp, cdc, row, col, Kernel::plus<T>{});
    else if (op == 1) reduce_dat_component_cellwise(g, Sym<T>(name), comp, cdc, row, col, Kernel::minimum<T>{});
    else reduce_dat_component_cellwise(g, Sym<T>(name), comp, cdc, row, col, Kernel::maximum<T>{});
  }
  for (int c = 0; c < w.ncell; c++) { auto d = cdc->get_cell(c); for (int r = 0; r < nrow; r++) for (int k = 0; k < ncol; k++) NPV_CHECK(eq(d->at(r, k), ref[c][r * ncol + k]), "each element is the reduction of the cell's particles and its previous value"); }
}
template <typename F> void with_group(gp::World &w, const L &P, F f) {
  const int kind = (int)npv::sym("group", 0, 3, 3);
  auto all = sg::all(w.A);
  if (kind == 0) return f(w.A, all);
  if (kind == 1) return f(particle_sub_group(w.A), all);
  const sg::Pred p = sg::draw_pred(w), q = sg::draw_pred(w);
  auto a = sg::filter(w.A, p);
  auto ma = sg::filter_ref(all, p, P);
  if (kind == 2) return f(a, ma);
  f(sg::filter(a, q), sg::filter_ref(ma, q, P));
}
} // namespace
NPV_BOUNDED(reductions, 300, 1) {
  gp::World w(false, 14);
  for (int it = 2; it--;) {
    w.history(2);
    auto P = gp::layers(w.A);
    with_group(w, P, [&](auto g, const sg::Members &M) {
      switch (npv::sym("property", 0, 2, 2)) {
      case 0: return reduce<REAL>(w, g, M, P, "V", w.nv);
      case 1: return reduce<INT>(w, g, M, P, "Q", w.nq);
      default: return reduce<REAL>(w, g, M, P, "W", 1);
      }
    });
  }
}
NPV_BOUNDED(counts_and_element_loops, 200, 1) {
  gp::World w(false, 14);
  w.history(2);
  auto P = gp::layers(w.A);
  const int nrow = (int)npv::uni(1, 3), ncol = (int)npv::uni(1, 3);
  using C = CellDatConst<INT>;
  auto fill = [&](std::shared_ptr<C> d) {
    std::vector<std::vector<INT>> v(w.ncell, std::vector<INT>(d->nrow * d->ncol));
    for (int c = 0; c < w.ncell; c++) { auto x = d->get_cell(c); for (int r = 0; r < d->nrow; r++) for (int k = 0; k < d->ncol; k++) v[c][r * d->ncol + k] = x->at(r, k) = w.lr.uni(-99, 99); d->set_cell(c, x); }
    return v;
  };
  auto n = std::make_shared<C>(w.target, w.ncell, nrow, ncol);
  auto v = fill(n);
  with_group(w, P, [&](auto g, const sg::Members &M) {
    const int r = (int)npv::uni(0, nrow - 1), k = (int)npv::uni(0, ncol - 1);
    if (r == 0 && k == 0 && npv::uni(0, 1)) get_npart_cell(g, n); else get_npart_cell(g, n, r, k);
    for (int c = 0; c < w.ncell; c++) v[c][r * ncol + k] = (INT)M[c].size();
  });
  auto agree = [&](std::shared_ptr<C> d, const std::vector<std::vector<INT>> &v, const char *what) {
    for (int c = 0; c < w.ncell; c++) { auto x = d->get_cell(c); for (int i = 0; i < d->nrow; i++) for (int k = 0; k < d->ncol; k++) NPV_CHECK(x->at(i, k) == v[c][i * d->ncol + k], what); }
  };
  agree(n, v, "the element holds the number of particles of the cell, other elements keep their values");
  auto mk = [&](bool b) { return b ? std::make_shared<C>(w.target, w.ncell, 1, 1) : std::make_shared<C>(w.target, w.ncell, nrow, ncol); };
  const bool ba = npv::uni(0, 1), bb = npv::uni(0, 1), alias = npv::uni(0, 3) == 0;
  auto a = alias ? n : mk(ba), b = mk(bb);
  auto va = alias ? v : fill(a), vb = fill(b);
  cell_dat_const_loop_element_wise(n, [=](INT x, INT y, INT z) { return 3 * x - 5 * y + 7 * z * x; }, a, b, a);
  for (int c = 0; c < w.ncell; c++) for (int e = 0; e < nrow * ncol; e++) {
    const INT x = va[c][a->nrow * a->ncol == 1 ? 0 : e], y = vb[c][b->nrow * b->ncol == 1 ? 0 : e];
    v[c][e] = 3 * x - 5 * y + 7 * x * x;
  }
  agree(n, v, "each element is the function of the elements of the arguments");
  if (!alias) agree(a, va, "arguments keep their values");
  agree(b, vb, "arguments keep their values");
}
NPV_BOUNDED(unseen_values, 150, 1) {
  gp::World w(false, 14);
  UnseenValueExtractor u(w.target);
  std::set<INT> seen;
  const INT big = npv::uni(0, 1) ? 1 : 1234567;
  for (int it = (int)npv::uni(1, 4); it--;) {
    w.history(1);
    const INT k = npv::uni(1, 300), o = npv::uni(-200, 200);
    particle_loop(w.A, [=](auto Q, auto ID) { Q.at(1) = ((ID.at(0) * 37 + o) % k) * big; }, Access::write(Sym<INT>("Q")), Access::read(Sym<INT>("ID")))->execute();
    auto P = gp::layers(w.A);
    with_group(w, P, [&](auto g, const sg::Members &M) {
      const int comp = (int)npv::uni(0, 1);
      std::set<INT> ref;
      for (int c = 0; c < w.ncell; c++) for (INT l : M[c]) { const INT x = P[c][l].i.at("Q")[comp]; if (!seen.count(x)) ref.insert(x); }
      auto got = u.extract(g, Sym<INT>("Q"), comp, false);
      NPV_CHECK(got == ref, "exactly the values of the group not extracted before");
      seen.insert(ref.begin(), ref.end());
    });
  }
}
NPV_BOUNDED(copies, 150, 1) {
  gp::World w(false, 14);
  w.history(2);
  auto P = gp::layers(w.A);
  auto st = gp::state(w.A);
  auto setv = [&](int c, INT l, auto f) { f(st[c].at(P[c][l].i.at("ID")[0])); };
  // values of a cell broadcast to its particles
  with_group(w, P, [&](auto g, const sg::Members &M) {
    std::vector<INT> v; for (int c = 0; c < w.ncell; c++) v.push_back(w.lr.uni(-99, 99));
    const int comp = (int)npv::uni(0, 1);
    if (npv::uni(0, 1)) {
      cellwise_broadcast(g, Sym<INT>("Q"), comp, v);
      for (int c = 0; c < w.ncell; c++) for (INT l : M[c]) setv(c, l, [&](auto &p) { p.i["Q"][comp] = v[c]; });
    } else {
      cellwise_broadcast(g, Sym<REAL>("V"), comp, v);
      for (int c = 0; c < w.ncell; c++) for (INT l : M[c]) setv(c, l, [&](auto &p) { p.r["V"][comp] = (REAL)v[c]; });
    }
  });
  NPV_CHECK(gp::same(gp::state(w.A), st), "each particle of the group gets its cell's value, nothing else changes");
  P = gp::layers(w.A);
  // through a property of the sub-group and back
  w.A->add_particle_dat(Sym<REAL>("V2"), w.nv);
  const int nv = w.nv;
  particle_loop(w.A, [=](auto V) { for (int k = 0; k < nv; k++) V.at(k) = 77; }, Access::write(Sym<REAL>("V2")))->execute();
  st = gp::state(w.A);
  P = gp::layers(w.A);
  const sg::Pred p = sg::draw_pred(w);
  auto G = npv::uni(0, 3) ? sg::filter(w.A, p) : particle_sub_group(w.A);
  auto M = sg::members(G, w.A);
  G->add_ephemeral_dat(Sym<REAL>("E"), w.nv);
  copy_particle_dat_to_ephemeral_dat(G, Sym<REAL>("V"), Sym<REAL>("E"));
  NPV_CHECK(gp::same(gp::state(w.A), st), "copying out changes no particle");
  copy_ephemeral_dat_to_particle_dat(G, Sym<REAL>("E"), Sym<REAL>("V2"));
  auto Q = gp::layers(w.A);
  for (int c = 0; c < w.ncell; c++) {
    std::set<INT> in(M[c].begin(), M[c].end());
    for (INT l = 0; l < (INT)Q[c].size(); l++) for (int k = 0; k < w.nv; k++)
      NPV_CHECK(Q[c][l].r.at("V2")[k] == (in.count(l) ? P[c][l].r.at("V")[k] : 77.0), "members get the copied values, other particles keep theirs");
  }
}
#endif
