// C12: sub-group combinators (cell ranges, truncate, discard, copy, union, partition) select exactly what they say
//@ design: Proved for all cells and any two members: truncate, discard, cell ranges (of groups and of sub-groups), copies and the union of two parents select exactly the parent's members they name, in the parent's order; the rows of the map are distinct. Bounded: partitions, whole groups in unions, nestings and histories, compared to a list of particles.
//@ replace: get_resource<NESO::Particles::BufferDevice<long> => npvr_device_int: get_resource returns a buffer nobody else uses (C26)
//@ replace: restore_resource< => npvr_restore: restore_resource only takes the buffer back (C26)
//@ replace: BufferBase<long>::realloc_no_copy => npvr_room_int: realloc_no_copy provides room for the elements (C20)
//@ replace: joint_exclusive_scan< => npvr_scan: joint_exclusive_scan computes the exclusive prefix sums (C01)
//@ replace: SubGroupParticleMap::create\( => npvr_map_create: SubGroupParticleMap::create provides the rows of each cell one after the other (proved: map_rows)
//@ replace: ParticleSubGroup::create_if_required => npvr_create_parent: create_if_required makes the selection of the parent current (C11)
//@ replace: ParticleSubGroup::get_selection => npvr_selection: get_selection is the selection of the parent
//@ replace: ParticleSubGroup::get_npart_local => npvr_npart_local: get_npart_local is the number of members of the parent
//@ replace: get_resource<NESO::Particles::BufferDevice<NESO::Particles::ParticleSubGroupImplementation::Selection> => npvr_device_sel: get_resource returns a buffer nobody else uses (C26)
//@ replace: BufferBase<NESO::Particles::ParticleSubGroupImplementation::Selection>::realloc_no_copy => npvr_room_sel: realloc_no_copy provides room for the elements (C20)
//@ replace: DeviceLimits::validate_nd_range => npvr_same_range: validate_nd_range is the range it is given (C03)
//@ replace: ParticleGroup::get_npart_cell\( => npvr_npart_cell: get_npart_cell is the number of particles of the cell
//@ unreplaced: map_rows npvr_map_create
//@ assume: item-wise contracts (see C09), any two members
//@ opts: {"smallloops": 8, "symunroll": 8}
#define NPV_ITEMWISE
#include <neso_particles.hpp>
#include <npv.hpp>
#include "subgroup.hpp"
#ifdef NPV_VC
#include "vcdats.hpp"
#include "vcmesh.hpp"
#include "src/particle_sub_group/sub_group_particle_map.cpp"
#include "src/particle_sub_group/truncate_sub_group_selector.cpp"
#include "src/particle_sub_group/cell_sub_group_selector.cpp"
#include "src/particle_sub_group/copy_selector.cpp"
#include "src/particle_sub_group/discard_sub_group_selector.cpp"
#include "src/particle_sub_group/disjoint_union_sub_group_selector.cpp"
namespace si = ParticleSubGroupImplementation;
struct Sel {
  int64_t ncell, c[2], l[2]; // any two members of the selection: row l of cell c
  int *left; // rows of the selection per cell
  int *np;   // members of the parent per cell
  INT **map; // rows of the parent's members
  INT **to;  // rows of the selection
  int nbuf, maps, parents;
  SYCLTargetSharedPtr T;
  npv::storage<BufferDevice<INT>> dev, lm;
  npv::storage<BufferDevice<INT *>> ds;
  npv::storage<BufferDeviceHost<int>> nph;
  npv::storage<BufferDeviceHost<INT>> esh;
  npv::storage<ParticleGroup> g;
  npv::storage<ParticleSubGroup> sub;
  npv::storage<ParticleDatT<INT>> cd;
  npv::storage<Domain> dom;
  npv::storage<SubGroupParticleMap> pm;
  Cells *mesh;
  si::Selection psel, psel2;
  npv::storage<ParticleSubGroup> sub2; // a second parent
  npv::storage<BufferDevice<si::Selection>> bsel;
  int np2local, nplocal;
};
static Sel *M;
extern "C" std::shared_ptr<BufferDevice<INT>> npvr_device_int() {
  NPV_CHECK(M->nbuf == 0, "how: one buffer is taken"); M->nbuf++;
  auto b = M->dev.get();
  new (b) BufferDevice<INT>(M->T, 1);
  return npv::raw(b);
}
extern "C" void npvr_restore() {}
extern "C" void npvr_room_int(BufferBase<INT> *b, size_t n) { b->ptr = (INT *)::operator new(n * sizeof(INT)); b->size = n; }
extern "C" sycl::event npvr_scan(void *, size_t n, INT *in, INT *out) {
  NPV_CHECK(n == (size_t)M->ncell, "how: the scan is over the cells");
  const int64_t nc = M->ncell;
  for (int64_t i = 0; i < nc; i++) out[i] = npv::sum(in, i);
  const int64_t s = npv::sum(in, nc - 1), e = in[nc - 1];
  NPV_CHECK((0 <= e) & (e <= 1 << 24), "how: the number of a cell");
  for (int k = 0; k < 2; k++) NPV_CHECK(npv::sum(in, M->c[k]) + in[M->c[k]] <= s + e, "how: the rows of a cell end before those of the last");
  npv::assume((0 <= s) & (s <= 1 << 30)); // fewer than 2^30 particles
  return sycl::event();
}
extern "C" void npvr_map_create(SubGroupParticleMap *m, int c0, int c1, const int *n, const INT *es) {
  auto *s = M;
  for (int k = 0; k < 2; k++) {
    const int64_t c = s->c[k], o = s->c[1 - k];
    NPV_CHECK((c0 <= c) & (c < c1) & (s->l[k] < n[c]), "there is a row for each member");
    NPV_CHECK((0 <= es[c]) & (es[c] + n[c] <= es[c1 - 1] + n[c1 - 1]), "the rows end with those of the last cell");
    NPV_CHECK((c >= o) | (es[c] + n[c] <= es[o]), "the rows of a cell are before those of the next");
  }
  s->maps++;
}
extern "C" void npvr_create_parent(ParticleSubGroup *g) { M->parents |= g == M->sub2.get() ? 2 : 1; }
extern "C" const si::Selection *npvr_selection(ParticleSubGroup *g) {
  const bool second = g == M->sub2.get();
  NPV_CHECK(M->parents & (second ? 2 : 1), "the parent is current");
  return second ? &M->psel2 : &M->psel;
}
extern "C" int npvr_npart_local(ParticleSubGroup *g) { return g == M->sub2.get() ? M->np2local : M->nplocal; }
extern "C" std::shared_ptr<BufferDevice<si::Selection>> npvr_device_sel() {
  auto b = M->bsel.get();
  new (b) BufferDevice<si::Selection>(M->T, 2);
  return npv::raw(b);
}
extern "C" void npvr_room_sel(BufferBase<si::Selection> *b, size_t n) { NPV_CHECK(n == 2, "how: one selection per parent"); }
extern "C" sycl::nd_range<2> npvr_same_range(void *, sycl::nd_range<2> *r) { return *r; }
// a selector over any number of cells, with any two members of the selection
template <typename S, bool whole> static S *selector() {
  auto *m = M = new Sel();
  m->T = h_target();
  const int64_t nc = m->ncell = npv::sym("ncell", 1, 1 << 20);
  m->mesh = new Cells(); m->mesh->n = (int)nc;
  m->np = npv::array<int>("np", nc, 0, 1 << 24);
  m->left = npv::array<int>("left", nc, 0, 1 << 24); // rows of the selection
  m->to = npv::ragged<INT>("to", nc, m->left, 0, 1 << 24);
  m->map = npv::ragged<INT>("map", nc, m->np, 0, 1 << 24);
  for (int k = 0; k < 2; k++) {
    m->c[k] = npv::sym(k ? "c1" : "c0", 0, 1 << 20); npv::assume(m->c[k] < nc);
    m->l[k] = npv::sym(k ? "l1" : "l0", 0, 1 << 24);
  }
  npv::assume((m->c[0] != m->c[1]) | (m->l[0] != m->l[1]));
  auto A = m->g.get();
  A->sycl_target = m->T;
  m->dom.get()->mesh = npv::raw<HMesh>(m->mesh);
  new ((void *)&A->domain) DomainSharedPtr(npv::raw(m->dom.get()));
  auto cd = dat<INT>(m->cd, "CELL_ID", nullptr, 1);
  cd->d_npart_cell = m->np; cd->h_npart_cell = m->np;
  new ((void *)&A->cell_id_dat) ParticleDatSharedPtr<INT>(npv::raw(cd));
  new ((void *)&A->position_dat) ParticleDatSharedPtr<REAL>(npv::raw((ParticleDatT<REAL> *)(void *)cd));
  m->psel.h_npart_cell = m->np; m->psel.d_npart_cell = m->np; m->psel.ncell = (int)nc;
  m->psel.d_map_cells_to_particles.map_ptr = m->map;
  auto pm = m->pm.get();
  new (m->nph.get()) BufferDeviceHost<int>(m->T, nc);
  new (m->esh.get()) BufferDeviceHost<INT>(m->T, nc);
  m->ds.get()->ptr = m->to;
  new ((void *)&pm->dh_npart_cell) std::shared_ptr<BufferDeviceHost<int>>(npv::raw(m->nph.get()));
  new ((void *)&pm->dh_npart_cell_es) std::shared_ptr<BufferDeviceHost<INT>>(npv::raw(m->esh.get()));
  new ((void *)&pm->d_cell_starts) std::shared_ptr<BufferDevice<INT *>>(npv::raw(m->ds.get()));
  static npv::storage<S> ss;
  auto s = ss.get();
  new ((void *)&s->particle_group) ParticleGroupSharedPtr(npv::raw(A));
  new ((void *)&s->particle_sub_group) std::shared_ptr<ParticleSubGroup>(npv::raw(m->sub.get()));
  new ((void *)&s->sub_group_particle_map) std::shared_ptr<SubGroupParticleMap>(npv::raw(pm));
  if constexpr (!std::is_same_v<S, si::CopySelector> && !std::is_same_v<S, si::DisjointUnionSubGroupSelector>) s->parent_is_whole_group = whole;
  return s;
}
static void members_only(int first) { // the item-wise launch
  static int nth; nth = first;
  auto *it = sycl::npv::items = new sycl::npv::items_t();
  it->all = first > 0; it->n = 2;
  for (int k = 0; k < 2; k++) { it->id[k][0] = M->c[k]; it->id[k][1] = M->l[k]; }
  it->before = [](int launch) { sycl::npv::items->all = launch < nth; };
}
// a member has the size size(c) of its cell
template <typename SIZE> static void rows(SIZE size) {
  for (int k = 0; k < 2; k++) { const int n = size(M->c[k]); npv::assume(M->l[k] < n); npv::assume(M->left[M->c[k]] == n); }
}
template <typename S, bool whole, bool keep> static void cut() {
  auto s = selector<S, whole>();
  auto m = M;
  const int n = s->num_particles = (int)npv::sym("n", 0, 1 << 24);
  rows([&](int64_t c) { return keep ? (m->np[c] < n ? m->np[c] : n) : (m->np[c] < n ? 0 : m->np[c] - n); });
  members_only(1);
  si::Selection sel;
  s->S::create(&sel);
  NPV_CHECK(m->maps == 1 && sel.ncell == m->ncell, "the selection is over the cells");
  for (int k = 0; k < 2; k++) {
    const int64_t c = m->c[k], l = m->l[k];
    NPV_CHECK(sel.h_npart_cell[c] == m->left[c] && sel.d_npart_cell[c] == m->left[c], "the number of members of a cell");
    const INT src = keep ? l : l + n;
    NPV_CHECK(sel.d_map_cells_to_particles.map_ptr[c][l] == (whole ? src : m->map[c][src]), "a member is the parent's member of the same order, behind those discarded");
  }
  NPV_REACH("end");
}
extern "C" INT npvr_npart_cell(ParticleGroup *g, int cell) { NPV_CHECK(g == M->g.get(), "the parent group"); return M->np[cell]; }
template <bool whole> static void range() {
  auto s = selector<si::CellSubGroupSelector, whole>();
  auto m = M;
  const int c0 = s->cell_start = (int)npv::sym("from", 0, 1 << 20), c1 = s->cell_end = c0 + (int)npv::sym("cells", 1, 1 << 20);
  npv::assume(c1 <= m->ncell);
  npv::assume((c0 <= m->c[0]) & (m->c[0] < c1)); npv::assume((c0 <= m->c[1]) & (m->c[1] < c1));
  rows([&](int64_t c) { return m->np[c]; });
  members_only(0);
  for (int k = 0; k < 2; k++) sycl::npv::items->id[k][0] = m->c[k] - c0;
  const int64_t o = npv::sym("other", 0, 1 << 20); // a cell outside
  npv::assume((o < m->ncell) & ((o < c0) | (o >= c1)));
  si::Selection sel;
  s->si::CellSubGroupSelector::create(&sel);
  NPV_CHECK(m->maps == 1 && sel.ncell == m->ncell, "the selection is over the cells");
  NPV_CHECK(sel.h_npart_cell[o] == 0 && sel.d_npart_cell[o] == 0, "a cell outside the range has no members");
  for (int k = 0; k < 2; k++) {
    const int64_t c = m->c[k], l = m->l[k];
    NPV_CHECK(sel.h_npart_cell[c] == m->np[c] && sel.d_npart_cell[c] == m->np[c], "the number of members of a cell of the range");
    NPV_CHECK(sel.d_map_cells_to_particles.map_ptr[c][l] == (whole ? l : m->map[c][l]), "a member is the parent's member of the same order");
  }
  NPV_REACH("end");
}
NPV_PROVE(cells_group, 1) { range<true>(); }
NPV_PROVE(cells_sub_group, 1) { range<false>(); }
// a work item takes every local-size-th row of a cell: member q * local + r is that of item r
static void strided(int first) {
  const int64_t local = M->T->parameters->template get<SizeTParameter>("LOOP_LOCAL_SIZE")->value;
  const int64_t r0 = npv::sym("r0", 0, 1 << 10), r1 = npv::sym("r1", 0, 1 << 10);
  npv::assume((r0 < local) & (r1 < local));
  const int64_t l0 = npv::sym("q0", 0, 1 << 24) * local + r0, l1 = npv::sym("q1", 0, 1 << 24) * local + r1;
  npv::assume((M->l[0] == l0) & (M->l[1] == l1));
  M->l[0] = l0; M->l[1] = l1;
  npv::assume((M->c[0] != M->c[1]) | (r0 != r1));
  members_only(first);
  sycl::npv::items->id[0][1] = r0; sycl::npv::items->id[1][1] = r1;
}
NPV_PROVE(copy_sub_group, 1) {
  auto s = selector<si::CopySelector, false>();
  auto m = M;
  new ((void *)&s->parent) std::shared_ptr<ParticleSubGroup>(npv::raw(m->sub.get()));
  s->is_whole_particle_group = false;
  INT *es = npv::array<INT>("es", m->ncell, 0, 1 << 30);
  m->psel.d_npart_cell_es = es;
  rows([&](int64_t c) { return m->np[c]; });
  strided(1);
  si::Selection sel;
  s->si::CopySelector::create(&sel);
  NPV_CHECK(m->maps == 1 && sel.ncell == m->ncell, "the selection is over the cells");
  for (int k = 0; k < 2; k++) {
    const int64_t c = m->c[k], l = m->l[k];
    NPV_CHECK(sel.h_npart_cell[c] == m->np[c] && sel.d_npart_cell[c] == m->np[c] && sel.d_npart_cell_es[c] == es[c], "the number of members of a cell");
    NPV_CHECK(sel.d_map_cells_to_particles.map_ptr[c][l] == m->map[c][l], "a member is the parent's member of the same order");
  }
  NPV_REACH("end");
}
// the union of two sub-groups: the members of the first parent come before those of the second
template <int part> static void joined() {
  auto s = selector<si::DisjointUnionSubGroupSelector, false>();
  auto m = M;
  const int64_t nc = m->ncell;
  int *np1 = m->np, *np2 = npv::array<int>("np2", nc, 0, 1 << 24);
  INT *es1 = npv::array<INT>("es1", nc, 0, 1 << 30), *es2 = npv::array<INT>("es2", nc, 0, 1 << 30);
  m->psel.d_npart_cell_es = es1;
  m->psel2.h_npart_cell = np2; m->psel2.d_npart_cell = np2; m->psel2.d_npart_cell_es = es2; m->psel2.ncell = (int)nc;
  INT **map2 = m->psel2.d_map_cells_to_particles.map_ptr = npv::ragged<INT>("map2", nc, np2, 0, 1 << 24);
  // the selections of the parents: exclusive prefix sums of the numbers of members
  for (int k = 0; k < 2; k++) {
    const int64_t c = m->c[k], o = m->c[1 - k];
    npv::assume((es1[c] + np1[c] <= es1[nc - 1] + np1[nc - 1]) & (es2[c] + np2[c] <= es2[nc - 1] + np2[nc - 1]));
    npv::assume((c >= o) | ((es1[c] + np1[c] <= es1[o]) & (es2[c] + np2[c] <= es2[o])));
  }
  m->nplocal = (int)es1[nc - 1] + np1[nc - 1];
  m->np2local = (int)es2[nc - 1] + np2[nc - 1];
  npv::assume((m->nplocal <= 1 << 29) & (m->np2local <= 1 << 29)); // fewer than 2^29 particles
  new ((void *)&s->parents) std::vector<std::shared_ptr<ParticleSubGroup>>();
  s->parents.reserve(2);
  s->parents.push_back(npv::raw(m->sub.get()));
  s->parents.push_back(npv::raw(m->sub2.get()));
  const int64_t local = m->T->parameters->template get<SizeTParameter>("LOOP_LOCAL_SIZE")->value;
  auto *it = sycl::npv::items = new sycl::npv::items_t();
  for (int k = 0; k < 2; k++) {
    const int64_t r = npv::sym(k ? "r1" : "r0", 0, 1 << 16), q = npv::sym(k ? "q1" : "q0", 0, 1 << 24), c = m->c[k];
    npv::assume(r < local);
    const int64_t l = (part ? np1[c] : 0) + q * local + r;
    npv::assume(m->l[k] == l); m->l[k] = l;
    npv::assume(l < (part ? np1[c] + np2[c] : np1[c]));
    npv::assume(m->left[c] == np1[c] + np2[c]);
    it->id[k][0] = c; it->id[k][1] = r;
  }
  npv::assume((m->c[0] != m->c[1]) | (it->id[0][1] != it->id[1][1]));
  it->all = true; it->n = 2;
  it->before = [](int launch) { sycl::npv::items->all = launch < 1; };
  si::Selection sel;
  s->si::DisjointUnionSubGroupSelector::create(&sel);
  NPV_CHECK(m->maps == 1 && sel.ncell == m->ncell && sel.npart_local == m->nplocal + m->np2local, "the selection is over the cells");
  for (int k = 0; k < 2; k++) {
    const int64_t c = m->c[k], l = m->l[k];
    NPV_CHECK(sel.h_npart_cell[c] == np1[c] + np2[c] && sel.d_npart_cell[c] == np1[c] + np2[c] && sel.d_npart_cell_es[c] == es1[c] + es2[c], "the number of members of a cell");
    NPV_CHECK(sel.d_map_cells_to_particles.map_ptr[c][l] == (part ? map2[c][l - np1[c]] : m->map[c][l]), "a member is a member of a parent");
  }
  NPV_REACH("end");
}
NPV_PROVE(union_first, 1) { joined<0>(); }
NPV_PROVE(union_second, 1) { joined<1>(); }
NPV_PROVE(map_rows, 0) {
  auto *m = M = new Sel();
  m->T = h_target();
  const int nc = (int)npv::sym("ncell", 1, 1 << 20);
  const int c0 = (int)npv::sym("from", 0, 1 << 20), c1 = c0 + (int)npv::sym("cells", 1, 1 << 20);
  npv::assume(c1 <= nc);
  int *n = npv::array<int>("n", nc, 0, 1 << 24);
  INT *es = npv::array<INT>("es", nc, 0, 1 << 30);
  const int64_t ca = npv::sym("ca", 0, 1 << 20), cb = npv::sym("cb", 0, 1 << 20), la = npv::sym("la", 0, 1 << 24), lb = npv::sym("lb", 0, 1 << 24);
  npv::assume((c0 <= ca) & (ca <= cb) & (cb < c1));
  npv::assume((la < n[ca]) & (lb < n[cb]));
  npv::assume((es[ca] + n[ca] <= es[c1 - 1] + n[c1 - 1]) & (es[cb] + n[cb] <= es[c1 - 1] + n[c1 - 1]));
  npv::assume((ca != cb) | (la != lb));
  npv::assume((ca == cb) | (es[ca] + n[ca] <= es[cb]));
  auto pm = m->pm.get();
  static npv::storage<BufferHost<INT *>> hs;
  new (hs.get()) BufferHost<INT *>(m->T, nc);
  new (m->ds.get()) BufferDevice<INT *>(m->T, nc);
  new (m->lm.get()) BufferDevice<INT>(m->T, 1);
  new ((void *)&pm->sycl_target) SYCLTargetSharedPtr(m->T);
  new ((void *)&pm->h_cell_starts) std::shared_ptr<BufferHost<INT *>>(npv::raw(hs.get()));
  new ((void *)&pm->d_cell_starts) std::shared_ptr<BufferDevice<INT *>>(npv::raw(m->ds.get()));
  new ((void *)&pm->d_layer_map) std::shared_ptr<BufferDevice<INT>>(npv::raw(m->lm.get()));
  pm->cell_count = nc;
  pm->create(c0, c1, n, es);
  NPV_CHECK(pm->cell_start == c0 && pm->cell_end == c1 && pm->npart_total == es[c1 - 1] + n[c1 - 1], "the range of cells");
  INT *ra = pm->d_cell_starts->ptr[ca], *rb = pm->d_cell_starts->ptr[cb], *buf = pm->d_layer_map->ptr;
  NPV_CHECK((buf <= ra) & (ra + n[ca] <= buf + pm->d_layer_map->size), "the row is inside the buffer");
  NPV_CHECK(ra + la != rb + lb, "the entries of two members are distinct");
  NPV_REACH("end");
}
NPV_PROVE(truncate_group, 1) { cut<si::TruncateSubGroupSelector, true, true>(); }
NPV_PROVE(truncate_sub_group, 1) { cut<si::TruncateSubGroupSelector, false, true>(); }
NPV_PROVE(discard_group, 1) { cut<si::DiscardSubGroupSelector, true, false>(); }
NPV_PROVE(discard_sub_group, 1) { cut<si::DiscardSubGroupSelector, false, false>(); }
#endif
#ifndef NPV_VC
using namespace sg;
// a parent and a way to read its members
struct Par { SG s; bool group; };
static Par draw_parent(gp::World &w) {
  switch (npv::sym("parent", 0, 3, 3)) {
  case 0: return {nullptr, true};
  case 1: return {particle_sub_group(w.A), false};
  case 2: return {filter(w.A, draw_pred(w)), false};
  default: { auto a = filter(w.A, draw_pred(w)); return {filter(a, draw_pred(w)), false}; }
  }
}
static Members par_members(gp::World &w, Par &p) { return p.group ? all(w.A) : members(p.s, w.A); }
static void evolve(gp::World &w) {
  if (w.lr.one_in(2)) { const INT k = w.lr.uni(0, 50); particle_loop(w.A, [=](auto W, auto Q, auto ID) { W.at(0) = (REAL)((ID.at(0) * 5 + k) % 19 - 9); Q.at(1) = (ID.at(0) * 3 + k) % 10; }, Access::write(Sym<REAL>("W")), Access::write(Sym<INT>("Q")), Access::read(Sym<INT>("ID")))->execute(); }
  else w.random_op();
}
NPV_BOUNDED(cell_range, 200, 1) {
  gp::World w; w.history(1);
  Par p = draw_parent(w);
  int a = (int)npv::uni(0, w.ncell), b = (int)npv::uni(0, w.ncell);
  if (b < a) std::swap(a, b);
  const bool single = npv::uni(0, 2) == 0 && a < w.ncell;
  if (npv::uni(0, 5) == 0 && !single) { a = 0; b = w.ncell; }
  npv::note("range", std::to_string(a) + ":" + std::to_string(b) + (single ? "s" : ""));
  SG s;
  if (single) { b = a + 1; s = p.group ? particle_sub_group(w.A, a) : particle_sub_group(p.s, a); }
  else s = p.group ? particle_sub_group(w.A, a, b) : particle_sub_group(p.s, a, b);
  for (int k = 0; k < 3; k++) {
    Members ref = par_members(w, p);
    for (int c = 0; c < w.ncell; c++) if (c < a || c >= b) ref[c].clear();
    NPV_CHECK(sorted(members(s, w.A)) == sorted(ref), "a cell range holds the parent's particles of those cells");
    evolve(w);
  }
}
NPV_BOUNDED(truncate_discard, 240, 1) {
  gp::World w; w.history(1);
  Par p = draw_parent(w);
  const int n = (int)npv::sym("keep", 0, 30, 12);
  SG t = p.group ? particle_sub_group_truncate(w.A, n) : particle_sub_group_truncate(p.s, n);
  SG d = p.group ? particle_sub_group_discard(w.A, n) : particle_sub_group_discard(p.s, n);
  for (int k = 0; k < 3; k++) {
    Members ref = par_members(w, p), head(w.ncell), tail(w.ncell);
    for (int c = 0; c < w.ncell; c++) for (size_t q = 0; q < ref[c].size(); q++) (q < (size_t)n ? head : tail)[c].push_back(ref[c][q]);
    if (npv::uni(0, 1)) { NPV_CHECK(members(t, w.A) == head, "truncation keeps the first particles of each cell"); NPV_CHECK(members(d, w.A) == tail, "discarding drops the first particles of each cell"); }
    else { NPV_CHECK(members(d, w.A) == tail, "discarding drops the first particles of each cell"); NPV_CHECK(members(t, w.A) == head, "truncation keeps the first particles of each cell"); }
    evolve(w);
  }
}
NPV_BOUNDED(copy_and_union, 240, 1) {
  gp::World w; w.history(1);
  Par p = draw_parent(w);
  if (p.group) p = {particle_sub_group(w.A), false};
  SG c = particle_sub_group(p.s);
  const int m = (int)npv::sym("pieces", 1, 4, 4);
  std::vector<SG> pieces;
  for (int k = 0; k < m; k++) { const INT kk = k, mm = m + 1; pieces.push_back(particle_sub_group(p.s, [=](auto ID) { return ID.at(0) % mm == kk; }, Access::read(Sym<INT>("ID")))); }
  SG u = particle_sub_group_disjoint_union(pieces);
  for (int k = 0; k < 3; k++) {
    Members pm = par_members(w, p);
    NPV_CHECK(sorted(members(c, w.A)) == sorted(pm), "a copy holds its parent's particles");
    NPV_CHECK(c->is_entire_particle_group() == p.s->is_entire_particle_group(), "a copy of the whole group is the whole group");
    auto L = gp::layers(w.A);
    Members ref(w.ncell);
    for (int x = 0; x < w.ncell; x++) for (INT l : pm[x]) if (L[x][l].i["ID"][0] % (m + 1) < m) ref[x].push_back(l);
    NPV_CHECK(sorted(members(u, w.A)) == sorted(ref), "a disjoint union holds the particles of its parts");
    evolve(w);
  }
}
NPV_BOUNDED(partition, 240, 1) {
  gp::World w; w.history(1);
  Par p = draw_parent(w);
  const int m = (int)npv::sym("parts", 1, 9, 9);
  auto parts = p.group ? particle_group_partition(w.A, Sym<INT>("Q"), m) : particle_group_partition(p.s, Sym<INT>("Q"), m);
  NPV_CHECK((int)parts.size() == m, "one sub-group per partition");
  for (int k = 0; k < 3; k++) {
    // property values outside [0, m) belong to no partition
    const INT s = w.lr.uni(0, 9), mm = m;
    particle_loop(w.A, [=](auto Q, auto ID) { Q.at(0) = (ID.at(0) * 7 + s) % (mm + 3) - 1; }, Access::write(Sym<INT>("Q")), Access::read(Sym<INT>("ID")))->execute();
    Members pm = par_members(w, p);
    auto L = gp::layers(w.A);
    std::vector<int> order(m);
    for (int x = 0; x < m; x++) order[x] = x;
    std::shuffle(order.begin(), order.end(), npv::rng());
    for (int q : order) {
      if (!parts[q]) continue;
      if (npv::uni(0, 9) == 0) { parts[q].reset(); continue; }
      Members ref(w.ncell);
      for (int x = 0; x < w.ncell; x++) for (INT l : pm[x]) if (L[x][l].i["Q"][0] == q) ref[x].push_back(l);
      NPV_CHECK(sorted(members(parts[q], w.A)) == sorted(ref), "a partition holds the parent's particles with its index");
    }
    evolve(w);
  }
}
static void static_partition(bool sibling) {
  gp::World w; w.history(1);
  const int m = (int)npv::sym("parts", 2, 4, 4);
  particle_loop(w.A, [=](auto Q, auto ID) { Q.at(0) = ID.at(0) % m; }, Access::write(Sym<INT>("Q")), Access::read(Sym<INT>("ID")))->execute();
  auto parts = particle_group_partition(w.A, Sym<INT>("Q"), m);
  parts[0]->static_status(true);
  const Members m0 = sorted(members(parts[0], w.A));
  particle_loop(w.A, [=](auto Q, auto ID) { Q.at(0) = (ID.at(0) / 2) % m; }, Access::write(Sym<INT>("Q")), Access::read(Sym<INT>("ID")))->execute();
  if (sibling) parts[1]->create_if_required();
  NPV_CHECK(sorted(members(parts[0], w.A)) == m0, "a static partition keeps its particles when values change");
}
NPV_BOUNDED(static_partition, 80, 1) { static_partition(false); }
NPV_BOUNDED(static_partition_sibling_recreated, 40, 1) { static_partition(true); }
NPV_BOUNDED(scan_selector, 160, 1) {
  gp::World w; w.history(1);
  Par p = draw_parent(w);
  const INT b = npv::sym("b", 1, 4, 4);
  auto k = [=](auto Q) { return ((Q.at(1) % b) + b) % b == 0; };
  auto sel = p.group ? std::make_shared<ParticleSubGroupImplementation::SubGroupSelectorExclusiveScan>(w.A, k, Access::read(Sym<INT>("Q")))
                     : std::make_shared<ParticleSubGroupImplementation::SubGroupSelectorExclusiveScan>(p.s, k, Access::read(Sym<INT>("Q")));
  SG s = std::make_shared<ParticleSubGroup>(std::dynamic_pointer_cast<ParticleSubGroupImplementation::SubGroupSelectorBase>(sel));
  for (int x = 0; x < 3; x++) {
    Members ref = filter_ref(par_members(w, p), Pred{1, 0, b}, gp::layers(w.A));
    NPV_CHECK(sorted(members(s, w.A)) == sorted(ref), "the scan selector holds exactly the particles that satisfy its kernel");
    evolve(w);
  }
}
#endif
