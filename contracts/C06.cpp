// C06: removing particles removes exactly the named ones
//@ opts: {"smallloops": 8, "symunroll": 8}
//@ replace: get_resource<NESO::Particles::BufferDevice<int> => npvr_device: get_resource returns a buffer nobody else uses (C26)
//@ replace: get_resource<NESO::Particles::BufferDevice<long> => npvr_device_int: get_resource returns a buffer nobody else uses (C26)
//@ replace: restore_resource< => npvr_restore: restore_resource only takes the buffer back (C26)
//@ replace: BufferBase<int>::realloc_no_copy => npvr_room: realloc_no_copy provides room for the elements (C20)
//@ replace: BufferBase<long>::realloc_no_copy => npvr_room_int: realloc_no_copy provides room for the elements (C20)
//@ replace: joint_exclusive_scan_blocking => npvr_scan: joint_exclusive_scan_blocking computes the exclusive prefix sums (C01)
//@ replace: joint_exclusive_scan_n => npvr_scan_n: joint_exclusive_scan_n computes the exclusive prefix sums of each cell (C01)
//@ replace: ParticleLoopBlockIterationSet::get_all_cells => npvr_cells: the blocks of get_all_cells contain each particle once (C04)
//@ replace: ParticleGroupPointerMap::set_npart_cells_host_device< => npvr_set_npart: set_npart_cells_host_device sets the occupancy of each property
//@ replace: ParticleDatT<long>::trim_cell_dat_rows => npvr_trim: trim_cell_dat_rows keeps the rows of the occupancy (C20)
//@ assume: removal is proved for two rows that move (in one cell or in two), each with the hole of the same rank; that such a hole exists for each of them is counting
//@ assume: item-wise contracts (see C09); the particles named for removal are distinct rows of their cells
#define NPV_ITEMWISE
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
#include "vcgroup.hpp"
#ifdef NPV_VC
#include "src/particle_group_pointer_map.cpp"
#include "src/loop/particle_loop_iteration_set.cpp"
#include "src/cell_dat_compression.cpp"
// Particles in row a[j] of cell c[j], beyond the new occupancy, and the removed rows h[j]
// below it which they fill.
struct Compress {
  int64_t ncell, npart, c[2], h[2], a[2], r[2], t[2], k[2], left[2];
  bool same; // both in one cell
  int *np, *mask[2], *fill;
  int nbuf, nbufi, scans, sets, trims, blocks;
  int only; // launch of the copy of the followed components
  npv::storage<BufferDevice<int>> dev[12];
  npv::storage<BufferDevice<INT>> devi[3];
  std::vector<ParticleLoopImplementation::ParticleLoopBlockHost> *bl;
  SYCLTargetSharedPtr T;
  LayerCompressor *lc;
  Packed P;
};
static Compress *M;
extern "C" std::shared_ptr<BufferDevice<int>> npvr_device() {
  auto b = M->dev[M->nbuf++].get();
  new (b) BufferDevice<int>(M->T, 1);
  return npv::raw(b);
}
extern "C" std::shared_ptr<BufferDevice<INT>> npvr_device_int() {
  auto b = M->devi[M->nbufi++].get();
  new (b) BufferDevice<INT>(M->T, 1);
  return npv::raw(b);
}
extern "C" void npvr_restore() {}
extern "C" void npvr_room(BufferBase<int> *b, size_t n) { b->ptr = (int *)::operator new(n * sizeof(int)); b->size = n; }
extern "C" void npvr_room_int(BufferBase<INT> *b, size_t n) { b->ptr = (INT *)::operator new(n * sizeof(INT)); b->size = n; }
extern "C" void npvr_scan(void *, size_t n, int *in, int *out) {
  Compress *m = M;
  const int64_t cells = m->ncell; const int *np = m->np, *fill = m->fill;
  const int scan = m->scans++;
  NPV_CHECK(n == (size_t)cells + 1, "how: the scan is over the cells");
  for (int j = 0; j < 2; j++)
    NPV_CHECK(in[m->c[j]] == (scan ? fill[m->c[j]] : np[m->c[j]] + 1), "how: the rows of each cell and one more, the rows of each cell to fill");
  if (scan == 0) { for (int64_t i = 0; i < cells; i++) out[i] = (int)(npv::sum(np, i) + i); out[cells] = (int)(npv::sum(np, cells) + cells); }
  else {
    for (int j = 0; j < 2; j++) out[m->c[j]] = (int)npv::sum(fill, m->c[j]);
    out[cells] = (int)npv::sum(fill, cells);
  }
}
extern "C" sycl::event npvr_scan_n(void *, size_t n, int *counts, int *offsets, int *in, int *out) {
  Compress *m = M;
  NPV_CHECK(n == (size_t)m->ncell, "how: the scan is over the cells");
  for (int j = 0; j < 2; j++) {
    const int64_t c = m->c[j], o = npv::sum(m->np, c) + c;
    NPV_CHECK(counts[c] == m->np[c] + 1 && offsets[c] == o, "how: the rows of each cell and one more");
    NPV_CHECK(in[o + m->h[j]] == 1, "how: a removed row is marked");
    NPV_CHECK(in[o + m->a[j]] == 0, "how: a row that stays is not marked");
  }
  for (int j = 0; j < 2; j++) {
    const int64_t c = m->c[j], o = npv::sum(m->np, c) + c;
    const int *mask = m->mask[j];
    const int64_t at[4] = {m->h[j], m->a[j], m->left[j], m->np[c]};
    for (int i = 0; i < 4; i++) out[o + at[i]] = (int)npv::sum(mask, at[i]);
  }
  return sycl::event();
}
extern "C" std::vector<ParticleLoopImplementation::ParticleLoopBlockHost> *npvr_cells(ParticleLoopImplementation::ParticleLoopBlockIterationSet *) {
  Compress *m = M;
  for (int j = 0; j < 2; j++) NPV_CHECK(m->lc->h_npart_cell.ptr[m->c[j]] == m->np[m->c[j]] && m->lc->d_npart_cell.ptr[m->c[j]] == m->np[m->c[j]], "how: the loops are over the particles of each cell");
  m->blocks++;
  return m->bl;
}
extern "C" void npvr_set_npart(void *, int *h, int *d) {
  Compress *m = M;
  for (int j = 0; j < 2; j++) NPV_CHECK(h[m->c[j]] == m->left[j] && d[m->c[j]] == m->left[j], "each cell keeps the particles that are not removed");
  m->sets++;
}
extern "C" void npvr_trim(void *) { M->trims++; }
static void items(int launch) {
  Compress *m = M;
  auto *it = sycl::npv::items;
  it->all = false; it->n = m->same ? 1 : 2;
  for (int j = 0; j < 2; j++) it->id[j][0] = m->c[j];
  switch (launch) {
  case 2: it->n = 2; for (int j = 0; j < 2; j++) it->id[j][0] = m->r[j]; break;
  case 4: case 7: it->n = 4; for (int j = 0; j < 2; j++) { it->id[j][1] = m->h[j]; it->id[2 + j][0] = m->c[j]; it->id[2 + j][1] = m->a[j]; } break;
  case 6: break;
  case 8: case 9: it->n = launch == m->only ? 2 : 0; for (int j = 0; j < 2; j++) { it->id[j][0] = m->k[j]; it->id[j][1] = npv::sum(m->fill, m->c[j]) + m->t[j]; } break;
  default: it->all = true;
  }
}
template <bool real, bool same> static void compress() {
  auto *m = M = new Compress();
  LAYOUT(R, "r"); LAYOUT(I, "i");
  auto *P = &m->P; P->R = R; P->I = I;
  const int64_t ncell = m->ncell = P->ncell = npv::sym("ncell", 1, 1 << 10), npart = m->npart = npv::sym("npart", 1, 1 << 28);
  m->np = npv::array<int>("np", ncell, 0, 1 << 20); m->fill = npv::array<int>("fill", ncell, 0, 1 << 20);
  P->rows = npv::array<int>("rows", ncell, 0, 1 << 24);
  P->real = npv::datptrs<REAL>("real", R.ndat, ncell, R.ncomp, P->rows);
  P->integer = npv::datptrs<INT>("integer", I.ndat, ncell, I.ncomp, P->rows, -BIG, BIG);
  INT ***cid = npv::celldat<INT>("cellid", ncell, 1, P->rows, 0, 1 << 10);
  INT *cells = npv::array<INT>("cells", npart, 0, 1 << 10), *layers = npv::array<INT>("layers", npart, 0, 1 << 20);
  m->T = h_target();
  m->same = same; m->only = real ? 8 : 9;
  const int64_t total = npv::sum(m->np, ncell), filled = npv::sum(m->fill, ncell);
  npv::assume(total <= 1 << 28); npv::assume(filled <= npart); // the rows to fill are removed rows
  int *mask = nullptr;
  for (int j = 0; j < 2; j++) {
    const int64_t c = m->c[j] = same && j ? m->c[0] : npv::sym(j ? "c1" : "c0", 0, 1 << 10);
    npv::assume(c < ncell); npv::assume(m->np[c] <= P->rows[c]);
    mask = m->mask[j] = same && j ? m->mask[0] : npv::array<int>(j ? "mask1" : "mask0", m->np[c], 0, 1); // 1: the row is removed
    const int64_t left = m->left[j] = m->np[c] - npv::sum(mask, m->np[c]);
    const int64_t h = m->h[j] = npv::sym(j ? "h1" : "h0", 0, 1 << 20), a = m->a[j] = npv::sym(j ? "a1" : "a0", 0, 1 << 20);
    npv::assume(left >= 0); npv::assume(h < left); npv::assume(a >= left); npv::assume(a < m->np[c]);
    npv::assume(mask[h] == 1); npv::assume(mask[a] == 0);
    const int64_t t = m->t[j] = npv::sum(mask, h);
    npv::assume(t == a - left - (npv::sum(mask, a) - npv::sum(mask, left))); // as many rows that move before it as holes before its hole
    npv::assume(m->fill[c] == npv::sum(mask, left));
    const int64_t r = m->r[j] = npv::sym(j ? "n1" : "n0", 0, 1 << 28); // where the removed row is named
    npv::assume(r < npart); npv::assume(cells[r] == c); npv::assume(layers[r] == h);
    m->k[j] = npv::sym(j ? "k1" : "k0", 0, 1 << 12);
    npv::assume(m->k[j] < (real ? R.total : I.total));
    if (real) R.comp(m->k[j]); else I.comp(m->k[j]);
  }
  if (same) { npv::assume(m->a[0] != m->a[1]); npv::assume(m->h[0] != m->h[1]); }
  else {
    npv::assume(m->c[0] < m->c[1]); // the two are interchangeable
    const bool before = npv::sum(m->np, m->c[0]) + m->np[m->c[0]] <= npv::sum(m->np, m->c[1]);
    NPV_CHECK(before, "lemma: the rows of a cell are before those of later cells");
    npv::assume(before);
  }
  REAL v[2]; INT w[2];
  for (int j = 0; j < 2; j++) {
    if (real) v[j] = P->real[R.fd[m->k[j]]][m->c[j]][R.fc[m->k[j]]][m->a[j]];
    else w[j] = P->integer[I.fd[m->k[j]]][m->c[j]][I.fc[m->k[j]]][m->a[j]];
  }
  P->ranks = cid;
  auto pm = P->map();
  pm->sycl_target = m->T;
  auto *reals = new npv::storage<std::map<Sym<REAL>, ParticleDatSharedPtr<REAL>>>();
  new ((void *)reals->get()) std::map<Sym<REAL>, ParticleDatSharedPtr<REAL>>();
  pm->particle_dats_real = reals->get();
  auto &h = pm->h_cache;
  h.ncomp_total_real = (int)R.total; h.ncomp_total_int = (int)I.total;
  h.d_flattened_dat_index_real = R.fd; h.d_flattened_dat_index_int = I.fd;
  h.d_flattened_comp_index_real = R.fc; h.d_flattened_comp_index_int = I.fc;
  h.d_ptr_real = P->real; h.d_ptr_int = P->integer;
  pm->cell_count = (size_t)ncell;
  auto d = P->rd.get();
  const_cast<int &>(d->ncell) = (int)ncell;
  d->h_npart_cell = m->np; d->d_npart_cell = m->np;
  npv::storage<ParticleDatT<INT>> cd;
  new ((void *)&cd.get()->sym) Sym<INT>("CELL_ID");
  cd.get()->cell_dat.d_ptr = cid;
  npv::storage<LayerCompressor> cs;
  auto *it = sycl::npv::items = new sycl::npv::items_t();
  it->all = true;
  new (cs.get()) LayerCompressor(m->T, (int)ncell, *reals->get(), *pm->particle_dats_int, npv::raw(pm));
  auto C = m->lc = cs.get();
  C->set_cell_id_dat(npv::raw(cd.get()));
  m->bl = new std::vector<ParticleLoopImplementation::ParticleLoopBlockHost>();
  m->bl->push_back(ParticleLoopImplementation::ParticleLoopBlockHost({0, 0, C->d_npart_cell.ptr, 1}, true, 1, sycl::nd_range<2>({(size_t)ncell, (size_t)1 << 20}, {1, 1})));
  __npv_abstract();
  it->launches = 0; it->before = &items;
  C->remove_particles((int)npart, cells, layers);
  NPV_CHECK(m->scans == 2 && m->sets == 1 && m->blocks >= 1, "the occupancies are updated");
  for (int j = 0; j < 2; j++) {
    if (real) NPV_CHECK(P->real[R.fd[m->k[j]]][m->c[j]][R.fc[m->k[j]]][m->h[j]] == v[j], "a real component of a particle beyond the new occupancy is in the row of its hole");
    else NPV_CHECK(P->integer[I.fd[m->k[j]]][m->c[j]][I.fc[m->k[j]]][m->h[j]] == w[j], "an integer component of a particle beyond the new occupancy is in the row of its hole");
  }
  NPV_REACH("end");
}
NPV_PROVE(compress_real_one_cell, 0) { compress<true, true>(); }
NPV_PROVE(compress_real_two_cells, 0) { compress<true, false>(); }
NPV_PROVE(compress_int_one_cell, 0) { compress<false, true>(); }
NPV_PROVE(compress_int_two_cells, 0) { compress<false, false>(); }
#endif
#include "subgroup.hpp"
#ifndef NPV_VC
NPV_BOUNDED(remove_exact, 480, 1) {
  gp::World w;
  w.history(3);
  auto L = gp::layers(w.A);
  gp::State want = gp::state(w.A);
  auto sel = w.choose((int)npv::sym("style", -1, 4, 5));
  npv::note("removed", npv::show(sel.first.data(), sel.first.size()) + npv::show(sel.second.data(), sel.second.size()));
  for (size_t k = 0; k < sel.first.size(); k++) want[sel.first[k]].erase(L[sel.first[k]][sel.second[k]].i["ID"][0]);
  const int n = (int)sel.first.size();
  const int64_t how = npv::sym("how", 0, 2, 2);
  if (how == 0) w.A->remove_particles(n, sel.first, sel.second);
  else if (how == 1) {
    BufferDevice<INT> c(w.target, std::max(n, 1)), l(w.target, std::max(n, 1));
    if (n) { w.target->queue.memcpy(c.ptr, sel.first.data(), n * sizeof(INT)).wait_and_throw(); w.target->queue.memcpy(l.ptr, sel.second.data(), n * sizeof(INT)).wait_and_throw(); }
    w.A->remove_particles(n, c.ptr, l.ptr);
  } else {
    std::vector<int> ci(sel.first.begin(), sel.first.end()), li(sel.second.begin(), sel.second.end());
    BufferDevice<int> c(w.target, std::max(n, 1)), l(w.target, std::max(n, 1));
    if (n) { w.target->queue.memcpy(c.ptr, ci.data(), n * sizeof(int)).wait_and_throw(); w.target->queue.memcpy(l.ptr, li.data(), n * sizeof(int)).wait_and_throw(); }
    w.A->remove_particles(n, c.ptr, l.ptr);
  }
  NPV_CHECK(gp::same(gp::state(w.A), want), "exactly the named particles are removed, the others keep their values and cell");
  gp::consistent(w.A);
}
NPV_BOUNDED(remove_sub_group, 240, 1) {
  gp::World w;
  w.history(2);
  auto L = gp::layers(w.A);
  gp::State want = gp::state(w.A);
  sg::SG s;
  switch (npv::sym("kind", 0, 3, 3)) {
  case 0: s = particle_sub_group(w.A); break;
  case 1: s = sg::filter(sg::filter(w.A, sg::draw_pred(w)), sg::draw_pred(w)); break;
  default: s = sg::filter(w.A, sg::draw_pred(w)); break;
  }
  auto m = sg::members(s, w.A);
  for (size_t c = 0; c < m.size(); c++) for (INT l : m[c]) want[c].erase(L[c][l].i["ID"][0]);
  w.A->remove_particles(s);
  NPV_CHECK(gp::same(gp::state(w.A), want), "exactly the particles of the sub-group are removed");
  gp::consistent(w.A);
  NPV_CHECK(s->is_entire_particle_group() || !s->is_valid() || sg::members(s, w.A).size() == m.size(), "the sub-group can be used again");
}
NPV_BOUNDED(remover_by_value, 240, 1) {
  gp::World w;
  w.history(2);
  gp::State want = gp::state(w.A);
  ParticleRemover rm(w.target);
  for (int k = 0; k < 2; k++) {
    if (npv::sym("int", 0, 1, 1)) {
      // Q component 0 decides
      const INT key = w.lr.uni(0, 3);
      particle_loop(w.A, [=](auto Q, auto ID) { Q.at(0) = ID.at(0) % 5; }, Access::write(Sym<INT>("Q")), Access::read(Sym<INT>("ID")))->execute();
      want = gp::state(w.A);
      for (auto &c : want) for (auto it = c.begin(); it != c.end();) it = it->second.i["Q"][0] == key ? c.erase(it) : std::next(it);
      rm.remove(w.A, w.A->get_dat(Sym<INT>("Q")), key);
    } else {
      const REAL key = (REAL)w.lr.uni(-3, 3);
      for (auto &c : want) for (auto it = c.begin(); it != c.end();) it = it->second.r["W"][0] == key ? c.erase(it) : std::next(it);
      rm.remove(w.A, w.A->get_dat(Sym<REAL>("W")), key);
    }
    NPV_CHECK(gp::same(gp::state(w.A), want), "exactly the particles whose value equals the key are removed");
  }
  gp::consistent(w.A);
}
NPV_BOUNDED(clear_removes_all, 60, 1) {
  gp::World w;
  w.history(2);
  w.A->clear();
  NPV_CHECK(gp::count(gp::state(w.A)) == 0, "clear removes every particle");
  gp::consistent(w.A);
  auto v = w.draw((int)w.lr.uni(0, 40));
  w.A->add_particles_local(w.pset(v, w.spec));
  NPV_CHECK(gp::count(gp::state(w.A)) == (int64_t)v.size(), "a cleared group can be filled again");
  gp::consistent(w.A);
}
#endif
