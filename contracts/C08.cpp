// C08: a cell move puts every particle in the cell named by its cell id and loses, duplicates or alters none
//@ opts: {"smallloops": 8, "symunroll": 8}
//@ replace: get_resource<NESO::Particles::BufferDevice<int> => npvr_device: get_resource returns a buffer nobody else uses (C26)
//@ replace: get_resource<NESO::Particles::BufferHost<int> => npvr_host: get_resource returns a buffer nobody else uses (C26)
//@ replace: restore_resource< => npvr_restore: restore_resource only takes the buffer back (C26)
//@ replace: DeviceLimits::get_cacheline_size => npvr_cacheline: the cache line size is 64
//@ replace: joint_exclusive_scan_blocking => npvr_scan: joint_exclusive_scan_blocking computes the exclusive prefix sums (C01)
//@ replace: BufferBase<int>::realloc_no_copy => npvr_room: realloc_no_copy provides room for the elements (C20)
//@ replace: ErrorPropagate::get_flag => npvr_flag: no particle holds a bad cell (C25 is about the report)
//@ replace: ParticleDatT<long>::realloc<int>\( => npvr_realloc: ParticleDat::realloc provides the rows and keeps the data (C20)
//@ replace: ParticleGroupPointerMap::set_npart_cells_host< => npvr_set_npart: set_npart_cells_host sets the occupancy of each property
//@ replace: LayerCompressor::remove_particles => npvr_remove: remove_particles removes the rows it is given (bounded, C06)
//@ assume: cell move is proved for two particles in any state the visits of the others leave (the counters are atomic); the loop index of each particle is its own (C05); fewer than 2^10 cells of 2^20 particles
#define NPV_ITEMWISE
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
#include "vcgroup.hpp"
#ifdef NPV_VC
#define NPV_LOOP_STATE
#include "vcloop.hpp"
#include "src/particle_group_pointer_map.cpp"
#define ParticleLoop npv::loop::ParticleLoopContract
#include "src/cell_dat_move.cpp"
#undef ParticleLoop
#endif
#include "group.hpp"
#ifdef NPV_VC
// Two particles p[0], p[1] of the group are followed through the move.
struct Move {
  int64_t ncell, c[2], l[2], lin[2], off[2], k[2], at[2];
  INT to[2];
  bool moving[2];
  int *np, *moves; // particles in each cell; particles moving to each cell
  int *count, *layers; // the counters and the layers of the function
  int nbuf, sized, removed;
  void (*copies)(int); // which launches copy the components followed
  npv::storage<BufferDevice<int>> dev[12];
  npv::storage<BufferHost<int>> host;
  SYCLTargetSharedPtr T;
  Packed P;
};
static Move *M;
constexpr int PAD = 64;
extern "C" std::shared_ptr<BufferDevice<int>> npvr_device() {
  auto b = M->dev[M->nbuf++].get();
  new (b) BufferDevice<int>(M->T, 1);
  return npv::raw(b);
}
extern "C" std::shared_ptr<BufferHost<int>> npvr_host() {
  new (M->host.get()) BufferHost<int>(M->T, 1);
  return npv::raw(M->host.get());
}
extern "C" void npvr_scan(void *, size_t n, int *in, int *out) {
  // out[i] is the sum of in[0..i), and in[0..n-1) are the particles that move to each cell
  NPV_CHECK(n == (size_t)M->ncell + 1, "how: the scan is over the cells");
  NPV_FORALL(i, 0, M->ncell) NPV_CHECK(in[i] == M->moves[i], "how: the scan is over the particles that move to each cell");
  const int64_t cells = M->ncell; const int *moves = M->moves;
  for (int64_t i = 0; i < cells; i++) out[i] = (int)npv::sum(moves, i);
  out[cells] = (int)npv::sum(moves, cells);
}
extern "C" void npvr_room(BufferBase<int> *b, size_t n) { b->ptr = (int *)::operator new(n * sizeof(int)); b->size = n; }
extern "C" void npvr_restore() {}
extern "C" size_t npvr_cacheline() { return PAD; }
extern "C" int npvr_flag() { return 0; } // no particle has a bad cell
extern "C" void npvr_realloc(ParticleDatT<INT> *, BufferHost<int> &n) {
  for (int j = 0; j < 2; j++) NPV_CHECK(n.ptr[M->c[j]] == M->np[M->c[j]] + M->moves[M->c[j]] && n.ptr[M->to[j]] == M->np[M->to[j]] + M->moves[M->to[j]], "every cell is given room for its particles and those that move in");
  M->sized++;
  sycl::npv::items->before = M->copies;
  sycl::npv::items->all = false; // the copy: item-wise from here
}
extern "C" void npvr_set_npart(void *, const int *n) {
  for (int j = 0; j < 2; j++) NPV_CHECK(n[M->to[j]] == M->np[M->to[j]] + M->moves[M->to[j]], "the cells contain their particles and those that moved in");
}
extern "C" void npvr_remove(void *, int n, int *cells, int *layers) {
  for (int j = 0; j < 2; j++) if (M->moving[j]) {
    NPV_CHECK(M->at[j] < n, "how: each particle that moves is recorded");
    NPV_CHECK(cells[M->at[j]] == M->c[j] && layers[M->at[j]] == M->l[j], "the old row of each particle that moved is removed");
  }
  M->removed++;
}
static void before(int loop, int j) {
 
  if (loop) return;
  Move *m = M;
  if (j == 0) { m->count = m->dev[0].get()->ptr + m->ncell; m->layers = m->dev[5].get()->ptr; }
  if (j == 0) for (int i = 0; i < 2; i++) NPV_CHECK(m->count[m->to[i] * PAD] == 0, "no particle is counted before the loop");
  __npv_havoc(m->layers); // the visits of the other particles
  m->count[m->to[j] * PAD] = (int)m->off[j];
}
static void after(int loop, int j) {
 
  Move *m = M;
  if (loop) return;
  NPV_CHECK(m->layers[m->lin[j]] == (m->moving[j] ? m->off[j] : -1), "a particle that moves is given the next row of its new cell");
  NPV_CHECK(m->count[m->to[j] * PAD] == m->off[j] + (m->moving[j] ? 1 : 0), "a particle that moves is counted");
  if (j == 1) { // all particles are visited
    for (int64_t i = 0; i < m->ncell; i++) m->count[i * PAD] = m->moves[i];
    m->layers[m->lin[0]] = m->moving[0] ? (int)m->off[0] : -1;
  }
}
static void items_real(int launch) { sycl::npv::items->n = launch == 0 ? 2 : 0; }
static void items_int(int launch) { sycl::npv::items->n = launch == 1 ? 2 : 0; }
template <bool real, bool stays> static void move() { // stays: particle 0 stays in its cell
  auto *m = M = new Move();
  LAYOUT(R, "r"); LAYOUT(I, "i");
  auto *P = &m->P; P->R = R; P->I = I;
  const int64_t ncell = m->ncell = P->ncell = npv::sym("ncell", 1, 1 << 10);
  m->np = npv::array<int>("np", ncell, 0, 1 << 20); m->moves = npv::array<int>("moves", ncell, 0, 1 << 20);
  P->rows = npv::array<int>("rows", ncell, 0, 1 << 24);
  P->real = npv::datptrs<REAL>("real", R.ndat, ncell, R.ncomp, P->rows);
  P->integer = npv::datptrs<INT>("integer", I.ndat, ncell, I.ncomp, P->rows, -BIG, BIG);
  INT ***cid = npv::celldat<INT>("cellid", ncell, 1, P->rows, 0, 1 << 10);
  m->T = h_target();
  INT *lb = npv::array<INT>("lb", ncell, 0, 1 << 30);
  npv::assume(lb[0] == 0);
  const int64_t total = npv::sum(m->np, ncell), moved = npv::sum(m->moves, ncell);
  npv::assume(moved <= total); npv::assume(total <= 1 << 30); // the particles that move are particles of the group
  for (int j = 0; j < 2; j++) {
    const int64_t c = m->c[j] = npv::sym(j ? "c1" : "c0", 0, 1 << 10), l = m->l[j] = npv::sym(j ? "l1" : "l0", 0, 1 << 20);
    npv::assume(c < ncell); npv::assume(l < m->np[c]);
    npv::assume(m->np[c] + m->moves[c] <= P->rows[c]); // the rows realloc provides
    const INT to = m->to[j] = cid[c][0][l];
    npv::assume(to < ncell);
    m->moving[j] = !stays || j == 1;
    npv::assume(m->np[to] + m->moves[to] <= P->rows[to]);
    m->lin[j] = lb[c] + l;
    npv::assume(m->lin[j] < total); // C05
    m->off[j] = npv::sym(j ? "o1" : "o0", 0, 1 << 20); // the number of particles counted for the cell before it
    if (stays && j == 0) npv::assume(to == c);
    else { npv::assume(to != c); npv::assume(m->off[j] < m->moves[to]); }
    m->k[j] = npv::sym(j ? "k1" : "k0", 0, 1 << 12);
    npv::assume(m->k[j] < (real ? R.total : I.total));
    if (real) R.comp(m->k[j]); else I.comp(m->k[j]);
    m->at[j] = npv::sum(m->moves, to) + m->off[j];
  }
  npv::assume((int)(m->c[0] != m->c[1]) | (int)(m->l[0] != m->l[1])); npv::assume(m->lin[0] != m->lin[1]);
  npv::assume((int)(m->to[0] != m->to[1]) | (int)(m->off[0] != m->off[1]));
  // before
  REAL v[2]; INT w[2];
  for (int j = 0; j < 2; j++) {
    if (real) v[j] = P->real[R.fd[m->k[j]]][m->c[j]][R.fc[m->k[j]]][m->l[j]];
    else w[j] = P->integer[I.fd[m->k[j]]][m->c[j]][I.fc[m->k[j]]][m->l[j]];
  }
  P->ranks = cid;
  auto pm = P->map();
  pm->sycl_target = m->T;
  new ((void *)(pm->particle_dats_real = (std::map<Sym<REAL>, ParticleDatSharedPtr<REAL>> *)new npv::storage<std::map<Sym<REAL>, ParticleDatSharedPtr<REAL>>>())) std::map<Sym<REAL>, ParticleDatSharedPtr<REAL>>();
  auto &h = pm->h_cache;
  h.ncomp_total_real = (int)R.total; h.ncomp_total_int = (int)I.total;
  h.d_flattened_dat_index_real = R.fd; h.d_flattened_dat_index_int = I.fd;
  h.d_flattened_comp_index_real = R.fc; h.d_flattened_comp_index_int = I.fc;
  h.d_ptr_real = P->real; h.d_ptr_int = P->integer;
  pm->cell_count = (size_t)ncell;
  auto d = P->rd.get();
  const_cast<int &>(d->ncell) = (int)ncell;
  d->h_npart_cell = m->np; d->d_npart_cell = m->np;
  npv::storage<ParticleDatT<INT>> cd;
  new ((void *)&cd.get()->sym) Sym<INT>("CELL_ID");
  npv::storage<CellMove> cs;
  auto C = cs.get();
  C->sycl_target = m->T;
  C->cell_id_dat = npv::raw(cd.get());
  C->particle_group_pointer_map = npv::raw(pm);
  sycl::npv::items = new sycl::npv::items_t();
  sycl::npv::items->all = true;
  m->copies = real ? &items_real : &items_int;
  for (int j = 0; j < 2; j++) { sycl::npv::items->id[j][0] = m->k[j]; sycl::npv::items->id[j][1] = m->at[stays ? 1 : j]; }
  npv::loop::begin(0, 0, 0);
  auto S = npv::loop::S;
  S->n = 2;
  for (int j = 0; j < 2; j++) { S->at[j][0] = m->c[j]; S->at[j][1] = S->at[j][2] = m->l[j]; }
  S->index.starting_cell = 0; S->index.loop_type_int = 0; S->index.npart_cell_es = lb; S->index.npart_cell_es_lb = lb;
  S->before = &before; S->after = &after;
  npv::loop::bind(Sym<INT>("CELL_ID"), cid);
  C->move();
  NPV_CHECK(S->applied == 2 && m->sized == 1 && m->removed == 1, "identify, collect, resize and remove");
  for (int j = 0; j < 2; j++) if (m->moving[j]) {
    const int64_t row = m->np[m->to[j]] + m->off[j];
    if (real) NPV_CHECK(P->real[R.fd[m->k[j]]][m->to[j]][R.fc[m->k[j]]][row] == v[j], "a real component of a particle that moves is in its row of the new cell");
    else NPV_CHECK(P->integer[I.fd[m->k[j]]][m->to[j]][I.fc[m->k[j]]][row] == w[j], "an integer component of a particle that moves is in its row of the new cell");
  }
  NPV_REACH("end");
}
NPV_PROVE(cell_move_real, 0) { move<true, false>(); }
NPV_PROVE(cell_move_int, 0) { move<false, false>(); }
NPV_PROVE(cell_move_stay, 0) { move<true, true>(); }
#endif
#ifndef NPV_VC
NPV_BOUNDED(cell_move, 640, 1) {
  gp::World w;
  w.history(3);
  for (int k = 0; k < 2; k++) {
    w.shuffle_cells();
    auto all = gp::flat(gp::state(w.A));
    gp::State want(w.ncell);
    for (auto &p : all) want.at(p.second.i["CELL_ID"][0])[p.first] = p.second;
    w.A->cell_move();
    NPV_CHECK(gp::same(gp::state(w.A), want), "every particle is in the cell of its cell id with its values");
    gp::consistent(w.A);
  }
}
NPV_BOUNDED(cell_move_everything, 160, 1) {
  // all particles swap cells: every slot is both vacated and filled
  gp::World w;
  w.scatter(npv::sym("n0", 0, 200, 200));
  const INT nc = w.ncell, s = npv::sym("shift", 1, 7, 7);
  for (int k = 0; k < 3; k++) {
    particle_loop(w.A, [=](auto C) { C.at(0) = (C.at(0) * (k % 2 ? 1 : nc - 1) + s) % nc; }, Access::write(Sym<INT>("CELL_ID")))->execute();
    auto all = gp::flat(gp::state(w.A));
    gp::State want(w.ncell);
    for (auto &p : all) want.at(p.second.i["CELL_ID"][0])[p.first] = p.second;
    w.A->cell_move();
    NPV_CHECK(gp::same(gp::state(w.A), want), "every particle is in the cell of its cell id with its values");
  }
  gp::consistent(w.A);
}
NPV_BOUNDED(cell_move_mapped, 160, 1) {
  // the local mapper assigns the cell ids
  gp::World w(true);
  w.history(2);
  for (int k = 0; k < 2; k++) {
    const INT q = w.lr.uni(1, 9);
    const int nd = w.ndim; double e[3]; for (int d = 0; d < 3; d++) e[d] = w.mesh->global_extents[d];
    const double e0 = e[0], e1 = e[1], e2 = e[2];
    particle_loop(w.A, [=](auto P, auto ID) { const double ee[3] = {e0, e1, e2}; for (int d = 0; d < nd; d++) { P.at(d) += ee[d] * (((ID.at(0) * 3 + d * 5) * q) % 10) * 0.1; if (P.at(d) >= ee[d]) P.at(d) -= ee[d]; } }, Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")))->execute();
    auto before = gp::flat(gp::state(w.A));
    w.A->cell_move();
    auto st = gp::state(w.A);
    auto after = gp::flat(st);
    NPV_CHECK(before.size() == after.size(), "no particle is lost or duplicated");
    for (size_t c = 0; c < st.size(); c++) for (auto &p : st[c]) NPV_CHECK(p.second.i["CELL_ID"][0] == (INT)c, "every particle is in the cell of its cell id");
    for (auto &p : before) { NPV_CHECK(after.count(p.first), "no particle is lost"); auto q2 = after[p.first]; q2.i["CELL_ID"] = p.second.i["CELL_ID"]; NPV_CHECK(q2 == p.second, "values are unchanged by the move"); }
    gp::consistent(w.A);
  }
}
#endif
