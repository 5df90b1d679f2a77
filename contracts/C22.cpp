// C22: product matrices and descendant products create exactly the particles described
//@ design: Proved for all matrices and any two rows: add_particles_local places each row in its cell (the one it names, its parent's or 0) with the written, parent's or zero value of any property, other particles unchanged; entries of matrices and of descendants are distinct storage; set_parent and reset. Bounded: the state after adding products is compared, as a multiset of particles per cell, with the state before plus one particle per described row, every property being the written value, the default, the parent's value or zero.
//@ replace: ParticleSpec::contains\( => npvr_spec_contains: every property of the matrix is a property of the group (asserted precondition)
//@ replace: ParticleSetDeviceSpec::get_sym_index\( => npvr_index: get_sym_index is the column set of a property, -1 without one (bounded)
//@ replace: ParticleSetDeviceSpec::get_num_components\( => npvr_ncomp: get_num_components is the number of components of a property (bounded)
//@ replace: get_resource<NESO::Particles::BufferDevice<long> => npvr_device_int: get_resource returns a buffer nobody else uses (C26)
//@ replace: restore_resource< => npvr_restore: restore_resource only takes the buffer back (C26)
//@ replace: BufferBase<long>::realloc_no_copy => npvr_room_int: realloc_no_copy provides room for the elements (C20)
//@ replace: ParticleGroup::get_new_layers => npvr_layers: get_new_layers gives each particle of a cell in range its own new row, -1 to others (C07)
//@ replace: ParticleGroup::recompute_npart_cell_es => npvr_es: recompute_npart_cell_es recomputes the prefix sums of the occupancy
//@ replace: ParticleGroup::realloc_all_dats => npvr_realloc: realloc_all_dats provides the rows and keeps the data (C20)
//@ replace: ParticleGroupPointerMap::set_npart_cells_host_device< => npvr_set_npart: set_npart_cells_host_device sets the occupancy of each property
//@ replace: ParticleGroup::check_dats_and_group_agree => npvr_agree: check_dats_and_group_agree asserts that the occupancies agree
//@ replace: ParticleGroup::invalidate_group_version => npvr_version: invalidate_group_version makes sub groups outdated (C11)
//@ replace: ParticleSetDevice::reset => npvr_reset: ParticleSetDevice::reset provides the rows with default values (bounded)
//@ assume: item-wise contracts (see C09), any two rows of a product matrix; the properties are copied one by one: proved for any one property
#define NPV_ITEMWISE
#include <neso_particles.hpp>
#include <npv.hpp>
#include "subgroup.hpp"
#ifdef NPV_VC
#include "vcdats.hpp"
#include "src/containers/particle_set_device.cpp"
#include "src/containers/descendant_products.cpp"
#include "src/particle_group.cpp"
enum From { matrix, zero, parent, other, other_zero };
struct Prod {
  int64_t ncell, n, j[2]; // any two rows
  INT cell[2], layer[2];
  int ncomp, index, cellindex;
  int reallocs, sets, layers, agree, version, es, nbuf;
  From from;
  SYCLTargetSharedPtr T;
  npv::storage<BufferDevice<INT>> dev;
  npv::storage<ParticleDatT<REAL>> dr, sr;
  npv::storage<ParticleDatT<INT>> di, si, cd;
  npv::storage<ParticleGroup> g, other;
  ParticleGroup *A;
};
static Prod *M;
extern "C" bool npvr_spec_contains() { return true; }
// the cell property has the longer name
extern "C" int npvr_index(void *, const Sym<INT> *s) { return s->name.size() == 7 ? M->cellindex : M->index; }
extern "C" int npvr_ncomp() { return M->ncomp; }
extern "C" std::shared_ptr<BufferDevice<INT>> npvr_device_int() {
  NPV_CHECK(M->nbuf == 0, "how: one buffer is taken"); M->nbuf++;
  auto b = M->dev.get();
  new (b) BufferDevice<INT>(M->T, 1);
  return npv::raw(b);
}
extern "C" void npvr_restore() {}
extern "C" void npvr_room_int(BufferBase<INT> *b, size_t n) { b->ptr = (INT *)::operator new(n * sizeof(INT)); b->size = n; }
extern "C" void npvr_layers(ParticleGroup *, int n, const INT *cells, INT *layers) {
  auto *m = M;
  NPV_CHECK(n == (int)m->n, "every row becomes a particle");
  for (int k = 0; k < 2; k++) NPV_CHECK(cells[m->j[k]] == m->cell[k], "a row is added to the cell it names, its parent's cell, or cell 0; not without a parent");
  for (int k = 0; k < 2; k++) layers[m->j[k]] = m->layer[k];
  m->layers++;
}
extern "C" void npvr_es() { NPV_CHECK(M->layers == 1, "the occupancy is known"); M->es++; }
extern "C" void npvr_realloc() { NPV_CHECK(M->layers == 1, "the occupancy is known"); M->reallocs++; }
extern "C" void npvr_set_npart(void *, INT *h, INT *d) {
  NPV_CHECK(h == M->A->h_npart_cell.ptr && d == M->A->d_npart_cell.ptr, "the new occupancy is set");
  M->sets++;
}
extern "C" void npvr_agree() { NPV_CHECK(M->sets == 1, "the occupancies agree when they are checked"); M->agree++; }
extern "C" void npvr_version() { M->version++; }
template <typename T> struct Of;
template <> struct Of<REAL> { static auto &dat() { return M->dr; } static auto &src() { return M->sr; } };
template <> struct Of<INT> { static auto &dat() { return M->di; } static auto &src() { return M->si; } };
template <typename T, From from, bool cellcol, bool parents> static void add_products() {
  constexpr bool real = std::is_same_v<T, REAL>;
  auto *m = M = new Prod();
  m->from = from;
  m->T = h_target();
  m->ncell = npv::sym("ncell", 1, 1 << 20); m->n = npv::sym("n", 1, 1 << 20);
  const int nprop = (int)npv::sym("nprop", 1, 1 << 10), niprop = (int)npv::sym("niprop", 1, 1 << 10), ncol = (int)npv::sym("ncol", 1, 1 << 10), nicol = (int)npv::sym("nicol", 1, 1 << 10);
  m->ncomp = (int)npv::sym("ncomp", 1, 1 << 10);
  // the matrix: column (offset of the property + component), row
  int *ro = npv::array<int>("ro", nprop, 0, 1 << 10), *io = npv::array<int>("io", niprop, 0, 1 << 10);
  REAL *rv = npv::array<REAL>("rv", m->n * (int64_t)ncol);
  INT *iv = npv::array<INT>("iv", m->n * (int64_t)nicol, -BIG, BIG);
  m->index = from == matrix ? (int)npv::sym("index", 0, 1 << 10) : -1;
  m->cellindex = cellcol ? (int)npv::sym("cellindex", 0, 1 << 10) : -1;
  if (from == matrix) { npv::assume(m->index < (real ? nprop : niprop)); npv::assume((real ? ro : io)[m->index] + m->ncomp <= (real ? ncol : nicol)); }
  if (cellcol) { npv::assume(m->cellindex < niprop); npv::assume(io[m->cellindex] < nicol); }
  INT *pc = parents ? npv::array<INT>("parentcell", m->n, -1, 1 << 20) : nullptr, *pl = parents ? npv::array<INT>("parentlayer", m->n, -1, 1 << 24) : nullptr;
  int *rows = npv::array<int>("rows", m->ncell, 0, 1 << 24), *srows = npv::array<int>("srows", m->ncell, 0, 1 << 24);
  T ***dst = npv::celldat<T>("dst", m->ncell, m->ncomp, rows), ***src = from == parent ? dst : npv::celldat<T>("src", m->ncell, m->ncomp, srows);
  int *prow = from == parent ? rows : srows;
  for (int k = 0; k < 2; k++) {
    m->j[k] = npv::sym(k ? "j1" : "j0", 0, 1 << 20); npv::assume(m->j[k] < m->n);
    const INT j = m->j[k];
    m->cell[k] = cellcol ? iv[(int64_t)io[m->cellindex] * m->n + j] : parents ? pc[j] : 0;
    if (cellcol && parents) m->cell[k] = pc[j] < 0 ? -1 : m->cell[k];
    m->layer[k] = npv::sym(k ? "l1" : "l0", -1, 1 << 24);
    const bool in = (m->cell[k] >= 0) & (m->cell[k] < m->ncell);
    npv::assume(in == (m->layer[k] >= 0));
    npv::assume(!in | (m->layer[k] < rows[in ? m->cell[k] : 0]));
    if (parents) { // a parent is a particle of the source
      const INT c = pc[j], l = pl[j];
      npv::assume((c < 0) | ((c < m->ncell) & (l >= 0) & (l < prow[(c >= 0) & (c < m->ncell) ? c : 0])));
    }
  }
  npv::assume(m->j[0] != m->j[1]);
  npv::assume((m->cell[0] != m->cell[1]) | (m->layer[0] != m->layer[1]) | (m->layer[0] < 0));
  // any row of a cell that is not one of the new ones
  const INT oc = npv::sym("oc", 0, 1 << 20), ol = npv::sym("ol", 0, 1 << 24), nx = npv::sym("nx", 0, 1 << 10);
  npv::assume(oc < m->ncell); npv::assume(ol < rows[oc]); npv::assume(nx < m->ncomp);
  npv::assume((oc != m->cell[0]) | (ol != m->layer[0])); npv::assume((oc != m->cell[1]) | (ol != m->layer[1]));
  if (from == parent) for (int k = 0; k < 2; k++) { // the parents are old particles, the products new ones
    for (int q = 0; q < 2; q++) npv::assume((pc[m->j[k]] != m->cell[q]) | (pl[m->j[k]] != m->layer[q]) | (m->layer[q] < 0));
  }
  const T old = dst[oc][nx][ol];
  T want[2];
  for (int k = 0; k < 2; k++) {
    const INT j = m->j[k];
    want[k] = 0;
    if (from == matrix) { if constexpr (real) want[k] = rv[((int64_t)ro[m->index] + nx) * m->n + j]; else want[k] = iv[((int64_t)io[m->index] + nx) * m->n + j]; }
    if (from == parent || from == other) { if (pc[j] >= 0) want[k] = src[pc[j]][nx][pl[j]]; }
  }
  // the objects
  npv::storage<ProductMatrixSpec> sp;
  npv::storage<ProductMatrix> ps;
  npv::storage<BufferDevice<REAL>> br; npv::storage<BufferDevice<INT>> bi; npv::storage<BufferDeviceHost<int>> hr, hi;
  auto pm = ps.get();
  br.get()->ptr = rv; bi.get()->ptr = iv;
  hr.get()->d_buffer.ptr = ro; hr.get()->h_buffer.ptr = ro; hi.get()->d_buffer.ptr = io; hi.get()->h_buffer.ptr = io;
  new ((void *)&pm->d_data_real) std::shared_ptr<BufferDevice<REAL>>(npv::raw(br.get()));
  new ((void *)&pm->d_data_int) std::shared_ptr<BufferDevice<INT>>(npv::raw(bi.get()));
  new ((void *)&pm->dh_offsets_real) std::shared_ptr<BufferDeviceHost<int>>(npv::raw(hr.get()));
  new ((void *)&pm->dh_offsets_int) std::shared_ptr<BufferDeviceHost<int>>(npv::raw(hi.get()));
  new ((void *)&pm->spec) std::shared_ptr<ProductMatrixSpec>(npv::raw(sp.get()));
  pm->num_particles = pm->num_products = (int)m->n;
  auto A = m->A = m->g.get();
  A->sycl_target = m->T;
  A->ncell = (int)m->ncell;
  A->h_npart_cell.ptr = npv::array<INT>("npart", m->ncell, 0, 1 << 24);
  A->d_npart_cell.ptr = npv::array<INT>("dnpart", m->ncell, 0, 1 << 24);
  new ((void *)&A->cell_id_dat) ParticleDatSharedPtr<INT>(npv::raw(dat<INT>(m->cd, "CELL_ID", nullptr, 1)));
  auto d = dat<T>(Of<T>::dat(), "X", dst, m->ncomp);
  auto sd = dat<T>(Of<T>::src(), "X", src, m->ncomp);
  auto B = m->other.get();
  set_dats<T>(B, from == other ? sd : nullptr);
  set_dats<T>(A, d);
  auto *it = sycl::npv::items = new sycl::npv::items_t();
  it->all = false; it->n = 2; it->id[0][0] = m->j[0]; it->id[1][0] = m->j[1];
  A->add_particles_local(npv::raw(pm), pc, pl, from == other || from == other_zero ? m->other.get() : nullptr);
  NPV_CHECK(m->layers == 1 && m->es == 1 && m->reallocs == 1 && m->sets == 1 && m->agree == 1 && m->version == 1, "the group is updated once");
  for (int k = 0; k < 2; k++) if (m->layer[k] >= 0)
    NPV_CHECK(npv::near(dst[m->cell[k]][nx][m->layer[k]], want[k], 0), "the new particle has the written value, its parent's value or zero");
  NPV_CHECK(npv::near(dst[oc][nx][ol], old, 0), "other particles are unchanged");
  NPV_REACH("end");
}
NPV_PROVE(products_given_real, 1) { add_products<REAL, matrix, false, false>(); }
NPV_PROVE(products_given_int, 1) { add_products<INT, matrix, true, false>(); }
NPV_PROVE(products_given_real_descendant, 1) { add_products<REAL, matrix, true, true>(); }
NPV_PROVE(products_given_int_descendant, 1) { add_products<INT, matrix, false, true>(); }
NPV_PROVE(products_zero_real, 1) { add_products<REAL, zero, true, false>(); }
NPV_PROVE(products_zero_int, 1) { add_products<INT, zero, false, false>(); }
NPV_PROVE(products_parent_real, 1) { add_products<REAL, parent, false, true>(); }
NPV_PROVE(products_parent_int, 1) { add_products<INT, parent, true, true>(); }
NPV_PROVE(products_other_parent_real, 1) { add_products<REAL, other, true, true>(); }
NPV_PROVE(products_other_parent_int, 1) { add_products<INT, other, false, true>(); }
NPV_PROVE(products_other_parent_without_real, 1) { add_products<REAL, other_zero, false, true>(); }
NPV_PROVE(products_other_parent_without_int, 1) { add_products<INT, other_zero, true, true>(); }
// Two entries of a matrix (row, property, component): distinct entries are distinct storage inside the matrix.
struct Matrix {
  int64_t n, row[2], np; // rows, any two rows
  int nprop[2], p[2], c[2], total[2];
  int *comps[2], *off[2];
  REAL *rv; INT *iv;
  npv::storage<DescendantProducts> ps;
  npv::storage<BufferDevice<REAL>> br; npv::storage<BufferDevice<INT>> bi, bc, bl; npv::storage<BufferDeviceHost<int>> ho[2];
  template <typename T> int64_t at(int k) {
    const int q = std::is_same_v<T, REAL> ? 0 : 1;
    return ((int64_t)off[q][p[k]] + c[k]) * n + row[k];
  }
};
template <typename T> static Matrix *some_matrix(int64_t products) {
  constexpr int q = std::is_same_v<T, REAL> ? 0 : 1;
  auto *m = new Matrix();
  if (products) { m->np = npv::sym("np", 1, 1 << 14); m->n = m->np * products; }
  else m->n = npv::sym("n", 1, 1 << 20);
  for (int t = 0; t < 2; t++) {
    m->nprop[t] = (int)npv::sym(t ? "niprop" : "nprop", 1, 1 << 10);
    m->comps[t] = npv::array<int>(t ? "icomps" : "comps", m->nprop[t], 0, 1 << 10);
    m->off[t] = npv::array<int>(t ? "ioff" : "off", m->nprop[t], 0, 1 << 10);
    m->total[t] = (int)npv::sym(t ? "itotal" : "total", 1, 1 << 10);
    npv::assume(npv::sum(m->comps[t], m->nprop[t]) == m->total[t]);
  }
  for (int k = 0; k < 2; k++) {
    const int p = m->p[k] = (int)npv::sym(k ? "p1" : "p0", 0, 1 << 10), c = m->c[k] = (int)npv::sym(k ? "c1" : "c0", 0, 1 << 10);
    npv::assume(p < m->nprop[q]); npv::assume(c < m->comps[q][p]);
    npv::assume(m->off[q][p] == npv::sum(m->comps[q], p)); // as ParticleSetDevice() computes them (bounded)
    m->row[k] = npv::sym(k ? "r1" : "r0", 0, 1 << 28); npv::assume(m->row[k] < m->n);
  }
  for (int k = 0; k < 2; k++) {
    const bool next = m->off[q][m->p[k]] + m->comps[q][m->p[k]] <= m->total[q];
    NPV_CHECK(next, "a component is a column of the matrix"); npv::assume(next);
  }
  const bool apart = (m->p[0] >= m->p[1]) | (m->off[q][m->p[0]] + m->comps[q][m->p[0]] <= m->off[q][m->p[1]]);
  NPV_CHECK(apart, "the columns of properties are apart"); npv::assume(apart);
  const bool apart2 = (m->p[1] >= m->p[0]) | (m->off[q][m->p[1]] + m->comps[q][m->p[1]] <= m->off[q][m->p[0]]);
  NPV_CHECK(apart2, "the columns of properties are apart"); npv::assume(apart2);
  m->rv = npv::array<REAL>("rv", m->n * (int64_t)m->total[0]);
  m->iv = npv::array<INT>("iv", m->n * (int64_t)m->total[1], -BIG, BIG);
  auto pm = m->ps.get();
  m->br.get()->ptr = m->rv; m->bi.get()->ptr = m->iv;
  for (int t = 0; t < 2; t++) { m->ho[t].get()->d_buffer.ptr = m->off[t]; m->ho[t].get()->h_buffer.ptr = m->off[t]; }
  new ((void *)&pm->d_data_real) std::shared_ptr<BufferDevice<REAL>>(npv::raw(m->br.get()));
  new ((void *)&pm->d_data_int) std::shared_ptr<BufferDevice<INT>>(npv::raw(m->bi.get()));
  new ((void *)&pm->dh_offsets_real) std::shared_ptr<BufferDeviceHost<int>>(npv::raw(m->ho[0].get()));
  new ((void *)&pm->dh_offsets_int) std::shared_ptr<BufferDeviceHost<int>>(npv::raw(m->ho[1].get()));
  pm->num_particles = pm->num_products = (int)m->n;
  return m;
}
// Kernel arguments of access type A on a matrix of type P
template <typename P, template <typename> typename A, typename K> static K kernel_arg(P *pm) {
  namespace pl = ParticleLoopImplementation;
  npv::storage<pl::ParticleLoopGlobalInfo> info; npv::storage<pl::ParticleLoopIteration> it;
  sycl::handler h;
  A<P *> a{pm};
  auto l = pl::create_loop_arg(info.get(), h, a);
  K k;
  pl::create_kernel_arg(*it.get(), l, k);
  return k;
}
template <typename T, typename K> static auto &entry(K &k, const Matrix *m, int j) {
  if constexpr (std::is_same_v<T, REAL>) return k.at_real((int)m->row[j], m->p[j], m->c[j]);
  else return k.at_int((int)m->row[j], m->p[j], m->c[j]);
}
template <typename T, typename P, typename RK, typename WK, typename AK> static void matrix_entries() {
  auto *m = some_matrix<T>(0);
  constexpr int q = std::is_same_v<T, REAL> ? 0 : 1;
  P *pm = (P *)m->ps.get();
  const T *v; if constexpr (std::is_same_v<T, REAL>) v = m->rv; else v = m->iv;
  const bool same = (m->row[0] == m->row[1]) & (m->p[0] == m->p[1]) & (m->c[0] == m->c[1]);
  auto w = kernel_arg<P, Access::Write, WK>(pm);
  auto r = kernel_arg<P, Access::Read, RK>(pm);
  auto a = kernel_arg<P, Access::Add, AK>(pm);
  const int64_t i0 = m->template at<T>(0), i1 = m->template at<T>(1);
  NPV_CHECK(i0 >= 0 && i0 < m->n * (int64_t)m->total[q], "an entry is inside the matrix");
  NPV_CHECK((i0 == i1) == same, "distinct entries are distinct storage");
  const T old = v[i1], x = (T)npv::sym("x", -1000, 1000);
  entry<T>(w, m, 0) = x;
  NPV_CHECK(npv::near(entry<T>(r, m, 0), x, 0), "an entry is read as it was written");
  NPV_CHECK(same || npv::near(entry<T>(r, m, 1), old, 0), "no other entry changes");
  T before;
  if constexpr (std::is_same_v<T, REAL>) before = a.fetch_add_real((int)m->row[0], m->p[0], m->c[0], 2.0);
  else before = a.fetch_add_int((int)m->row[0], m->p[0], m->c[0], 2);
  NPV_CHECK(npv::near(before, x, 0) && npv::near(entry<T>(r, m, 0), x + 2, 0), "a value is added to the entry once and the value before is returned");
  NPV_CHECK(same || npv::near(entry<T>(r, m, 1), old, 0), "no other entry changes when a value is added");
  NPV_REACH("end");
}
NPV_PROVE(product_matrix_entries_real, 1) { namespace a = Access::ProductMatrix; matrix_entries<REAL, ProductMatrix, a::Read, a::Write, a::Add>(); }
NPV_PROVE(product_matrix_entries_int, 1) { namespace a = Access::ProductMatrix; matrix_entries<INT, ProductMatrix, a::Read, a::Write, a::Add>(); }
NPV_PROVE(particle_set_entries_real, 1) { namespace a = Access::ParticleSetDevice; matrix_entries<REAL, ParticleSetDevice, a::Read, a::Write, a::Add>(); }
NPV_PROVE(particle_set_entries_int, 1) { namespace a = Access::ParticleSetDevice; matrix_entries<INT, ParticleSetDevice, a::Read, a::Write, a::Add>(); }
// Products of two visits of a loop: parent i is the i-th particle of the loop, product k of parent i is row i + k * (number of parents)
template <typename T> static void descendant_rows() {
  const int64_t npp = npv::sym("npp", 1, 1 << 6);
  auto *m = some_matrix<T>(npp);
  auto pm = m->ps.get();
  pm->num_products_per_parent = (int)npp; pm->num_parent_particles = (int)m->np;
  INT *pc = npv::array<INT>("pc", m->n, -1, 1 << 20), *pl = npv::array<INT>("pl", m->n, -1, 1 << 24);
  m->bc.get()->ptr = pc; m->bl.get()->ptr = pl;
  new ((void *)&pm->d_parent_cells) std::shared_ptr<BufferDevice<INT>>(npv::raw(m->bc.get()));
  new ((void *)&pm->d_parent_layers) std::shared_ptr<BufferDevice<INT>>(npv::raw(m->bl.get()));
  const T *v; if constexpr (std::is_same_v<T, REAL>) v = m->rv; else v = m->iv;
  auto w = kernel_arg<DescendantProducts, Access::Write, Access::DescendantProducts::Write>(pm);
  // two visits of the loop over cells start..ncell
  const int64_t ncell = npv::sym("ncell", 1, 1 << 20), start = npv::sym("start", 0, 1 << 20);
  npv::assume(start < ncell);
  INT *es = npv::array<INT>("es", ncell, 0, 1 << 24), *lb = npv::array<INT>("lb", ncell, 0, 1 << 24);
  Access::LoopIndex::Read ix[2];
  int64_t i[2], k[2];
  for (int j = 0; j < 2; j++) {
    namespace pl_ = ParticleLoopImplementation;
    pl_::ParticleLoopIteration it;
    it.cellx = (int)npv::sym(j ? "cell1" : "cell0", 0, 1 << 20); npv::assume(it.cellx >= start); npv::assume(it.cellx < ncell);
    it.layerx = npv::sym(j ? "layer1" : "layer0", 0, 1 << 24);
    it.loop_layerx = npv::sym(j ? "loop1" : "loop0", 0, 1 << 24);
    pl_::ParticleLoopIndexKernelT kt{(int)start, 0, es, lb};
    pl_::create_kernel_arg(it, kt, ix[j]);
    i[j] = ix[j].get_loop_linear_index();
    NPV_CHECK(i[j] == lb[it.cellx] + it.loop_layerx - lb[start], "the index counts the particles of the loop");
    npv::assume(i[j] >= 0); npv::assume(i[j] < m->np); // the matrix is reset for the particles of the loop
    k[j] = npv::sym(j ? "k1" : "k0", 0, 1 << 6); npv::assume(k[j] < npp);
    npv::assume(m->row[j] == i[j] + k[j] * m->np);
  }
  const bool row = (m->row[0] == m->row[1]) == ((i[0] == i[1]) & (k[0] == k[1]));
  NPV_CHECK(row, "distinct products are distinct rows"); npv::assume(row);
  const bool same = (m->row[0] == m->row[1]) & (m->p[0] == m->p[1]) & (m->c[0] == m->c[1]);
  const INT c1 = pc[m->row[1]], l1 = pl[m->row[1]];
  w.set_parent(ix[0], (int)k[0]);
  NPV_CHECK(pc[m->row[0]] == ix[0].cell && pl[m->row[0]] == ix[0].layer, "the parent of a product is the particle of the visit");
  NPV_CHECK(m->row[0] == m->row[1] || (pc[m->row[1]] == c1 && pl[m->row[1]] == l1), "the parents of other products are unchanged");
  const T old = v[m->template at<T>(1)], x = (T)npv::sym("x", -1000, 1000);
  if constexpr (std::is_same_v<T, REAL>) w.at_real(ix[0], (int)k[0], m->p[0], m->c[0]) = x;
  else w.at_int(ix[0], (int)k[0], m->p[0], m->c[0]) = x;
  NPV_CHECK(npv::near(v[m->template at<T>(0)], x, 0), "an entry of a product is stored in its row");
  NPV_CHECK(same || npv::near(v[m->template at<T>(1)], old, 0), "no other entry changes");
  NPV_REACH("end");
}
NPV_PROVE(descendant_rows_real, 1) { descendant_rows<REAL>(); }
NPV_PROVE(descendant_rows_int, 1) { descendant_rows<INT>(); }
static int resets, reset_rows;
extern "C" void npvr_reset(void *, int n) { resets++; reset_rows = n; }
NPV_PROVE(descendant_reset, 1) {
  npv::storage<DescendantProducts> ps;
  npv::storage<BufferDevice<INT>> bc, bl;
  auto T = h_target();
  auto pm = ps.get();
  new (bc.get()) BufferDevice<INT>(T, 1); new (bl.get()) BufferDevice<INT>(T, 1);
  new ((void *)&pm->d_parent_cells) std::shared_ptr<BufferDevice<INT>>(npv::raw(bc.get()));
  new ((void *)&pm->d_parent_layers) std::shared_ptr<BufferDevice<INT>>(npv::raw(bl.get()));
  new ((void *)&pm->sycl_target) SYCLTargetSharedPtr(T);
  const int npp = pm->num_products_per_parent = (int)npv::sym("npp", 1, 1 << 8);
  const int np = (int)npv::sym("np", 0, 1 << 20);
  const int64_t row = npv::sym("row", 0, 1 << 28);
  npv::assume(row < (int64_t)np * npp);
  resets = 0;
  pm->DescendantProducts::reset(np);
  NPV_CHECK(resets == 1 && reset_rows == np * npp && pm->num_parent_particles == np && pm->num_products == np * npp, "one row per parent and product");
  NPV_CHECK(pm->d_parent_cells->ptr[row] == -1 && pm->d_parent_layers->ptr[row] == -1, "no row has a parent before one is set");
  NPV_REACH("end");
}
#endif
#ifndef NPV_VC
namespace {
using Cells = std::vector<std::vector<gp::Particle>>;
Cells sorted(Cells L) { for (auto &c : L) std::sort(c.begin(), c.end()); return L; }
bool same_cells(const Cells &a, const Cells &b) {
  auto x = sorted(a), y = sorted(b);
  for (size_t c = 0; c < x.size(); c++) if (x[c] != y[c]) {
    std::string s = "cell " + std::to_string(c) + " has " + std::to_string(x[c].size()) + " expected " + std::to_string(y[c].size());
    for (size_t k = 0; k < std::min(x[c].size(), y[c].size()); k++) if (!(x[c][k] == y[c][k])) {
      for (auto &q : y[c][k].r) if (x[c][k].r[q.first] != q.second) s += " " + q.first;
      for (auto &q : y[c][k].i) if (x[c][k].i[q.first] != q.second) s += " " + q.first;
      break;
    }
    npv::note("diff", s); return false;
  }
  return true;
}
// a specification: properties of the group in any order
struct Spec {
  std::vector<ParticleProp<REAL>> r; std::vector<ParticleProp<INT>> i; std::shared_ptr<ProductMatrixSpec> spec;
  std::map<std::string, std::vector<REAL>> dr; std::map<std::string, std::vector<INT>> di;
  int cell = -1; // index of the cell property
  Spec(gp::World &w, ParticleGroupSharedPtr A, int with_cell) {
    for (auto &kv : A->particle_dats_real) if (w.lr.uni(0, 1)) r.push_back(ParticleProp(kv.first, kv.second->ncomp, kv.second->positions));
    for (auto &kv : A->particle_dats_int) {
      const bool c = kv.first.name == "CELL_ID";
      if (c ? with_cell : w.lr.uni(0, 1)) i.push_back(ParticleProp(kv.first, kv.second->ncomp, kv.second->positions));
    }
    std::shuffle(r.begin(), r.end(), w.lr.g); std::shuffle(i.begin(), i.end(), w.lr.g);
    ParticleSpec ps; for (auto &p : r) ps.push(p); for (auto &p : i) ps.push(p);
    spec = product_matrix_spec(ps);
    std::string s;
    for (auto &p : r) { s += p.name + " "; dr[p.name].assign(p.ncomp, 0); for (int c = 0; c < p.ncomp; c++) if (w.lr.uni(0, 3) == 0) spec->set_default_value(p.sym, c, dr[p.name][c] = (REAL)w.lr.uni(-5, 5)); NPV_CHECK(spec->get_sym_index(p.sym) == (int)(&p - r.data()), "properties are indexed in the order they are given"); }
    for (auto &p : i) { s += p.name + " "; if (p.name == "CELL_ID") cell = (int)(&p - i.data()); di[p.name].assign(p.ncomp, 0); for (int c = 0; c < p.ncomp; c++) if (p.name != "CELL_ID" && w.lr.uni(0, 3) == 0) spec->set_default_value(p.sym, c, di[p.name][c] = w.lr.uni(-5, 5)); NPV_CHECK(spec->get_sym_index(p.sym) == (int)(&p - i.data()), "properties are indexed in the order they are given"); }
    npv::note("spec", s);
  }
};
REAL fr(INT k, int p, int c) { return 0.25 * (REAL)k + 1000 * p + 100 * c + 0.5; }
INT fi(INT k, int p, int c) { return k + 1000 * p + 100 * c + 7; }
const int MAXP = 8, MAXC = 8;
} // namespace
NPV_BOUNDED(product_matrix_rows, 240, 1) {
  gp::World w;
  w.history(2);
  // rows are written by a loop over another group
  auto B = w.make();
  B->add_particles_local(w.pset(w.draw((int)w.lr.uni(1, 40)), w.spec));
  const INT nb = B->get_npart_local();
  Spec s(w, w.A, (int)npv::sym("cells given", 0, 1, 1));
  auto pm = product_matrix(w.target, s.spec);
  for (int rep = 0; rep < 2; rep++) {
    const int n = npv::uni(0, 5) ? (int)w.lr.uni(0, nb) : 0;
    npv::note("rows", std::to_string(n));
    pm->reset(n);
    auto want = gp::layers(w.A);
    const int nr = (int)s.r.size(), ni = (int)s.i.size(), ncell = w.ncell, cell = s.cell;
    std::array<int, MAXP> cr{}, ci{};
    for (int p = 0; p < nr; p++) cr[p] = s.r[p].ncomp;
    for (int p = 0; p < ni; p++) ci[p] = s.i[p].ncomp;
    const int skip = (int)npv::uni(2, 4);  // every skip-th (property, component) keeps its default
    const bool adds = npv::uni(0, 2) == 0; // afterwards one component is added to
    particle_loop(B, [=](auto I, auto M) {
      const INT k = I.get_loop_linear_index();
      if (k >= n) return;
      for (int p = 0; p < nr; p++) for (int c = 0; c < cr[p]; c++) if ((p + c) % skip) M.at_real(k, p, c) = fr(k, p, c);
      for (int p = 0; p < ni; p++) for (int c = 0; c < ci[p]; c++) if (p == cell) M.at_int(k, p, c) = (k * 5 + 3) % ncell; else if ((p + c) % skip) M.at_int(k, p, c) = fi(k, p, c);
    }, Access::read(ParticleLoopIndex{}), Access::write(pm))->execute();
    if (adds) particle_loop(B, [=](auto I, auto M) {
      const INT k = I.get_loop_linear_index();
      if (k >= n) return;
      for (int p = 0; p < nr; p++) M.fetch_add_real(k, p, cr[p] - 1, 2.0);
      for (int p = 0; p < ni; p++) if (p != cell) M.fetch_add_int(k, p, ci[p] - 1, 3);
    }, Access::read(ParticleLoopIndex{}), Access::add(pm))->execute();
    ErrorPropagate ep(w.target);
    auto k_ep = ep.device_ptr();
    auto back = std::make_shared<LocalArray<REAL>>(w.target, n * MAXP * MAXC + 1);
    auto backi = std::make_shared<LocalArray<INT>>(w.target, n * MAXP * MAXC + 1);
    back->fill(0); backi->fill(0);
    particle_loop(B, [=](auto I, auto M, auto R, auto J) {
      const INT k = I.get_loop_linear_index();
      if (k >= n) return;
      for (int p = 0; p < nr; p++) for (int c = 0; c < cr[p]; c++) R.at((k * MAXP + p) * MAXC + c) = M.at_real(k, p, c);
      for (int p = 0; p < ni; p++) for (int c = 0; c < ci[p]; c++) J.at((k * MAXP + p) * MAXC + c) = M.at_int(k, p, c);
    }, Access::read(ParticleLoopIndex{}), Access::read(pm), Access::write(back), Access::write(backi))->execute();
    auto R = back->get(); auto J = backi->get();
    for (int k = 0; k < n; k++) {
      gp::Particle q;
      for (auto &kv : w.A->particle_dats_real) q.r[kv.first.name].assign(kv.second->ncomp, 0);
      for (auto &kv : w.A->particle_dats_int) q.i[kv.first.name].assign(kv.second->ncomp, 0);
      for (int p = 0; p < nr; p++) for (int c = 0; c < cr[p]; c++) {
        REAL v = (p + c) % skip ? fr(k, p, c) : s.dr[s.r[p].name][c];
        if (adds && c == cr[p] - 1) v += 2.0;
        NPV_CHECK(R[(k * MAXP + p) * MAXC + c] == v, "a product matrix entry holds the value written, or the default");
        q.r[s.r[p].name][c] = v;
      }
      INT cellv = 0;
      for (int p = 0; p < ni; p++) for (int c = 0; c < ci[p]; c++) {
        INT v = p == cell ? (k * 5 + 3) % ncell : (p + c) % skip ? fi(k, p, c) : s.di[s.i[p].name][c];
        if (adds && c == ci[p] - 1 && p != cell) v += 3;
        NPV_CHECK(J[(k * MAXP + p) * MAXC + c] == v, "a product matrix entry holds the value written, or the default");
        q.i[s.i[p].name][c] = v;
        if (p == cell) cellv = v;
      }
      want[cellv].push_back(q);
    }
    w.A->add_particles_local(pm);
    NPV_CHECK(same_cells(gp::layers(w.A), want), "one particle per row is added to its cell with the values of the row, other properties are zero, nothing else changes");
    gp::consistent(w.A);
  }
  B->free();
}
NPV_BOUNDED(descendants, 300, 1) {
  gp::World w;
  w.history(2);
  const int64_t src = npv::sym("source", 0, 2, 2); // 0: same group, 1: another group, 2: another group with other properties
  ParticleGroupSharedPtr S = w.A, D = w.A;
  if (src == 1) { D = w.make(); D->add_particles_local(w.pset(w.draw((int)w.lr.uni(0, 30)), w.spec)); w.others.push_back(D); }
  if (src == 2) {
    ParticleSpec sp(ParticleProp(Sym<REAL>("P"), w.ndim, true), ParticleProp(Sym<REAL>("W"), 1), ParticleProp(Sym<REAL>("ONLYD"), 2),
                    ParticleProp(Sym<INT>("CELL_ID"), 1, true), ParticleProp(Sym<INT>("ID"), 1), ParticleProp(Sym<INT>("ONLYI"), 3));
    D = std::make_shared<ParticleGroup>(w.domain, sp, w.target);
    w.others.push_back(D);
    auto v = w.draw((int)w.lr.uni(0, 30));
    for (auto &p : v) { p.r.erase("V"); p.i.erase("Q"); p.r["ONLYD"] = {1.5, 2.5}; p.i["ONLYI"] = {3, 4, 5}; }
    D->add_particles_local(w.pset(v, sp));
  }
  const int npp = (int)npv::uni(1, 3);
  Spec s(w, D, npv::uni(0, 3) == 0);
  auto dp = std::make_shared<DescendantProducts>(w.target, s.spec, npp);
  const int nr = (int)s.r.size(), ni = (int)s.i.size(), ncell = w.ncell, cell = s.cell;
  std::array<int, MAXP> cr{}, ci{};
  for (int p = 0; p < nr; p++) cr[p] = s.r[p].ncomp;
  for (int p = 0; p < ni; p++) ci[p] = s.i[p].ncomp;
  for (int rep = 0; rep < 2; rep++) {
    const auto LS = gp::layers(S);
    auto want = gp::layers(D);
    const bool sub = npv::uni(0, 1);
    auto g = sub ? sg::filter(S, sg::draw_pred(w)) : particle_sub_group(S);
    sg::Members mem = sg::members(g, S);
    // the number of each parent in the loop
    const INT np = g->get_npart_local();
    dp->reset((int)np);
    const INT mask = npv::uni(0, 4); // which products have a parent
    auto has = [=](INT id, int k) -> bool { return mask == 0 || (mask != 4 && (id + k * 3) % (mask + 1) == 0); };
    npv::note("parents", std::to_string(np) + " mask " + std::to_string(mask));
    particle_loop(g, [=](auto I, auto M, auto ID) {
      for (int k = 0; k < npp; k++) {
        if (mask == 0 || (mask != 4 && (ID.at(0) + k * 3) % (mask + 1) == 0)) {
          M.set_parent(I, k);
          for (int p = 0; p < nr; p++) for (int c = 0; c < cr[p]; c++) if ((p + c) % 3) M.at_real(I, k, p, c) = fr(ID.at(0), p, c) + k;
          for (int p = 0; p < ni; p++) for (int c = 0; c < ci[p]; c++) if (p == cell) M.at_int(I, k, p, c) = (ID.at(0) + k) % ncell; else if ((p + c) % 3) M.at_int(I, k, p, c) = fi(ID.at(0), p, c) + k;
        }
      }
    }, Access::read(ParticleLoopIndex{}), Access::write(dp), Access::read(Sym<INT>("ID")))->execute();
    for (int x = 0; x < w.ncell; x++) for (INT l : mem[x]) {
      auto &par = LS[x][l];
      const INT id = par.i.at("ID")[0];
      for (int k = 0; k < npp; k++) if (has(id, k)) {
        gp::Particle q;
        for (auto &kv : D->particle_dats_real) { auto &v = q.r[kv.first.name]; v.assign(kv.second->ncomp, 0); if (par.r.count(kv.first.name)) v = par.r.at(kv.first.name); }
        for (auto &kv : D->particle_dats_int) { auto &v = q.i[kv.first.name]; v.assign(kv.second->ncomp, 0); if (par.i.count(kv.first.name)) v = par.i.at(kv.first.name); }
        for (int p = 0; p < nr; p++) for (int c = 0; c < cr[p]; c++) q.r[s.r[p].name][c] = (p + c) % 3 ? fr(id, p, c) + k : s.dr[s.r[p].name][c];
        int cv = x;
        for (int p = 0; p < ni; p++) for (int c = 0; c < ci[p]; c++) {
          q.i[s.i[p].name][c] = p == cell ? (id + k) % ncell : (p + c) % 3 ? fi(id, p, c) + k : s.di[s.i[p].name][c];
          if (p == cell) cv = (int)((id + k) % ncell);
        }
        want[cv].push_back(q);
      }
    }
    if (src == 0) w.A->add_particles_local(dp, npv::uni(0, 1) ? S : nullptr); else D->add_particles_local(dp, S);
    NPV_CHECK(same_cells(gp::layers(D), want), "one particle per product with a parent is added, in the parent's cell, with the written values and the parent's other properties; nothing else changes");
    if (D != S) NPV_CHECK(same_cells(gp::layers(S), LS), "the parents are not changed");
    gp::consistent(D);
    // identifiers need to be unique again for the next round
    if (rep == 0) { auto la = std::make_shared<LocalArray<INT>>(w.target, 1); la->fill(1000); particle_loop(S, [=](auto ID, auto A) { ID.at(0) = A.fetch_add(0, 1); }, Access::write(Sym<INT>("ID")), Access::add(la))->execute(); }
  }
}
#endif
