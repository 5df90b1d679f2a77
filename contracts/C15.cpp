// C15: positions map to the Cartesian cell and rank that contain them
//@ opts: {"smallloops": 6}
//@ srcs: src/cartesian_mesh/cartesian_h_mesh.cpp
//@ assume: a particle is at most 1e9 fine cells away from the region its rank owns (the cell number is an int)
//@ assume: the inverse of the fine cell width is exact (the bounded harness uses the computed one)
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
#include "vcloop.hpp"
#ifdef NPV_VC
#define particle_loop npv::loop::particle_loop_contract
#include "src/cartesian_mesh/cartesian_cell_bin.cpp"
#undef particle_loop
#define ParticleLoop npv::loop::ParticleLoopContract
#include "src/cartesian_mesh.cpp"
#undef ParticleLoop
#endif
using namespace NESO::Particles;
#ifdef NPV_VC
extern "C" void *_ZTVN4NESO9Particles14CartesianHMeshE[];
template <int N> struct Mesh {
  npv::storage<CartesianHMesh> s;
  CartesianHMesh *m;
  int64_t lo[3] = {0, 0, 0}, n[3] = {1, 1, 1}, nc;
  REAL w;
  Mesh() {
    m = s.get();
    *(void **)m = &_ZTVN4NESO9Particles14CartesianHMeshE[2];
    *const_cast<int *>(&m->ndim) = N;
    w = npv::symf("w", 1e-300, 1e300);
    const REAL iw = npv::symf("iw", 0.0, 1e300);
    npv::assume(iw * w == 1.0);
    *const_cast<double *>(&m->cell_width_fine) = w; *const_cast<double *>(&m->inverse_cell_width_fine) = iw;
    nc = 1;
    for (int i = 0; i < 3; i++) { m->cell_starts[i] = 0; m->cell_ends[i] = 1; m->cell_counts_local[i] = 0; }
    for (int i = 0; i < N; i++) {
      lo[i] = npv::sym("lo", 0, 1 << 20); n[i] = npv::sym("n", 1, 1 << 9);
      m->cell_starts[i] = (int)lo[i]; m->cell_ends[i] = (int)(lo[i] + n[i]); m->cell_counts_local[i] = (int)n[i];
      nc *= n[i];
    }
    m->cell_count = (int)nc;
  }
};
// the cells a rank owns are numbered 0, 1, ... without gaps or repeats
template <int N> static void numbering() {
  Mesh<N> M;
  const int64_t c = npv::sym("c", 0, 1 << 27);
  npv::assume(c < M.nc);
  auto t = M.m->get_global_cell_tuple_index(c);
  int64_t lin = 0;
  for (int i = N - 1; i >= 0; i--) lin = lin * M.n[i] + (t[i] - M.lo[i]);
  for (int i = 0; i < 3; i++) NPV_CHECK(M.lo[i] <= t[i] && t[i] < M.lo[i] + M.n[i], "an owned cell is in the region the rank owns");
  NPV_CHECK(lin == c, "different cells of a rank have different tuples");
  NPV_REACH("end");
}
NPV_PROVE(numbering_1d, 1) { numbering<1>(); }
NPV_PROVE(numbering_2d, 1) { numbering<2>(); }
NPV_PROVE(numbering_3d, 1) { numbering<3>(); }
template <int N> static void bins() {
  Mesh<N> M;
  const int64_t nc = npv::sym("nc", 1, 1 << 20), c = npv::sym("c", 0, (1 << 20) - 1), l = npv::sym("l", 0, (1 << 20) - 1);
  int *np = npv::array<int>("np", nc, 0, 1 << 20);
  npv::assume(c < nc && l < np[c]);
  REAL ***P = npv::celldat<REAL>("P", nc, N, np);
  INT ***C = npv::celldat<INT>("C", nc, 1, np);
  npv::storage<ParticleDatT<REAL>> pd;
  npv::storage<ParticleDatT<INT>> cd;
  new ((void *)&pd.get()->sym) Sym<REAL>("P");
  new ((void *)&cd.get()->sym) Sym<INT>("C");
  REAL p[N];
  for (int i = 0; i < N; i++) { p[i] = P[c][i][l]; npv::assume(p[i] < (REAL)M.lo[i] * M.w + 1e9 * M.w && p[i] > (REAL)M.lo[i] * M.w - 1e9 * M.w); }
  npv::loop::begin(c, l, 0);
  npv::loop::bind(Sym<REAL>("P"), P);
  npv::loop::bind(Sym<INT>("C"), C);
  auto t = h_target();
  npv::storage<CartesianCellBin> b;
  new (b.get()) CartesianCellBin(t, npv::raw(M.m), npv::raw(pd.get()), npv::raw(cd.get()));
  b.get()->execute();
  NPV_CHECK(npv::loop::S->applied == 1, "every particle is binned once");
  const INT q = C[c][0][l];
  NPV_CHECK(0 <= q && q < M.nc, "a particle is given a cell that exists");
  int64_t lin = 0;
  int k[3] = {0, 0, 0};
  bool in = true;
  for (int i = 0; i < N; i++) {
    const REAL x = p[i] / M.w - (REAL)M.lo[i];
    in = in && x >= 0.0 && x < (REAL)M.n[i];
    k[i] = (int)x;
  }
  for (int i = N - 1; i >= 0; i--) lin = lin * M.n[i] + k[i];
  NPV_CHECK(!in || q == lin, "a particle is given the cell that contains its position");
  for (int i = 0; i < N; i++) NPV_CHECK(P[c][i][l] == p[i], "the position is unchanged");
  NPV_REACH("end");
}
NPV_PROVE(bins_1d, 1) { bins<1>(); }
NPV_PROVE(bins_2d, 1) { bins<2>(); }
NPV_PROVE(bins_3d, 1) { bins<3>(); }
// any tables of owners per dimension and of ranks
template <int N> static void maps() {
  const int64_t nc = npv::sym("nc", 1, 1 << 20), c = npv::sym("c", 0, (1 << 20) - 1), l = npv::sym("l", 0, (1 << 20) - 1);
  int *np = npv::array<int>("np", nc, 0, 1 << 20);
  npv::assume(c < nc && l < np[c]);
  REAL ***P = npv::celldat<REAL>("P", nc, N, np);
  INT ***R = npv::celldat<INT>("R", nc, 2, np, -1, 1 << 20);
  npv::storage<ParticleDatT<REAL>> pd;
  npv::storage<ParticleDatT<INT>> rd;
  new ((void *)&pd.get()->sym) Sym<REAL>("P");
  new ((void *)&rd.get()->sym) Sym<INT>("R");
  auto t = h_target();
  npv::storage<CartesianHMeshLocalMapperT> s;
  auto m = s.get();
  new (&m->sycl_target) SYCLTargetSharedPtr(t);
  m->ndim = N;
  const REAL w = npv::symf("w", 1e-300, 1e300), iw = npv::symf("iw", 0.0, 1e300);
  npv::assume(iw * w == 1.0);
  m->cell_width_fine = w; m->inverse_cell_width_fine = iw;
  npv::storage<BufferDeviceHost<int>> counts, dims, ranks;
  npv::storage<BufferDeviceHost<int *>> look;
  auto put = [](auto &u, auto &st, auto *p) { st.get()->d_buffer.ptr = p; new (&u) std::unique_ptr<std::remove_pointer_t<decltype(st.get())>>(st.get()); };
  int64_t n[3] = {1, 1, 1}, d[3] = {1, 1, 1};
  int nn[3], dd[3]; int *tab[3] = {nullptr, nullptr, nullptr};
  for (int i = 0; i < N; i++) {
    n[i] = npv::sym("n", 1, 1 << 20); d[i] = npv::sym("d", 1, 1 << 8);
    tab[i] = npv::array<int>(i == 0 ? "own0" : i == 1 ? "own1" : "own2", n[i], -1, (1 << 8) - 1);
  }
  for (int i = 0; i < 3; i++) { nn[i] = (int)n[i]; dd[i] = (int)d[i]; }
  const int64_t size = d[0] * d[1] * d[2];
  int *rm = npv::array<int>("ranks", size, 0, 1 << 20);
  put(m->dh_cell_counts, counts, nn); put(m->dh_dims, dims, dd); put(m->dh_rank_map, ranks, rm); put(m->dh_cell_lookup, look, tab);
  npv::storage<ParticleGroup> g;
  new (&g.get()->position_dat) ParticleDatSharedPtr<REAL>(npv::raw(pd.get()));
  new (&g.get()->mpi_rank_dat) ParticleDatSharedPtr<INT>(npv::raw(rd.get()));
  REAL p[N];
  int own[3] = {0, 0, 0};
  bool known = true;
  for (int i = 0; i < N; i++) {
    p[i] = P[c][i][l];
    npv::assume(p[i] >= 0.0 && p[i] < (REAL)n[i] * w);
    own[i] = tab[i][(int)(p[i] / w)];
    npv::assume(own[i] < d[i]);
    known = known && own[i] >= 0;
  }
  const INT r0 = R[c][0][l], r1 = R[c][1][l];
  npv::loop::begin(c, l, 0);
  npv::loop::bind(Sym<REAL>("P"), P);
  npv::loop::bind(Sym<INT>("R"), R);
  m->CartesianHMeshLocalMapperT::map(*g.get(), -1);
  NPV_CHECK(npv::loop::S->applied == 1, "every particle is mapped once");
  NPV_CHECK(R[c][0][l] == r0, "the global owner is unchanged");
  const INT q = R[c][1][l];
  NPV_CHECK(r1 < 0 || q == r1, "an owner already found is kept");
  NPV_CHECK(r1 >= 0 || known || q == -1, "no owner is invented outside the region the tables cover");
  NPV_CHECK(r1 >= 0 || !known || q == rm[own[0] + d[0] * (own[1] + d[1] * own[2])], "a particle is mapped to the rank at the coordinates that own its cell");
  NPV_REACH("end");
}
NPV_PROVE(maps_1d, 1) { maps<1>(); }
NPV_PROVE(maps_2d, 1) { maps<2>(); }
NPV_PROVE(maps_3d, 1) { maps<3>(); }
#endif
#ifndef NPV_VC
#include "group.hpp"
// the cells of constructed meshes, and the particles mapped on them
NPV_BOUNDED(meshes_over_ranks, 60, 4) {
  gp::World w(true, 60);
  auto m = w.mesh;
  const int nd = m->ndim;
  MPI_Comm comm = m->get_comm();
  int rank, size;
  MPI_Comm_rank(comm, &rank); MPI_Comm_size(comm, &size);
  int64_t total = 1;
  for (int i = 0; i < nd; i++) total *= m->cell_counts[i];
  auto lin = [&](const std::array<int, 3> &t) { int64_t x = 0; for (int i = nd - 1; i >= 0; i--) x = x * m->cell_counts[i] + t[i]; return x; };
  auto cells = m->get_owned_cells();
  NPV_CHECK((int)cells.size() == m->get_cart_cell_count(), "as many owned cells as counted");
  std::vector<int> owner(total, 0), owners(total), count(total, 0), counts(total);
  for (size_t k = 0; k < cells.size(); k++) {
    for (int i = 0; i < nd; i++) NPV_CHECK(0 <= cells[k][i] && cells[k][i] < m->cell_counts[i], "an owned cell is a cell of the mesh");
    NPV_CHECK(m->get_global_cell_tuple_index((INT)k) == cells[k], "local cell numbers follow the owned cells");
    owner[lin(cells[k])] = rank; count[lin(cells[k])]++;
  }
  MPI_Allreduce(owner.data(), owners.data(), (int)total, MPI_INT, MPI_SUM, comm);
  MPI_Allreduce(count.data(), counts.data(), (int)total, MPI_INT, MPI_SUM, comm);
  auto mh = m->get_mesh_hierarchy();
  for (int64_t x = 0; x < total; x++) {
    NPV_CHECK(counts[x] == 1, "every cell is owned by exactly one rank");
    INT t[3] = {0, 0, 0}, h[6];
    int64_t y = x;
    for (int i = 0; i < nd; i++) { t[i] = y % m->cell_counts[i]; y /= m->cell_counts[i]; }
    NPV_CHECK(m->get_mesh_tuple_owning_rank(t) == owners[x], "the owning rank of a cell is the rank that owns it");
    m->mesh_tuple_to_mh_tuple(t, h);
    NPV_CHECK(mh->get_owner(mh->tuple_to_linear_global(h)) == owners[x], "the mesh hierarchy has the owning rank of each cell");
  }
  double mid[3];
  m->get_point_in_subdomain(mid);
  { std::array<int, 3> t{0, 0, 0}; for (int i = 0; i < nd; i++) t[i] = (int)(mid[i] / m->cell_width_fine); NPV_CHECK(owners[lin(t)] == rank, "the point given for a rank is in the region it owns"); }
  // map particles placed anywhere, faces of cells included
  w.history(1);
  auto A = w.A;
  const INT mode = npv::uni(0, 2), k0 = npv::uni(0, 1000);
  const int sub = (int)npv::uni(1, 4);
  int n0 = m->cell_counts[0], n1 = m->cell_counts[nd > 1 ? 1 : 0], n2 = m->cell_counts[nd > 2 ? 2 : 0];
  const REAL W = m->cell_width_fine;
  particle_loop(A, [=](auto P, auto ID, auto R) {
    const INT h = (ID.at(0) * 7919 + k0 * 104729) % 1000003;
    for (int i = 0; i < nd; i++) {
      const int n = i == 0 ? n0 : i == 1 ? n1 : n2;
      const INT g = (h / (1 + 37 * i)) % (n * sub);
      if (mode == 0) P.at(i) = (REAL)(g / sub) * W + (REAL)(g % sub) * W / (REAL)sub;          // faces
      else if (mode == 1) P.at(i) = ((REAL)g + 0.5) * W / (REAL)sub;
      else P.at(i) = ((REAL)(g / sub) + (REAL)((h + i) % 1000) / 1000.5) * W;
    }
    R.at(0) = -1; R.at(1) = -1;
  }, Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")), Access::write(A->mpi_rank_dat))->execute();
  auto before = gp::flat(gp::state(A));
  w.domain->local_mapper->map(*A);
  std::map<INT, int> got;
  for (int c = 0; c < m->get_cell_count(); c++) {
    auto R = A->get_cell(A->mpi_rank_dat->sym, c); auto ID = A->get_cell(Sym<INT>("ID"), c);
    for (int r = 0; r < R->nrow; r++) { got[ID->at(r, 0)] = (int)R->at(r, 1); NPV_CHECK(R->at(r, 0) == -1, "the global owner is unchanged"); }
  }
  std::set<INT> mine;
  for (auto &kv : before) {
    std::array<int, 3> t{0, 0, 0};
    bool near = true, sure = true;
    for (int i = 0; i < nd; i++) {
      const REAL x = kv.second.r.at("P")[i] / W;
      t[i] = std::min((int)x, m->cell_counts[i] - 1);
      if (std::abs(x - std::round(x)) < 1e-9 && std::abs(x - std::round(x)) > 0) sure = false; // rounding decides the cell
      bool ok = false;
      for (int o = -m->stencil_width; o <= m->stencil_width; o++) { const int q = ((t[i] + o) % m->cell_counts[i] + m->cell_counts[i]) % m->cell_counts[i]; if (m->cell_starts[i] <= q && q < m->cell_ends[i]) ok = true; }
      near = near && ok;
    }
    const int q = got.at(kv.first);
    if (!sure) { if (q == rank) mine.insert(kv.first); continue; }
    NPV_CHECK(q == -1 || q == owners[lin(t)], "a particle is mapped to the rank that owns its cell");
    NPV_CHECK(!near || q >= 0, "a particle within the stencil of a rank finds its owner");
    if (q == rank) mine.insert(kv.first);
  }
  auto after = gp::flat(gp::state(A));
  for (auto *f : {&before, &after}) for (auto &kv : *f) kv.second.i.erase(A->mpi_rank_dat->sym.name);
  NPV_CHECK(after == before, "mapping changes no particle");
  // bin the particles the rank owns
  w.domain->local_mapper->map_cells(*A);
  for (auto &kv : gp::flat(gp::state(A))) {
    const INT c = kv.second.i.at("CELL_ID")[0];
    NPV_CHECK(0 <= c && c < m->get_cart_cell_count(), "a particle is given a cell that exists");
    if (!mine.count(kv.first)) continue;
    auto t = m->get_global_cell_tuple_index(c);
    for (int i = 0; i < nd; i++) {
      const REAL x = kv.second.r.at("P")[i] / W;
      NPV_CHECK((REAL)t[i] - 1e-9 <= x && x <= (REAL)(t[i] + 1) + 1e-9, "a particle is given the cell that contains its position");
      NPV_CHECK(x == std::floor(x) || std::abs(x - std::round(x)) < 1e-9 || t[i] == (int)x, "a particle is given the cell that contains its position");
    }
  }
}
// decompositions for any number of ranks
NPV_BOUNDED(decompositions, 400, 1) {
  const int nd = (int)npv::sym("nd", 1, 3, 3), size = (int)npv::sym("size", 1, 96, 96);
  std::vector<int> n(3, 1);
  for (int i = 0; i < nd; i++) n[i] = (int)npv::uni(1, npv::uni(0, 1) ? 9 : 100);
  auto prod = [](const std::vector<int> &v) { int64_t p = 1; for (int x : v) p *= x; return p; };
  auto a = get_cart_dims(size, nd);
  NPV_CHECK((int)a.size() == nd && prod(a) == size, "the dimensions multiply to the number of ranks");
  std::vector<int> nn(n.begin(), n.begin() + nd);
  auto b = get_reordered_cart_decomp(nd, a, nn);
  auto x = a, y = b;
  std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
  NPV_CHECK(x == y, "reordered dimensions are the same dimensions");
  for (int i = 0; i < nd; i++) for (int j = 0; j < nd; j++) NPV_CHECK(!(nn[i] > nn[j]) || b[i] >= b[j], "larger dimensions get at least as many ranks");
  for (auto c : {get_lower_dimension_cart_decomp(size, nd, nn), get_single_dimension_cart_decomp(size, nd, nn)}) {
    NPV_CHECK((int)c.size() == nd, "a decomposition has a number of ranks for each dimension");
    if (prod(c) == size) for (int i = 0; i < nd; i++) NPV_CHECK(c[i] >= 1, "a decomposition has ranks in each dimension");
  }
  auto s = get_single_dimension_cart_decomp(size, nd, nn);
  bool fits = false, used = prod(s) == size;
  for (int i = 0; i < nd; i++) { fits = fits || nn[i] >= size; used = used && s[i] <= nn[i]; }
  NPV_CHECK(!fits || used, "a decomposition in one dimension is found when one exists");
}
#endif
