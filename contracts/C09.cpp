// C09: particle packing and unpacking are inverse and lay out data consistently
//@ opts: {"smallloops": 8, "symunroll": 8}
//@ assume: packed buffers stay below 2^31 bytes
//@ assume: item-wise contracts: a work item leaves its own part of the result as specified and no other item changes that part, hence the kernel's result for every set of items in any order
//@ assume: the pointer map numbers the components as its bounded contract says; destination rows of particles packed for the same rank differ (C10)
#define NPV_ITEMWISE
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
#include "vcgroup.hpp"
#ifdef NPV_VC
#include "src/particle_group_pointer_map.cpp"
#include "src/packing_unpacking.cpp"
#endif
using namespace NESO::Particles;
#ifdef NPV_VC
NPV_PROVE(pack, 0) {
  LAYOUT(R, "r"); LAYOUT(I, "i");
  auto *P = new Packed(); P->R = R; P->I = I;
  const int64_t ncell = P->ncell = npv::sym("ncell", 1, 1 << 20), nr = P->nrank = npv::sym("nrank", 1, 1 << 20), n = npv::sym("n", 0, 1 << 24), w = R.total + I.total;
  P->rows = npv::array<int>("rows", ncell, 0, 1 << 24);
  P->real = npv::datptrs<REAL>("real", R.ndat, ncell, R.ncomp, P->rows);
  P->integer = npv::datptrs<INT>("integer", I.ndat, ncell, I.ncomp, P->rows, -BIG, BIG);
  P->ranks = npv::celldat<INT>("ranks", ncell, 2, P->rows, 0, (1 << 20) - 1);
  auto pm = P->map();
  npv::storage<BufferDevice<int>> cs, ls, ld;
  npv::storage<BufferDeviceHost<int>> rm;
  npv::storage<BufferHost<int>> np;
  int *cell = cs.get()->ptr = npv::array<int>("cells", n, 0, 1 << 20);
  int *src = ls.get()->ptr = npv::array<int>("src", n, 0, 1 << 24);
  int *dst = ld.get()->ptr = npv::array<int>("dst", n, 0, 1 << 24);
  int *slot = rm.get()->d_buffer.ptr = npv::array<int>("rankmap", nr, 0, 1 << 20);
  // two particles and components
  int64_t p[2] = {npv::sym("p", 0, 1 << 24), npv::sym("q", 0, 1 << 24)}, k[2] = {npv::sym("k", 0, 1 << 12), npv::sym("l", 0, 1 << 12)};
  int *prow = npv::array<int>("prows", nr, 0, 1 << 24);
  char ***out = npv::celldat<char>("packed", nr, 1, prow);
  const int rc = (int)npv::sym("component", 0, 1);
  INT rank[2];
  for (int j = 0; j < 2; j++) {
    npv::assume(p[j] < n && cell[p[j]] < ncell && src[p[j]] < P->rows[cell[p[j]]]);
    rank[j] = P->ranks[cell[p[j]]][rc][src[p[j]]];
    npv::assume(rank[j] < nr && slot[rank[j]] < nr);
    npv::assume((dst[p[j]] + 1) * 8 * w <= prow[slot[rank[j]]]);
  }
  npv::assume(p[0] == p[1] || slot[rank[0]] != slot[rank[1]] || dst[p[0]] != dst[p[1]]);
  npv::assume(p[0] != p[1] || k[0] != k[1]);
  sycl::npv::items = new sycl::npv::items_t();
  sycl::npv::items->n = 2;
  for (int j = 0; j < 2; j++) {
    sycl::npv::items->id[j][0] = p[j]; sycl::npv::items->id[j][1] = k[j];
    if (k[j] < R.total) R.comp(k[j]);
    if (k[j] < I.total) I.comp(k[j]);
  }
  npv::storage<ParticlePacker> pk;
  pk.get()->sycl_target = h_target();
  pk.get()->cell_dat.d_ptr = out;
  npv::storage<EventStack> es;
  pk.get()->pack(0, *np.get(), *rm.get(), (int)n, *cs.get(), *ls.get(), *ld.get(), npv::raw(pm), *es.get(), rc);
  for (int j = 0; j < 2; j++) {
    const char *at = out[slot[rank[j]]][0] + dst[p[j]] * 8 * w;
    if (k[j] < R.total) NPV_CHECK(((const REAL *)at)[k[j]] == P->real[R.fd[k[j]]][cell[p[j]]][R.fc[k[j]]][src[p[j]]], "a real component of a packed particle is in the particle's row");
    if (k[j] < I.total) NPV_CHECK(((const INT *)at)[R.total + k[j]] == P->integer[I.fd[k[j]]][cell[p[j]]][I.fc[k[j]]][src[p[j]]], "an integer component of a packed particle is in the particle's row after the real components");
  }
  NPV_CHECK(pk.get()->num_bytes_per_particle == 8 * w, "the size of a particle");
  NPV_REACH("end");
}
NPV_PROVE(unpack, 0) {
  LAYOUT(R, "r"); LAYOUT(I, "i");
  auto *P = new Packed(); P->R = R; P->I = I;
  const int64_t ncell = P->ncell = npv::sym("ncell", 1, 1 << 20), n = npv::sym("n", 0, 1 << 24), old = npv::sym("old", 0, 1 << 24), w = R.total + I.total;
  npv::assume(8 * w * n < (int64_t(1) << 31));
  P->rows = npv::array<int>("rows", ncell, 0, 1 << 26);
  npv::assume(P->rows[0] >= n + old);
  P->real = npv::datptrs<REAL>("real", R.ndat, ncell, R.ncomp, P->rows);
  P->integer = npv::datptrs<INT>("integer", I.ndat, ncell, I.ncomp, P->rows, -BIG, BIG);
  auto pm = P->map();
  new ((void *)(pm->particle_dats_real = (std::map<Sym<REAL>, ParticleDatSharedPtr<REAL>> *)new npv::storage<std::map<Sym<REAL>, ParticleDatSharedPtr<REAL>>>())) std::map<Sym<REAL>, ParticleDatSharedPtr<REAL>>();
  auto &h = pm->h_cache; auto &hc = pm->h_cache_const;
  h.ncomp_total_real = hc.ncomp_total_real; h.ncomp_total_int = hc.ncomp_total_int;
  h.d_ncomp_exscan_real = R.ex; h.d_ncomp_exscan_int = I.ex;
  h.d_flattened_dat_index_real = R.fd; h.d_flattened_dat_index_int = I.fd;
  h.d_flattened_comp_index_real = R.fc; h.d_flattened_comp_index_int = I.fc;
  h.d_ptr_real = P->real; h.d_ptr_int = P->integer;
  // a property's rows: enough storage (C20 is about growing it)
  auto d = P->rd.get();
  auto T = h_target();
  d->sycl_target = T; d->cell_dat.sycl_target = T;
  new ((void *)&d->write_callback) decltype(d->write_callback)();
  const_cast<int &>(d->cell_dat.ncells) = (int)ncell;
  d->cell_dat.nrow._M_impl._M_start = npv::array<INT>("nrow", ncell, 0, 1 << 26);
  d->cell_dat.nrow_alloc._M_impl._M_start = npv::array<INT>("nrow_alloc", ncell, 0, 1 << 26);
  npv::assume(d->cell_dat.nrow[0] == old && d->cell_dat.nrow_alloc[0] >= old + n);
  d->h_npart_cell = npv::array<int>("hn", ncell, 0, 1 << 26);
  d->d_npart_cell = npv::array<int>("dn", ncell, 0, 1 << 26);
  npv::assume(d->h_npart_cell[0] == old);
  const int64_t c = npv::sym("c", 0, 1 << 20);
  npv::assume(c < ncell);
  const int hc0 = d->h_npart_cell[c], dc0 = d->d_npart_cell[c];
  npv::storage<ParticleUnpacker> uk;
  auto U = uk.get();
  U->sycl_target = T;
  U->npart_recv = (int)n; U->num_bytes_per_particle = (int)(8 * w);
  U->d_recv_buffer.ptr = npv::array<char>("recv", 8 * w * n);
  U->h_recv_buffer.ptr = npv::array<char>("hrecv", 8 * w * n);
  U->device_aware_mpi_enabled = true;
  int64_t p[2] = {npv::sym("p", 0, 1 << 24), npv::sym("q", 0, 1 << 24)}, k[2] = {npv::sym("k", 0, 1 << 12), npv::sym("l", 0, 1 << 12)};
  npv::assume(p[0] < n && p[1] < n);
  npv::assume(p[0] != p[1] || k[0] != k[1]);
  sycl::npv::items = new sycl::npv::items_t();
  sycl::npv::items->n = 2;
  for (int j = 0; j < 2; j++) {
    sycl::npv::items->id[j][0] = p[j]; sycl::npv::items->id[j][1] = k[j];
    if (k[j] < R.total) R.comp(k[j]);
    if (k[j] < I.total) I.comp(k[j]);
  }
  // any other particle
  const int64_t od = npv::sym("od", 0, 1 << 10), oc = npv::sym("oc", 0, 1 << 20), ok = npv::sym("ok", 0, 1 << 12), ol = npv::sym("ol", 0, 1 << 24);
  npv::assume(od < I.ndat && oc < ncell && ok < I.ncomp[od] && ol < P->rows[oc] && (oc > 0 || ol < old));
  const INT other = P->integer[od][oc][ok][ol];
  const int64_t rd = npv::sym("rd", 0, 1 << 10), rk = npv::sym("rk", 0, 1 << 12);
  npv::assume(rd < R.ndat && rk < R.ncomp[rd]);
  const REAL rother = P->real[rd][oc][rk][ol];
  U->unpack(npv::raw(pm));
  for (int j = 0; j < 2; j++) {
    const char *at = U->d_recv_buffer.ptr + p[j] * 8 * w;
    if (k[j] < R.total) NPV_CHECK(((const REAL *)at)[k[j]] == P->real[R.fd[k[j]]][0][R.fc[k[j]]][old + p[j]], "a real component of a received particle is in its row after the particles of cell 0");
    if (k[j] < I.total) NPV_CHECK(((const INT *)at)[R.total + k[j]] == P->integer[I.fd[k[j]]][0][I.fc[k[j]]][old + p[j]], "an integer component of a received particle is in its row after the particles of cell 0");
  }
  NPV_CHECK(P->integer[od][oc][ok][ol] == other && P->real[rd][oc][rk][ol] == rother, "particles already there are not touched");
  NPV_CHECK(d->h_npart_cell[c] == (c == 0 ? old + n : hc0) && d->d_npart_cell[c] == (c == 0 ? old + n : dc0), "the received particles are counted in cell 0");
  NPV_CHECK(d->cell_dat.nrow[0] == old + n, "cell 0 has rows for the received particles");
  NPV_REACH("end");
}
// where the data of each rank goes
NPV_PROVE(receive_offsets, 0) {
  const int64_t nr = npv::sym("nranks", 0, 1 << 20), w = npv::sym("width", 1, 1 << 13), r = npv::sym("r", 0, 1 << 20);
  npv::storage<ParticleUnpacker> uk;
  npv::storage<ParticleGroupPointerMap> pm;
  npv::storage<BufferHost<int>> hb;
  auto U = uk.get();
  hb.get()->ptr = npv::array<int>("counts", nr, 0, 1 << 20);
  const int64_t total = npv::sum(hb.get()->ptr, nr);
  npv::assume(total <= 1 << 24);
  npv::assume(8 * w * total < (int64_t(1) << 31));
  auto T = h_target();
  new ((void *)&U->sycl_target) SYCLTargetSharedPtr(T);
  new ((void *)&U->h_recv_offsets) BufferHost<INT>(T, 1);
  new ((void *)&U->h_recv_pointers) BufferHost<char *>(T, 1);
  new ((void *)&U->h_recv_buffer) BufferHost<char>(T, 1);
  new ((void *)&U->d_recv_buffer) BufferDevice<char>(T, 1);
  U->device_aware_mpi_enabled = npv::sym("aware", 0, 1) != 0;
  pm.get()->valid_const = pm.get()->valid = true;
  pm.get()->num_bytes_per_particle = 8 * w;
  npv::assume(r < nr);
  U->reset((int)nr, *hb.get(), npv::raw(pm.get()));
  NPV_CHECK(U->npart_recv == total, "all particles are expected");
  const int64_t before = npv::sum(hb.get()->ptr, r);
  NPV_CHECK(U->h_recv_offsets.ptr[r] == before * 8 * w, "the data of a rank follows the data of the ranks before it");
  NPV_CHECK((int64_t)U->d_recv_buffer.size >= total * 8 * w && (U->device_aware_mpi_enabled || (int64_t)U->h_recv_buffer.size >= total * 8 * w), "there is room for all particles");
  NPV_REACH("end");
}
#endif
#ifndef NPV_VC
#include "group.hpp"
// the layout of a particle: every component of every property has its own place
static void layout(ParticleGroupSharedPtr A) {
  auto pm = A->particle_group_pointer_map;
  auto check = [&](auto &dats, auto &m, auto *ncomp, auto *ex, auto *fd, auto *fc, int ndat, int total, auto &index_of, auto &sym_of, auto *ptrs) {
    NPV_CHECK(ndat == (int)dats.size(), "every property is in the map");
    int t = 0, d = 0;
    for (auto &kv : dats) {
      NPV_CHECK(index_of.at(kv.first) == d && sym_of.at(d) == kv.first, "properties and their numbers correspond");
      NPV_CHECK(ncomp[d] == kv.second->ncomp && ex[d] == t, "components follow each other");
      NPV_CHECK(ptrs[d] == kv.second->cell_dat.d_ptr, "a property's number leads to its data");
      for (int c = 0; c < kv.second->ncomp; c++) NPV_CHECK(fd[t + c] == d && fc[t + c] == c, "components follow each other");
      t += kv.second->ncomp; d++;
    }
    NPV_CHECK(total == t, "all components are counted");
  };
  auto &m = pm->get();
  check(A->particle_dats_real, m, m.h_ncomp_real, m.h_ncomp_exscan_real, m.h_flattened_dat_index_real, m.h_flattened_comp_index_real, m.ndat_real, m.ncomp_total_real, pm->map_sym_to_index_real, pm->map_index_to_sym_real, m.d_ptr_real);
  check(A->particle_dats_int, m, m.h_ncomp_int, m.h_ncomp_exscan_int, m.h_flattened_dat_index_int, m.h_flattened_comp_index_int, m.ndat_int, m.ncomp_total_int, pm->map_sym_to_index_int, pm->map_index_to_sym_int, m.d_ptr_int);
  auto &c = pm->get_const();
  check(A->particle_dats_real, c, c.d_ncomp_real, c.d_ncomp_exscan_real, c.d_flattened_dat_index_real, c.d_flattened_comp_index_real, c.ndat_real, c.ncomp_total_real, pm->map_sym_to_index_real, pm->map_index_to_sym_real, c.d_ptr_real);
  check(A->particle_dats_int, c, c.d_ncomp_int, c.d_ncomp_exscan_int, c.d_flattened_dat_index_int, c.d_flattened_comp_index_int, c.ndat_int, c.ncomp_total_int, pm->map_sym_to_index_int, pm->map_index_to_sym_int, c.d_ptr_int);
  NPV_CHECK(pm->get_num_real_bytes_per_particle() == m.ncomp_total_real * sizeof(REAL), "the size of a particle");
  NPV_CHECK(pm->get_num_bytes_per_particle() == m.ncomp_total_real * sizeof(REAL) + m.ncomp_total_int * sizeof(INT), "the size of a particle");
}
static void extra(gp::World &w, int seed) { // further properties, the same in both groups
  gp::Lrng g; g.g.seed(seed);
  const int k = (int)g.uni(0, 3);
  for (int i = 0; i < k; i++) {
    const int nc = (int)g.uni(1, 5);
    const std::string n = std::string(g.uni(0, 1) ? "A" : "z") + std::to_string(i);
    const bool re = g.uni(0, 1);
    if (re) w.spec.push(ParticleProp(Sym<REAL>(n), nc)); else w.spec.push(ParticleProp(Sym<INT>(n), nc));
  }
}
NPV_BOUNDED(round_trips, 120, 1) {
  gp::World w;
  extra(w, (int)npv::uni(0, 1 << 20));
  w.A->free(); w.A = w.make();
  auto B = w.make();
  w.others.push_back(B);
  // values in the further properties
  auto more = [&](std::vector<gp::Particle> v) {
    for (auto &p : v) {
      for (auto &q : w.spec.properties_real) if (!p.r.count(q.name)) for (int c = 0; c < q.ncomp; c++) p.r[q.name].push_back(npv::unif() - 0.5);
      for (auto &q : w.spec.properties_int) if (!p.i.count(q.name)) for (int c = 0; c < q.ncomp; c++) p.i[q.name].push_back(npv::uni(-999, 999));
    }
    return v;
  };
  auto fill = [&](ParticleGroupSharedPtr G, int n) { auto v = more(w.draw(n)); G->add_particles_local(w.pset(v, w.spec)); };
  fill(w.A, (int)npv::sym("n", 0, 120, 120));
  fill(B, (int)npv::sym("m", 0, 40, 40));
  const int R = (int)npv::sym("ranks", 1, 7, 7), rounds = (int)npv::sym("rounds", 1, 3, 3);
  ParticlePacker P(w.target);
  ParticleUnpacker U(w.target);
  P.cell_dat.~CellDat<char>();
  new (&P.cell_dat) CellDat<char>(w.target, R, 1);
  P.sycl_target = w.target;
  for (int r = 0; r < rounds; r++) {
    layout(w.A); layout(B);
    const int rc = (int)npv::uni(0, 1);
    // choose the particles to send and the rank that each is sent to; ranks are packed in an arbitrary order
    auto L = gp::layers(w.A);
    const int world = R + (int)npv::uni(0, 4);
    std::vector<int> rank_of(world), pos(world, -1);
    for (int i = 0; i < world; i++) rank_of[i] = i;
    std::shuffle(rank_of.begin(), rank_of.end(), npv::rng());
    const int used = (int)npv::uni(0, std::min(R, world));
    for (int i = 0; i < used; i++) pos[rank_of[i]] = i;
    std::vector<std::array<int, 3>> send; // cell, layer, position of the rank
    const int keep = (int)npv::uni(0, 3);
    for (int c = 0; c < (int)L.size(); c++) {
      auto RD = w.A->get_cell(w.A->mpi_rank_dat->sym, c);
      for (int l = 0; l < (int)L[c].size(); l++) {
        const int to = (int)npv::uni(0, world - 1);
        RD->at(l, rc) = to; RD->at(l, 1 - rc) = npv::uni(-1, 99);
        if (pos[to] >= 0 && npv::uni(0, 3) >= keep) send.push_back({c, l, pos[to]});
      }
      w.A->get_dat(w.A->mpi_rank_dat->sym)->cell_dat.set_cell(c, RD);
    }
    L = gp::layers(w.A); // with the ranks
    std::shuffle(send.begin(), send.end(), npv::rng());
    const int n = (int)send.size();
    BufferHost<int> count(w.target, std::max(1, used));
    BufferDeviceHost<int> map(w.target, world);
    BufferDevice<int> pc(w.target, std::max(1, n)), ps(w.target, std::max(1, n)), pd(w.target, std::max(1, n));
    for (int i = 0; i < used; i++) count.ptr[i] = 0;
    for (int i = 0; i < world; i++) map.h_buffer.ptr[i] = pos[i];
    map.host_to_device();
    std::vector<std::vector<gp::Particle>> want(used);
    std::vector<int> hc(n), hs(n), hd(n);
    for (int i = 0; i < n; i++) {
      hc[i] = send[i][0]; hs[i] = send[i][1]; hd[i] = count.ptr[send[i][2]]++;
      want[send[i][2]].push_back(L[hc[i]][hs[i]]);
    }
    if (n) { pc.set(hc); ps.set(hs); pd.set(hd); }
    auto before = gp::state(w.A);
    EventStack es;
    P.pack(used, count, map, n, pc, ps, pd, w.A->particle_group_pointer_map, es, rc);
    es.wait();
    NPV_CHECK(gp::same(before, gp::state(w.A)), "packing changes no particle");
    char **sp = P.get_packed_pointers(used, count.ptr);
    const size_t bpp = w.A->particle_group_pointer_map->get_num_bytes_per_particle();
    NPV_CHECK((size_t)P.num_bytes_per_particle == bpp, "the size of a particle");
    // receive in another order of ranks
    std::vector<int> order(used);
    for (int i = 0; i < used; i++) order[i] = i;
    std::shuffle(order.begin(), order.end(), npv::rng());
    BufferHost<int> rcount(w.target, std::max(1, used));
    for (int i = 0; i < used; i++) rcount.ptr[i] = count.ptr[order[i]];
    U.reset(used, rcount, B->particle_group_pointer_map);
    NPV_CHECK(U.npart_recv == n, "all particles are expected");
    char **rp = U.get_recv_pointers(used);
    for (int i = 0; i < used; i++) if (rcount.ptr[i]) memcpy(rp[i], sp[order[i]], bpp * rcount.ptr[i]);
    auto LB = gp::layers(B);
    const size_t old = LB[0].size();
    U.unpack(B->particle_group_pointer_map);
    B->set_npart_cell_from_dat(); // as the moves between ranks do
    auto LA = gp::layers(B);
    NPV_CHECK(LA[0].size() == old + n, "all particles received are in the first cell");
    for (size_t c = 0; c < LA.size(); c++) for (size_t l = 0; l < (c ? LA[c].size() : old); l++) NPV_CHECK(LA[c][l] == LB[c][l], "unpacking changes no particle that was there");
    size_t at = old;
    for (int i = 0; i < used; i++) for (auto &p : want[order[i]]) NPV_CHECK(LA[0][at++] == p, "a particle is received with the values it was sent with");
    gp::consistent(B);
  }
}
#endif
