// C10: moves between ranks deliver every particle once, to the owner of its position or the rank named
//@ assume: identify is proved for the visit of one particle in any state other visits leave (its counters are atomic), hence for all visits in any order
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
#ifdef NPV_VC
#define NPV_LOOP_STATE
#include "vcloop.hpp"
#define particle_loop npv::loop::particle_loop_contract
#include "src/departing_particle_identification.cpp"
#undef particle_loop
#endif
#include "group.hpp"
#ifdef NPV_VC
// One particle is visited in any state the visits of other particles can have
// left: the counters have any values, other visits wrote any other records.
struct Ident {
  int *count, *nsend, *nrank, *ranks, *map; // the real buffers
  int64_t size, r, q;
  int *c0, *r0, *m0, ns0, nr0; // the state before the visit
};
static Ident *ID;
static void before(int, int) {
  Ident *s = ID;
  NPV_CHECK(s->count[s->q] == 0 && s->ranks[s->q] == 0, "no particle is counted before the loop");
  NPV_CHECK(s->nsend[0] == 0 && s->nrank[0] == 0, "nothing is recorded before the loop");
  for (int64_t i = 0; i < s->size; i++) { s->count[i] = s->c0[i]; s->ranks[i] = s->r0[i]; s->map[i] = s->m0[i]; }
  s->nsend[0] = s->ns0; s->nrank[0] = s->nr0;
}
NPV_PROVE(identify, 1) {
  const int64_t nc = npv::sym("nc", 1, 1 << 20), c = npv::sym("c", 0, (1 << 20) - 1), l = npv::sym("l", 0, (1 << 24) - 1);
  int *np = npv::array<int>("np", nc, 0, 1 << 24);
  npv::assume(c < nc && l < np[c]);
  npv::storage<ParticleDatT<INT>> ds;
  auto d = ds.get();
  new ((void *)&d->sym) Sym<INT>("NESO_MPI_RANK");
  INT ***R = npv::celldat<INT>("rank", nc, 2, np);
  const_cast<int &>(d->ncell) = (int)nc;
  d->h_npart_cell = np;
  auto T = h_target();
  const int size = T->comm_pair.size_parent = (int)npv::sym("size", 1, 1 << 20);
  const int me = T->comm_pair.rank_parent = (int)npv::sym("me", 0, (1 << 20) - 1);
  npv::assume(me < size);
  const int rc = (int)npv::sym("component", 0, 1);
  const INT r = R[c][rc][l];
  auto *s = ID = new Ident();
  s->size = size; s->r = r;
  s->q = npv::sym("q", 0, (1 << 20) - 1); // any rank
  npv::assume(s->q < size);
  s->c0 = npv::array<int>("count", size, 0, 1 << 30); s->r0 = npv::array<int>("ranks", size, 0, 1 << 20); s->m0 = npv::array<int>("map", size, 0, 1 << 20);
  s->ns0 = (int)npv::sym("nsend", 0, 1 << 30); s->nr0 = (int)npv::sym("nrank", 0, 1 << 20);
  npv::storage<DepartingIdentify> is;
  auto I = is.get();
  new (I) DepartingIdentify(T);
  I->mpi_rank_dat = npv::raw(d);
  const INT total = npv::sum(np, nc);
  // the others that were visited: fewer than all
  npv::assume(s->ns0 < total);
  const bool sent = r >= 0 && r < size && r != me;
  // ranks recorded so far: those counted
  if (sent) npv::assume(s->nr0 < size && (s->c0[r] != 0 || s->nr0 < size));
  const int cq = s->c0[s->q], mq = s->m0[s->q], j = (int)npv::sym("j", 0, 1 << 20);
  npv::assume(j < size);
  const int rj = s->r0[j], cr = sent ? s->c0[r] : 0, mr = sent ? s->m0[r] : 0;
  s->count = I->dh_send_counts_all_ranks.d_buffer.ptr; s->ranks = I->dh_send_ranks.d_buffer.ptr; s->map = I->dh_send_rank_map.d_buffer.ptr;
  s->nsend = I->dh_num_particle_send.d_buffer.ptr; s->nrank = I->dh_num_ranks_send.d_buffer.ptr;
  npv::loop::begin(c, l, l);
  npv::loop::S->before = &before;
  npv::loop::bind(Sym<INT>("NESO_MPI_RANK"), R);
  I->identify(rc);
  NPV_CHECK(npv::loop::S->applied == 1, "each particle is examined once");
  const int *count = I->dh_send_counts_all_ranks.h_buffer.ptr, *ranks = I->dh_send_ranks.h_buffer.ptr, *map = I->dh_send_rank_map.h_buffer.ptr;
  const int ns = I->dh_num_particle_send.h_buffer.ptr[0], nr = I->dh_num_ranks_send.h_buffer.ptr[0];
  if (!sent) {
    NPV_CHECK(ns == s->ns0 && nr == s->nr0 && count[s->q] == cq && ranks[j] == rj && map[s->q] == mq, "a particle that stays is not sent");
  } else {
    NPV_CHECK(ns == s->ns0 + 1, "a departing particle is recorded once");
    NPV_CHECK(I->d_pack_cells.ptr[s->ns0] == c && I->d_pack_layers_src.ptr[s->ns0] == l, "the record names the particle's cell and layer");
    NPV_CHECK(I->d_pack_layers_dst.ptr[s->ns0] == cr, "the particle is packed behind the particles of its rank counted so far");
    NPV_CHECK(count[r] == cr + 1, "the particle is counted for its rank");
    NPV_CHECK(s->q == r || (count[s->q] == cq && map[s->q] == mq), "nothing changes for other ranks");
    if (rc == 0 && cr == 0) {
      NPV_CHECK(nr == s->nr0 + 1 && ranks[s->nr0] == r && map[r] == s->nr0, "the first particle for a rank registers the rank");
      NPV_CHECK(j == s->nr0 || ranks[j] == rj, "registered ranks are kept");
    } else NPV_CHECK(nr == s->nr0 && ranks[j] == rj && map[r] == mr, "a rank is registered once");
  }
  NPV_REACH("end");
}
#endif
#ifndef NPV_VC
// every particle of every rank, as (rank, values), ordered by identifier
struct Where { int rank, cell; gp::Particle p; };
static std::map<INT, Where> gather(gp::World &w) {
  std::vector<double> mine;
  const int nd = w.ndim;
  auto st = gp::state(w.A);
  for (size_t c = 0; c < st.size(); c++) for (auto &q : st[c]) {
    auto &p = q.second;
    mine.push_back((double)q.first); mine.push_back((double)c);
    for (int d = 0; d < nd; d++) mine.push_back(p.r.at("P")[d]);
    for (int d = 0; d < w.nv; d++) mine.push_back(p.r.at("V")[d]);
    mine.push_back(p.r.at("W")[0]);
    mine.push_back((double)p.i.at("CELL_ID")[0]);
    for (int d = 0; d < w.nq; d++) mine.push_back((double)p.i.at("Q")[d]);
    mine.push_back((double)p.i.at("NESO_MPI_RANK")[0]); mine.push_back((double)p.i.at("NESO_MPI_RANK")[1]);
  }
  int n = (int)mine.size();
  std::vector<int> ns(w.size), off(w.size + 1, 0);
  MPI_Comm cm = w.size > 1 ? w.mesh->get_comm() : MPI_COMM_WORLD;
  MPI_Allgather(&n, 1, MPI_INT, ns.data(), 1, MPI_INT, cm);
  for (int r = 0; r < w.size; r++) off[r + 1] = off[r] + ns[r];
  std::vector<double> all(off[w.size] + 1);
  MPI_Allgatherv(mine.data(), n, MPI_DOUBLE, all.data(), ns.data(), off.data(), MPI_DOUBLE, cm);
  std::map<INT, Where> out;
  for (int r = 0; r < w.size; r++) {
    int k = off[r];
    while (k < off[r + 1]) {
      Where x; x.rank = r;
      const INT id = (INT)all[k++]; x.cell = (int)all[k++];
      for (int d = 0; d < nd; d++) x.p.r["P"].push_back(all[k++]);
      for (int d = 0; d < w.nv; d++) x.p.r["V"].push_back(all[k++]);
      x.p.r["W"] = {all[k++]};
      x.p.i["CELL_ID"] = {(INT)all[k++]};
      for (int d = 0; d < w.nq; d++) x.p.i["Q"].push_back((INT)all[k++]);
      x.p.i["RANK"] = {(INT)all[k], (INT)all[k + 1]}; k += 2;
      NPV_CHECK(!out.count(id), "a particle is on one rank only");
      out[id] = x;
    }
  }
  return out;
}
static void same_particles(std::map<INT, Where> &a, std::map<INT, Where> &b) {
  NPV_CHECK(a.size() == b.size(), "the number of particles is conserved");
  for (auto &x : a) {
    NPV_CHECK(b.count(x.first), "no particle is lost");
    auto p = x.second.p, q = b[x.first].p;
    for (auto *s : {&p, &q}) { s->i.erase("CELL_ID"); s->i.erase("RANK"); }
    NPV_CHECK(p == q, "the values of a particle are unchanged by a move");
  }
}
// particles anywhere in the domain, some on cell faces, with different counts per rank
static void populate(gp::World &w) {
  const int n = w.lr.one_in(3) ? 0 : (int)w.lr.uni(0, 80);
  npv::note("n", std::to_string(n));
  auto v = w.draw(n);
  for (auto &p : v) for (int d = 0; d < w.ndim; d++) {
    const double e = w.mesh->global_extents[d], h = w.mesh->cell_width_fine;
    if (w.lr.one_in(5)) p.r["P"][d] = std::min(std::floor(p.r["P"][d] / h) * h, e - h);
  }
  for (auto &p : v) p.i["CELL_ID"] = {0};
  w.A->add_particles_local(w.pset(v, w.spec));
}
static void advect(gp::World &w) {
  const INT q = npv::uni(1, 97);
  const int nd = w.ndim;
  const int style = (int)npv::uni(0, 3);
  const double e0 = w.mesh->global_extents[0], e1 = w.mesh->global_extents[1], e2 = nd > 2 ? w.mesh->global_extents[2] : 1.0, h = w.mesh->cell_width_fine;
  particle_loop(w.A, [=](auto P, auto ID) {
    const double ee[3] = {e0, e1, e2};
    for (int d = 0; d < nd; d++) {
      const double u = (((ID.at(0) * 3 + d * 5 + 1) * q) % 101) / 101.0;
      double x = P.at(d) + (style == 0 ? ee[d] * u : style == 1 ? h * (2 * u - 1) : style == 2 ? (d == 0 ? h : 0.0) : (ID.at(0) % 7 == 0 ? ee[d] * 0.5 : 0.0));
      if (x >= ee[d]) x -= ee[d];
      if (x < 0) x += ee[d];
      if (x >= ee[d] || x < 0) x = 0;
      P.at(d) = x;
    }
  }, Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")))->execute();
}
NPV_BOUNDED(hybrid_move, 200, 4) {
  gp::World w(true, 30);
  populate(w);
  for (int k = 0; k < 3; k++) {
    if (k) advect(w);
    auto a = gather(w);
    w.A->hybrid_move();
    auto b = gather(w);
    same_particles(a, b);
    // the owner of the position holds the particle
    auto &m = *w.mesh;
    for (auto &x : b) if (x.second.rank == w.rank) for (int d = 0; d < w.ndim; d++) {
      const double p = x.second.p.r["P"][d] * m.inverse_cell_width_fine;
      NPV_CHECK(p >= m.cell_starts[d] - 1e-9 && p <= m.cell_ends[d] + 1e-9 && (int)p < m.cell_ends[d] + 1, "a particle is on the rank that owns its position");
    }
    w.A->cell_move();
    auto c = gather(w);
    same_particles(a, c);
    gp::consistent(w.A);
    for (auto &x : c) if (x.second.rank == w.rank) {
      int cell = 0;
      for (int d = w.ndim - 1; d >= 0; d--) {
        const double p = x.second.p.r["P"][d] * m.inverse_cell_width_fine;
        cell = cell * (m.cell_ends[d] - m.cell_starts[d]) + std::min(std::max((int)p, m.cell_starts[d]), m.cell_ends[d] - 1) - m.cell_starts[d];
      }
      NPV_CHECK(x.second.p.i["CELL_ID"][0] == x.second.cell, "a particle is in the cell of its cell id");
      bool face = false;
      for (int d = 0; d < w.ndim; d++) { const double p = x.second.p.r["P"][d] * m.inverse_cell_width_fine; face |= std::abs(p - std::round(p)) < 1e-9; }
      NPV_CHECK(face || cell == x.second.cell, "a particle is in the cell that contains its position");
    }
    if (npv::uni(0, 2) == 0) w.remove_some();
  }
}
NPV_BOUNDED(global_move_to_named_rank, 160, 4) {
  gp::World w(false, 30);
  w.history(1);
  for (int k = 0; k < 2; k++) {
    const INT R = w.size, me = w.rank, s = w.lr.uni(0, 50), style = npv::uni(0, 3);
    particle_loop(w.A, [=](auto r, auto ID) {
      const INT u = (ID.at(0) * 7 + s) % (2 * R + 1);
      r.at(0) = style == 0 ? (me + 1) % R : style == 1 ? 0 : u < R ? u : (u % 2 ? me : -1);
      r.at(1) = -1;
    }, Access::write(Sym<INT>("NESO_MPI_RANK")), Access::read(Sym<INT>("ID")))->execute();
    auto a = gather(w);
    w.A->global_move();
    auto b = gather(w);
    same_particles(a, b);
    for (auto &x : a) {
      const INT to = x.second.p.i["RANK"][0];
      NPV_CHECK(b[x.first].rank == (to < 0 ? x.second.rank : (int)to), "a particle is on the rank it was sent to");
      if (to < 0 || to == x.second.rank) NPV_CHECK(b[x.first].cell == x.second.cell, "a particle that stays keeps its cell");
    }
    gp::consistent(w.A);
    reset_mpi_ranks(w.A->mpi_rank_dat);
  }
}
NPV_BOUNDED(local_move_to_neighbour, 120, 4) {
  gp::World w(true, 30, 0, 1);
  populate(w);
  w.A->hybrid_move(); w.A->cell_move();
  auto nb = w.mesh->get_local_communication_neighbours();
  auto d_nb = std::make_shared<LocalArray<INT>>(w.target, (int)nb.size() + 1);
  std::vector<INT> h(nb.begin(), nb.end()); h.push_back(w.rank);
  d_nb->set(h);
  const INT m = (INT)h.size(), s = npv::uni(0, 40);
  reset_mpi_ranks(w.A->mpi_rank_dat);
  particle_loop(w.A, [=](auto r, auto ID, auto N) { if ((ID.at(0) + s) % 3) r.at(1) = N.at((ID.at(0) * 5 + s) % m); }, Access::write(Sym<INT>("NESO_MPI_RANK")), Access::read(Sym<INT>("ID")), Access::read(d_nb))->execute();
  auto a = gather(w);
  w.A->local_move();
  auto b = gather(w);
  same_particles(a, b);
  for (auto &x : a) {
    const INT to = x.second.p.i["RANK"][1];
    NPV_CHECK(b[x.first].rank == (to < 0 ? x.second.rank : (int)to), "a particle is on the neighbour it was sent to");
  }
  gp::consistent(w.A);
}
#endif
