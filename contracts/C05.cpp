// C05: loop arguments have the semantics of their access mode
//@ opts: {"smallloops": 4}
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
using namespace NESO::Particles;
using It = ParticleLoopImplementation::ParticleLoopIteration;
// the iteration an item of a loop over cells [0,nc) with np[c] rows sees
static It item(int64_t cell, int64_t layer, int64_t loop_layer) { It i; i.local_sycl_index = 0; i.local_sycl_range = 1; i.cellx = (int)cell; i.layerx = (int)layer; i.loop_layerx = (int)loop_layer; return i; }

NPV_PROVE(particle_dat_argument, 400) {
  const int64_t nc = npv::sym("nc", 1, 1 << 20, 6), ncomp = npv::sym("ncomp", 1, 64, 4);
  int *np = npv::array<int>("np", nc, 0, 1 << 20);
  REAL ***d = npv::celldat<REAL>("d", nc, ncomp, np);
  REAL v = npv::symf("v");
  NPV_FORALL(c, 0, nc) NPV_FORALL(k, 0, ncomp) NPV_FORALL(l, 0, np[c]) {
    It it = item(c, l, 0);
    Access::ParticleDat::Read<REAL> r; Access::ParticleDat::Write<REAL> w;
    ParticleLoopImplementation::create_kernel_arg(it, (REAL *const *const *)d, r);
    ParticleLoopImplementation::create_kernel_arg(it, d, w);
    const REAL old = d[c][k][l];
    NPV_CHECK(r.at((int)k) == old && r[(int)k] == old, "a read argument returns the stored component of the particle");
    NPV_FORALL(c2, 0, nc) NPV_FORALL(k2, 0, ncomp) NPV_FORALL(l2, 0, np[c2]) {
      const REAL o2 = d[c2][k2][l2];
      w.at((int)k) = v;
      NPV_CHECK(d[c][k][l] == v, "a write argument stores to the component of the particle");
      NPV_CHECK((c2 == c && k2 == k && l2 == l) || d[c2][k2][l2] == o2, "no other value changes");
      w[(int)k] = old;
      NPV_CHECK(d[c][k][l] == old, "indexing a write argument stores to the component of the particle");
    }
  }
  NPV_REACH("end");
}
NPV_PROVE(particle_dat_argument_ephemeral, 400) {
  const int64_t nc = npv::sym("nc", 1, 1 << 20, 6), ncomp = npv::sym("ncomp", 1, 64, 4);
  int *np = npv::array<int>("np", nc, 0, 1 << 20);
  INT ***d = npv::celldat<INT>("d", nc, ncomp, np, -1000000, 1000000);
  NPV_FORALL(c, 0, nc) NPV_FORALL(k, 0, ncomp) NPV_FORALL(l, 0, np[c]) {
    It it = item(c, 1 << 25, l);
    Access::ParticleDat::Read<INT> r; Access::ParticleDat::Write<INT> w;
    ParticleLoopImplementation::create_kernel_arg(it, (INT *const *const *)d, r);
    ParticleLoopImplementation::create_kernel_arg(it, d, w);
    const INT old = d[c][k][l];
    NPV_CHECK(r.at_ephemeral((int)k) == old, "an ephemeral read uses the loop layer");
    w.at_ephemeral((int)k) = old + 1;
    NPV_CHECK(d[c][k][l] == old + 1, "an ephemeral write uses the loop layer");
    d[c][k][l] = old;
  }
  NPV_REACH("end");
}
NPV_PROVE(cell_dat_argument, 400) {
  const int64_t nc = npv::sym("nc", 1, 1 << 20, 6), ncol = npv::sym("ncol", 1, 64, 4);
  int *np = npv::array<int>("np", nc, 0, 1 << 20);
  INT ***d = npv::celldat<INT>("d", nc, ncol, np, -1000000, 1000000);
  const int64_t v = npv::sym("v", -1000000, 1000000, 50);
  NPV_FORALL(c, 0, nc) NPV_FORALL(k, 0, ncol) NPV_FORALL(l, 0, np[c]) {
    It it = item(c, 0, 0);
    Access::CellDat::Read<INT> r; Access::CellDat::Write<INT> w; Access::CellDat::Add<INT> a;
    INT *const *const *cd = d;
    ParticleLoopImplementation::create_kernel_arg(it, cd, r);
    ParticleLoopImplementation::create_kernel_arg(it, d, w);
    ParticleLoopImplementation::create_kernel_arg(it, d, a);
    const INT old = d[c][k][l];
    NPV_CHECK(r.at((int)l, (int)k) == old, "reads the entry of the cell");
    NPV_CHECK(a.fetch_add((int)l, (int)k, v) == old && d[c][k][l] == old + v, "adds to the entry of the cell");
    w.at((int)l, (int)k) = v;
    NPV_CHECK(d[c][k][l] == v, "writes the entry of the cell");
  }
  NPV_REACH("end");
}
NPV_PROVE(cell_dat_const_argument, 400) {
  const int64_t nc = npv::sym("nc", 1, 1 << 12, 6), nr = npv::sym("nrow", 1, 1 << 8, 4), nk = npv::sym("ncol", 1, 1 << 8, 4);
  INT *d = npv::array<INT>("d", nc * nr * nk, -1000000, 1000000);
  const INT v = npv::sym("v", -1000000, 1000000, 50);
  CellDatConstDeviceType<INT> D; D.ptr = d; D.stride = (int)(nr * nk); D.nrow = (int)nr;
  CellDatConstDeviceTypeConst<INT> C; C.ptr = d; C.stride = (int)(nr * nk); C.nrow = (int)nr;
  NPV_FORALL(c, 0, nc) NPV_FORALL(i, 0, nr) NPV_FORALL(k, 0, nk) {
    It it = item(c, 0, 0);
    const int64_t x = (c * nk + k) * nr + i;
    const int I = (int)i, K = (int)k;
    Access::CellDatConst::Read<INT> r; Access::CellDatConst::Write<INT> w; Access::CellDatConst::Add<INT> a; Access::CellDatConst::Min<INT> mn; Access::CellDatConst::Max<INT> mx;
    ParticleLoopImplementation::create_kernel_arg(it, C, r);
    ParticleLoopImplementation::create_kernel_arg(it, D, w);
    ParticleLoopImplementation::create_kernel_arg(it, D, a);
    ParticleLoopImplementation::create_kernel_arg(it, D, mn);
    ParticleLoopImplementation::create_kernel_arg(it, D, mx);
    const INT old = d[x];
    NPV_CHECK(r.at(I, K) == old, "reads the entry of the cell");
    NPV_CHECK(a.fetch_add(I, K, v) == old && d[x] == old + v, "adds to the entry of the cell");
    d[x] = old;
    NPV_CHECK(mn.fetch_min(I, K, v) == old && d[x] == (old < v ? old : v), "takes the minimum with the entry of the cell");
    d[x] = old;
    NPV_CHECK(mx.fetch_max(I, K, v) == old && d[x] == (old > v ? old : v), "takes the maximum with the entry of the cell");
    w.at(I, K) = v;
    NPV_CHECK(d[x] == v, "writes the entry of the cell");
    d[x] = old;
  }
  NPV_REACH("end");
}
NPV_PROVE(array_arguments, 400) {
  const int64_t n = npv::sym("n", 1, 1 << 20, 20);
  INT *d = npv::array<INT>("d", n, -1000000, 1000000);
  const INT v = npv::sym("v", -1000000, 1000000, 50);
  NPV_FORALL(i, 0, n) NPV_FORALL(j, 0, n) {
    It it = item(0, 0, 0);
    Access::LocalArray::Read<INT> r; Access::LocalArray::Write<INT> w; Access::LocalArray::Add<INT> a; Access::GlobalArray::Read<INT> gr; Access::GlobalArray::Add<INT> ga;
    ParticleLoopImplementation::create_kernel_arg(it, (INT const *)d, r);
    ParticleLoopImplementation::create_kernel_arg(it, d, w);
    ParticleLoopImplementation::create_kernel_arg(it, d, a);
    ParticleLoopImplementation::create_kernel_arg(it, (INT const *)d, gr);
    ParticleLoopImplementation::create_kernel_arg(it, d, ga);
    const INT old = d[i], oj = d[j];
    NPV_CHECK(r.at((int)i) == old && gr.at((int)i) == old && r[(int)i] == old, "reads the element");
    NPV_CHECK(a.fetch_add((int)i, v) == old && d[i] == old + v, "adds to the element and returns what was there");
    ga.add((int)i, v);
    NPV_CHECK(d[i] == old + 2 * v, "adds to the element of a global array");
    w.at((int)i) = v;
    NPV_CHECK(d[i] == v && (i == j || d[j] == oj), "writes the element and no other");
    d[i] = old;
  }
  NPV_REACH("end");
}
NPV_PROVE(nd_array_arguments, 400) {
  const int64_t n0 = npv::sym("n0", 1, 1 << 8, 4), n1 = npv::sym("n1", 1, 1 << 8, 4), n2 = npv::sym("n2", 1, 1 << 8, 4);
  INT *d = npv::array<INT>("d", n0 * n1 * n2, -1000000, 1000000);
  const INT v = npv::sym("v", -1000000, 1000000, 50);
  auto ix = nd_index<3>((int)n0, (int)n1, (int)n2);
  NPV_FORALL(i, 0, n0) NPV_FORALL(j, 0, n1) NPV_FORALL(k, 0, n2) {
    Access::NDLocalArray::Read<INT, 3> r; r.ptr = d; r.index = ix;
    Access::NDLocalArray::Write<INT, 3> w; w.ptr = d; w.index = ix;
    Access::NDLocalArray::Add<INT, 3> a; a.ptr = d; a.index = ix;
    It it = item(0, 0, 0);
    Access::NDLocalArray::Read<INT, 3> kr; Access::NDLocalArray::Write<INT, 3> kw; Access::NDLocalArray::Add<INT, 3> ka;
    ParticleLoopImplementation::create_kernel_arg(it, r, kr);
    ParticleLoopImplementation::create_kernel_arg(it, w, kw);
    ParticleLoopImplementation::create_kernel_arg(it, a, ka);
    const int64_t x = (i * n1 + j) * n2 + k;
    const INT old = d[x];
    NPV_CHECK(kr.at((int)i, (int)j, (int)k) == old, "reads the element");
    NPV_CHECK(ka.fetch_add((int)i, (int)j, (int)k, v) == old && d[x] == old + v, "adds to the element and returns what was there");
    kw.at((int)i, (int)j, (int)k) = v;
    NPV_CHECK(d[x] == v, "writes the element");
    d[x] = old;
  }
  NPV_REACH("end");
}
NPV_PROVE(loop_index_argument, 400) {
  const int64_t nc = npv::sym("nc", 1, 1 << 20, 6);
  INT *es = npv::array<INT>("es", nc, 0, 1 << 30), *lb = npv::array<INT>("lb", nc, 0, 1 << 30);
  int *np = npv::array<int>("np", nc, 0, 1 << 20);
  const int64_t l = npv::sym("l", 0, 1 << 20, 30), ll = npv::sym("ll", 0, 1 << 20, 30);
  NPV_FORALL(c, 0, nc) NPV_FORALL(s, 0, nc) {
    It it = item(c, l, ll);
    ParticleLoopImplementation::ParticleLoopIndexKernelT K; K.starting_cell = (int)s; K.loop_type_int = 1; K.npart_cell_es = es; K.npart_cell_es_lb = lb;
    Access::LoopIndex::Read I;
    ParticleLoopImplementation::create_kernel_arg(it, K, I);
    NPV_CHECK(I.cell == c && I.layer == l && I.loop_layer == ll, "the index names the particle");
    NPV_CHECK(I.get_local_linear_index() == es[c] + l, "the local index counts particles");
    NPV_CHECK(I.get_sub_linear_index() == lb[c] + ll, "the sub index counts members");
    NPV_CHECK(I.get_loop_linear_index() == lb[c] + ll - lb[s], "the loop index counts members from the first cell of the loop");
    ParticleLoopImplementation::CellInfoNPartKernelT N; N.d_npart_cell_lb = np;
    Access::CellInfoNPart::Read R;
    ParticleLoopImplementation::create_kernel_arg(it, N, R);
    NPV_CHECK(R.get() == np[c], "the particle count is that of the cell");
  }
  NPV_REACH("end");
}
NPV_PROVE(sym_vector_argument, 400) {
  const int64_t nc = npv::sym("nc", 1, 1 << 12, 4), ncomp = npv::sym("ncomp", 1, 16, 3);
  int *np = npv::array<int>("np", nc, 0, 1 << 16);
  REAL ***d0 = npv::celldat<REAL>("d0", nc, ncomp, np), ***d1 = npv::celldat<REAL>("d1", nc, ncomp, np);
  REAL ***D[2] = {d0, d1};
  REAL v = npv::symf("v");
  NPV_FORALL(c, 0, nc) NPV_FORALL(k, 0, ncomp) NPV_FORALL(l, 0, np[c]) {
    It it = item(c, l, l);
    Access::SymVector::Read<REAL> r; Access::SymVector::Write<REAL> w;
    Access::LoopIndex::Read I; I.cell = c; I.layer = l; I.loop_layer = l;
    ParticleLoopImplementation::create_kernel_arg(it, (REAL *const *const **)D, r);
    ParticleLoopImplementation::create_kernel_arg(it, D, w);
    const REAL o0 = d0[c][k][l], o1 = d1[c][k][l];
    NPV_CHECK(r.at(0, (int)k) == o0 && r.at(1, (int)k) == o1, "reads the component of the property of the particle");
    NPV_CHECK(r.at(1, (int)c, (int)l, (int)k) == o1 && r.at(0, I, (int)k) == o0 && r.at_ephemeral(1, (int)k) == o1 && r.at_ephemeral(0, I, (int)k) == o0, "all ways to name the particle agree");
    w.at(1, (int)k) = v; NPV_CHECK(d1[c][k][l] == v && d0[c][k][l] == o0, "writes the named property only"); d1[c][k][l] = o1;
    w.at(0, (int)c, (int)l, (int)k) = v; NPV_CHECK(d0[c][k][l] == v, "writes by cell and layer"); d0[c][k][l] = o0;
    w.at(0, I, (int)k) = v; NPV_CHECK(d0[c][k][l] == v, "writes by index"); d0[c][k][l] = o0;
    w.at_ephemeral(1, I, (int)k) = v; NPV_CHECK(d1[c][k][l] == v, "writes ephemeral by index"); d1[c][k][l] = o1;
    w.at_ephemeral(1, (int)k) = v; NPV_CHECK(d1[c][k][l] == v, "writes ephemeral"); d1[c][k][l] = o1;
  }
  NPV_REACH("end");
}
#ifndef NPV_VC
#include "subgroup.hpp"
// a random iteration set: group or sub-group, all cells, one cell or a range
struct Range { std::optional<int> o1, o2; int a, b; };
static Range draw_range(gp::World &w) {
  Range r; r.a = 0; r.b = w.ncell;
  const int how = (int)npv::uni(0, 3);
  if (w.ncell == 0) return r;
  if (how == 1) { r.a = (int)w.lr.uni(0, w.ncell - 1); r.b = r.a + 1; r.o1 = r.a; }
  else if (how == 2) { r.a = (int)w.lr.uni(0, w.ncell - 1); r.b = (int)w.lr.uni(r.a, w.ncell); r.o1 = r.a; r.o2 = r.b; }
  return r;
}
template <typename LP> void run(LP loop, const Range &r) {
  if (npv::uni(0, 1)) loop->execute(r.o1, r.o2); else { loop->submit(r.o1, r.o2); loop->wait(); }
}
struct Case {
  gp::World w; sg::SG s; sg::Members mem; Range r; std::vector<std::vector<gp::Particle>> L;
  Case(bool cart = false) : w(cart) {
    w.history(2);
    w.target->parameters->template get<SizeTParameter>("LOOP_NBIN")->value = npv::uni(1, 20);
    r = draw_range(w);
    if (npv::uni(0, 1)) { s = sg::filter(w.A, sg::draw_pred(w)); if (npv::uni(0, 2) == 0) s = sg::filter(s, sg::draw_pred(w)); }
    mem = s ? sg::members(s, w.A) : sg::all(w.A);
    L = gp::layers(w.A);
  }
  template <typename F> void each(F f) { for (int c = r.a; c < r.b; c++) { INT k = 0; for (INT l : mem[c]) { f(c, l, L[c][l], k); k++; } } }
  template <typename K, typename... A> auto loop(K k, A... a) { return s ? particle_loop(s, k, a...) : particle_loop(w.A, k, a...); }
};
static bool same_layers(const std::vector<std::vector<gp::Particle>> &a, const std::vector<std::vector<gp::Particle>> &b) {
  if (a == b) return true;
  for (size_t c = 0; c < a.size(); c++) for (size_t l = 0; l < a[c].size(); l++) if (!(a[c][l] == b[c][l])) { npv::note("diff", "cell " + std::to_string(c) + " layer " + std::to_string(l)); return false; }
  return false;
}
NPV_BOUNDED(particle_arguments, 320, 1) {
  Case t;
  const REAL s = npv::uni(-4, 4); const INT m = npv::uni(-4, 4);
  const int how = (int)npv::sym("how", 0, 4, 4);
  auto body = [=](auto V, auto W, auto Q, auto ID, auto P) { V.at(2) = W.at(0) * s + P.at(1); V[0] += (REAL)ID.at(0); Q.at(0) = Q.at(1) * m + ID[0]; };
  auto RW = Access::read(Sym<REAL>("W")); auto RI = Access::read(Sym<INT>("ID")); auto RP = Access::read(Sym<REAL>("P"));
  auto A = t.w.A;
  if (how <= 1) run(t.loop(body, Access::write(Sym<REAL>("V")), RW, Access::write(Sym<INT>("Q")), RI, RP), t.r);
  else if (how == 2) run(t.loop(body, Access::write(A->get_dat(Sym<REAL>("V"))), Access::read(A->get_dat(Sym<REAL>("W"))), Access::write(A->get_dat(Sym<INT>("Q"))), Access::read(A->get_dat(Sym<INT>("ID"))), Access::read(A->get_dat(Sym<REAL>("P")))), t.r);
  else {
    std::vector<Sym<REAL>> sw{Sym<REAL>("V")}, sr{Sym<REAL>("P"), Sym<REAL>("W")};
    std::vector<Sym<INT>> si{Sym<INT>("Q")};
    auto v0 = std::make_shared<SymVector<REAL>>(A, sw), v1 = std::make_shared<SymVector<REAL>>(A, sr);
    auto v2 = std::make_shared<SymVector<INT>>(A, si);
    if (how == 3) run(t.loop([=](auto X, auto Y, auto Z, auto ID) { X.at(0, 2) = Y.at(1, 0) * s + Y.at(0, 1); X.at(0, 0) += (REAL)ID.at(0); Z.at(0, 0) = Z.at(0, 1) * m + ID[0]; }, Access::write(v0), Access::read(v1), Access::write(v2), RI), t.r);
    else run(t.loop([=](auto X, auto Y, auto Z, auto ID, auto I) { X.at(0, I, 2) = Y.at(1, I.cell, I.layer, 0) * s + Y.at(0, I, 1); X.at(0, (int)I.cell, (int)I.layer, 0) += (REAL)ID.at(0); Z.at(0, I, 0) = Z.at(0, (int)I.cell, (int)I.layer, 1) * m + ID[0]; }, Access::write(v0), Access::read(v1), Access::write(v2), RI, Access::read(ParticleLoopIndex{})), t.r);
  }
  t.each([&](int c, INT l, gp::Particle &q, INT) {
    auto &p = t.L[c][l];
    p.r["V"][2] = q.r["W"][0] * s + q.r["P"][1]; p.r["V"][0] += (REAL)q.i["ID"][0]; p.i["Q"][0] = q.i["Q"][1] * m + q.i["ID"][0];
  });
  NPV_CHECK(same_layers(t.L, gp::layers(A)), "written components have the values the kernel gave and nothing else changed");
}
NPV_BOUNDED(replaced_properties, 160, 1) {
  Case t;
  auto A = t.w.A;
  for (int it = (int)npv::uni(2, 4); it--;) {
    // a property is removed and another of its name added
    for (auto n : {"K0", "K1"}) if (npv::uni(0, 1)) {
      if (A->contains_dat(Sym<REAL>(n))) A->remove_particle_dat(Sym<REAL>(n));
      if (A->contains_dat(Sym<INT>(n))) A->remove_particle_dat(Sym<INT>(n));
      const int w = (int)npv::uni(1, 5);
      A->add_particle_dat(Sym<REAL>(n), w); A->add_particle_dat(Sym<INT>(n), w);
    }
    if (!A->contains_dat(Sym<REAL>("K0")) || !A->contains_dat(Sym<REAL>("K1"))) continue;
    std::vector<Sym<REAL>> sr{Sym<REAL>("K0"), Sym<REAL>("K1")};
    std::vector<Sym<INT>> si{Sym<INT>("K0"), Sym<INT>("K1")};
    const int w0 = A->get_dat(sr[0])->ncomp, w1 = A->get_dat(sr[1])->ncomp;
    const INT f = npv::uni(-9, 9);
    particle_loop(A, [=](auto R, auto I, auto ID) {
      for (int k = 0; k < w0; k++) { R.at(0, k) = (REAL)(ID.at(0) * f + k); I.at(0, k) = ID.at(0) + k * f; }
      for (int k = 0; k < w1; k++) { R.at(1, k) = (REAL)(ID.at(0) - k); I.at(1, k) = ID.at(0) * 2 + k; }
    }, Access::write(sym_vector<REAL>(A, sr)), Access::write(sym_vector<INT>(A, si)), Access::read(Sym<INT>("ID")))->execute();
    auto L = gp::layers(A);
    for (auto &c : L) for (auto &p : c) {
      const INT id = p.i["ID"][0];
      for (int k = 0; k < w0; k++) NPV_CHECK(p.r["K0"].at(k) == (REAL)(id * f + k) && p.i["K0"].at(k) == id + k * f, "a loop writes the property of the name that the group has");
      for (int k = 0; k < w1; k++) NPV_CHECK(p.r["K1"].at(k) == (REAL)(id - k) && p.i["K1"].at(k) == id * 2 + k, "a loop writes the property of the name that the group has");
    }
  }
}
NPV_BOUNDED(array_arguments_in_loops, 320, 1) {
  Case t;
  const int n = (int)npv::uni(1, 12), d0 = (int)npv::uni(1, 4), d1 = (int)npv::uni(1, 4);
  std::vector<INT> a(n), b(d0 * d1); std::vector<REAL> rd(n);
  for (auto &x : a) x = npv::uni(-9, 9); for (auto &x : b) x = npv::uni(-9, 9); for (auto &x : rd) x = npv::uni(-8, 8) / 4.0;
  auto LA = std::make_shared<LocalArray<INT>>(t.w.target, a); auto LR = std::make_shared<LocalArray<REAL>>(t.w.target, rd); auto LW = std::make_shared<LocalArray<INT>>(t.w.target, n, -7);
  auto ND = std::make_shared<NDLocalArray<INT, 2>>(t.w.target, d0, d1); ND->set(b);
  const int times = (int)npv::uni(1, 2);
  auto lp = t.loop([=](auto ID, auto la, auto lr, auto lw, auto nd, auto W) {
    const INT id = ID.at(0);
    la.fetch_add((int)(id % n), id + 1); nd.fetch_add((int)(id % d0), (int)((id / 3) % d1), id * 2 - 5); lw.at((int)(id % n)) = 11; W.at(0) = lr.at((int)(id % n));
  }, Access::read(Sym<INT>("ID")), Access::add(LA), Access::read(LR), Access::write(LW), Access::add(ND), Access::write(Sym<REAL>("V")));
  for (int k = 0; k < times; k++) run(lp, t.r);
  std::vector<INT> w(n, -7);
  t.each([&](int c, INT l, gp::Particle &q, INT) { const INT id = q.i["ID"][0]; a[id % n] += times * (id + 1); b[(id % d0) * d1 + (id / 3) % d1] += times * (id * 2 - 5); w[id % n] = 11; t.L[c][l].r["V"][0] = rd[id % n]; });
  NPV_CHECK(LA->get() == a, "an array opened for addition holds the initial value plus every contribution once");
  NPV_CHECK(ND->get() == b, "a multi-dimensional array opened for addition holds the initial value plus every contribution once");
  NPV_CHECK(LR->get() == rd, "an array opened for reading is unchanged");
  NPV_CHECK(LW->get() == w, "an array opened for writing holds what was written and keeps the rest");
  NPV_CHECK(same_layers(t.L, gp::layers(t.w.A)), "values read from arrays are the stored ones and no other particle value changed");
  auto out = std::make_shared<NDLocalArray<INT, 2>>(t.w.target, d0, d1); out->fill(-3);
  std::vector<INT> o(d0 * d1, -3);
  run(t.loop([=](auto ID, auto nd, auto x) { const INT id = ID.at(0); const int i = (int)(id % d0), j = (int)((id / 3) % d1); x.at(i, j) = nd.at(i, j) + 1; }, Access::read(Sym<INT>("ID")), Access::read(ND), Access::write(out)), t.r);
  t.each([&](int, INT, gp::Particle &q, INT) { const INT id = q.i["ID"][0]; const int x = (id % d0) * d1 + (id / 3) % d1; o[x] = b[x] + 1; });
  NPV_CHECK(out->get() == o && ND->get() == b, "multi-dimensional arrays are read and written element by element");
}
NPV_BOUNDED(cell_arguments_in_loops, 320, 1) {
  Case t;
  const int nc = t.w.ncell, nr = (int)npv::uni(1, 3), nk = (int)npv::uni(1, 3);
  auto mk = [&](INT lo, INT hi, std::vector<std::vector<INT>> &ref) { auto c = std::make_shared<CellDatConst<INT>>(t.w.target, nc, nr, nk); ref.assign(nc, std::vector<INT>(nr * nk)); for (int x = 0; x < nc; x++) for (int i = 0; i < nr; i++) for (int k = 0; k < nk; k++) { ref[x][i * nk + k] = npv::uni(lo, hi); c->set_value(x, i, k, ref[x][i * nk + k]); } return c; };
  std::vector<std::vector<INT>> rr, ra, rn, rx, rw;
  auto R = mk(-9, 9, rr), Ad = mk(-9, 9, ra), Mn = mk(-99, 99, rn), Mx = mk(-99, 99, rx), Wr = mk(-9, 9, rw);
  auto CD = std::make_shared<CellDat<INT>>(t.w.target, nc, nk);
  for (int c = 0; c < nc; c++) CD->set_nrow(c, nr + c % 2);
  CD->wait_set_nrow();
  std::vector<std::vector<INT>> cd(nc);
  for (int c = 0; c < nc; c++) { auto d = CD->get_cell(c); for (int i = 0; i < nr + c % 2; i++) for (int k = 0; k < nk; k++) { d->at(i, k) = npv::uni(-9, 9); cd[c].push_back(d->at(i, k)); } CD->set_cell(c, d); }
  auto NP = std::make_shared<LocalArray<INT>>(t.w.target, nc, -1);
  run(t.loop([=](auto ID, auto W, auto r, auto a, auto mn, auto mx, auto w, auto cda, auto info, auto np, auto I) {
    const INT id = ID.at(0); const int i = (int)(id % nr), k = (int)((id / 2) % nk);
    W.at(0) = (REAL)r.at(i, k);
    a.fetch_add(i, k, id); mn.fetch_min(i, k, (id * 37) % 120 - 60); mx.fetch_max(i, k, (id * 37) % 120 - 60);
    w.at(i, k) = 50; cda.fetch_add(i, k, id + 3);
    np.at((int)I.cell) = info.get();
  }, Access::read(Sym<INT>("ID")), Access::write(Sym<REAL>("V")), Access::read(R), Access::add(Ad), Access::min(Mn), Access::max(Mx), Access::write(Wr), Access::add(CD), Access::read(CellInfoNPart{}), Access::write(NP), Access::read(ParticleLoopIndex{})), t.r);
  std::vector<INT> np(nc, -1);
  t.each([&](int c, INT l, gp::Particle &q, INT) {
    const INT id = q.i["ID"][0], v = (id * 37) % 120 - 60; const int x = (int)(id % nr) * nk + (int)((id / 2) % nk);
    t.L[c][l].r["V"][0] = (REAL)rr[c][x]; ra[c][x] += id; rn[c][x] = std::min(rn[c][x], v); rx[c][x] = std::max(rx[c][x], v); rw[c][x] = 50; cd[c][x] += id + 3;
    np[c] = (INT)t.mem[c].size();
  });
  auto cmp = [&](auto C, auto &ref, const char *what) { for (int c = 0; c < nc; c++) for (int i = 0; i < nr; i++) for (int k = 0; k < nk; k++) if (C->get_value(c, i, k) != ref[c][i * nk + k]) npv::fail(what, __FILE__, __LINE__); };
  cmp(R, rr, "per-cell data opened for reading is unchanged");
  cmp(Ad, ra, "per-cell data opened for addition holds the initial value plus every contribution of its cell once");
  cmp(Mn, rn, "per-cell data opened for minimum holds the minimum over its cell and the initial value");
  cmp(Mx, rx, "per-cell data opened for maximum holds the maximum over its cell and the initial value");
  cmp(Wr, rw, "per-cell data opened for writing holds what was written");
  for (int c = 0; c < nc; c++) { auto d = CD->get_cell(c); for (int i = 0; i < nr + c % 2; i++) for (int k = 0; k < nk; k++) NPV_CHECK(d->at(i, k) == cd[c][i * nk + k], "ragged per-cell data holds the initial value plus every contribution once"); }
  NPV_CHECK(NP->get() == np, "the particle count of a cell is that of the iterated group");
  NPV_CHECK(same_layers(t.L, gp::layers(t.w.A)), "values read from per-cell data are the stored ones");
  auto O = std::make_shared<CellDat<INT>>(t.w.target, nc, nk);
  for (int c = 0; c < nc; c++) O->set_nrow(c, nr);
  O->wait_set_nrow();
  for (int c = 0; c < nc; c++) { auto d = O->get_cell(c); for (int i = 0; i < nr; i++) for (int k = 0; k < nk; k++) d->at(i, k) = -8; O->set_cell(c, d); }
  run(t.loop([=](auto ID, auto s, auto o) { const INT id = ID.at(0); const int i = (int)(id % nr), k = (int)((id / 2) % nk); o.at(i, k) = s.at(i, k) * 2; }, Access::read(Sym<INT>("ID")), Access::read(CD), Access::write(O)), t.r);
  std::vector<std::vector<INT>> oe(nc, std::vector<INT>(nr * nk, -8));
  t.each([&](int c, INT, gp::Particle &q, INT) { const INT id = q.i["ID"][0]; const int x = (int)(id % nr) * nk + (int)((id / 2) % nk); oe[c][x] = 2 * cd[c][x]; });
  for (int c = 0; c < nc; c++) { auto d = O->get_cell(c); for (int i = 0; i < nr; i++) for (int k = 0; k < nk; k++) NPV_CHECK(d->at(i, k) == oe[c][i * nk + k], "ragged per-cell data is read and written entry by entry"); }
}
template <typename OP> static void reduce_case(OP op, INT ident) {
  Case t;
  t.w.target->parameters->template get<SizeTParameter>("LOOP_LOCAL_SIZE")->value = 1ull << npv::uni(0, 6); // reductions require a power of two
  const int nc = t.w.ncell, nr = (int)npv::uni(1, 3), nk = (int)npv::uni(1, 3);
  auto C = std::make_shared<CellDatConst<INT>>(t.w.target, nc, nr, nk);
  std::vector<std::vector<INT>> ref(nc, std::vector<INT>(nr * nk));
  for (int x = 0; x < nc; x++) for (int i = 0; i < nr; i++) for (int k = 0; k < nk; k++) { ref[x][i * nk + k] = npv::uni(-9, 9); C->set_value(x, i, k, ref[x][i * nk + k]); }
  run(t.loop([=](auto ID, auto Q, auto c) { const INT id = ID.at(0); c.combine((int)(id % nr), (int)((id / 2) % nk), Q.at(0)); c.combine((int)(id % nr), 0, Q.at(1)); }, Access::read(Sym<INT>("ID")), Access::read(Sym<INT>("Q")), Access::reduce(C, op)), t.r);
  t.each([&](int c, INT, gp::Particle &q, INT) { const INT id = q.i["ID"][0]; auto &x = ref[c][(id % nr) * nk + (id / 2) % nk]; x = op(x, q.i["Q"][0]); auto &y = ref[c][(id % nr) * nk]; y = op(y, q.i["Q"][1]); });
  for (int c = 0; c < nc; c++) for (int i = 0; i < nr; i++) for (int k = 0; k < nk; k++) NPV_CHECK(C->get_value(c, i, k) == ref[c][i * nk + k], "a reduction combines the initial value with every contribution of its cell once");
}
NPV_BOUNDED(reductions_in_loops, 320, 1) {
  switch (npv::sym("op", 0, 2, 2)) {
  case 0: reduce_case(Kernel::plus<INT>{}, 0); break;
  case 1: reduce_case(Kernel::minimum<INT>{}, 0); break;
  default: reduce_case(Kernel::maximum<INT>{}, 0);
  }
}
NPV_BOUNDED(local_memory_in_loops, 240, 1) {
  Case t;
  const int n = (int)npv::uni(1, 6);
  auto B = std::make_shared<LocalMemoryBlock<INT>>(n); auto X = std::make_shared<LocalMemoryInterlaced<REAL>>(n);
  auto OUT = std::make_shared<LocalArray<INT>>(t.w.target, 1, 0);
  run(t.loop([=](auto ID, auto Q, auto V, auto b, auto x, auto bad) {
    const INT id = ID.at(0);
    for (int k = 0; k < n; k++) { b.at(k) = id * 10 + k; x.at(k) = (REAL)(id * 3 - k); }
    INT s = 0; REAL r = 0;
    for (int k = 0; k < n; k++) { s += b.at(k); r += x.at(k); if (b.data()[k] != id * 10 + k || x.data()[k * x.get_stride()] != (REAL)(id * 3 - k)) bad.fetch_add(0, 1); }
    Q.at(0) = s; V.at(1) = r;
  }, Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("Q")), Access::write(Sym<REAL>("V")), Access::write(B), Access::write(X), Access::add(OUT)), t.r);
  t.each([&](int c, INT l, gp::Particle &q, INT) { const INT id = q.i["ID"][0]; t.L[c][l].i["Q"][0] = id * 10 * n + n * (n - 1) / 2; t.L[c][l].r["V"][1] = (REAL)(id * 3 * n - n * (n - 1) / 2); });
  NPV_CHECK(OUT->get()[0] == 0 && same_layers(t.L, gp::layers(t.w.A)), "every particle has its own scratch memory");
}
NPV_BOUNDED(global_array_in_loops, 160, 4) {
  Case t;
  const int n = (int)npv::uni(1, 6);
  auto G = std::make_shared<GlobalArray<INT>>(t.w.target, n, (INT)npv::uni(-5, 5));
  std::vector<INT> start = G->get(), mine(n, 0), all(n, 0);
  const int times = (int)npv::uni(1, 2);
  auto lp = t.loop([=](auto ID, auto g) { const INT id = ID.at(0); g.add((int)(id % n), id + 1); g.add(0, 1); }, Access::read(Sym<INT>("ID")), Access::add(G));
  for (int k = 0; k < times; k++) run(lp, t.r);
  t.each([&](int, INT, gp::Particle &q, INT) { const INT id = q.i["ID"][0]; mine[id % n] += times * (id + 1); mine[0] += times; });
  MPI_Allreduce(mine.data(), all.data(), n, MPI_LONG_LONG, MPI_SUM, MPI_COMM_WORLD);
  for (int k = 0; k < n; k++) all[k] += start[k];
  NPV_CHECK(G->get() == all, "a global array holds the initial value plus the contributions of every rank once");
  run(t.loop([=](auto Q, auto g) { Q.at(1) = g.at(n - 1); }, Access::write(Sym<INT>("Q")), Access::read(G)), t.r);
  t.each([&](int c, INT l, gp::Particle &, INT) { t.L[c][l].i["Q"][1] = all[n - 1]; });
  NPV_CHECK(G->get() == all && same_layers(t.L, gp::layers(t.w.A)), "a global array is read as stored");
}
#endif
