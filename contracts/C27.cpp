// C27: DSMC pair samplers and collision cells respect cells, counts and uniqueness.
//@ replace: get_resource<NESO::Particles::BufferDevice<int> => npvr_device_int: get_resource returns a buffer nobody else uses (C26)
//@ replace: get_resource<NESO::Particles::BufferDevice<long> => npvr_device_long: get_resource returns a buffer nobody else uses (C26)
//@ replace: restore_resource< => npvr_restore: restore_resource only takes the buffer back (C26)
//@ replace: BufferBase<int>::realloc_no_copy => npvr_room_int: realloc_no_copy provides room for the elements (C20)
//@ replace: BufferBase<long>::realloc_no_copy => npvr_room_long: realloc_no_copy provides room for the elements (C20)
//@ replace: BlockedBinaryNode<long, long, .*>::get\( => npvr_species: get gives the linear index of a species that was added, and no index of another (C19)
//@ replace: ParticleSubGroup::get_npart_local => npvr_npart_local: get_npart_local is the number of members
//@ replace: std::max_element< => npvr_max_element: std::max_element is the position of a largest element
//@ replace: reduce_values<long => npvr_largest: reduce_values is the largest value (bounded: C30)
//@ replace: joint_exclusive_scan_blocking<long => npvr_scan: joint_exclusive_scan_blocking computes the exclusive prefix sums (C01)
//@ replace: DeviceLimits::validate_range_global => npvr_same_range: validate_range_global is the range it is given (C03)
//@ assume: particle_loop visits every particle (C04, C05): any two particles, in any order, the counters being those the visits of the others leave
//@ opts: {"smallloops": 8, "symunroll": 8}
#define NPV_LOOP_STATE
#define NPV_ITEMWISE
#include "npv.hpp"
#include <neso_particles.hpp>
#include "subgroup.hpp"
//@ design: Proved: CollisionCellPartition::construct over arbitrary cells, particles, collision cells and numbers of species - any two particles of a sub-group that hold a species of the partition come out as entries of the collision cell they name, of their own species, at places that are theirs alone, and the counts the getters return are the numbers of such particles (the particle loops are taken by their contract, C04/C05, two arbitrary particles at a time; the counters are those the visits of the other particles leave). Bounded for the rest (the samplers, whose kernels share local memory of a work group across barriers and whose guarantee is about a whole set - each particle drawn at most once -, and the whole history): groups of up to 120 particles with random cells, species, collision cells and sub-groups; histories of several constructs and samples on the same objects; random streams including the end points 0 and 1; the CPU and the GPU branch of the NTC sampler; work items interleaved by the scheduler seed.
#ifdef NPV_VC
#include "vcdats.hpp"
#include "vcloop.hpp"
#define particle_loop npv::loop::particle_loop_contract
#include "src/algorithms/dsmc/collision_cell_partition.cpp"
#undef particle_loop
using DSMC::CollisionCellPartition;
struct Part {
  int64_t nc, mx, ns, c[2], q[2], s[2], l[2], n[2], at[2]; // two particles: cell, collision cell, species, row, particles counted before, their place
  bool found[2];
  int64_t npart, big, total;
  INT *lin, *F; int F_set, nlong, scans, reductions;
  int *counts;
  SYCLTargetSharedPtr T;
  npv::storage<CollisionCellPartition> p;
  npv::storage<ParticleSubGroup> sub;
  npv::storage<BufferDevice<INT>> cc, offs, most;
  npv::storage<BufferDevice<int>> lay, map;
  npv::storage<BlockedBinaryTree<INT, INT>> tree;
};
static Part *P;
extern "C" std::shared_ptr<BufferDevice<int>> npvr_device_int() { auto b = P->lay.get(); new (b) BufferDevice<int>(P->T, 1); return npv::raw(b); }
extern "C" std::shared_ptr<BufferDevice<INT>> npvr_device_long() { auto b = P->cc.get(); new (b) BufferDevice<INT>(P->T, 1); return npv::raw(b); }
extern "C" void npvr_restore() {}
extern "C" void npvr_room_int(BufferBase<int> *b, size_t n) { b->ptr = (int *)::operator new(n * sizeof(int)); b->size = n; }
extern "C" void npvr_room_long(BufferBase<INT> *b, size_t n) { b->ptr = (INT *)::operator new(n * sizeof(INT)); b->size = n; }
extern "C" bool npvr_species(void *, INT key, INT *value) {
  NPV_CHECK((0 <= key) & (key < 1 << 20), "the species of the particle");
  const INT v = P->lin[key];
  if (v < 0) return false;
  *value = v;
  return true;
}
extern "C" int npvr_npart_local(ParticleSubGroup *g) { return (int)P->npart; }
extern "C" int *npvr_max_element(int *a, int *b) {
  NPV_CHECK((a == P->p.get()->collision_cell_counts.data()) & (b == a + P->nc), "how: the largest number of collision cells");
  return P->counts + P->big; // whose value the copied element has
}
extern "C" sycl::event npvr_largest(void *, size_t n, INT *in, INT *out) {
  NPV_CHECK((int64_t)n == P->total && in == P->cc.get()->ptr, "how: all counts are looked at");
  *out = P->reductions++ ? 0 : 77;
  return sycl::event();
}
extern "C" void npvr_scan(void *, size_t n, INT *in, INT *out) {
  NPV_CHECK((int64_t)n == P->total + 1, "how: the scan is over all counts");
  const int64_t N = n;
  for (int64_t i = 0; i < N; i++) out[i] = npv::sum(in, i);
  const int64_t a = P->at[0], b = P->at[1];
  INT *F = P->F;
  const int64_t sa = npv::sum(in, a), sb = npv::sum(in, b), sn = npv::sum(in, N - 1);
  for (int k = 0; k < 2; k++) {
    const int64_t x = P->at[k], y = P->at[1 - k];
    if (!P->found[k]) continue;
    NPV_CHECK(npv::sum(in, x) + in[x] <= sn, "how: the places of a species in a collision cell are in the map");
    if (P->found[1 - k]) NPV_CHECK(x >= y || npv::sum(in, x) + in[x] <= npv::sum(in, y), "how: the places are one after the other");
  }
  npv::assume((0 <= sn) & (sn <= P->npart)); // the particles of the sub-group are counted at most once
  P->scans++;
}
extern "C" sycl::range<2> npvr_same_range(void *, sycl::range<2> *r) { return *r; }
static void before_visit(int loop, int j) {
  if (loop) return;
  INT *d = P->cc.get()->ptr;
  if (!P->found[j]) return;
  if (j == 0) for (int k = 0; k < 2; k++) NPV_CHECK(!P->found[k] || d[P->at[k]] == 0, "how: counting starts at zero");
  d[P->at[j]] = P->n[j];
}
static void after_visit(int loop, int j) {
  if (loop) return;
  INT *d = P->cc.get()->ptr, *F = P->F;
  if (P->found[j]) NPV_CHECK(d[P->at[j]] == P->n[j] + 1, "how: a particle of a known species is counted");
  if (j == 0) return;
  const int64_t N = P->total + 1;
  for (int64_t i = 0; i < N; i++) d[i] = F[i];
}
template <int NS> static void partition() {
  auto m = P = new Part();
  m->T = h_target();
  const int64_t nc = m->nc = npv::sym("ncell", 1, 1 << 20);
  m->ns = NS;
  m->counts = npv::array<int>("counts", nc, 0, 1 << 10);
  m->big = npv::sym("big", 0, 1 << 20); npv::assume(m->big < nc);
  const int64_t mx = m->mx = m->counts[m->big];
  const int64_t total = m->total = mx * nc * NS;
  m->lin = npv::array<INT>("lin", 1 << 20, -1, NS - 1);
  m->F = npv::array<INT>("members", total + 1, 0, 1 << 24);
  m->npart = npv::sym("npart", 0, 1 << 30);
  INT *es = npv::array<INT>("es", nc, 0, 1 << 30);
  npv::assume(es[0] == 0);
  int *np = npv::array<int>("np", nc, 0, 1 << 24);
  INT ***SP = npv::celldat<INT>("SP", nc, 2, np, 0, (1 << 20) - 1), ***CC = npv::celldat<INT>("CC", nc, 3, np, 0, 1 << 10);
  const int sc = (int)npv::sym("species_component", 0, 1), qc = (int)npv::sym("cell_component", 0, 2);
  npv::loop::begin(0, 0, 0);
  auto S = npv::loop::S;
  S->n = 2; S->before = before_visit; S->after = after_visit;
  npv::loop::bind(Sym<INT>("SP"), SP);
  npv::loop::bind(Sym<INT>("CC"), CC);
  S->index.npart_cell_es = es; S->index.npart_cell_es_lb = es; S->index.starting_cell = 0;
  int64_t li[2];
  for (int k = 0; k < 2; k++) {
    const int64_t c = m->c[k] = npv::sym(k ? "c1" : "c0", 0, 1 << 20), l = m->l[k] = npv::sym(k ? "l1" : "l0", 0, 1 << 24), ll = npv::sym(k ? "ll1" : "ll0", 0, 1 << 24);
    npv::assume(c < nc); npv::assume(l < np[c]);
    S->at[k][0] = c; S->at[k][1] = l; S->at[k][2] = ll;
    const int64_t s = m->s[k] = m->lin[SP[c][sc][l]], q = m->q[k] = CC[c][qc][l];
    m->found[k] = s >= 0;
    npv::assume((q < m->counts[c]) & (m->counts[c] <= mx));
    NPV_CHECK((c + 1) * mx <= nc * mx, "the collision cells of a cell");
    const int64_t at = m->at[k] = c * mx * NS + q * NS + s;
    NPV_CHECK((s < 0) | ((0 <= at) & (at < total)), "the place of a species in a collision cell");
    m->n[k] = npv::sym(k ? "n1" : "n0", 0, 1 << 24);
    npv::assume((s < 0) | (m->n[k] + 1 <= m->F[s < 0 ? total : at]));
    li[k] = es[c] + ll;
    npv::assume(li[k] < m->npart);
  }
  npv::assume((m->c[0] != m->c[1]) | (m->l[0] != m->l[1]));
  npv::assume(li[0] != li[1]);
  const bool same = (m->c[0] == m->c[1]) & (m->q[0] == m->q[1]) & (m->s[0] == m->s[1]), both = m->found[0] & m->found[1];
  NPV_CHECK((m->c[0] >= m->c[1]) | ((m->c[0] + 1) * mx <= m->c[1] * mx), "cells one after the other");
  NPV_CHECK((m->c[1] >= m->c[0]) | ((m->c[1] + 1) * mx <= m->c[0] * mx), "cells one after the other");
  NPV_CHECK(!both || (m->at[0] == m->at[1]) == same, "a place is one species of one collision cell");
  npv::assume(!both || (m->at[0] == m->at[1]) == same);
  npv::assume(!(both & same) || m->n[0] + 1 <= m->n[1]);
  auto p = m->p.get();
  p->sycl_target = m->T;
  new ((void *)&p->sycl_target) SYCLTargetSharedPtr(m->T);
  p->cell_count = (int)nc; p->num_species = NS;
  new ((void *)&p->collision_cell_counts) std::vector<int>(nc);
  new ((void *)&p->h_map_species_id_linear_id) std::unique_ptr<BlockedBinaryTree<INT, INT>>(m->tree.get());
  new ((void *)&p->d_collision_cell_offsets) std::unique_ptr<BufferDevice<INT>>(new (m->offs.get()) BufferDevice<INT>(m->T, 32));
  new ((void *)&p->d_map_entries) std::unique_ptr<BufferDevice<int>>(new (m->map.get()) BufferDevice<int>(m->T, 32));
  new ((void *)&p->d_max_collision_cell_occupancy) std::unique_ptr<BufferDevice<INT>>(new (m->most.get()) BufferDevice<INT>(m->T, 1));
  npv::storage<std::vector<int>> counts;
  struct vec { int *b, *e, *c; };
  auto v = (vec *)(void *)counts.get();
  v->b = m->counts; v->e = v->c = m->counts + nc;
  auto *it = sycl::npv::items = new sycl::npv::items_t();
  it->all = true;
  p->construct(npv::raw(m->sub.get()), *counts.get(), Sym<INT>("SP"), sc, Sym<INT>("CC"), qc);
  NPV_CHECK(S->applied == 2 && m->scans == 1 && p->max_collision_cell_occupancy == 77, "the particles are counted and placed");
  NPV_CHECK(p->max_num_collision_cells == mx && p->particle_sub_group.get() == m->sub.get(), "the sub-group of the partition");
  auto d = p->get_device();
  for (int k = 0; k < 2; k++) {
    NPV_CHECK(p->collision_cell_counts[m->c[k]] == m->counts[m->c[k]], "the collision cells of a cell");
    if (m->found[k]) {
      NPV_CHECK(d.get_num_particles_cell_species(m->c[k], m->q[k], m->s[k]) == m->F[m->at[k]], "the particles of a species in a collision cell");
      NPV_CHECK(d.get_particle_layer(m->c[k], m->q[k], m->s[k], m->n[k]) == m->l[k], "a particle is where it was counted");
    }
  }
  NPV_REACH("end");
}
NPV_PROVE(partition_one_species, 0) { partition<1>(); }
NPV_PROVE(partition_three_species, 0) { partition<3>(); }
#endif
#ifndef NPV_VC
namespace {
int wg(gp::World &w) { return (int)w.target->parameters->get<SizeTParameter>("LOOP_LOCAL_SIZE")->value; }
// uniform stream with its end points
std::shared_ptr<RNGGenerationFunction<REAL>> stream(gp::World &w) {
  auto lr = std::make_shared<gp::Lrng>(w.lr);
  const int kind = (int)npv::sym("stream", 0, 3, 3);
  return std::make_shared<HostRNGGenerationFunction<REAL>>([lr, kind]() -> REAL {
    if (kind == 0 && lr->one_in(3)) return lr->one_in(2) ? 0.0 : 1.0;
    if (kind == 1) return 1.0 - 0x1.0p-53;
    return lr->unif();
  });
}
} // namespace
NPV_BOUNDED(collision_cells, 200, 1) {
  gp::World w(false, 10);
  w.history(1);
  const int comp = (int)npv::sym("component", 0, 1, 1);
  std::vector<INT> species;
  for (int k = (int)npv::uni(1, 4); k--;) species.push_back(npv::uni(0, 1) ? npv::uni(-3, 3) : npv::uni(-3, 3) * 1000003);
  std::set<INT> known(species.begin(), species.end());
  std::vector<INT> kn(known.begin(), known.end());
  w.A->add_particle_dat(Sym<INT>("SP"), comp + 1);
  w.A->add_particle_dat(Sym<INT>("CC"), 2 - comp);
  const int cc = 1 - comp;
  auto ccp = std::make_shared<DSMC::CollisionCellPartition>(w.target, w.ncell, species);
  auto ntc = std::make_shared<DSMC::PairSamplerNoReplacement>(w.target, w.ncell, stream(w));
  NPV_CHECK(std::set<INT>(ccp->species_ids.begin(), ccp->species_ids.end()) == known && ccp->species_ids.size() == known.size(), "every species once");
  for (int it = (int)npv::uni(1, 3); it--;) {
    w.history(1);
    std::vector<int> counts(w.ncell + npv::uni(0, 2));
    const int mx = (int)npv::uni(1, 5);
    for (auto &c : counts) c = (int)w.lr.uni(1, mx);
    auto la = std::make_shared<LocalArray<INT>>(w.target, w.ncell);
    la->set(std::vector<INT>(counts.begin(), counts.begin() + w.ncell));
    const INT s0 = npv::uni(0, 99);
    auto ls = std::make_shared<LocalArray<INT>>(w.target, (int)kn.size());
    ls->set(kn);
    const INT ns = kn.size(), stray = npv::uni(0, 1);
    particle_loop(w.A, [=](auto I, auto S, auto C, auto ID, auto L, auto K) {
      const INT h = (ID.at(0) * 2654435761u + s0) % 1013;
      S.at(comp) = stray && h % 7 == 0 ? 424242 : K.at(h % ns);
      C.at(cc) = (h / 7) % L.at(I.cell);
    }, Access::read(ParticleLoopIndex{}), Access::write(Sym<INT>("SP")), Access::write(Sym<INT>("CC")), Access::read(Sym<INT>("ID")), Access::read(la), Access::read(ls))->execute();
    auto L = gp::layers(w.A);
    const sg::Pred p = sg::draw_pred(w);
    const bool whole = npv::uni(0, 1);
    auto G = whole ? particle_sub_group(w.A) : sg::filter(w.A, p);
    auto M = whole ? sg::all(w.A) : sg::filter_ref(sg::all(w.A), p, L);
    ccp->construct(G, counts, Sym<INT>("SP"), comp, Sym<INT>("CC"), cc);
    // reference: (cell, collision cell, species) -> layers
    std::map<std::array<INT, 3>, std::set<INT>> ref;
    for (int c = 0; c < w.ncell; c++) for (INT l : M[c]) if (known.count(L[c][l].i.at("SP")[comp])) ref[{c, L[c][l].i.at("CC")[cc], L[c][l].i.at("SP")[comp]}].insert(l);
    auto dev = ccp->get_device();
    INT occ = 0;
    for (int c = 0; c < w.ncell; c++) for (int x = 0; x < counts[c]; x++) for (INT s : known) {
      INT li = -1;
      NPV_CHECK(dev.get_linear_species_index(s, &li) && li == ccp->get_linear_species_id(s) && 0 <= li && li < ns, "a species has a linear index");
      auto &r = ref[{c, x, s}];
      const INT n = dev.get_num_particles_cell_species(c, x, li);
      NPV_CHECK(n == (INT)r.size(), "a collision cell holds as many particles of the species as there are");
      std::set<INT> got;
      for (INT k = 0; k < n; k++) got.insert(dev.get_particle_layer(c, x, li, k));
      NPV_CHECK(got == r, "a collision cell lists exactly its particles, each once");
      occ = std::max(occ, n);
    }
    INT dummy;
    NPV_CHECK(!dev.get_linear_species_index(424242, &dummy), "an unknown species is not found");
    NPV_CHECK(ccp->max_collision_cell_occupancy == occ, "maximum occupancy");
    for (int q = (int)npv::uni(1, 2); q--;) {
      const INT a = kn[npv::uni(0, ns - 1)], b = kn[npv::uni(0, ns - 1)];
      std::vector<std::vector<int>> most(npv::uni(0, 3), std::vector<int>(npv::uni(0, 3), 5));
      const bool repl = npv::uni(0, 1);
      ccp->get_max_num_pairs(a, b, repl, most);
      NPV_CHECK((int)most.size() == w.ncell, "one entry per cell");
      for (int c = 0; c < w.ncell; c++) {
        NPV_CHECK((int)most[c].size() == counts[c], "one entry per collision cell");
        for (int x = 0; x < counts[c]; x++) {
          const INT na = ref[{c, x, a}].size(), nb = ref[{c, x, b}].size();
          const bool can = a == b ? na >= 2 : na && nb;
          NPV_CHECK(most[c][x] == (repl ? (can ? std::numeric_limits<int>::max() : 0) : a == b ? na / 2 : std::min(na, nb)), "maximum number of pairs");
        }
      }
      // draw pairs without replacement
      ccp->get_max_num_pairs(a, b, false, most);
      for (auto &c : most) for (auto &x : c) x = (int)w.lr.uni(w.lr.one_in(2) ? x : 0, x);
      if (npv::uni(0, 3) == 0) for (auto &c : most) c.resize(w.lr.uni(0, c.size()));
      ntc->sample(ccp, a, b, most);
      auto h = ntc->get_host_pair_list();
      auto d = ntc->get_pair_list();
      INT total = 0;
      for (int c = 0; c < w.ncell; c++) {
        const int want = std::accumulate(most[c].begin(), most[c].end(), 0);
        auto &P = h[c][0];
        NPV_CHECK((int)P.first.size() == want && (int)P.second.size() == want && h[c].size() == 1, "the requested number of pairs per cell");
        NPV_CHECK(d.d_pair_counts[c] == want && d.d_pair_counts_es[c] == total && d.h_pair_counts[c] == want, "pair counts and offsets of the device list");
        std::set<INT> ua, ub; std::vector<int> per(most[c].size() + 1, 0);
        for (int k = 0; k < want; k++) {
          const INT i = P.first[k], j = P.second[k];
          NPV_CHECK(0 <= i && i < (INT)L[c].size() && 0 <= j && j < (INT)L[c].size(), "a pair names particles of the cell");
          const INT x = L[c][i].i.at("CC")[cc];
          NPV_CHECK((x < (INT)most[c].size() && ref[{c, x, a}].count(i) && ref[{c, x, b}].count(j)), "both particles are of the named species, the sub-group and the same collision cell");
          NPV_CHECK(i != j && ua.insert(i).second && (a == b ? ua : ub).insert(j).second, "a particle is in at most one pair");
          per[x]++;
          NPV_CHECK(d.d_pair_list[c][0][k] == i && d.d_pair_list[c][1][k] == j, "device and host list agree");
        }
        for (size_t x = 0; x < most[c].size(); x++) NPV_CHECK(per[x] == most[c][x], "the requested number of pairs per collision cell");
        total += want;
      }
      NPV_CHECK(d.pair_count == total, "total number of pairs");
    }
  }
}
NPV_BOUNDED(ntc_sampler, 250, 1) {
  gp::World w(false, 10);
  w.history(1);
  auto s = std::make_shared<DSMC::PairSamplerNTC>(w.target, w.ncell, stream(w));
  for (int it = (int)npv::uni(1, 3); it--;) {
    w.history(1);
    auto L = gp::layers(w.A);
    const int how = (int)npv::sym("groups", 0, 2, 2); // whole/whole, one sub-group with itself, two disjoint sub-groups
    const INT m = npv::uni(2, 3);
    auto part = [&](INT r) { return particle_sub_group(w.A, [=](auto ID) { return ID.at(0) % m == r; }, Access::read(Sym<INT>("ID"))); };
    auto A = how == 0 ? particle_sub_group(w.A) : part(0);
    auto B = how == 2 ? part(1) : A;
    auto in = [&](INT id, INT r) { return how == 0 || id % m == r; };
    std::vector<int> cnt(w.ncell, 0);
    const int bs = wg(w);
    for (int c = 0; c < w.ncell; c++) {
      INT na = 0, nb = 0;
      for (auto &q : L[c]) { na += in(q.i["ID"][0], 0); nb += in(q.i["ID"][0], 1); }
      if ((how == 2 ? na && nb : na >= 2) && !w.lr.one_in(4)) cnt[c] = (int)w.lr.uni(0, w.lr.one_in(2) ? 5 : 3 * bs + 2);
    }
    s->sample(A, B, cnt);
    auto h = s->get_host_pair_list(w.target);
    auto d = s->get_pair_list();
    int n = 0, mw = 0;
    for (int c = 0; c < w.ncell; c++) {
      auto &[I, J, W] = h[c];
      NPV_CHECK((int)I.size() == cnt[c] && (int)J.size() == cnt[c] && (int)W.size() == cnt[c], "the requested number of pairs");
      for (int k = 0; k < cnt[c]; k++) {
        const int i = I[k], j = J[k];
        NPV_CHECK(0 <= i && i < (int)L[c].size() && 0 <= j && j < (int)L[c].size(), "a pair names particles of the cell");
        NPV_CHECK(i != j, "the particles of a pair are distinct");
        NPV_CHECK(in(L[c][i].i["ID"][0], 0) && in(L[c][j].i["ID"][0], how == 2 ? 1 : 0), "each particle is from its own group");
        mw = std::max(mw, W[k] + 1);
      }
      // waves
      for (int b0 = 0, b = 0; b0 < cnt[c]; b0 += d.block_size, b++) {
        std::set<std::pair<int, int>> use; int bw = 0;
        for (int k = b0; k < std::min(cnt[c], b0 + d.block_size); k++) {
          NPV_CHECK(W[k] >= 0 && use.insert({W[k], I[k]}).second && use.insert({W[k], J[k]}).second, "the pairs of a wave share no particle");
          bw = std::max(bw, W[k] + 1);
        }
        NPV_CHECK(d.d_wave_counts[b * w.ncell + c] == bw, "the number of waves of a block");
      }
      n += cnt[c];
    }
    NPV_CHECK(d.pair_count == n && d.max_wave_count == mw, "number of pairs and largest number of waves");
    NPV_CHECK(s->validate_pair_list(w.target), "the list is well formed");
  }
}
NPV_BOUNDED(all_to_all, 200, 1) {
  const int W = 1 << npv::uni(0, 5), n = (int)npv::sym("n", 0, 90, 90);

  std::vector<int> steps(W), seen(n * n + 1, 0);
  for (int k = 0; k < W; k++) DSMC::CellwiseAllToAll(W, k).apply(n, [&](int i, int j) {
      NPV_CHECK(0 <= i && i < n && 0 <= j && j < n, "indices in range");
      seen[i * n + j]++; if (i != j) seen[j * n + i]++; }, [&] { steps[k]++; });
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) NPV_CHECK(seen[i * n + j] == (i != j), "every pair is visited exactly once");
  for (int k = 0; k < W; k++) NPV_CHECK(steps[k] == steps[0], "all work items synchronise equally often");
}
#endif
