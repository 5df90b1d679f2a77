// C13: pair lists hold the pairs that were given; pair loops visit each once, in wave order
//@ replace: sycl::npv::cfg => npvr_cfg: the kind of the device is any
//@ assume: a barrier orders the work of a group before it and after it; the item of a contract counts the barriers it passes
//@ opts: {"smallloops": 8, "symunroll": 8}
//@ design: Proved: the pair loops' submit and its kernels (ParticlePairLoopCellwisePairList, on the kernel for CPUs and the kernel for GPUs, and ParticlePairLoopCellwisePairListBlock with the items of a group in lockstep or a group stopping at barriers) for any number of cells, any numbers of pairs per cell and wave, any local size and any work item - each pair of the given cells is handed to the kernel exactly once, with its own two particles and its own cell; pairs of cells outside the range and of the other list are not touched twice or at all; the waves of a cell come one after the other. Preconditions: a list holds its pairs at distinct places (the layout of CellwisePairListSimple and of the block lists). Bounds of the proofs: lists of one or two waves, one or two lists. Bounded: histories of push_back / set / clear on the simple list (and a harness-built block list) are compared with a reference kept beside them; whole loops with order-sensitive kernels and any number of waves are compared with the sequential definition.
#define NPV_ITEMWISE
#ifdef NPV_VC
// an argument of a pair loop that names the particle it belongs to
#include <npv.hpp>
#include <neso_particles/pair_loop/particle_pair_loop_base.hpp>
namespace NESO::Particles {
struct Who {};
struct WhoRead { INT cell, layer; };
namespace ParticleLoopImplementation {
struct WhoT {};
template <> struct KernelParameter<Access::Read<Who>> { using type = WhoRead; };
template <> struct LoopParameter<Access::Read<Who>> { using type = WhoT; };
inline WhoT create_loop_arg(ParticleLoopGlobalInfo *, sycl::handler &, Access::Read<Who *> &) { return {}; }
}
namespace ParticlePairLoopImplementation {
inline void create_kernel_arg(ParticlePairLoopIteration &, ParticleLoopImplementation::ParticleLoopIteration &it, ParticleLoopImplementation::WhoT &, WhoRead &lhs) { lhs.cell = it.cellx; lhs.layer = it.layerx; }
}
}
#endif
#include <neso_particles.hpp>
#include <npv.hpp>
#include "group.hpp"
#ifdef NPV_VC
#include "vcmesh.hpp"
struct PList : CellwisePairList {
  CellwisePairListDevice d;
  CellwisePairListDevice get_pair_list() override { return d; }
  CellwisePairListHostMap get_host_pair_list() override { return {}; }
};
// the pair loop over lists of any number of waves, any item of it
static int CPU, WAVE;
extern "C" long npvr_cfg(const char *, long v) { return v == 1 ? CPU : v; }
static bool COUNTED;
static void at_barrier() { if (COUNTED) WAVE++; }
static void new_launch(int) { WAVE++; }
struct Made { CellwisePairListDevice d; int64_t nw, total; int *wc, *wo, *cnt, ***pl; INT *es; PList *list; };
static Made make_list(int64_t nc, int64_t nw, const char *const *nm) {
  Made m;
  const int64_t n = nc * nw;
  m.nw = nw;
  m.wc = npv::array<int>(nm[0], nc, 0, 1 << 10); m.wo = npv::array<int>(nm[1], n, 0, 1 << 20);
  m.cnt = npv::array<int>(nm[2], n, 0, 1 << 20);
  m.es = npv::array<INT>(nm[3], n, 0, 1 << 30);
  INT *es = m.es;
  npv::assume(es[0] >= 0);
  m.total = npv::sym(nm[7], 1, 1 << 30);
  int *rows = npv::array<int>(nm[4], nc, 1 << 22, 1 << 22);
  m.pl = npv::celldat<int>(nm[5], nc, 2, rows, 0, 1 << 20);
  auto *l = new npv::storage<PList>();
  m.list = new (l) PList();
  auto &d = m.list->d;
  d.h_wave_count = d.d_wave_count = m.wc; d.cell_count = nc; d.d_wave_offsets = m.wo; d.d_pair_list = m.pl;
  d.d_pair_counts = d.h_pair_counts = m.cnt; d.d_pair_counts_es = es; d.max_pair_count = (int)npv::sym(nm[6], 1, 1 << 20); d.max_wave_count = nw; d.pair_count = m.total;
  return m;
}
enum Range { every, one_cell, range_of_cells };
// NW waves, NL lists of which the item belongs to list li
template <int NW, int NL = 1, Range cells = every> static void pairs_once(bool cpu) {
  CPU = cpu; WAVE = -1; COUNTED = true;
  auto T = h_target();
  const int64_t nc = npv::sym("ncell", 1, 1 << 20);
  static const char *const names[2][8] = {{"wave_count", "wave_offset", "count", "es", "rows", "pairs", "max", "total"}, {"wave_count2", "wave_offset2", "count2", "es2", "rows2", "pairs2", "max2", "total2"}};
  int *hits = npv::array<int>("hits", 1ll << 32, 0, 0), *when = npv::array<int>("when", 1ll << 32, 0, 1 << 20);
  INT *wa = npv::array<INT>("who_a", 1ll << 32, 0, 1 << 20), *wb = npv::array<INT>("who_b", 1ll << 32, 0, 1 << 20), *wca = npv::array<INT>("cell_a", 1ll << 32, 0, 1 << 20), *wcb = npv::array<INT>("cell_b", 1ll << 32, 0, 1 << 20);
  auto *G = new npv::storage<ParticleGroup>();
  auto *D = new npv::storage<Domain>();
  D->get()->mesh = vc_mesh(nc);
  G->get()->domain = npv::raw<Domain>(D->get());
  G->get()->sycl_target = T;
  auto g = npv::raw<ParticleGroup>(G->get());
  int *wave = &WAVE;
  auto kernel = [=](auto IX, auto A, auto B) { const INT x = IX.get_loop_linear_index(); hits[x]++; wa[x] = A.layer; wb[x] = B.layer; wca[x] = A.cell; wcb[x] = B.cell; when[x] = *wave; };
  using Pl = ParticlePairLoopCellwisePairList<decltype(kernel), Access::Read<ParticlePairLoopIndex>, Access::A<Access::Read<Who>>, Access::B<Access::Read<Who>>>;
  auto it = sycl::npv::items = new sycl::npv::items_t();
  it->n = 1; it->all = false; it->before = new_launch; it->barrier = at_barrier;
  const int64_t start = cells == every ? 0 : npv::sym("start", 0, 1 << 20), end = cells == every ? nc : cells == one_cell ? start + 1 : npv::sym("end", 0, 1 << 20);
  npv::assume((start < end) & (end <= nc));
  const int64_t c = npv::sym("c", 0, 1 << 20), r = npv::sym("r", 0, 1 << 10);
  npv::assume((start <= c) & (c < end));
  it->id[0][0] = c - start; it->id[0][1] = NL - 1; it->id[0][2] = r;
  std::vector<CellwisePairListAbsolute<ParticleGroup, CellwisePairList>> ls;
  int64_t before = 0;
  Made m;
  for (int q = 0; q < NL; q++) {
    if (q) before += m.total;
    m = make_list(nc, NW, names[q]);
    ls.push_back({g, g, npv::raw<CellwisePairList>(m.list)});
  }
  Pl loop("pairs", ls, kernel, Access::read(ParticlePairLoopIndex{}), Access::A(Access::read(Who{})), Access::B(Access::read(Who{})));
  const int64_t L = T->parameters->template get<SizeTParameter>("LOOP_LOCAL_SIZE")->value;
  const int64_t r2 = npv::sym("r2", 0, 1 << 10), k = npv::sym("q", 0, 1 << 20) * L + r, k2 = npv::sym("q2", 0, 1 << 20) * L + r2;
  npv::assume((r < L) & (r2 < L) & (r2 != r));
  npv::assume((k >= 0) & (k < (1 << 20)) & (k2 >= 0) & (k2 < (1 << 20)));
  const int64_t k3 = npv::sym("q3", 0, 1 << 20) * L + r;
  npv::assume((k3 >= 0) & (k3 < (1 << 20)));
  // pairs of a cell have distinct numbers
  npv::assume(m.wc[c] <= NW);
  for (int a = 0; a < NW; a++) for (int b = 0; b < a; b++)
    npv::assume((m.es[a * nc + c] + m.cnt[a * nc + c] <= m.es[b * nc + c]) | (m.es[b * nc + c] + m.cnt[b * nc + c] <= m.es[a * nc + c]));
  if (cells == every) loop.submit();
  if (cells == one_cell) loop.submit((int)start);
  if (cells == range_of_cells) loop.submit((int)start, (int)end);
  const int64_t y = npv::sym("other", 0, 1ll << 31);
  bool others = true;
  for (int w = 0; w < NW; w++) {
    const bool in = (w < m.wc[c]) & (k < m.cnt[w * nc + c]);
    const INT x = before + m.es[w * nc + c] + k;
    NPV_CHECK(!in | (hits[x] == 1), "a pair is visited once");
    NPV_CHECK(!in | ((wa[x] == m.pl[c][0][m.wo[w * nc + c] + k]) & (wb[x] == m.pl[c][1][m.wo[w * nc + c] + k])), "the kernel gets the two particles of the pair");
    NPV_CHECK(!in | ((wca[x] == c) & (wcb[x] == c)), "the kernel gets particles of the cell");
    for (int v = 0; v < w; v++) NPV_CHECK(!in | (v >= m.wc[c]) | (k3 >= m.cnt[v * nc + c]) | (when[before + m.es[v * nc + c] + k3] < when[x]), "the waves are visited one after the other");
    const bool in2 = (w < m.wc[c]) & (k2 < m.cnt[w * nc + c]);
    NPV_CHECK(!in2 | (hits[before + m.es[w * nc + c] + k2] == 0), "how: a pair of another work item is left to it");
    others = others & ((w >= m.wc[c]) | (y < before + m.es[w * nc + c]) | (y >= before + m.es[w * nc + c] + m.cnt[w * nc + c]));
  }
  NPV_CHECK(!others | (hits[y] == 0), "pairs of other cells, waves and lists are not visited");
  NPV_REACH("end");
}
NPV_PROVE(pairs_of_one_wave, 0) { pairs_once<1>(true); }
NPV_PROVE(pairs_of_one_wave_gpu, 0) { pairs_once<1>(false); }
NPV_PROVE(pairs_of_two_lists, 0) { pairs_once<1, 2>(true); }
NPV_PROVE(pairs_of_one_cell, 0) { pairs_once<1, 1, one_cell>(true); }
NPV_PROVE(pairs_of_cells, 0) { pairs_once<1, 1, range_of_cells>(true); }
NPV_PROVE(pairs_of_waves_launches, 0) { pairs_once<2>(true); }
NPV_PROVE(pairs_of_waves_barriers, 0) { pairs_once<2>(false); }
// the block pair loop: pairs of a cell in blocks of a work group, each with a wave
struct BList : CellwisePairListBlockInterface {
  CellwisePairListBlockDevice d;
  CellwisePairListBlockDevice get_pair_list() override { return d; }
};
static int KEPT;
static void new_item(int) { WAVE = KEPT; }
template <int NW, int NL = 1> static void blocks_once(bool cpu, bool ordered = false) {
  CPU = cpu; WAVE = KEPT = 0; COUNTED = ordered;
  auto T = h_target();
  const int64_t nc = npv::sym("ncell", 1, 1 << 10);
  const int64_t L = T->parameters->template get<SizeTParameter>("LOOP_LOCAL_SIZE")->value;
  int *hits = npv::array<int>("hits", 1ll << 32, 0, 0), *when = npv::array<int>("when", 1ll << 32, 0, 1 << 20);
  INT *wa = npv::array<INT>("who_a", 1ll << 32, 0, 1 << 20), *wb = npv::array<INT>("who_b", 1ll << 32, 0, 1 << 20), *wca = npv::array<INT>("cell_a", 1ll << 32, 0, 1 << 20), *wcb = npv::array<INT>("cell_b", 1ll << 32, 0, 1 << 20);
  auto *G = new npv::storage<ParticleGroup>();
  auto *D = new npv::storage<Domain>();
  D->get()->mesh = vc_mesh(nc);
  G->get()->domain = npv::raw<Domain>(D->get());
  G->get()->sycl_target = T;
  auto g = npv::raw<ParticleGroup>(G->get());
  int *wave = &WAVE;
  auto kernel = [=](auto IX, auto A, auto B) { const INT x = IX.get_loop_linear_index(); hits[x]++; wa[x] = A.layer; wb[x] = B.layer; wca[x] = A.cell; wcb[x] = B.cell; when[x] = *wave; };
  using Pl = ParticlePairLoopCellwisePairListBlock<decltype(kernel), Access::Read<ParticlePairLoopIndex>, Access::A<Access::Read<Who>>, Access::B<Access::Read<Who>>>;
  auto it = sycl::npv::items = new sycl::npv::items_t();
  it->n = ordered ? 2 : 1; it->all = false; it->each = new_item; it->barrier = at_barrier;
  const int64_t c = npv::sym("c", 0, 1 << 20), r = npv::sym("r", 0, 1 << 10), r2 = npv::sym("r2", 0, 1 << 10);
  npv::assume(c < nc);
  it->id[0][0] = c; it->id[0][1] = NL - 1; it->id[0][2] = r;
  it->id[1][0] = c; it->id[1][1] = NL - 1; it->id[1][2] = r2;
  static const char *const names[2][5] = {{"total", "wave_counts", "counts", "es", "pairs"}, {"total2", "wave_counts2", "counts2", "es2", "pairs2"}};
  std::vector<CellwisePairListAbsolute<ParticleGroup, CellwisePairListBlockInterface>> ls;
  int64_t before = 0, total = 0;
  int *cnt = nullptr, *wc = nullptr, *pl = nullptr; INT *es = nullptr;
  for (int q = 0; q < NL; q++) {
    before += total;
    total = npv::sym(names[q][0], 1, 1 << 28);
    wc = npv::array<int>(names[q][1], nc << 20, 0, NW); cnt = npv::array<int>(names[q][2], nc, 0, 1 << 20); es = npv::array<INT>(names[q][3], nc, 0, 1 << 28);
    pl = npv::array_where<int>(names[q][4], 3 * total, 0, 1 << 20, [=](int64_t i, int64_t v) { return (i < 2 * total) | (v < NW); });
    auto *l = new npv::storage<BList>();
    auto &d = (new (l) BList())->d;
    d.pair_count = total; d.block_size = L; d.cell_count = nc; d.max_wave_count = NW;
    d.d_wave_counts = wc; d.d_pair_counts = cnt; d.d_pair_counts_es = es; d.d_pair_list = pl;
    ls.push_back({g, g, npv::raw<CellwisePairListBlockInterface>(reinterpret_cast<BList *>(l))});
  }
  npv::assume(es[c] + cnt[c] <= total);
  Pl loop("pairs", ls, kernel, Access::read(ParticlePairLoopIndex{}), Access::A(Access::read(Who{})), Access::B(Access::read(Who{})));
  const int64_t q = npv::sym("q", 0, 1 << 20), k = q * L + r, q2 = npv::sym("q2", 0, 1 << 20), k2 = q2 * L + r2;
  npv::assume((r < L) & (r2 < L) & (r2 != r));
  npv::assume((k >= 0) & (k < (1 << 20)) & (k2 >= 0) & (k2 < (1 << 20)));
  npv::assume((k < cnt[c]) & (k2 < cnt[c]));
  const int64_t p0 = es[c] + k, p1 = es[c] + k2;
  const int w0 = pl[2 * total + p0], w1 = pl[2 * total + p1];
  npv::assume((w0 < wc[q * nc + c]) & (w1 < wc[q2 * nc + c]));
  loop.submit();
  const INT x = before + p0, x2 = before + p1;
  if (ordered) {
    npv::assume((q == q2) & (w0 < w1));
    NPV_CHECK(when[x] < when[x2], "the waves of a block are visited one after the other");
    return;
  }
  NPV_CHECK(hits[x] == 1, "a pair is visited once");
  NPV_CHECK(wa[x] == pl[p0], "the kernel gets the first particle of the pair");
  NPV_CHECK(wb[x] == pl[total + p0], "the kernel gets the second particle of the pair");
  NPV_CHECK((wca[x] == c) & (wcb[x] == c), "the kernel gets particles of the cell");
  const int64_t y = npv::sym("other", 0, 1ll << 31);
  NPV_CHECK(((y >= before + es[c]) & (y < before + es[c] + cnt[c])) | (hits[y] == 0), "pairs of other cells and lists are not visited");
  NPV_REACH("end");
}
NPV_PROVE(blocks_lockstep, 0) { blocks_once<2>(true); }
NPV_PROVE(blocks_lockstep_order, 0) { blocks_once<2>(true, true); }
NPV_PROVE(blocks_lockstep_two_lists, 0) { blocks_once<1, 2>(true); }
NPV_PROVE(blocks_barriers, 0) { blocks_once<2>(false); }
#endif
#ifndef NPV_VC
namespace {
using Waves = std::map<int, std::vector<std::vector<std::pair<int, int>>>>; // cell -> wave -> pairs
using List = std::shared_ptr<CellwisePairListSimple>;
void check_list(List l, const Waves &want, int nc) {
  auto h = l->get_host_pair_list();
  int64_t n = 0, mx = 0;
  for (int c = 0; c < nc; c++) {
    std::vector<std::pair<int, int>> got;
    for (auto &w : h[c]) for (size_t k = 0; k < w.second.first.size(); k++) got.push_back({w.second.first[k], w.second.second.at(k)});
    std::vector<std::pair<int, int>> ref;
    size_t wi = 0;
    if (want.count(c)) for (auto &w : want.at(c)) {
      for (auto &p : w) ref.push_back(p);
      if (w.size()) {
        NPV_CHECK(h[c].count((int)wi) && h[c][(int)wi].first.size() == w.size(), "each wave of the host list holds the pairs of that wave");
      }
      wi++; n += w.size(); mx = std::max<int64_t>(mx, w.size());
    }
    NPV_CHECK(got == ref, "the host list holds exactly the pairs that were given, in order");
  }
  auto d = l->get_pair_list();
  NPV_CHECK(d.cell_count == nc, "the device list describes every cell");
  NPV_CHECK(n == 0 || d.pair_count == n, "the device list's pair count is the number of pairs");
  if (!n) return;
  // device view through its own accessors
  std::set<INT> lin;
  for (int c = 0; c < nc; c++) {
    const int nw = d.get_num_waves(c);
    int wi = 0;
    const int ref_w = want.count(c) ? (int)want.at(c).size() : 0;
    NPV_CHECK(nw >= ref_w, "the device list holds every wave");
    for (int w = 0; w < nw; w++) {
      const int np = d.get_num_pairs(w, c);
      const int rp = w < ref_w ? (int)want.at(c)[w].size() : 0;
      NPV_CHECK(np == rp, "the device list's wave sizes are those of the list");
      for (int k = 0; k < np; k++) {
        NPV_CHECK(d.get_particle_index_i(w, c, k) == want.at(c)[w][k].first && d.get_particle_index_j(w, c, k) == want.at(c)[w][k].second, "the device list holds exactly the pairs of each wave");
        const INT x = d.get_pair_linear_index(w, c, k);
        NPV_CHECK(x >= 0 && x < n && lin.insert(x).second, "pairs are numbered from zero without repeats");
      }
      wi++;
    }
  }
}
// disjoint pairs per cell for layers counts a (and b when two groups)
void random_matching(gp::Lrng &lr, int nc, const std::vector<INT> &na, std::vector<int> &c, std::vector<int> &i, std::vector<int> &j, std::map<int, std::set<int>> &used) {
  std::vector<std::tuple<int, int, int>> v;
  for (int x = 0; x < nc; x++) {
    std::vector<int> p;
    for (int k = 0; k < na[x]; k++) if (!used[x].count(k)) p.push_back(k);
    std::shuffle(p.begin(), p.end(), lr.g);
    int np = (int)lr.uni(0, p.size() / 2);
    if (lr.uni(0, 3) == 0) np = 0;
    for (int k = 0; k < np; k++) { v.push_back({x, p[2 * k], p[2 * k + 1]}); used[x].insert(p[2 * k]); used[x].insert(p[2 * k + 1]); }
  }
  std::shuffle(v.begin(), v.end(), lr.g);
  for (auto &t : v) { c.push_back(std::get<0>(t)); i.push_back(std::get<1>(t)); j.push_back(std::get<2>(t)); }
}
std::vector<INT> occ(ParticleGroupSharedPtr A) { std::vector<INT> r; for (int c = 0; c < A->domain->mesh->get_cell_count(); c++) r.push_back(A->get_npart_cell(c)); return r; }
// a list reached by a history of operations together with its reference
struct Sim {
  List l; Waves want; bool waves = false; std::map<int, std::set<int>> used;
  Sim(gp::World &w, int steps, bool allow_set) : l(std::make_shared<CellwisePairListSimple>(w.target, w.ncell)) {
    auto na = occ(w.A);
    for (int s = 0; s < steps; s++) {
      const int op = (int)w.lr.uni(0, 3);
      if (op == 0 || waves) { l->clear(); want.clear(); used.clear(); waves = false; npv::note("op", "clear"); }
      if (op == 3 && allow_set) {
        auto h = std::make_shared<CellwisePairListHost>(w.ncell);
        l->clear(); want.clear();
        const int n = (int)w.lr.uni(0, 3) ? (int)w.lr.uni(1, 60) : 0;
        std::map<std::pair<int, int>, int> next;
        if (w.lr.uni(0, 1)) { for (int c = 0; c < w.ncell; c++) if (na[c] > 1) h->push_back(c, 0, 1); h->clear(); }
        for (int k = 0; k < n; k++) {
          const int c = (int)w.lr.uni(0, w.ncell - 1);
          if (na[c] < 2) continue;
          const int i = (int)w.lr.uni(0, na[c] - 1);
          int j = (int)w.lr.uni(0, na[c] - 2); if (j >= i) j++;
          h->push_back(c, i, j);
          const int wv = std::max(next[{c, i}], next[{c, j}]);
          if ((int)want[c].size() <= wv) want[c].resize(wv + 1);
          want[c][wv].push_back({std::min(i, j), std::max(i, j)});
          next[{c, i}] = next[{c, j}] = wv + 1;
        }
        for (auto &cw : h->get()) for (auto &wv : cw.second) {
          std::set<int> s;
          for (size_t k = 0; k < wv.second.first.size(); k++) NPV_CHECK(s.insert(wv.second.first[k]).second && s.insert(wv.second.second.at(k)).second, "no particle appears twice in a wave");
        }
        l->set(h);
        waves = true; npv::note("op", "set " + std::to_string(n));
      } else {
        std::vector<int> c, i, j;
        random_matching(w.lr, w.ncell, na, c, i, j, used);
        l->push_back(c, i, j);
        for (size_t k = 0; k < c.size(); k++) { if (want[c[k]].empty()) want[c[k]].resize(1); want[c[k]][0].push_back({i[k], j[k]}); }
        npv::note("op", "push " + std::to_string(c.size()));
      }
      check_list(l, want, w.ncell);
    }
  }
};
// linear index -> (cell, i, j) as the device list numbers its pairs, wave by wave
INT total(const Waves &w) { INT n = 0; for (auto &c : w) for (auto &v : c.second) n += v.size(); return n; }
} // namespace
NPV_BOUNDED(list_histories, 200, 1) {
  gp::World w;
  w.history(1);
  Sim s(w, (int)npv::uni(1, 5), true);
}
NPV_BOUNDED(loop_in_wave_order, 240, 1) {
  gp::World w;
  w.history(2);
  Sim s(w, (int)npv::uni(1, 4), true);
  // an order-sensitive kernel that tells the two sides apart
  auto L = gp::layers(w.A);
  const int64_t style = npv::sym("range", 0, 2, 2);
  int c0 = 0, c1 = w.ncell;
  if (style == 1) { c0 = (int)w.lr.uni(0, w.ncell - 1); c1 = c0 + 1; }
  if (style == 2) { c0 = (int)w.lr.uni(0, w.ncell - 1); c1 = (int)w.lr.uni(c0, w.ncell); }
  auto want = gp::state(w.A);
  for (auto &cw : s.want) if (cw.first >= c0 && cw.first < c1) for (auto &wv : cw.second) for (auto &p : wv) {
    auto &a = want[cw.first].at(L[cw.first][p.first].i["ID"][0]), &b = want[cw.first].at(L[cw.first][p.second].i["ID"][0]);
    a.i["Q"][0] = (3 * a.i["Q"][0] + b.i["Q"][1] + 1) % 10007;
    b.i["Q"][1] = (5 * b.i["Q"][1] + a.i["Q"][0] + b.i["ID"][0] + 2) % 10007;
    a.r["V"][0] = 0.5 * a.r["V"][0] + b.r["V"][1]; b.r["V"][2] += a.i["ID"][0];
  }
  auto loop = particle_pair_loop("c13", {CellwisePairListAbsolute<ParticleGroup, CellwisePairList>(w.A, w.A, s.l)},
    [=](auto QA, auto QB, auto VA, auto VB, auto IA, auto IB) {
      QA.at(0) = (3 * QA.at(0) + QB.at(1) + 1) % 10007;
      QB.at(1) = (5 * QB.at(1) + QA.at(0) + IB.at(0) + 2) % 10007;
      VA.at(0) = 0.5 * VA.at(0) + VB.at(1); VB.at(2) += IA.at(0);
    }, Access::A(Access::write(Sym<INT>("Q"))), Access::B(Access::write(Sym<INT>("Q"))), Access::A(Access::write(Sym<REAL>("V"))), Access::B(Access::write(Sym<REAL>("V"))),
    Access::A(Access::read(Sym<INT>("ID"))), Access::B(Access::read(Sym<INT>("ID"))));
  if (style == 0) loop->execute(); else if (style == 1) loop->execute(c0); else loop->execute(c0, c1);
  NPV_CHECK(gp::same(gp::state(w.A), want), "the kernel is applied once to every pair of the cells looped over, wave by wave, with the right particle on each side");
  gp::consistent(w.A);
}
NPV_BOUNDED(loop_lists_and_groups, 240, 1) {
  gp::World w;
  w.history(1);
  auto B = npv::sym("two groups", 0, 1, 1) ? w.make() : w.A;
  if (B != w.A) B->add_particles_local(w.pset(w.draw((int)w.lr.uni(0, 60)), w.spec));
  auto LA = gp::layers(w.A), LB = gp::layers(B);
  auto na = occ(w.A), nb = occ(B);
  const int nl = (int)npv::sym("lists", 1, 3, 3);
  std::vector<CellwisePairListAbsolute<ParticleGroup, CellwisePairList>> ls;
  std::map<std::array<INT, 3>, int> want, seen; // list, ids
  std::vector<INT> counts;
  for (int k = 0; k < nl; k++) {
    auto l = std::make_shared<CellwisePairListSimple>(w.target, w.ncell);
    std::vector<int> c, i, j;
    for (int x = 0; x < w.ncell; x++) for (int q = 0, m = (int)w.lr.uni(0, std::min(na[x], nb[x])); q < m; q++) {
      const int a = (int)w.lr.uni(0, na[x] - 1), b = (int)w.lr.uni(0, nb[x] - 1);
      if (B == w.A && a == b) continue;
      c.push_back(x); i.push_back(a); j.push_back(b); // the kernel only reads particles
    }
    const int how = (int)w.lr.uni(0, 4);
    if (how == 0) c.clear(), i.clear(), j.clear();
    if (how > 1 || c.size()) l->push_back(c, i, j);
    for (size_t q = 0; q < c.size(); q++) want[{(INT)k, LA[c[q]][i[q]].i["ID"][0], LB[c[q]][j[q]].i["ID"][0]}]++;
    counts.push_back(c.size());
    ls.push_back(CellwisePairListAbsolute<ParticleGroup, CellwisePairList>(w.A, B, l));
    npv::note("pairs", std::to_string(c.size()));
  }
  INT n = 0; for (INT x : counts) n += x;
  auto la = std::make_shared<LocalArray<INT>>(w.target, 5 * (n + 1) + 1);
  auto lg = std::make_shared<LocalArray<INT>>(w.target, 2);
  la->fill(-1); lg->fill(0);
  const INT guard = n;
  auto loop = particle_pair_loop(ls, [=](auto I, auto a, auto g, auto IA, auto IB) {
    const INT p = I.get_loop_linear_index();
    if (p < 0 || p >= guard) { g.fetch_add(0, 1); return; }
    g.fetch_add(1, 1);
    a.fetch_add(5 * p, 2); // 1 if visited once
    a.fetch_add(5 * p + 1, 1 + IA.at(0)); a.fetch_add(5 * p + 2, 1 + IB.at(0));
  }, Access::read(ParticlePairLoopIndex{}), Access::add(la), Access::add(lg), Access::A(Access::read(Sym<INT>("ID"))), Access::B(Access::read(Sym<INT>("ID"))));
  loop->execute();
  auto g = lg->get(), r = la->get();
  NPV_CHECK(g[0] == 0, "every pair's index is in [0, number of pairs)");
  NPV_CHECK(g[1] == n, "the kernel is applied once per pair of every list");
  for (INT p = 0; p < n; p++) {
    NPV_CHECK(r[5 * p] == 1, "pair indices are unique");
    INT k = 0, q = p; while (q >= counts[k]) q -= counts[k++];
    seen[{k, r[5 * p + 1], r[5 * p + 2]}]++;
  }
  NPV_CHECK(seen == want, "each list's pairs are visited with the right particles, numbered list by list");
  loop->execute();
  NPV_CHECK(lg->get()[1] == 2 * n, "a loop can be executed again");
}

namespace {
// a block pair list as described by CellwisePairListBlockDevice, in host-visible memory
struct BlockList : CellwisePairListBlockInterface {
  int bs, nc; std::vector<std::vector<std::array<int, 3>>> pairs; // cell -> (i, j, wave)
  std::vector<int> counts, waves, flat; std::vector<INT> es; int extra = 0;
  CellwisePairListBlockDevice get_pair_list() override {
    counts.assign(nc, 0); es.assign(nc, 0);
    size_t nb = 1; INT n = 0; int mw = 0;
    for (int c = 0; c < nc; c++) { counts[c] = (int)pairs[c].size(); es[c] = n; n += counts[c]; nb = std::max(nb, (pairs[c].size() + bs - 1) / bs); }
    flat.assign(3 * n + 1, 0); waves.assign(nb * nc, 0);
    for (int c = 0; c < nc; c++) for (size_t k = 0; k < pairs[c].size(); k++) {
      for (int x = 0; x < 3; x++) flat[x * n + es[c] + k] = pairs[c][k][x];
      int &wv = waves[(k / bs) * nc + c]; wv = std::max(wv, pairs[c][k][2] + 1); mw = std::max(mw, wv);
    }
    return {n, bs, nc, mw, waves.data(), counts.data(), es.data(), flat.data()};
  }
  // a pair goes into the first wave after its particles' last wave in the block
  void fill(gp::Lrng &lr, const std::vector<INT> &na, const std::vector<INT> &nb, bool same) {
    pairs.assign(nc, {});
    for (int c = 0; c < nc; c++) {
      if (na[c] < 1 || nb[c] < 1 || lr.uni(0, 3) == 0) continue;
      const int n = (int)lr.uni(0, 3 * bs + 2);
      std::map<std::pair<int, int>, int> next;
      for (int k = 0; k < n; k++) {
        const int slot = (int)pairs[c].size();
        if (slot % bs == 0) next.clear();
        const int i = (int)lr.uni(0, na[c] - 1), j = (int)lr.uni(0, nb[c] - 1);
        if (i == j) continue;
        const int s2 = same ? 0 : 1, wv = std::max(next[{0, i}], next[{s2, j}]);
        if (wv >= bs) continue;
        pairs[c].push_back({i, j, wv});
        next[{0, i}] = next[{s2, j}] = wv + 1;
      }
    }
  }
};
int local_size(gp::World &w) { return (int)w.target->parameters->get<SizeTParameter>("LOOP_LOCAL_SIZE")->value; }
} // namespace
NPV_BOUNDED(block_loop, 200, 1) {
  gp::World w(false, 12);
  w.history(2);
  auto B = npv::sym("two groups", 0, 1, 1) ? w.make() : w.A;
  if (B != w.A) B->add_particles_local(w.pset(w.draw((int)w.lr.uni(0, 60)), w.spec));
  const int nl = (int)npv::sym("lists", 1, 2, 2);
  std::vector<CellwisePairListAbsolute<ParticleGroup, CellwisePairListBlockInterface>> ls;
  auto LA = gp::layers(w.A), LB = gp::layers(B);
  auto wa = gp::state(w.A), wb = gp::state(B);
  std::map<INT, std::array<INT, 3>> rec; INT base = 0;
  for (int k = 0; k < nl; k++) {
    auto l = std::make_shared<BlockList>();
    l->bs = local_size(w); l->nc = w.ncell;
    l->fill(w.lr, occ(w.A), occ(B), B == w.A);
    if (nl > 1 && npv::rng()() % 3 == 0) l->pairs.assign(w.ncell, {});
    ls.push_back(CellwisePairListAbsolute<ParticleGroup, CellwisePairListBlockInterface>(w.A, B, l));
    for (int c = 0; c < w.ncell; c++) {
      const size_t m = l->pairs[c].size();
      for (size_t q = 0; q < m; q++) rec[base + q] = {c, LA[c][l->pairs[c][q][0]].i["ID"][0], LB[c][l->pairs[c][q][1]].i["ID"][0]};
      base += m;
      // sequential definition: block by block, wave by wave (lists other than the first only read)
      if (k == 0) for (size_t b0 = 0; b0 < m; b0 += l->bs) for (int wv = 0; wv < l->bs; wv++) for (size_t q = b0; q < std::min(m, b0 + l->bs); q++) if (l->pairs[c][q][2] == wv) {
        auto &a = wa[c].at(LA[c][l->pairs[c][q][0]].i["ID"][0]);
        auto &b = (B == w.A ? wa : wb)[c].at(LB[c][l->pairs[c][q][1]].i["ID"][0]);
        a.i["Q"][0] = (3 * a.i["Q"][0] + b.i["Q"][1] + 1) % 10007;
        b.i["Q"][1] = (5 * b.i["Q"][1] + a.i["Q"][0] + b.i["ID"][0] + 2) % 10007;
      }
    }
    npv::note("pairs", std::to_string(base));
  }
  const INT n = base, first = [&] { INT f = 0; auto l = std::dynamic_pointer_cast<BlockList>(ls[0].pair_list); for (auto &c : l->pairs) f += c.size(); return f; }();
  auto la = std::make_shared<LocalArray<INT>>(w.target, 3 * (n + 1));
  la->fill(0);
  auto lg = std::make_shared<LocalArray<INT>>(w.target, 1);
  lg->fill(0);
  particle_pair_loop(ls, [=](auto I, auto a, auto g, auto QA, auto QB, auto IA, auto IB) {
    const INT p = I.get_loop_linear_index();
    if (p < 0 || p >= n) { g.fetch_add(0, 1); return; }
    a.fetch_add(3 * p, 1); a.fetch_add(3 * p + 1, IA.at(0)); a.fetch_add(3 * p + 2, IB.at(0));
    if (p < first) {
      QA.at(0) = (3 * QA.at(0) + QB.at(1) + 1) % 10007;
      QB.at(1) = (5 * QB.at(1) + QA.at(0) + IB.at(0) + 2) % 10007;
    }
  }, Access::read(ParticlePairLoopIndex{}), Access::add(la), Access::add(lg), Access::A(Access::write(Sym<INT>("Q"))), Access::B(Access::write(Sym<INT>("Q"))),
     Access::A(Access::read(Sym<INT>("ID"))), Access::B(Access::read(Sym<INT>("ID"))))->execute();
  auto r = la->get();
  NPV_CHECK(lg->get()[0] == 0, "every pair's index is in [0, number of pairs)");
  for (INT p = 0; p < n; p++) NPV_CHECK(r[3 * p] == 1 && r[3 * p + 1] == rec[p][1] && r[3 * p + 2] == rec[p][2], "every pair is visited once with its own particles on the right sides");
  NPV_CHECK(gp::same(gp::state(w.A), wa), "blocks of pairs are applied wave by wave (side A)");
  if (B != w.A) NPV_CHECK(gp::same(gp::state(B), wb), "blocks of pairs are applied wave by wave (side B)");
}
NPV_BOUNDED(block_validate, 200, 1) {
  gp::World w(false, 12);
  BlockList l;
  l.bs = local_size(w); l.nc = w.ncell;
  std::vector<INT> na(w.ncell);
  for (auto &x : na) x = w.lr.uni(0, 12);
  l.fill(w.lr, na, na, true);
  // waves renumbered so that none of a block is empty at the top
  NPV_CHECK(l.validate_pair_list(w.target), "a well formed block pair list is accepted");
  auto h = l.get_host_pair_list(w.target);
  for (int c = 0; c < w.ncell; c++) {
    NPV_CHECK(std::get<0>(h[c]).size() == l.pairs[c].size() && std::get<1>(h[c]).size() == l.pairs[c].size() && std::get<2>(h[c]).size() == l.pairs[c].size(), "the host copy has every pair of the cell");
    for (size_t k = 0; k < l.pairs[c].size(); k++) NPV_CHECK(std::get<0>(h[c])[k] == l.pairs[c][k][0] && std::get<1>(h[c])[k] == l.pairs[c][k][1] && std::get<2>(h[c])[k] == l.pairs[c][k][2], "the host copy is the device list");
  }
  // occupancy
  std::vector<int> occ, want(l.bs + 1, 0);
  l.get_wave_occupancy_counts(w.target, occ);
  for (int c = 0; c < w.ncell; c++) for (size_t b0 = 0; b0 < l.pairs[c].size(); b0 += l.bs) {
    std::map<int, int> per; int mw = 0;
    for (size_t q = b0; q < std::min(l.pairs[c].size(), b0 + l.bs); q++) { per[l.pairs[c][q][2]]++; mw = std::max(mw, l.pairs[c][q][2] + 1); }
    for (int x = 0; x < mw; x++) want[per[x]]++;
  }
  NPV_CHECK(occ == want, "occupancy counts are the numbers of waves with that many pairs");
  int64_t nb = 0, np = 0; for (int x = 0; x <= l.bs; x++) { nb += want[x]; np += (int64_t)x * want[x]; }
  NPV_CHECK(npv::near(get_mean_wave_occupancy(occ), nb ? (double)np / (l.bs * nb) : 0.0), "the mean occupancy is the proportion of used slots");
  // break it in one place
  std::vector<std::pair<int, int>> all;
  for (int c = 0; c < w.ncell; c++) for (size_t k = 0; k < l.pairs[c].size(); k++) all.push_back({c, (int)k});
  if (all.empty()) return;
  auto [c, k] = all[w.lr.uni(0, all.size() - 1)];
  const int64_t how = npv::sym("break", 0, 3, 3);
  auto &P = l.pairs[c][k];
  if (how == 0) P[0] = P[1];
  else if (how == 1) P[2] = -1;
  else {
    const int b0 = k / l.bs * l.bs;
    std::vector<int> cand;
    for (int q = b0; q < std::min((int)l.pairs[c].size(), b0 + l.bs); q++) if (q != k && l.pairs[c][q][2] == P[2]) cand.push_back(q);
    if (cand.empty()) return;
    auto &R = l.pairs[c][cand[w.lr.uni(0, cand.size() - 1)]];
    const int a = (int)w.lr.uni(0, 1), b = (int)w.lr.uni(0, 1);
    if (P[1 - a] == R[b]) return;
    P[a] = R[b];
  }
  NPV_CHECK(!l.validate_pair_list(w.target), "a particle twice in a wave of a block (or a bad wave) is reported");
}
#endif
