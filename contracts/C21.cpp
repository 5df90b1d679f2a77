// C21: random number blocks: every sample handed out at most once, each particle has its own, exhaustion is reported
//@ replace: get_loop_iteration_set_size => npvr_set_size: get_loop_iteration_set_size is the number of particles the loop visits
//@ replace: BlockKernelRNGBase<double>::allocate => npvr_allocate: allocate provides room for the samples and keeps the samples there
//@ replace: BlockKernelRNGBase<double>::get_buffer_ptr => npvr_buffer: get_buffer_ptr is the block of the target
//@ replace: HostAtomicBlockKernelRNG<double>::get_counter_ptr => npvr_counter: get_counter_ptr is the pair of counters of the target
//@ replace: HostAtomicBlockKernelRNG<double>::create_counter => npvr_create_counter: create_counter makes the counters (zero when new)
//@ replace: HostAtomicBlockKernelRNG<double>::get_num_values => npvr_values: get_num_values is the number of samples that have been drawn
//@ replace: HostAtomicBlockKernelRNG<double>::set_num_values => npvr_set_values: set_num_values sets the number of samples that have been drawn
//@ assume: the number of samples of one loop is less than 2^31 (asserted by the atomic block; the per-particle block computes its index in int)
//@ design: Bounded. The host stream is a counter, so that the number of times each draw is handed out can be counted exactly across a history of loops over groups, cells, cell ranges, sub-groups and pairs.
#include <neso_particles.hpp>
#include <npv.hpp>
#include "common.hpp"
#ifdef NPV_VC
// The samples drawn are [lo[k], hi[k]) of the block, in the order of the calls.
struct Draws : RNGGenerationFunction<REAL> {
  REAL *base; int64_t lo[4], hi[4]; int n, bs;
  void draw_random_samples(SYCLTargetSharedPtr, REAL *p, const std::size_t k, const int block_size) override {
    lo[n] = p - base; hi[n] = lo[n] + (int64_t)k; n++; bs = block_size;
  }
};
struct Block { int64_t room, set, values; int *counter; REAL *base; };
static Block *B;
extern "C" size_t npvr_set_size(void *) { return (size_t)B->set; }
extern "C" REAL *npvr_allocate(void *, void *, size_t n, bool *re) { B->room = (int64_t)n; if (re) *re = false; return B->base; }
extern "C" REAL *npvr_buffer(void *, void *) { return B->base; }
extern "C" int *npvr_counter(void *, void *) { return B->counter; }
extern "C" void npvr_create_counter(void *, void *) {}
extern "C" int npvr_values(void *, void *) { return (int)B->values; }
extern "C" void npvr_set_values(void *, void *, int v) { B->values = v; }
template <typename R> static R *generator(npv::storage<R> &s, Draws *d, int64_t nc, int64_t bs) {
  auto r = s.get();
  r->generation_function = npv::raw((RNGGenerationFunction<REAL> *)d);
  r->num_components = (int)nc; r->block_size = (int)bs;
  return r;
}
static Access::LoopIndex::Read index(int64_t c, int64_t l, int64_t s, const INT *es, const INT *lb) {
  ParticleLoopImplementation::ParticleLoopIndexKernelT K; K.starting_cell = (int)s; K.loop_type_int = 1; K.npart_cell_es = es; K.npart_cell_es_lb = lb;
  ParticleLoopImplementation::ParticleLoopIteration it; it.local_sycl_index = 0; it.local_sycl_range = 1; it.cellx = (int)c; it.layerx = (int)l; it.loop_layerx = (int)l;
  Access::LoopIndex::Read I; ParticleLoopImplementation::create_kernel_arg(it, K, I);
  return I;
}
// A loop over any number of particles draws exactly one sample for each of them and each component, and
// particle i reads for component k the sample k * n + i of the block: no two read the same sample.
NPV_PROVE(per_particle_block, 0) {
  B = new Block();
  const int64_t n = B->set = npv::sym("n", 0, 1 << 26), nc = npv::sym("ncomp", 1, 16), bs = npv::sym("bs", 1, 1 << 20);
  B->base = npv::array<REAL>("block", n * nc);
  auto *d = new Draws(); d->base = B->base;
  npv::storage<HostPerParticleBlockRNG<REAL>> s;
  auto r = generator(s, d, nc, bs);
  npv::storage<ParticleGroup> g;
  ParticleLoopImplementation::ParticleLoopGlobalInfo gi; gi.particle_group = g.get();
  g.get()->sycl_target = h_target();
  r->HostPerParticleBlockRNG<REAL>::impl_pre_loop_read(&gi);
  NPV_CHECK(d->n == 1 && d->lo[0] == 0 && d->hi[0] == n * nc && B->room == n * nc && d->bs == bs, "one sample is drawn for each particle and component");
  auto a = r->HostPerParticleBlockRNG<REAL>::impl_get_const(&gi);
  r->HostPerParticleBlockRNG<REAL>::impl_post_loop_read(&gi);
  NPV_CHECK(r->internal_state == 0, "the generator can be used by the next loop");
  INT *lb = npv::array<INT>("lb", 4, 0, 1 << 26);
  const int64_t l0 = npv::sym("l0", 0, 1 << 26), l1 = npv::sym("l1", 0, 1 << 26), k0 = npv::sym("k0", 0, 15), k1 = npv::sym("k1", 0, 15);
  npv::assume(k0 < nc); npv::assume(k1 < nc);
  const int64_t i0 = lb[0] + l0 - lb[2], i1 = lb[1] + l1 - lb[2];
  npv::assume(i0 >= 0); npv::assume(i0 < n); npv::assume(i1 >= 0); npv::assume(i1 < n);
  bool ok = true;
  const REAL *x = &a.data.at(index(0, l0, 2, nullptr, lb), (int)k0, &ok), *y = &a.data.at(index(1, l1, 2, nullptr, lb), (int)k1, &ok);
  NPV_CHECK(x - B->base == k0 * n + i0 && k0 * n + i0 < n * nc, "a particle reads one of the samples drawn for the loop");
  npv::assume(i0 != i1);
  NPV_CHECK(x != y, "two particles never read the same sample");
  NPV_REACH("end");
}
// The atomic block: the samples below the count of the last loop and those which have never been drawn are
// drawn before the loop, so no sample is handed out in two loops.
NPV_PROVE(atomic_block_refill, 0) {
  B = new Block();
  const int64_t n = B->set = npv::sym("n", 0, 1 << 20), nc = npv::sym("ncomp", 1, 16), v = B->values = npv::sym("values", 0, 1 << 28), used = npv::sym("used", 0, 1 << 28);
  const int64_t over = npv::sym("override", -1, 1 << 28), bs = npv::sym("bs", 1, 1 << 20), i = npv::sym("i", 0, 1 << 28);
  B->base = npv::array<REAL>("block", 1 << 29);
  B->counter = new int[2]; B->counter[0] = (int)used; B->counter[1] = used > v;
  auto *d = new Draws(); d->base = B->base;
  npv::storage<HostAtomicBlockKernelRNG<REAL>> s;
  auto r = generator(s, d, nc, bs);
  r->num_random_numbers_override = (int)over; r->internal_state_is_valid = true; r->suppress_warnings = true;
  npv::storage<ParticleGroup> g;
  ParticleLoopImplementation::ParticleLoopGlobalInfo gi; gi.particle_group = g.get();
  g.get()->sycl_target = h_target();
  const int64_t want = over > -1 ? over : n * nc;
  r->HostAtomicBlockKernelRNG<REAL>::impl_pre_loop_read(&gi);
  NPV_CHECK(B->room == want, "there is room for the samples of the loop");
  NPV_CHECK(B->counter[0] == 0 && B->counter[1] == 0, "the counters are reset");
  NPV_CHECK(B->values >= want, "the samples of the loop are in the block");
  bool drawn = false;
  for (int k = 0; k < 2; k++) drawn = drawn | ((k < d->n) & (d->lo[k] <= i) & (i < d->hi[k]));
  npv::assume(i < B->values);
  NPV_CHECK(drawn | ((i >= used) & (i < v)), "a sample which was handed out, or never drawn, is drawn again");
  for (int k = 0; k < 2; k++) NPV_CHECK(!(k < d->n) | (d->hi[k] <= want), "the samples are drawn within the room");
  auto a = r->HostAtomicBlockKernelRNG<REAL>::impl_get_const(&gi);
  NPV_CHECK(a.data.buffer_size == B->values && a.data.counter == B->counter && a.data.d_ptr == B->base, "the kernel reads the block");
  // after the loop
  B->counter[0] = (int)npv::sym("read", 0, 1 << 28);
  r->HostAtomicBlockKernelRNG<REAL>::impl_post_loop_read(&gi);
  NPV_CHECK(r->HostAtomicBlockKernelRNG<REAL>::valid_internal_state() == (B->counter[0] <= B->values), "reading more samples than the block holds is reported");
  NPV_REACH("end");
}
// Calls of at() hand out consecutive samples; a call beyond the block gives 0 and stops every later call.
NPV_PROVE(atomic_block_at, 400) {
  const int64_t n = npv::sym("n", 0, 1 << 28, 6), used = npv::sym("used", 0, 1 << 28, 8), lost = npv::sym("lost", 0, 1, 1);
  REAL *p = npv::array<REAL>("block", n);
  int counter[2] = {(int)used, (int)lost};
  AtomicBlockRNG<REAL> a; a.buffer_size = (int)n; a.counter = counter; a.d_ptr = p;
  bool ok = false;
  const REAL x = a.at(Access::LoopIndex::Read{}, 0, &ok);
  const bool in = (used < n) & (lost == 0);
  if (in) NPV_CHECK(x == p[used], "the next sample of the block is handed out");
  else NPV_CHECK(x == 0, "beyond the block there is no sample");
  NPV_CHECK(counter[0] == used + 1, "a sample is handed out once");
  const REAL y = a.at(Access::PairLoopIndex::Read{}, 0, &ok);
  if ((used + 1 < n) & (lost == 0)) NPV_CHECK(y == p[used + 1], "the following sample is handed out next");
  else NPV_CHECK(y == 0, "after a call beyond the block there is no sample");
  NPV_CHECK(counter[0] == used + 2 && counter[1] == ((lost != 0) | (used + 1 >= n)), "the calls beyond the block are noted");
  NPV_REACH("end");
}
#endif
#include "subgroup.hpp"
#ifndef NPV_VC
namespace {
template <typename T> struct Stream { T last = 0; T operator()() { return last += 1; } };
// a random iteration set: runs loop->execute with it; returns the ids of the particles it visits
struct Range { int style, c0, c1; };
Range draw_range(gp::World &w) {
  Range r{(int)w.lr.uni(0, 3), 0, w.ncell};
  if (r.style == 1) { r.c0 = (int)w.lr.uni(0, w.ncell - 1); r.c1 = r.c0 + 1; }
  if (r.style == 2) { r.c0 = (int)w.lr.uni(0, w.ncell - 1); r.c1 = (int)w.lr.uni(r.c0, w.ncell); }
  return r;
}
template <typename L> void run(L loop, const Range &r) { if (r.style == 1) loop->execute(r.c0); else if (r.style == 2) loop->execute(r.c0, r.c1); else loop->execute(); }
template <typename T, typename G> void per_particle(gp::World &w, G g, std::shared_ptr<HostPerParticleBlockRNG<T>> rng, int nc, const Range &r, const std::set<INT> &ids, std::set<T> &used, std::shared_ptr<Stream<T>> st) {
  auto la = std::make_shared<LocalArray<T>>(w.target, w.next_id * std::max(nc, 1) + 1);
  auto lb = std::make_shared<LocalArray<INT>>(w.target, 2);
  la->fill(-1); lb->fill(0);
  auto loop = particle_loop(g, [=](auto I, auto RNG, auto ID, auto A, auto B) {
    B.fetch_add(0, 1);
    for (int k = 0; k < nc; k++) {
      bool ok = false;
      A.at(ID.at(0) * nc + k) = RNG.at(I, k, &ok);
      if (!ok) B.fetch_add(1, 1);
    }
  }, Access::read(ParticleLoopIndex{}), Access::read(rng), Access::read(Sym<INT>("ID")), Access::write(la), Access::add(lb));
  run(loop, r);
  auto b = lb->get();
  NPV_CHECK(b[0] == (INT)ids.size(), "the loop visits the particles of its range");
  NPV_CHECK(b[1] == 0, "per particle samples are reported as valid");
  auto a = la->get();
  for (INT id : ids) for (int k = 0; k < nc; k++) {
    const T v = a[id * nc + k];
    NPV_CHECK(v >= 1 && v <= st->last, "every particle of the loop gets samples drawn from the host stream");
    NPV_CHECK(used.insert(v).second, "no sample is handed out twice");
  }
  NPV_CHECK(rng->valid_internal_state(), "a per particle generator stays valid");
}
std::set<INT> ids_of(const std::vector<std::vector<gp::Particle>> &L, int c0, int c1) { std::set<INT> s; for (int c = c0; c < c1; c++) for (auto &p : L[c]) s.insert(p.i.at("ID")[0]); return s; }
const int BLOCKS[] = {1, 2, 7, 8192};
} // namespace
NPV_BOUNDED(per_particle_block, 240, 1) {
  gp::World w;
  w.history(npv::uni(0, 3) ? 1 : 0);
  const int nc = (int)npv::sym("samples", 0, 4, 4);
  auto st = std::make_shared<Stream<REAL>>();
  auto f = [st]() -> REAL { return (*st)(); };
  std::shared_ptr<HostPerParticleBlockRNG<REAL>> rng;
  const int bs = BLOCKS[npv::uni(0, 3)];
  if (npv::uni(0, 1)) rng = host_per_particle_block_rng<REAL>(f, nc, bs);
  else rng = std::make_shared<HostPerParticleBlockRNG<REAL>>(make_rng_generation_function<GenericDeviceRNGGenerationFunction, REAL>([st](REAL *p, const std::size_t n) -> int { for (std::size_t k = 0; k < n; k++) p[k] = (*st)(); return 0; }), nc, bs);
  std::set<REAL> used;
  for (int s = 0, m = (int)npv::uni(1, 4); s < m; s++) {
    auto L = gp::layers(w.A);
    if (npv::uni(0, 2) == 0) {
      auto g = sg::filter(w.A, sg::draw_pred(w));
      auto mem = sg::members(g, w.A);
      Range r = draw_range(w);
      npv::note("sub", std::to_string(r.c0) + ":" + std::to_string(r.c1));
      std::set<INT> ids; for (int c = r.c0; c < r.c1; c++) for (INT l : mem[c]) ids.insert(L[c][l].i["ID"][0]);
      per_particle<REAL>(w, g, rng, nc, r, ids, used, st);
    } else {
      Range r = draw_range(w);
      npv::note("range", std::to_string(r.c0) + ":" + std::to_string(r.c1));
      per_particle<REAL>(w, w.A, rng, nc, r, ids_of(L, r.c0, r.c1), used, st);
    }
    if (npv::uni(0, 1)) w.history(1);
  }
}
NPV_BOUNDED(atomic_block, 300, 1) {
  gp::World w;
  w.history(npv::uni(0, 3) ? 1 : 0);
  const int nc = (int)npv::sym("samples", 0, 3, 3);
  auto st = std::make_shared<Stream<INT>>();
  auto rng = host_atomic_block_kernel_rng<INT>([st]() -> INT { return (*st)(); }, nc, BLOCKS[npv::uni(0, 3)]);
  rng->suppress_warnings = true;
  std::set<INT> used;
  bool broken = false;
  for (int s = 0, m = (int)npv::uni(1, 5); s < m; s++) {
    auto L = gp::layers(w.A);
    Range r = draw_range(w);
    auto ids = ids_of(L, r.c0, r.c1);
    INT block = (INT)ids.size() * nc;
    if (npv::uni(0, 2) == 0) { block = npv::uni(0, 80); if (nc == 0) block = 0; rng->set_num_random_numbers((int)block); } else rng->set_num_random_numbers(-1);
    // particle with this id reads (id * a + b) % c samples
    const INT ra = npv::uni(0, 3), rb = npv::uni(0, 2), rc = npv::uni(1, nc + 2);
    INT want = 0; for (INT id : ids) want += (id * ra + rb) % rc;
    npv::note("step", std::to_string(ids.size()) + " particles want " + std::to_string(want) + " of " + std::to_string(block));
    auto la = std::make_shared<LocalArray<INT>>(w.target, w.next_id * (nc + 2) + 1);
    auto lb = std::make_shared<LocalArray<INT>>(w.target, 3);
    la->fill(-1); lb->fill(0);
    const INT st_r = nc + 2;
    auto loop = particle_loop(w.A, [=](auto I, auto RNG, auto ID, auto A, auto B) {
      B.fetch_add(0, 1);
      for (int k = 0; k < (ID.at(0) * ra + rb) % rc; k++) {
        bool ok = false;
        const INT v = RNG.at(I, k, &ok);
        B.fetch_add(ok ? 1 : 2, 1);
        if (ok) A.at(ID.at(0) * st_r + k) = v;
      }
    }, Access::read(ParticleLoopIndex{}), Access::read(rng), Access::read(Sym<INT>("ID")), Access::write(la), Access::add(lb));
    run(loop, r);
    auto b = lb->get();
    NPV_CHECK(b[0] == (INT)ids.size() && b[1] + b[2] == want, "every read is answered");
    for (INT v : la->get()) if (v != -1) {
      NPV_CHECK(v >= 1 && v <= st->last, "valid samples come from the host stream");
      NPV_CHECK(used.insert(v).second, "no sample is handed out twice");
    }
    NPV_CHECK(b[2] == 0 || want > block, "a block that is large enough answers every read with a valid sample");
    if (b[2]) broken = true;
    NPV_CHECK(rng->valid_internal_state() == !broken, "exhausting the block is reported, and nothing else is");
    if (npv::uni(0, 1)) w.history(1);
  }
}
NPV_BOUNDED(tuple_of_generators, 120, 1) {
  gp::World w;
  w.history(1);
  auto s0 = std::make_shared<Stream<INT>>(), s1 = std::make_shared<Stream<INT>>(), s2 = std::make_shared<Stream<INT>>();
  const int n0 = (int)npv::uni(1, 3), n2 = (int)npv::uni(1, 2);
  auto g0 = host_per_particle_block_rng<INT>([s0]() -> INT { return (*s0)(); }, n0);
  auto g1 = host_atomic_block_kernel_rng<INT>([s1]() -> INT { return 1000000 + (*s1)(); }, 1);
  auto g2 = host_per_particle_block_rng<INT>([s2]() -> INT { return 2000000 + (*s2)(); }, n2);
  auto t = tuple_rng(g0, tuple_rng(g1, g2));
  std::set<INT> u0, u1, u2;
  const INT st = n0 + 1 + n2;
  for (int s = 0; s < 2; s++) {
    Range r = draw_range(w);
    auto ids = ids_of(gp::layers(w.A), r.c0, r.c1);
    auto la = std::make_shared<LocalArray<INT>>(w.target, w.next_id * st + 1);
    la->fill(-1);
    auto bad = std::make_shared<LocalArray<INT>>(w.target, 1); bad->fill(0);
    auto loop = particle_loop(w.A, [=](auto I, auto T, auto ID, auto A, auto B) {
      bool ok = false;
      auto &in = Access::TupleRNG::get<1>(T);
      for (int k = 0; k < n0; k++) { A.at(ID.at(0) * st + k) = Access::TupleRNG::get<0>(T).at(I, k, &ok); if (!ok) B.fetch_add(0, 1); }
      A.at(ID.at(0) * st + n0) = Access::TupleRNG::get<0>(in).at(I, 0, &ok); if (!ok) B.fetch_add(0, 1);
      for (int k = 0; k < n2; k++) { A.at(ID.at(0) * st + n0 + 1 + k) = Access::TupleRNG::get<1>(in).at(I, k, &ok); if (!ok) B.fetch_add(0, 1); }
    }, Access::read(ParticleLoopIndex{}), Access::read(t), Access::read(Sym<INT>("ID")), Access::write(la), Access::add(bad));
    run(loop, r);
    NPV_CHECK(bad->get()[0] == 0, "all samples are valid");
    auto a = la->get();
    for (INT id : ids) for (int k = 0; k < st; k++) {
      const INT v = a[id * st + k];
      auto &u = k < n0 ? u0 : k == n0 ? u1 : u2;
      const INT off = k < n0 ? 0 : k == n0 ? 1000000 : 2000000, hi = (k < n0 ? s0 : k == n0 ? s1 : s2)->last;
      NPV_CHECK(v > off && v <= off + hi, "each generator of the tuple supplies its own stream");
      NPV_CHECK(u.insert(v).second, "no sample is handed out twice");
    }
    if (npv::uni(0, 1)) w.history(1);
  }
}
NPV_BOUNDED(pair_samples, 120, 1) {
  gp::World w;
  w.history(1);
  const int nc = (int)npv::sym("samples", 1, 3, 3);
  auto st = std::make_shared<Stream<INT>>(), sa = std::make_shared<Stream<INT>>();
  auto rng = host_per_particle_block_rng<INT>([st]() -> INT { return (*st)(); }, nc, BLOCKS[npv::uni(0, 3)]);
  auto arng = host_atomic_block_kernel_rng<INT>([sa]() -> INT { return (*sa)(); }, 1, BLOCKS[npv::uni(0, 3)]);
  std::set<INT> used, aused;
  for (int s = 0; s < 2; s++) {
    std::vector<CellwisePairListAbsolute<ParticleGroup, CellwisePairList>> ls;
    INT n = 0;
    for (int q = 0, nl = (int)npv::uni(1, 2); q < nl; q++) {
      auto l = std::make_shared<CellwisePairListSimple>(w.target, w.ncell);
      std::vector<int> c, i, j;
      for (int x = 0; x < w.ncell; x++) for (int k = 0; k + 1 < w.A->get_npart_cell(x); k += (int)w.lr.uni(2, 5)) { c.push_back(x); i.push_back(k); j.push_back(k + 1); }
      l->push_back(c, i, j); n += c.size();
      ls.push_back(CellwisePairListAbsolute<ParticleGroup, CellwisePairList>(w.A, w.A, l));
    }
    auto la = std::make_shared<LocalArray<INT>>(w.target, n * (nc + 1) + 1);
    la->fill(-1);
    auto bad = std::make_shared<LocalArray<INT>>(w.target, 1); bad->fill(0);
    particle_pair_loop(ls, [=](auto I, auto RNG, auto AR, auto A, auto B, auto) {
      bool ok = false;
      const INT p = I.get_loop_linear_index();
      if (p < 0 || p >= n) { B.fetch_add(0, 1); return; }
      for (int k = 0; k < nc; k++) { A.at(p * (nc + 1) + k) = RNG.at(I, k, &ok); if (!ok) B.fetch_add(0, 1); }
      A.at(p * (nc + 1) + nc) = AR.at(I, 0, &ok); if (!ok) B.fetch_add(0, 1);
    }, Access::read(ParticlePairLoopIndex{}), Access::read(rng), Access::read(arng), Access::write(la), Access::add(bad), Access::A(Access::read(Sym<INT>("ID"))))->execute();
    NPV_CHECK(bad->get()[0] == 0, "all samples are valid");
    auto a = la->get();
    for (INT k = 0; k < n * (nc + 1); k++) {
      const bool at = k % (nc + 1) == nc;
      NPV_CHECK(a[k] >= 1 && a[k] <= (at ? sa : st)->last, "every pair gets samples from the host stream");
      NPV_CHECK((at ? aused : used).insert(a[k]).second, "no sample is handed to two pairs");
    }
  }
}
#endif
