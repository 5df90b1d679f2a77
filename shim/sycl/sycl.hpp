// Assumed contract of the SYCL 2020 dependency (see DESIGN.md, "SYCL shim").
//
// Two builds share this header:
//   * default          - executable semantics (replay / bounded runs): USM is malloc,
//                        commands run eagerly, lazily or in random order
//                        (NPV_SCHED=0/1/2), nd_range work-groups run as fibers.
//   * -DNPV_VC         - verification build: every command is an opaque call
//                        __npv_* whose meaning the VC generator supplies.
#ifndef NPV_SYCL_SHIM
#define NPV_SYCL_SHIM
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <stdexcept>
#include <initializer_list>
#include <limits>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#define SYCL_LANGUAGE_VERSION 202001
#define SYCL_EXTERNAL
#ifdef NPV_VC
#define NPV_OPAQUE __attribute__((noinline))
extern "C" {
int __npv_launch(int kind, void (*fn)(const void *, size_t, size_t, size_t, size_t, size_t, size_t, size_t, size_t, size_t, size_t, size_t, size_t, size_t, size_t, size_t),
                 const void *closure, size_t closure_size, size_t G0, size_t G1, size_t G2, size_t L0,
                 size_t L1, size_t L2, const int *deps, size_t ndeps);
int __npv_memcpy_async(void *dst, const void *src, size_t n);
int __npv_fill_async(void *dst, const void *value, size_t elem_size, size_t count);
void __npv_wait(int ev);
void __npv_wait_all();
void *__npv_malloc(size_t n, int kind);
void __npv_free(void *p);
void __npv_barrier(void *ctx);
void *__npv_local_alloc(size_t bytes);
int64_t __npv_reduce_over_group_i64(void *ctx, int64_t v, int op);
int32_t __npv_reduce_over_group_i32(void *ctx, int32_t v, int op);
double __npv_reduce_over_group_f64(void *ctx, double v, int op);
void __npv_joint_scan_i32(void *ctx, const int32_t *first, const int32_t *last, int32_t *out, int inclusive);
void __npv_joint_scan_i64(void *ctx, const int64_t *first, const int64_t *last, int64_t *out, int inclusive);
}
#endif

namespace sycl {

template <int D> inline size_t npv_lin(const size_t *i, const size_t *r) {
  if constexpr (D == 1) return i[0];
  else if constexpr (D == 2) return i[0] * r[1] + i[1];
  else return (i[0] * r[1] + i[1]) * r[2] + i[2];
}
template <int D> struct range {
  size_t d[D];
  range() { for (int i = 0; i < D; i++) d[i] = 0; }
  template <int M = D, std::enable_if_t<M == 1, int> = 0> range(size_t a) : d{a} {}
  template <int M = D, std::enable_if_t<M == 2, int> = 0> range(size_t a, size_t b) : d{a, b} {}
  template <int M = D, std::enable_if_t<M == 3, int> = 0> range(size_t a, size_t b, size_t c) : d{a, b, c} {}
  size_t get(int i) const { return d[i]; }
  size_t &operator[](int i) { return d[i]; }
  size_t operator[](int i) const { return d[i]; }
  size_t size() const { size_t s = 1; for (int i = 0; i < D; i++) s *= d[i]; return s; }
  bool operator==(const range &o) const { for (int i = 0; i < D; i++) if (d[i] != o.d[i]) return false; return true; }
  bool operator!=(const range &o) const { return !(*this == o); }
};
range(size_t)->range<1>;
range(size_t, size_t)->range<2>;
range(size_t, size_t, size_t)->range<3>;

template <int D> struct item;
template <int D> struct id {
  size_t d[D];
  id() { for (int i = 0; i < D; i++) d[i] = 0; }
  template <int M = D, std::enable_if_t<M == 1, int> = 0> id(size_t a) : d{a} {}
  template <int M = D, std::enable_if_t<M == 2, int> = 0> id(size_t a, size_t b) : d{a, b} {}
  template <int M = D, std::enable_if_t<M == 3, int> = 0> id(size_t a, size_t b, size_t c) : d{a, b, c} {}
  id(const item<D> &it);
  size_t get(int i) const { return d[i]; }
  size_t &operator[](int i) { return d[i]; }
  size_t operator[](int i) const { return d[i]; }
  operator size_t() const { return d[0]; }
};
template <int D> struct item {
  id<D> i; range<D> r;
  id<D> get_id() const { return i; }
  size_t get_id(int k) const { return i[k]; }
  size_t operator[](int k) const { return i[k]; }
  range<D> get_range() const { return r; }
  size_t get_range(int k) const { return r[k]; }
  size_t get_linear_id() const { return npv_lin<D>(i.d, r.d); }
  operator size_t() const { return i[0]; }
};
template <int D> id<D>::id(const item<D> &it) { for (int k = 0; k < D; k++) d[k] = it.get_id(k); }
template <int D> struct nd_range {
  range<D> g, l;
  nd_range(range<D> g, range<D> l) : g(g), l(l) {}
  range<D> get_global_range() const { return g; }
  range<D> get_local_range() const { return l; }
  range<D> get_group_range() const { range<D> r; for (int i = 0; i < D; i++) r[i] = g[i] / l[i]; return r; }
};
template <int D> nd_range(range<D>, range<D>) -> nd_range<D>;

namespace npv {
#ifndef NPV_VC
// ---------------- executable semantics ----------------
struct GroupCtx {
  void *fibers = nullptr;
  std::vector<std::vector<char>> local; // local memory, by accessor index
};
GroupCtx *&cur_group();
void barrier();
int add_task(std::function<void()> f, const std::vector<int> &deps);
void wait(int id);
void wait_all();
void *usm_alloc(size_t n, size_t align);
void usm_free(void *p);
// run `n` items of one work-group as fibers
void run_group(size_t n, const std::function<void(size_t)> &f);
size_t order_seed(size_t n);
size_t item_order(size_t n, size_t i, size_t seed); // permutation of [0,n)
#endif
} // namespace npv

namespace access { enum class fence_space { local_space, global_space, global_and_local };
                   enum class address_space { global_space, local_space, generic_space }; }
enum class memory_order { relaxed, acquire, release, acq_rel, seq_cst };
enum class memory_scope { work_item, sub_group, work_group, device, system };

inline void npv_barrier() {
#ifdef NPV_VC
  __npv_barrier(nullptr);
#else
  npv::barrier();
#endif
}

#if defined(NPV_VC) && defined(NPV_ITEMWISE)
namespace npv {
struct items_t { int n; size_t id[8][3]; bool all; /* every item, as without NPV_ITEMWISE */ int launches; void (*before)(int launch); void (*barrier)(); void (*each)(int item); };
inline items_t *items; // set by the harness
}
// a barrier of an item: the harness's, if it has one
inline void item_barrier() { if (npv::items->barrier) npv::items->barrier(); else npv_barrier(); }
#else
inline void item_barrier() { npv_barrier(); }
#endif
template <int D> struct group {
  id<D> gid; id<D> lid; range<D> lr; range<D> gr;
  id<D> get_group_id() const { return gid; }
  size_t get_group_id(int i) const { return gid[i]; }
  size_t operator[](int i) const { return gid[i]; }
  id<D> get_id() const { return gid; }
  size_t get_id(int i) const { return gid[i]; }
  id<D> get_local_id() const { return lid; }
  size_t get_local_id(int i) const { return lid[i]; }
  range<D> get_local_range() const { return lr; }
  size_t get_local_range(int i) const { return lr[i]; }
  range<D> get_group_range() const { return gr; }
  size_t get_group_range(int i) const { return gr[i]; }
  size_t get_local_linear_range() const { return lr.size(); }
  size_t get_local_linear_id() const { return npv_lin<D>(lid.d, lr.d); }
  size_t get_group_linear_id() const { return npv_lin<D>(gid.d, gr.d); }
  size_t get_linear_id() const { return get_group_linear_id(); }
  bool leader() const { return get_local_linear_id() == 0; }
};
template <int D> struct nd_item {
  id<D> gid, lid, grp; range<D> G, L;
  id<D> get_global_id() const { return gid; }
  size_t get_global_id(int i) const { return gid[i]; }
  id<D> get_local_id() const { return lid; }
  size_t get_local_id(int i) const { return lid[i]; }
  range<D> get_local_range() const { return L; }
  size_t get_local_range(int i) const { return L[i]; }
  range<D> get_global_range() const { return G; }
  size_t get_global_range(int i) const { return G[i]; }
  size_t get_group(int i) const { return grp[i]; }
  size_t get_group_range(int i) const { return G[i] / L[i]; }
  group<D> get_group() const {
    group<D> g; g.gid = grp; g.lid = lid; g.lr = L;
    for (int i = 0; i < D; i++) g.gr[i] = G[i] / L[i];
    return g;
  }
  size_t get_global_linear_id() const { return npv_lin<D>(gid.d, G.d); }
  size_t get_local_linear_id() const { return npv_lin<D>(lid.d, L.d); }
  size_t get_group_linear_id() const { size_t l = 0; for (int k = 0; k < D; k++) l = l * (G[k] / L[k]) + grp[k]; return l; }
  void barrier(access::fence_space = access::fence_space::global_and_local) const { item_barrier(); }
};
template <typename G> void group_barrier(G, memory_scope = memory_scope::work_group) { item_barrier(); }

template <typename T = void> struct plus { T operator()(const T &a, const T &b) const { return a + b; } };
template <> struct plus<void> { template <typename T> T operator()(const T &a, const T &b) const { return a + b; } };
template <typename T = void> struct minimum { T operator()(const T &a, const T &b) const { return b < a ? b : a; } };
template <typename T = void> struct maximum { T operator()(const T &a, const T &b) const { return a < b ? b : a; } };

template <typename T> T min(T a, T b) { return b < a ? b : a; }
template <typename T> T max(T a, T b) { return a < b ? b : a; }
template <typename T> T clamp(T x, T lo, T hi) { return min(max(x, lo), hi); }
template <typename T> T abs(T a) { return a < 0 ? -a : a; }
#define NPV_F1(n) template <typename T> T n(T x) { return std::n(x); }
#define NPV_F2(n) template <typename T> T n(T x, T y) { return std::n(x, y); }
NPV_F1(fabs) NPV_F1(sqrt) NPV_F1(exp) NPV_F1(sin) NPV_F1(cos) NPV_F1(tan) NPV_F1(log) NPV_F1(log2) NPV_F1(log10)
NPV_F1(round) NPV_F1(tgamma) NPV_F1(trunc) NPV_F1(atan) NPV_F1(asin) NPV_F1(acos) NPV_F1(floor) NPV_F1(ceil) NPV_F1(sinh) NPV_F1(cosh) NPV_F1(tanh) NPV_F1(cbrt)
NPV_F2(fmin) NPV_F2(fmax) NPV_F2(fmod) NPV_F2(pow) NPV_F2(atan2) NPV_F2(hypot)
template <typename T> T rsqrt(T x) { return T(1) / std::sqrt(x); }
template <typename T> T fma(T x, T y, T z) { return std::fma(x, y, z); }
template <typename T> T sincos(T x, T *c) { *c = std::cos(x); return std::sin(x); }

template <typename T, memory_order O = memory_order::relaxed, memory_scope S = memory_scope::device,
          access::address_space A = access::address_space::generic_space>
struct atomic_ref {
  T *p;
  explicit atomic_ref(T &r) : p(&r) {}
  T load(memory_order = O) const { T v; __atomic_load(p, &v, __ATOMIC_RELAXED); return v; }
  void store(T v, memory_order = O) const { __atomic_store(p, &v, __ATOMIC_RELAXED); }
  T exchange(T v, memory_order = O) const { T r; __atomic_exchange(p, &v, &r, __ATOMIC_RELAXED); return r; }
  T fetch_add(T v, memory_order = O) const { return __atomic_fetch_add(p, v, __ATOMIC_RELAXED); }
  T fetch_sub(T v, memory_order = O) const { return __atomic_fetch_sub(p, v, __ATOMIC_RELAXED); }
  T fetch_max(T v, memory_order = O) const {
    if constexpr (std::is_integral_v<T>) return __atomic_fetch_max(p, v, __ATOMIC_RELAXED);
    else { T o = *p; *p = max(o, v); return o; }
  }
  T fetch_min(T v, memory_order = O) const {
    if constexpr (std::is_integral_v<T>) return __atomic_fetch_min(p, v, __ATOMIC_RELAXED);
    else { T o = *p; *p = min(o, v); return o; }
  }
  bool compare_exchange_strong(T &e, T d, memory_order = O) const {
    return __atomic_compare_exchange(p, &e, &d, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED);
  }
  bool compare_exchange_weak(T &e, T d, memory_order = O) const { return compare_exchange_strong(e, d); }
  operator T() const { return load(); }
};

struct exception : std::exception { const char *what() const noexcept override { return "sycl shim"; } };
struct platform;
namespace info {
enum class local_mem_type { none, local, global };
enum class device_type { cpu, gpu, all };
namespace device {
struct name { using return_type = std::string; };
struct vendor { using return_type = std::string; };
struct local_mem_size { using return_type = uint64_t; };
struct local_mem_type { using return_type = info::local_mem_type; };
struct native_vector_width_float { using return_type = uint32_t; };
struct native_vector_width_double { using return_type = uint32_t; };
struct max_work_group_size { using return_type = size_t; };
struct max_compute_units { using return_type = uint32_t; };
struct global_mem_cache_line_size { using return_type = uint32_t; };
template <int N> struct max_work_item_sizes { using return_type = range<N>; };
} // namespace device
} // namespace info
namespace npv {
long cfg(const char *name, long dflt);
template <typename T> struct is_mwis : std::false_type {};
template <int N> struct is_mwis<info::device::max_work_item_sizes<N>> : std::true_type { static constexpr int n = N; };
}
struct cpu_selector {}; struct gpu_selector {}; struct default_selector {};
inline constexpr cpu_selector cpu_selector_v{}; inline constexpr gpu_selector gpu_selector_v{}; inline constexpr default_selector default_selector_v{};
struct device {
  device() {}
  template <typename S> explicit device(const S &) {}
  bool is_cpu() const { return npv::cfg("NPV_DEVICE_IS_CPU", 1); }
  bool is_gpu() const { return !is_cpu(); }
  platform get_platform() const;
  static std::vector<device> get_devices(info::device_type = info::device_type::all) { return {device{}}; }
  template <typename P> typename P::return_type get_info() const {
    using R = typename P::return_type;
    if constexpr (std::is_same_v<R, std::string>) return std::string("npv");
    else if constexpr (std::is_same_v<P, info::device::local_mem_size>) return npv::cfg("NPV_LOCAL_MEM", 65536);
    else if constexpr (std::is_same_v<R, info::local_mem_type>) return info::local_mem_type::local;
    else if constexpr (npv::is_mwis<P>::value) { R r; for (int i = 0; i < npv::is_mwis<P>::n; i++) r[i] = 8192; return r; }
    else if constexpr (std::is_same_v<P, info::device::max_work_group_size>) return 8192;
    else if constexpr (std::is_same_v<P, info::device::max_compute_units>) return npv::cfg("NPV_COMPUTE_UNITS", 8);
    else if constexpr (std::is_same_v<P, info::device::global_mem_cache_line_size>) return 64;
    else return 4;
  }
};
struct platform { std::vector<device> get_devices(info::device_type = info::device_type::all) const { return {device{}}; } };
inline platform device::get_platform() const { return platform{}; }

struct event {
  int h = -1;
#ifdef NPV_VC
  void wait() { __npv_wait(h); }
#else
  void wait() { npv::wait(h); }
#endif
  void wait_and_throw() { wait(); }
  static void wait(const std::vector<event> &v) { for (auto e : v) e.wait(); }
  static void wait_and_throw(const std::vector<event> &v) { wait(v); }
};

struct handler;
template <typename T, int D = 1> struct local_accessor {
  range<D> r;
#ifdef NPV_VC
  T *p = nullptr;
  local_accessor() {}
  local_accessor(range<D> r, handler &);
  T *data() const { return p; }
#else
  int idx = -1;
  local_accessor() {}
  local_accessor(range<D> r, handler &);
  T *data() const { return reinterpret_cast<T *>(npv::cur_group()->local[idx].data()); }
#endif
  T *get_pointer() const { return data(); }
  size_t size() const { return r.size(); }
  range<D> get_range() const { return r; }
  template <int M = D, std::enable_if_t<M == 1, int> = 0> T &operator[](size_t i) const { return data()[i]; }
  template <int M = D, std::enable_if_t<(M > 1), int> = 0> T &operator[](id<D> i) const {
    size_t l = 0; for (int k = 0; k < D; k++) l = l * r[k] + i[k]; return data()[l]; }
  struct row { T *p; T &operator[](size_t j) const { return p[j]; } };
  template <int M = D, std::enable_if_t<M == 2, int> = 0> row operator[](size_t i) const { return row{data() + i * r[1]}; }
  T *begin() const { return data(); }
  T *end() const { return data() + size(); }
};

namespace npv {
template <int D> struct one_item { using type = item<D>; };
#ifdef NPV_VC
// kernel entry points: (closure, global id x3, local id x3, group id x3, local range x3, global range x3)
#define NPV_KARGS size_t g0, size_t g1, size_t g2, size_t l0, size_t l1, size_t l2, size_t p0, size_t p1, size_t p2, size_t L0, size_t L1, size_t L2, size_t G0, size_t G1, size_t G2
template <typename K> void kentry_single(const void *c, NPV_KARGS) {
  (*static_cast<const K *>(c))();
}
template <typename K, int D> void kentry_range(const void *c, NPV_KARGS) {
  item<D> it;
  if constexpr (D >= 1) { it.i.d[0] = g0; it.r.d[0] = G0; }
  if constexpr (D >= 2) { it.i.d[1] = g1; it.r.d[1] = G1; }
  if constexpr (D >= 3) { it.i.d[2] = g2; it.r.d[2] = G2; }
  (*static_cast<const K *>(c))(it);
}
template <typename K, int D> void kentry_nd(const void *c, NPV_KARGS) {
  nd_item<D> it;
  size_t g[3] = {g0, g1, g2}, l[3] = {l0, l1, l2}, p[3] = {p0, p1, p2}, L[3] = {L0, L1, L2}, G[3] = {G0, G1, G2};
  for (int k = 0; k < D; k++) {
    it.gid.d[k] = g[k]; it.lid.d[k] = l[k]; it.grp.d[k] = p[k]; it.L.d[k] = L[k]; it.G.d[k] = G[k];
  }
  (*static_cast<const K *>(c))(it);
}
#endif
} // namespace npv

struct handler {
  std::vector<int> deps;
  int ev = -1;
#ifndef NPV_VC
  std::vector<size_t> local_bytes;
#endif
  void depends_on(event e) { deps.push_back(e.h); }
  void depends_on(const std::vector<event> &es) { for (auto e : es) deps.push_back(e.h); }
  template <typename N = void, int D, typename K> void parallel_for(range<D> r, const K &k);
  template <typename N = void, int D, typename K> void parallel_for(nd_range<D> r, const K &k);
  template <typename N = void, typename K> void parallel_for(size_t r, const K &k) { parallel_for<N>(range<1>(r), k); }
  template <typename N = void, typename K> void single_task(const K &k);
  void memcpy(void *d, const void *s, size_t n);
  template <typename T> void fill(void *d, const T &v, size_t n);
};

#ifdef NPV_VC
template <typename T, int D> local_accessor<T, D>::local_accessor(range<D> r, handler &) : r(r) {
  p = static_cast<T *>(__npv_local_alloc(r.size() * sizeof(T)));
}
template <typename N, int D, typename K> void handler::parallel_for(range<D> r, const K &k) {
#ifdef NPV_ITEMWISE
  // item-wise contracts: the items the harness names are executed, one after the other
  if (npv::items->before) npv::items->before(npv::items->launches++);
  if (!npv::items->all) {
  for (int j = 0, nj = npv::items->n; j < nj; j++) {
    const size_t *g = npv::items->id[j];
    if (npv::items->each) npv::items->each(j);
    bool in = g[0] < r.d[0];
    if constexpr (D > 1) in = in && g[1] < r.d[1];
    if constexpr (D > 2) in = in && g[2] < r.d[2];
    if (in) npv::kentry_range<K, D>(&k, g[0], g[1], g[2], 0, 0, 0, 0, 0, 0, r.d[0], D > 1 ? r.d[D > 1 ? 1 : 0] : 1, D > 2 ? r.d[D > 2 ? 2 : 0] : 1, 0, 0, 0);
  }
  ev = 0;
  return;
  }
#endif
  ev = __npv_launch(D, &npv::kentry_range<K, D>, &k, sizeof(K), r.d[0], D > 1 ? r.d[D > 1 ? 1 : 0] : 1, D > 2 ? r.d[D > 2 ? 2 : 0] : 1, 0, 0, 0, deps.data(), deps.size());
}
template <typename N, int D, typename K> void handler::parallel_for(nd_range<D> r, const K &k) {
#ifdef NPV_ITEMWISE
  if (npv::items->before) npv::items->before(npv::items->launches++);
  if (!npv::items->all) {
  for (int j = 0, nj = npv::items->n; j < nj; j++) {
    const size_t *g = npv::items->id[j];
    if (npv::items->each) npv::items->each(j);
    bool in = g[0] < r.g.d[0];
    if constexpr (D > 1) in = in && g[1] < r.g.d[1];
    if constexpr (D > 2) in = in && g[2] < r.g.d[2];
    size_t l[3] = {0, 0, 0}, p[3] = {0, 0, 0}, L[3] = {1, 1, 1};
    for (int q = 0; q < D; q++) {
      L[q] = r.l.d[q];
      l[q] = r.g.d[q] == L[q] ? g[q] : g[q] % L[q];
      p[q] = r.g.d[q] == L[q] ? 0 : g[q] / L[q];
    }
    if (in) npv::kentry_nd<K, D>(&k, g[0], g[1], g[2], l[0], l[1], l[2], p[0], p[1], p[2], L[0], L[1], L[2], r.g.d[0], D > 1 ? r.g.d[D > 1 ? 1 : 0] : 1, D > 2 ? r.g.d[D > 2 ? 2 : 0] : 1);
  }
  ev = 0;
  return;
  }
#endif
  ev = __npv_launch(10 + D, &npv::kentry_nd<K, D>, &k, sizeof(K), r.g.d[0], D > 1 ? r.g.d[D > 1 ? 1 : 0] : 1, D > 2 ? r.g.d[D > 2 ? 2 : 0] : 1,
                    r.l.d[0], D > 1 ? r.l.d[D > 1 ? 1 : 0] : 1, D > 2 ? r.l.d[D > 2 ? 2 : 0] : 1, deps.data(), deps.size());
}
template <typename N, typename K> void handler::single_task(const K &k) {
  ev = __npv_launch(0, &npv::kentry_single<K>, &k, sizeof(K), 1, 1, 1, 0, 0, 0, deps.data(), deps.size());
}
inline void handler::memcpy(void *d, const void *s, size_t n) { ev = __npv_memcpy_async(d, s, n); }
template <typename T> void handler::fill(void *d, const T &v, size_t n) { ev = __npv_fill_async(d, &v, sizeof(T), n); }
#else
template <typename T, int D> local_accessor<T, D>::local_accessor(range<D> r, handler &h) : r(r) {
  idx = h.local_bytes.size();
  h.local_bytes.push_back(r.size() * sizeof(T));
}
template <typename N, int D, typename K> void handler::parallel_for(range<D> r, const K &k) {
  ev = npv::add_task([r, k]() {
    const size_t n = r.size(), os = npv::order_seed(n);
    for (size_t q = 0; q < n; q++) {
      size_t l = npv::item_order(n, q, os);
      item<D> it; it.r = r;
      for (int d = D - 1; d >= 0; d--) { it.i[d] = l % r[d]; l /= r[d]; }
      k(it);
    }
  }, deps);
}
template <typename N, int D, typename K> void handler::parallel_for(nd_range<D> r, const K &k) {
  auto lb = local_bytes;
  for (int d = 0; d < D; d++)
    if (r.g[d] != 0 && (r.l[d] == 0 || r.g[d] % r.l[d] != 0)) { fprintf(stderr, "npv: bad nd_range %zu %zu\n", r.g[d], r.l[d]); abort(); }
  ev = npv::add_task([r, k, lb]() {
    range<D> gr; for (int d = 0; d < D; d++) gr[d] = r.g[d] == 0 ? 0 : r.g[d] / r.l[d];
    const size_t ng = gr.size(), nl = r.l.size(), os = npv::order_seed(ng);
    for (size_t q = 0; q < ng; q++) {
      size_t gl = npv::item_order(ng, q, os);
      id<D> grp; for (int d = D - 1; d >= 0; d--) { grp[d] = gl % gr[d]; gl /= gr[d]; }
      npv::GroupCtx ctx;
      for (auto b : lb) ctx.local.push_back(std::vector<char>(b, (char)0xA5));
      auto *save = npv::cur_group();
      npv::cur_group() = &ctx;
      npv::run_group(nl, [&](size_t li) {
        nd_item<D> it; it.G = r.g; it.L = r.l; it.grp = grp;
        for (int d = D - 1; d >= 0; d--) { it.lid[d] = li % r.l[d]; li /= r.l[d]; }
        for (int d = 0; d < D; d++) it.gid[d] = grp[d] * r.l[d] + it.lid[d];
        k(it);
      });
      npv::cur_group() = save;
    }
  }, deps);
}
template <typename N, typename K> void handler::single_task(const K &k) { ev = npv::add_task([k]() { k(); }, deps); }
inline void handler::memcpy(void *d, const void *s, size_t n) { ev = npv::add_task([=]() { if (n) std::memmove(d, s, n); }, deps); }
template <typename T> void handler::fill(void *d, const T &v, size_t n) {
  T vv = v; ev = npv::add_task([=]() { for (size_t i = 0; i < n; i++) static_cast<T *>(d)[i] = vv; }, deps);
}
#endif

struct async_handler_t {};
struct property_list {};
namespace property { namespace queue { struct in_order {}; struct enable_profiling {}; } }
struct queue {
  device dev;
  bool inorder = false;
  queue() {}
  explicit queue(const device &d) : dev(d) {}
  queue(const device &d, std::initializer_list<property::queue::in_order>) : dev(d), inorder(true) {}
  bool is_in_order() const { return inorder; }
  device get_device() const { return dev; }
#ifdef NPV_VC
  template <typename F> event submit(F &&f) { handler h; f(h); event e; e.h = h.ev; return e; }
#else
  struct group_scope { // command groups are not nested
    static bool &in() { static bool b = false; return b; }
    group_scope() { if (in()) throw std::runtime_error("Calls to sycl::queue::submit cannot be nested"); in() = true; }
    ~group_scope() { in() = false; }
  };
  template <typename F> event submit(F &&f) { group_scope s; handler h; f(h); event e; e.h = h.ev; return e; }
#endif
  template <typename N = void, int D, typename K> event parallel_for(range<D> r, const K &k) { return submit([&](handler &h) { h.parallel_for<N>(r, k); }); }
  template <typename N = void, int D, typename K> event parallel_for(range<D> r, event e, const K &k) { return submit([&](handler &h) { h.depends_on(e); h.parallel_for<N>(r, k); }); }
  template <typename N = void, int D, typename K> event parallel_for(range<D> r, const std::vector<event> &e, const K &k) { return submit([&](handler &h) { h.depends_on(e); h.parallel_for<N>(r, k); }); }
  template <typename N = void, int D, typename K> event parallel_for(nd_range<D> r, const K &k) { return submit([&](handler &h) { h.parallel_for<N>(r, k); }); }
  template <typename N = void, int D, typename K> event parallel_for(nd_range<D> r, event e, const K &k) { return submit([&](handler &h) { h.depends_on(e); h.parallel_for<N>(r, k); }); }
  template <typename N = void, int D, typename K> event parallel_for(nd_range<D> r, const std::vector<event> &e, const K &k) { return submit([&](handler &h) { h.depends_on(e); h.parallel_for<N>(r, k); }); }
  template <typename N = void, typename K> event single_task(const K &k) { return submit([&](handler &h) { h.single_task<N>(k); }); }
  event memcpy(void *d, const void *s, size_t n) { return submit([&](handler &h) { h.memcpy(d, s, n); }); }
  event memcpy(void *d, const void *s, size_t n, event e) { return submit([&](handler &h) { h.depends_on(e); h.memcpy(d, s, n); }); }
  event memcpy(void *d, const void *s, size_t n, const std::vector<event> &e) { return submit([&](handler &h) { h.depends_on(e); h.memcpy(d, s, n); }); }
  template <typename T> event fill(void *d, const T &v, size_t n) { return submit([&](handler &h) { h.fill(d, v, n); }); }
  template <typename T> event fill(void *d, const T &v, size_t n, event e) { return submit([&](handler &h) { h.depends_on(e); h.fill(d, v, n); }); }
  template <typename T> event copy(const T *s, T *d, size_t n) { return memcpy(d, s, n * sizeof(T)); }
  event memset(void *d, int v, size_t n) { return fill(static_cast<char *>(d), (char)v, n); }
#ifdef NPV_VC
  void wait() { __npv_wait_all(); }
#else
  void wait() { npv::wait_all(); }
#endif
  void wait_and_throw() { wait(); }
};

#ifdef NPV_VC
inline void *malloc_device(size_t n, const queue &) { return __npv_malloc(n, 0); }
inline void *malloc_shared(size_t n, const queue &) { return __npv_malloc(n, 1); }
inline void *malloc_host(size_t n, const queue &) { return __npv_malloc(n, 2); }
inline void *aligned_alloc_device(size_t, size_t n, const queue &) { return __npv_malloc(n, 0); }
inline void *aligned_alloc_shared(size_t, size_t n, const queue &) { return __npv_malloc(n, 1); }
inline void *aligned_alloc_host(size_t, size_t n, const queue &) { return __npv_malloc(n, 2); }
inline void free(void *p, const queue &) { __npv_free(p); }
#else
inline void *malloc_device(size_t n, const queue &) { return npv::usm_alloc(n, 0); }
inline void *malloc_shared(size_t n, const queue &) { return npv::usm_alloc(n, 0); }
inline void *malloc_host(size_t n, const queue &) { return npv::usm_alloc(n, 0); }
inline void *aligned_alloc_device(size_t a, size_t n, const queue &) { return npv::usm_alloc(n, a); }
inline void *aligned_alloc_shared(size_t a, size_t n, const queue &) { return npv::usm_alloc(n, a); }
inline void *aligned_alloc_host(size_t a, size_t n, const queue &) { return npv::usm_alloc(n, a); }
inline void free(void *p, const queue &) { npv::usm_free(p); }
#endif
template <typename T> T *malloc_device(size_t n, const queue &q) { return static_cast<T *>(malloc_device(n * sizeof(T), q)); }
template <typename T> T *malloc_shared(size_t n, const queue &q) { return static_cast<T *>(malloc_shared(n * sizeof(T), q)); }
template <typename T> T *malloc_host(size_t n, const queue &q) { return static_cast<T *>(malloc_host(n * sizeof(T), q)); }

// ---------------- group algorithms ----------------
namespace npv {
template <typename T> constexpr int opcode(const plus<T> &) { return 0; }
template <typename T> constexpr int opcode(const minimum<T> &) { return 1; }
template <typename T> constexpr int opcode(const maximum<T> &) { return 2; }
#ifndef NPV_VC
void *group_exchange(size_t me, const void *v, size_t sz); // all items deposit; returns the table (own copy stays valid until next barrier)
#endif
}
#ifdef NPV_VC
template <typename G, typename I, typename O, typename OP> O joint_exclusive_scan(G, I first, I last, O out, OP) {
  using T = std::remove_cv_t<std::remove_reference_t<decltype(*first)>>;
  if constexpr (sizeof(T) == 4) __npv_joint_scan_i32(nullptr, (const int32_t *)first, (const int32_t *)last, (int32_t *)out, 0);
  else __npv_joint_scan_i64(nullptr, (const int64_t *)first, (const int64_t *)last, (int64_t *)out, 0);
  return out + (last - first);
}
template <typename G, typename I, typename O, typename OP> O joint_inclusive_scan(G, I first, I last, O out, OP) {
  using T = std::remove_cv_t<std::remove_reference_t<decltype(*first)>>;
  if constexpr (sizeof(T) == 4) __npv_joint_scan_i32(nullptr, (const int32_t *)first, (const int32_t *)last, (int32_t *)out, 1);
  else __npv_joint_scan_i64(nullptr, (const int64_t *)first, (const int64_t *)last, (int64_t *)out, 1);
  return out + (last - first);
}
template <typename G, typename T, typename OP> T reduce_over_group(G, T v, OP op) {
  if constexpr (std::is_floating_point_v<T>) return __npv_reduce_over_group_f64(nullptr, v, npv::opcode(op));
  else if constexpr (sizeof(T) == 4) return __npv_reduce_over_group_i32(nullptr, v, npv::opcode(op));
  else return __npv_reduce_over_group_i64(nullptr, v, npv::opcode(op));
}
#else
template <typename G, typename I, typename O, typename OP> O joint_exclusive_scan(G g, I first, I last, O out, OP op) {
  npv_barrier();
  using T = std::remove_cv_t<std::remove_reference_t<decltype(*first)>>;
  if (g.get_local_linear_id() == 0) {
    T acc{}; bool have = false; size_t n = last - first;
    static_assert(std::is_same_v<OP, plus<T>>, "npv: only plus scans modelled");
    (void)have;
    for (size_t i = 0; i < n; i++) { T v = first[i]; out[i] = acc; acc = op(acc, v); }
  }
  npv_barrier();
  return out + (last - first);
}
template <typename G, typename I, typename O, typename OP> O joint_inclusive_scan(G g, I first, I last, O out, OP op) {
  npv_barrier();
  using T = std::remove_cv_t<std::remove_reference_t<decltype(*first)>>;
  if (g.get_local_linear_id() == 0) {
    T acc{}; size_t n = last - first;
    for (size_t i = 0; i < n; i++) { acc = op(acc, first[i]); out[i] = acc; }
  }
  npv_barrier();
  return out + (last - first);
}
template <typename G, typename T, typename OP> T reduce_over_group(G g, T v, OP op) {
  T *tab = static_cast<T *>(npv::group_exchange(g.get_local_linear_id(), &v, sizeof(T)));
  T acc = tab[0];
  for (size_t i = 1; i < g.get_local_linear_range(); i++) acc = op(acc, tab[i]);
  npv_barrier();
  return acc;
}
#endif
template <typename G, typename I, typename OP> auto joint_reduce(G g, I first, I last, OP op) {
  using T = std::remove_cv_t<std::remove_reference_t<decltype(*first)>>;
  T acc = *first;
  for (I p = first + 1; p < last; ++p) acc = op(acc, *p);
  npv_barrier();
  return acc;
}
} // namespace sycl

#ifndef NPV_VC
namespace sycl { namespace npv { } }
#endif
#endif
