// Contract language shared by the proof build (NPV_VC) and the executable build.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <string>
#include <vector>
#ifdef NPV_VC
// libstdc++'s tree functions (compiled into the library, hence not in the verified text):
// iteration is the same; insertion does not rebalance, which no user of a map can observe
namespace std {
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
} // namespace std
extern "C" {
int64_t __npv_sym_i64(const char *, int64_t lo, int64_t hi);
double __npv_sym_f64(const char *);
double __npv_sym_f64r(const char *, double, double);
int64_t __npv_any(const char *, int64_t lo, int64_t hi);
void __npv_assume(bool);
void __npv_check(bool, const char *);
void __npv_reach(const char *);
void *__npv_sym_array(const char *, int code, int64_t n, int64_t lo, int64_t hi);
void *__npv_sym_table(const char *, int code, int depth, int64_t n0, int64_t n1, int64_t n2, int64_t lo, int64_t hi);
void __npv_row_bound(void *, void *);
void __npv_row_bound_at(void *, int level, void *, int k);
void __npv_array_pred(void *, bool (*)(void *, int64_t, int64_t, int64_t, int64_t), void *);
void __npv_array_inj(void *, int64_t n);
int64_t __npv_sum(const void *, int code, int64_t n);
void __npv_havoc(void *);
void __npv_abstract();
}
namespace npv {
template <typename T> constexpr int code() {
  if (std::is_same_v<T, double>) return 108;
  if (std::is_same_v<T, float>) return 104;
  return sizeof(T);
}
template <typename T> constexpr int64_t tmin() { return sizeof(T) == 1 ? -128 : sizeof(T) == 4 ? INT32_MIN : INT64_MIN; }
template <typename T> constexpr int64_t tmax() { return sizeof(T) == 1 ? 127 : sizeof(T) == 4 ? INT32_MAX : INT64_MAX; }
// any value in [lo, hi]; `nat` bounds the values used in the executable build
#define NPV_INT(name, lo, hi, nat) __npv_sym_i64(#name, lo, hi)
inline int64_t sym(const char *n, int64_t lo, int64_t hi, int64_t = 0) { return __npv_sym_i64(n, lo, hi); }
inline double symf(const char *n) { return __npv_sym_f64(n); }
// any value in [lo, hi]
inline double symf(const char *n, double lo, double hi) { return __npv_sym_f64r(n, lo, hi); }
inline void assume(bool b) { __npv_assume(b); }
#define NPV_CHECK(c, label) __npv_check((c), label)
#define NPV_REACH(label) __npv_reach(label)
template <typename T> T *array(const char *n, int64_t count, int64_t lo = tmin<T>(), int64_t hi = tmax<T>()) {
  return (T *)__npv_sym_array(n, code<T>(), count, lo, hi);
}
template <typename T> int64_t sum(const T *p, int64_t n) { return __npv_sum(p, code<T>(), n); }

// element i satisfies pred(i, v)
template <typename T, typename F> T *array_where(const char *n, int64_t count, int64_t lo, int64_t hi, const F &f) {
  T *p = array<T>(n, count, lo, hi);
  __npv_array_pred(p, [](void *c, int64_t i, int64_t, int64_t, int64_t v) -> bool { return (*static_cast<const F *>(c))(i, v); }, (void *)new F(f));
  return p;
}
// pairwise distinct elements
template <typename T> T *array_inj(const char *n, int64_t count, int64_t lo, int64_t hi) {
  T *p = array<T>(n, count, lo, hi);
  __npv_array_inj(p, count);
  return p;
}
// d[i][j], i < n0, j < n1
template <typename T> T **table2(const char *n, int64_t n0, int64_t n1, int64_t lo = tmin<T>(), int64_t hi = tmax<T>()) {
  return (T **)__npv_sym_table(n, code<T>(), 1, n0, n1, -1, lo, hi);
}
// d[i][j], i < n0, j < rows[i]
template <typename T> T **ragged(const char *n, int64_t n0, int *rows, int64_t lo = tmin<T>(), int64_t hi = tmax<T>()) {
  void *t = __npv_sym_table(n, code<T>(), 1, n0, -1, -1, lo, hi);
  __npv_row_bound(t, rows);
  return (T **)t;
}
// d[cell][component][row], row < rows[cell]
template <typename T> T ***celldat(const char *n, int64_t ncell, int64_t ncomp, int *rows, int64_t lo = tmin<T>(), int64_t hi = tmax<T>()) {
  void *t = __npv_sym_table(n, code<T>(), 2, ncell, ncomp, -1, lo, hi);
  __npv_row_bound(t, rows);
  return (T ***)t;
}
// d[property][cell][component][row], component < ncomp[property], row < rows[cell]
template <typename T> T ****datptrs(const char *n, int64_t ndat, int64_t ncell, int *ncomp, int *rows, int64_t lo = tmin<T>(), int64_t hi = tmax<T>()) {
  void *t = __npv_sym_table(n, code<T>(), 3, ndat, ncell, -1, lo, hi);
  __npv_row_bound_at(t, 2, ncomp, 0);
  __npv_row_bound_at(t, 3, rows, 1);
  return (T ****)t;
}
inline bool near(double a, double b, double = 1e-9) { return a == b; }
inline bool leq(double a, double b, double = 1e-9) { return a <= b; }
// body(k) for every k in [lo,hi)
#define NPV_FORALL(k, lo, hi) for (int64_t k = __npv_any(#k, lo, hi), k##_o = 1; k##_o; k##_o = 0)
#define NPV_PROVE(name, runs) extern "C" void vc_##name()
#define NPV_BOUNDED(name, runs, maxranks) [[maybe_unused]] static void nt_##name()
} // namespace npv
#else // ------------------------------------------------ executable build
namespace npv {
struct discard_t {};
struct fail_t { std::string label; };
struct harness { const char *name; void (*fn)(); int runs; int maxranks; bool proved; };
std::vector<harness> &registry();
struct reg { reg(harness h) { registry().push_back(h); } };
std::mt19937_64 &rng();
void note(const char *n, const std::string &v);
bool forced(const char *n, int64_t &v);
[[noreturn]] void fail(const char *label, const char *file, int line);
void reached(const char *label);
void *track(void *p); // freed after the run
struct asserted {};
void expect_asserts(bool b);
// does the library's own assertion fire while f runs?
template <typename F> bool expect_assert(F f) {
  expect_asserts(true);
  bool r = false;
  try { f(); } catch (const asserted &) { r = true; }
  expect_asserts(false);
  return r;
}
template <typename T> constexpr int64_t tmin() { return sizeof(T) == 1 ? -128 : sizeof(T) == 4 ? INT32_MIN : INT64_MIN; }
template <typename T> constexpr int64_t tmax() { return sizeof(T) == 1 ? 127 : sizeof(T) == 4 ? INT32_MAX : INT64_MAX; }
inline int64_t uni(int64_t lo, int64_t hi) { return lo + (int64_t)(rng()() % (uint64_t)(hi - lo + 1)); }
inline double unif() { return (rng()() >> 11) * 0x1.0p-53; }
inline int64_t pick(int64_t lo, int64_t hi, int64_t nat) {
  if (nat <= 0) nat = 24;
  int64_t a = lo, b = hi;
  if (a < -nat && b > nat) { a = -nat; b = nat; }
  else if (a < -nat) a = std::max(a, b - 2 * nat);
  else if (b - a > nat) b = a + nat;
  switch (rng()() % 8) { case 0: return a; case 1: return b; case 2: return std::min(a + 1, b); default: return uni(a, b); }
}
inline int64_t sym(const char *n, int64_t lo, int64_t hi, int64_t nat = 0) {
  int64_t v;
  if (!forced(n, v)) v = pick(lo, hi, nat);
  note(n, std::to_string(v));
  return v;
}
inline double randf() {
  switch (rng()() % 6) {
  case 0: return (double)uni(-3, 3);
  case 1: return uni(-16, 16) / 4.0;
  default: return (unif() - 0.5) * 8.0;
  }
}
inline double symf(const char *n) { double v = randf(); char b[64]; snprintf(b, 64, "%.17g", v); note(n, b); return v; }
inline double symf(const char *n, double lo, double hi) {
  double v = randf();
  if (v < lo || v > hi) v = std::max(lo, -4.0) + unif() * (std::min(hi, 4.0) - std::max(lo, -4.0));
  char b[64]; snprintf(b, 64, "%.17g", v); note(n, b);
  return v;
}
inline void assume(bool b) { if (!b) throw discard_t{}; }
#define NPV_CHECK(c, label) do { if (!(c)) ::npv::fail(label, __FILE__, __LINE__); } while (0)
#define NPV_REACH(label) ::npv::reached(label)
template <typename T> T draw(int64_t lo, int64_t hi) {
  if constexpr (std::is_floating_point_v<T>) return (T)randf();
  else return (T)pick(lo, hi, 12);
}
template <typename T> std::string show(const T *p, int64_t n) {
  std::string s = "[";
  for (int64_t i = 0; i < n && i < 24; i++) s += (i ? "," : "") + std::to_string(p[i]);
  return s + (n > 24 ? ",...]" : "]");
}
template <typename T> T *array(const char *n, int64_t count, int64_t lo = tmin<T>(), int64_t hi = tmax<T>()) {
  T *p = (T *)track(malloc(count ? count * sizeof(T) : 1));
  for (int64_t i = 0; i < count; i++) p[i] = draw<T>(lo, hi);
  note(n, show(p, count));
  return p;
}
template <typename T, typename F> T *array_where(const char *n, int64_t count, int64_t lo, int64_t hi, const F &f) {
  T *p = (T *)track(malloc(count ? count * sizeof(T) : 1));
  for (int64_t i = 0; i < count; i++) {
    int t = 0;
    do { p[i] = t < 20 ? draw<T>(lo, hi) : (T)uni(lo, hi); } while (!f(i, (int64_t)p[i]) && ++t < 200);
    if (t >= 200) throw discard_t{};
  }
  note(n, show(p, count));
  return p;
}
template <typename T> T *array_inj(const char *n, int64_t count, int64_t lo, int64_t hi) {
  if (hi - lo + 1 < count) throw discard_t{};
  T *p = (T *)track(malloc(count ? count * sizeof(T) : 1));
  std::map<int64_t, int> used;
  for (int64_t i = 0; i < count; i++) {
    int64_t v; int t = 0;
    do { v = t < 20 ? pick(lo, hi, 2 * count + 4) : uni(lo, hi); } while (used.count(v) && ++t < 400);
    if (t >= 400) throw discard_t{};
    used[v] = 1; p[i] = (T)v;
  }
  note(n, show(p, count));
  return p;
}
template <typename T> T **table2(const char *n, int64_t n0, int64_t n1, int64_t lo = tmin<T>(), int64_t hi = tmax<T>()) {
  T **t = (T **)track(malloc(n0 ? n0 * sizeof(T *) : 1));
  for (int64_t i = 0; i < n0; i++) t[i] = array<T>((std::string(n) + std::to_string(i)).c_str(), n1, lo, hi);
  return t;
}
template <typename T> T **ragged(const char *n, int64_t n0, int *rows, int64_t lo = tmin<T>(), int64_t hi = tmax<T>()) {
  T **t = (T **)track(malloc(n0 ? n0 * sizeof(T *) : 1));
  for (int64_t i = 0; i < n0; i++) t[i] = array<T>((std::string(n) + std::to_string(i)).c_str(), rows[i], lo, hi);
  return t;
}
template <typename T> T ***celldat(const char *n, int64_t ncell, int64_t ncomp, int *rows, int64_t lo = tmin<T>(), int64_t hi = tmax<T>()) {
  T ***t = (T ***)track(malloc(ncell ? ncell * sizeof(T **) : 1));
  for (int64_t i = 0; i < ncell; i++) {
    t[i] = (T **)track(malloc(ncomp ? ncomp * sizeof(T *) : 1));
    for (int64_t j = 0; j < ncomp; j++) t[i][j] = array<T>((std::string(n) + std::to_string(i) + "_" + std::to_string(j)).c_str(), rows[i], lo, hi);
  }
  return t;
}
template <typename T> T ****datptrs(const char *n, int64_t ndat, int64_t ncell, int *ncomp, int *rows, int64_t lo = tmin<T>(), int64_t hi = tmax<T>()) {
  T ****t = (T ****)track(malloc(ndat ? ndat * sizeof(T ***) : 1));
  for (int64_t i = 0; i < ndat; i++) t[i] = celldat<T>((std::string(n) + std::to_string(i)).c_str(), ncell, ncomp[i], rows, lo, hi);
  return t;
}
template <typename T> int64_t sum(const T *p, int64_t n) { int64_t s = 0; for (int64_t i = 0; i < n; i++) s += p[i]; return s; }
inline bool near(double a, double b, double tol = 1e-9) { return std::abs(a - b) <= tol * (1.0 + std::max(std::abs(a), std::abs(b))); }
inline bool leq(double a, double b, double tol = 1e-9) { return a <= b + tol * (1.0 + std::max(std::abs(a), std::abs(b))); }
#define NPV_FORALL(k, lo, hi) for (int64_t k = (lo), k##_e = (hi); k < k##_e; k++)
// a contract over the real functions called in its body: proved for all values
// of the npv::sym/array inputs, and run on `runs` sampled inputs
#define NPV_PROVE(name, runs) static void vc_##name(); static ::npv::reg reg_vc_##name({"vc_" #name, &vc_##name, runs, 1, true}); static void vc_##name()
// bounded stand-in: run on sampled inputs, on 1..maxranks MPI ranks, under every schedule
#define NPV_BOUNDED(name, runs, maxranks) static void nt_##name(); static ::npv::reg reg_nt_##name({"nt_" #name, &nt_##name, runs, maxranks, false}); static void nt_##name()
} // namespace npv
#endif
namespace npv {
// non-owning shared_ptr to harness-built objects
template <typename T> inline std::shared_ptr<T> raw(T *p) { return std::shared_ptr<T>(std::shared_ptr<void>(), p); }
// zeroed storage for an object of the real type whose constructor is not run
template <typename T> struct storage {
  alignas(T) char b[sizeof(T)];
  storage() { memset(b, 0, sizeof(b)); }
  T *get() { return reinterpret_cast<T *>(b); }
};
}
