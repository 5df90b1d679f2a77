// Executable semantics behind shim/sycl/sycl.hpp (replay and bounded runs only).
#include <sycl/sycl.hpp>
#include <cstdio>
#include <deque>
#include <map>
#include <random>
#include <ucontext.h>
#include <unordered_map>

namespace sycl::npv {
long cfg(const char *name, long dflt) {
  const char *v = getenv(name);
  return v ? atol(v) : dflt;
}
namespace {
long sched() { static long s = cfg("NPV_SCHED", 0); return s; }
std::mt19937_64 &rng() { static std::mt19937_64 r(cfg("NPV_SEED", 1)); return r; }
struct Task { std::function<void()> f; std::vector<int> deps; };
std::map<int, Task> pending;
int next_id = 0;
void run_task(int id) {
  auto it = pending.find(id);
  if (it == pending.end()) return;
  Task t = std::move(it->second);
  pending.erase(it);
  for (int d : t.deps) run_task(d);
  t.f();
}
} // namespace
void wait_all();
void reset_run(uint64_t seed) { wait_all(); rng().seed(seed * 7919 + cfg("NPV_SEED", 1)); }
// 0: eager; 1: lazy (run at wait, submission order); 2: lazy, reverse order;
// 3: lazy, random order and random early execution
int add_task(std::function<void()> f, const std::vector<int> &deps) {
  const int id = next_id++;
  if (sched() == 0) { f(); return id; }
  pending[id] = Task{std::move(f), deps};
  if (sched() == 3)
    while (!pending.empty() && (rng()() % 3 == 0)) {
      auto it = pending.begin();
      std::advance(it, rng()() % pending.size());
      run_task(it->first);
    }
  return id;
}
void wait(int id) {
  if (sched() == 3)
    while (pending.size() > 1 && (rng()() % 2 == 0)) {
      auto it = pending.begin();
      std::advance(it, rng()() % pending.size());
      run_task(it->first);
    }
  run_task(id);
}
void wait_all() {
  while (!pending.empty()) {
    auto it = pending.begin();
    if (sched() == 2) it = std::prev(pending.end());
    if (sched() == 3) std::advance(it, rng()() % pending.size());
    run_task(it->first);
  }
}
void *usm_alloc(size_t n, size_t align) {
  if (align < 64) align = 64;
  const size_t m = (n + align - 1) / align * align;
  // exact-size allocations under ASan: fresh memory has arbitrary content
  void *p = cfg("NPV_EXACT", 1) ? malloc(n ? n : 1) : aligned_alloc(align, m ? m : align);
  if (align > 16 && cfg("NPV_EXACT", 1)) { ::free(p); void *q = nullptr; if (posix_memalign(&q, align, n ? n : 1)) return nullptr; p = q; }
  if (p) memset(p, 0xA5, n);
  return p;
}
void usm_free(void *p) {
  // work that may still touch the allocation is a defect of the caller: a free
  // does not wait.  Under lazy schedules ASan reports the later access.
  ::free(p);
}
GroupCtx *&cur_group() { static GroupCtx *g = nullptr; return g; }

namespace {
struct Fiber { ucontext_t c; std::vector<char> stack; bool done = false; };
struct Pool { std::deque<Fiber> f; ucontext_t main; size_t cur = 0; const std::function<void(size_t)> *fn = nullptr; std::vector<std::vector<char>> exch; bool active = false; size_t n = 0; };
Pool pool;
void tramp() {
  const size_t i = pool.cur;
  (*pool.fn)(i);
  pool.f[i].done = true;
  swapcontext(&pool.f[i].c, &pool.main);
}
} // namespace
void barrier() {
  if (!pool.active) return; // plain parallel_for: no barrier possible
  swapcontext(&pool.f[pool.cur].c, &pool.main);
}
void run_group(size_t n, const std::function<void(size_t)> &f) {
  if (pool.active) { fprintf(stderr, "npv: nested group\n"); abort(); }
  while (pool.f.size() < n) { pool.f.emplace_back(); pool.f.back().stack.resize(256 * 1024); }
  pool.fn = &f; pool.active = true; pool.n = n;
  for (size_t i = 0; i < n; i++) {
    auto &x = pool.f[i];
    x.done = false;
    getcontext(&x.c);
    x.c.uc_stack.ss_sp = x.stack.data();
    x.c.uc_stack.ss_size = x.stack.size();
    x.c.uc_link = nullptr;
    makecontext(&x.c, tramp, 0);
  }
  size_t left = n;
  while (left) {
    size_t ndone = 0;
    const size_t off = n > 1 ? order_seed(n) : 0;
    for (size_t q = 0; q < n; q++) {
      const size_t i = (q + off) % n;
      if (pool.f[i].done) continue;
      pool.cur = i;
      swapcontext(&pool.main, &pool.f[i].c);
      if (pool.f[i].done) { left--; ndone++; }
    }
    if (ndone && left) {
      // some items finished while others wait at a barrier they will never join
      bool all_were_alive = ndone == n;
      (void)all_were_alive;
    }
  }
  pool.active = false;
}
void *group_exchange(size_t me, const void *v, size_t sz) {
  static std::vector<char> tab;
  barrier();
  if (tab.size() < (pool.n ? pool.n : 1) * sz) tab.resize(pool.n * sz);
  memcpy(tab.data() + me * sz, v, sz);
  barrier();
  return tab.data();
}
size_t order_seed(size_t n) { return (sched() == 3 && n > 1) ? rng()() % n : 0; }
size_t item_order(size_t n, size_t i, size_t seed) {
  const long s = sched();
  if (s == 2) return n - 1 - i;
  if (s == 3) return (i + seed) % n;
  return i;
}
} // namespace sycl::npv
