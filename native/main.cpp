// Driver of the executable build: runs registered harnesses on sampled inputs.
//   prog list
//   prog run <name> <seed0> <count> [name=value ...]
#include <mpi.h>
#include <npv.hpp>
#include <set>
#include <fcntl.h>
#include <unistd.h>
#include <iostream>
namespace sycl::npv { void reset_run(uint64_t seed); }
namespace npv {
std::vector<harness> &registry() { static std::vector<harness> r; return r; }
std::mt19937_64 &rng() { static std::mt19937_64 r; return r; }
static std::string trace;
static std::map<std::string, int64_t> force;
static std::vector<void *> mem;
static std::map<std::string, long> reach;
void note(const char *n, const std::string &v) { if (trace.size() < 4000) trace += std::string(n) + "=" + v + " "; }
bool forced(const char *n, int64_t &v) { auto it = force.find(n); if (it == force.end()) return false; v = it->second; return true; }
void *track(void *p) { mem.push_back(p); return p; }
void reached(const char *l) { reach[l]++; }
static const char *cur = ""; static long cur_seed = 0; static int world = 1, rank = 0;
[[noreturn]] static void report(const std::string &what) {
  printf("NPV-FAIL %s seed=%ld ranks=%d rank=%d what=%s | %s\n", cur, cur_seed, world, rank, what.c_str(), trace.c_str());
  fflush(stdout);
  if (world > 1) MPI_Abort(MPI_COMM_WORLD, 3);
  _exit(3);
}
[[noreturn]] void fail(const char *label, const char *file, int line) { report(std::string(label) + " (" + file + ":" + std::to_string(line) + ")"); }
static bool expect = false;
void expect_asserts(bool b) { expect = b; }
void neso_assert_failed(const char *e, const char *f, int l) {
  if (expect) throw asserted{};
  report(std::string("library assertion fired: ") + e + " (" + f + ":" + std::to_string(l) + ")");
}
} // namespace npv
using namespace npv;
int main(int argc, char **argv) {
  if (argc > 1 && !strcmp(argv[1], "list")) {
    for (auto &h : registry()) printf("%s %d %d %d\n", h.name, h.runs, h.maxranks, (int)h.proved);
    return 0;
  }
  if (argc < 5) return 2;
  int prov;
  MPI_Init_thread(&argc, &argv, MPI_THREAD_FUNNELED, &prov);
  MPI_Comm_size(MPI_COMM_WORLD, &world);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  const harness *h = nullptr;
  for (auto &x : registry()) if (!strcmp(x.name, argv[2])) h = &x;
  if (!h) return 2;
  const long s0 = atol(argv[3]), n = atol(argv[4]);
  for (int i = 5; i < argc; i++) { char *e = strchr(argv[i], '='); if (e) { *e = 0; force[argv[i]] = atoll(e + 1); } }
  int pf = -1;
  if (const char *p = getenv("NPV_PROGRESS")) { std::string q = std::string(p) + "." + std::to_string(rank); pf = open(q.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600); }
  cur = h->name;
  long ok = 0, disc = 0;
  std::set<std::string> distinct; std::vector<std::string> samples;
  for (long s = s0; s < s0 + n; s++) {
    cur_seed = s; trace.clear(); expect = false;
    rng().seed((uint64_t)s * 0x9E3779B97F4A7C15ull + 12345); rng()();
    sycl::npv::reset_run(s);
    if (pf >= 0) { char b[64]; int k = snprintf(b, 64, "%-30ld", s); if (pwrite(pf, b, k, 0)) {} }
    try { h->fn(); ok++; if (distinct.insert(trace).second && samples.size() < 3) samples.push_back(trace); }
    catch (const discard_t &) { disc++; }
    catch (const asserted &) { report("library assertion escaped"); }
    catch (const std::exception &e) { report(std::string("exception ") + e.what()); }
    for (void *p : mem) free(p);
    mem.clear();
  }
  if (rank == 0) {
    printf("NPV-OK %s runs=%ld discarded=%ld distinct=%zu", h->name, ok, disc, distinct.size());
    for (auto &r : reach) printf(" reach:%s=%ld", r.first.c_str(), r.second);
    printf("\n");
    for (auto &x : samples) printf("NPV-SAMPLE %s\n", x.substr(0, 600).c_str());
  }
  fflush(stdout);
  MPI_Finalize();
  _exit(0);
}
